import concurrent.futures, json, sys
from driver import Part, VERIF
from build import Build, BuildError, run, REPO
import gen_c28
RULE = ('all statements of up to two (with a Dout and a Debug, thorough: any macro, three) nested contexts out of 13 (blocks, if with and without else, loops, switch, lambda, try, goto) with every debug macro in the hole, compiled with nodebug.h, under all values of the conditions: '
        'trace of side effects, exit status and standard error compared with the same statement without the macro; machine code compared byte for byte at two optimisation levels of two compilers')
ASSUMPTIONS = ['only nodebug.h is included; <iostream> and <cstdlib> are included before it, as documented']
def part(thorough):
    p = None
    def build(bdir):
        b = Build(bdir, flags=(), opt='-O0')
        fs, n, m = gen_c28.write(bdir, thorough)
        inc = [f'-I{bdir}/only', f'-I{VERIF}/harness']
        import os, shutil
        os.makedirs(f'{bdir}/only')
        shutil.copy(f'{REPO}/nodebug.h', f'{bdir}/only')
        objs, jobs = [], []
        def compile(js):
            try:
                for j in js: run(j)
            except BuildError as e:
                # What is used with nodebug.h has to compile: say so in the table.
                name = os.path.basename(js[0][-1])
                if name.startswith('nd'):
                    with open(f'{bdir}/{name}.failed.cxx', 'w') as f:
                        f.write(f'#include "c28.h"\nEntry {name[:3]}[] = {{ {{ nullptr, {json.dumps(str(e)[:1500])}, 0 }} }};\n')
                    run(['g++', '-std=c++20', '-O0', '-w', *inc, '-c', f'{bdir}/{name}.failed.cxx', '-o', js[0][-1]])
                elif not name.startswith('code_nd'): raise
        for f in fs + [f'{VERIF}/harness/c28.cxx']:
            o = f'{bdir}/{os.path.basename(f)}.o'
            jobs.append([['g++', '-std=c++20', '-O0', '-w', *inc, '-c', f, '-o', o]])
            objs.append(o)
        for cxx in ('g++', 'clang++'):
            for opt in ('-O0', '-O2'):
                for n in ('code_nd', 'code_ref'):
                    o = f'{bdir}/{n}.{cxx}{opt}'
                    jobs.append([[cxx, '-std=c++20', opt, '-w', *inc, '-c', f'{bdir}/{n}.cxx', '-o', o + '.o'], ['objcopy', '-O', 'binary', '--only-section=.text', o + '.o', o + '.bin']])
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            list(ex.map(compile, jobs))
        p.env['VX_CODE'] = bdir
        return b.link('check', objs)
    p = Part('statements', build)
    return p
PARTS = [part('--thorough' in sys.argv)]
