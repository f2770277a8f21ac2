import concurrent.futures, json, os, sys
from driver import Part, VERIF
from build import Build, BuildError, run
import gen_c31
RULE = ('all statements of up to two (thorough: three) nested contexts out of 18 (blocks, if with and without else, loops, switch, lambda, generic lambda, destructor, if constexpr, try, goto) with every debug macro in the hole, of an application and of a library with a debug object and channels of their own, compiled with CWDEBUG, '
        'under all values of the conditions and of the switches of the debug objects and channels: the trace of side effects and messages is compared with that of the same statement with functions instead of macros; variables around the statement have the names that the macros could use')
ASSUMPTIONS = ['the expression that selects the debug object has no side effects', 'control does not leave a message half way its arguments', 'layout of the lines is C02']
GROUPS = 16
def part(thorough):
    def build(bdir):
        b = Build(bdir, flags=())
        objs = b.add_lib()
        fs, n = gen_c31.write(bdir, thorough, GROUPS)
        objs.append(b.add_src(f'{VERIF}/harness/c31.cxx'))
        b.compile()
        inc = [*b.inc(), f'-I{VERIF}/harness']
        def compile(f):
            name = os.path.basename(f)[:-4]
            cmd = ['g++', '-std=c++20', '-O0', '-w', '-DCWDEBUG', *inc, '-c', f, '-o', f'{bdir}/{name}.o']
            try:
                run(cmd)
            except BuildError as e:
                # What is used as documented has to compile: say so in the table.
                if name.startswith('ref'): raise
                with open(f'{bdir}/{name}.failed.cxx', 'w') as o:
                    o.write(f'#include "c31.h"\nEntry {name}[] = {{ {{ nullptr, {json.dumps(str(e)[:1500])}, 0 }} }};\n')
                cmd[-3] = f'{bdir}/{name}.failed.cxx'
                run(cmd)
            return f'{bdir}/{name}.o'
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            objs += list(ex.map(compile, fs))
        return b.link('check', objs)
    return Part('statements', build)
PARTS = [part('--thorough' in sys.argv)]
