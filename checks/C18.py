import glob, subprocess
from driver import lib_part, shared, Part, VERIF
from build import Build, run
RULE = ('all sequences of tokens (27 focused token sets, up to 8 tokens; sequences of which no extension is valid are pruned) that form a valid name, compared with an independent value-based demangler; '
        'real literals: all exponents times fractions with up to two (three for denormalized ones) bits set or cleared, neighbours of powers of ten, floats by their upper half; '
        'names with up to 1340 substitution candidates and all references to them, up to 103 template parameters, identifiers up to 1100 characters, nesting up to 12 levels; every symbol of libstdc++ and of libcwd itself. The independent demangler is compared with the one of the compiler on the latter. Distinct outcomes are distinct texts (first 100000 per process)')
ASSUMPTIONS = ['the supported subset: the grammar documented in cwd_demangle.h; valid means valid for the reference demangler, which leaves ill-formed C++ (functions returning functions, values used as types) unspecified',
    'real literals: within one unit of the 17th (8th) significant digit']
ENV = {'VX_CORPUS': f'{VERIF}/harness/c17_corpus.txt'}

def symbols():
    def build(bdir):
        b = Build(bdir, flags=('-O2',))
        objs = b.add_lib()
        objs.append(b.add_src(f'{VERIF}/harness/c17.cxx'))
        b.compile()
        exe = b.link('check', objs)
        std = run(['g++', '-print-file-name=libstdc++.so.6']).strip()
        syms = set()
        for f, d in [(std, ['-D'])] + [(o, []) for o in objs]:
            syms |= {l.split()[-1].split('@')[0] for l in run(['nm', *d, f]).splitlines()}
        part.env['VX_SYMBOLS'] = f'{bdir}/symbols'
        with open(f'{bdir}/symbols', 'w') as f:
            f.write('\n'.join(sorted(s for s in syms if s.startswith('_Z'))) + '\n')
        return exe
    part = Part('emitted', build, args=['--what=emitted'], env=dict(ENV))
    return part

PARTS = shared([lib_part('text', 'c17.cxx', args=['--what=text'], env=ENV, flags=('-O2',), total=840), lib_part('reals', 'c17.cxx', args=['--what=reals'], env=ENV, flags=('-O2',)), lib_part('wide', 'c17.cxx', args=['--what=wide'], env=ENV, flags=('-O2',))]) + [symbols()]
