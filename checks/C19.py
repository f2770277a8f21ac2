import sys
from driver import Part, VERIF
from build import Build
import gen_c19
RULE = ('all types made of up to 2 type constructors (a part of those of 3; thorough: 3) out of pointer, lvalue and rvalue reference, const, volatile, array, array of unknown bound, pointer to member, function, class template, member of a template, parameter pack '
        'over 46 base types, all combinations of two of them, and types of up to 74 (thorough: 1294) components with references to each of them; each asked by type and by expression, in both orders, twice. The oracle encodes the type independently; its encoding without top-level qualifiers is compared with typeid')
ASSUMPTIONS = ['demangled names are compared for the encodings that the demangler supports (C18)']
def part(thorough):
    def build(bdir):
        SAN = ('-fsanitize=address,undefined', '-fno-sanitize-recover=undefined')
        b = Build(bdir, flags=(), opt='-O0')
        objs = b.add_lib(flags=('-O1', *SAN))
        fs, n = gen_c19.write(bdir, 32, thorough)
        objs += [b.add_src(f, flags=('-g0',)) for f in fs] + [b.add_src(f'{VERIF}/harness/c19.cxx', flags=('-O1', *SAN))]
        b.compile()
        return b.link('check', objs, flags=SAN)
    return Part('types', build)
PARTS = [part('--thorough' in sys.argv)]
