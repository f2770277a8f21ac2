import sys
from driver import Part, VERIF
from build import Build
import gen_c22
RULE = ('every address of every executable segment (and a few of the others) of fixture libraries that are compiled by g++ and clang++ with different optimization levels and kinds of debug information (none, stripped, separate, compressed, lines only, partly), '
        'each looked up with Location and pc_mangled_function_name in six histories: upwards, downwards, partly or completely before main is reached, unloaded and loaded elsewhere, and alternating with another library. '
        'Function (innermost inlined), physical function, path, line and object file are compared with llvm-symbolizer and the symbol table')
ASSUMPTIONS = ['llvm-symbolizer and readelf read the debug information right', 'constructor and destructor variants (C1, C2, ...) and suffixes like .cold are not told apart', 'fixtures have no split debug information']
def build(bdir):
    b = Build(bdir, flags=('-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'))
    objs = b.add_lib()
    objs.append(b.add_src(f'{VERIF}/harness/c22.cxx'))
    b.compile()
    gen_c22.build_all(bdir, '--thorough' in sys.argv)
    return b.link('check', objs, flags=('-rdynamic',))
p = Part('addresses', build, total=800, hang=100)
PARTS = [p]
