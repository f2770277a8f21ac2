import os
from driver import Part, VERIF
from build import Build, run
RULE = ('programs linked with the library in two orders, started with LIBCWD_NO_STARTUP_MSGS and LIBCWD_PRINT_LOADING set and not set, eight limits of the core size, eight ways in which a global is the first to use the library, and every history of up to 3 (with loading printed: 4; thorough: 5) operations from main '
        '(dlopen and dlclose of two libraries of which one depends on the other, of nothing and of a file that does not exist, a lookup, the debug object and ELFUTILS on and off): everything that is written is compared with the documented warning and with the objects that the dynamic loader reports; '
        'and main_reached() for all 512 configurations of the library, and all major, minor and patch versions')
ASSUMPTIONS = ['the environment variables are set to a non-empty value or not at all', 'one thread']
SAN = ('-fsanitize=address,undefined', '-fno-sanitize-recover=undefined')
def build(bdir):
    b = Build(bdir, flags=())
    fx = f'{bdir}/fixtures'
    os.makedirs(fx)
    objs = b.add_lib(flags=SAN)
    fix = b.add_src(f'{VERIF}/harness/c30/fix.cxx', flags=SAN)
    mine = [b.add_src(f'{VERIF}/harness/c30.cxx', flags=SAN), b.add_src(f'{VERIF}/harness/c30/sig.cxx', flags=SAN)]
    b.compile()
    open(f'{fx}/b.cxx', 'w').write('extern "C" int fn_of_b() { return 1; }\n')
    open(f'{fx}/a.cxx', 'w').write('extern "C" int fn_of_b(); extern "C" int fn_of_a() { return fn_of_b(); }\n')
    run(['g++', '-g', '-O0', '-fPIC', '-shared', f'{fx}/b.cxx', '-o', f'{fx}/libvxsb.so'])
    run(['g++', '-g', '-O0', '-fPIC', '-shared', f'{fx}/a.cxx', '-o', f'{fx}/libvxsa.so', f'-L{fx}', '-lvxsb', f'-Wl,-rpath,{fx}'])
    for name, o in (('early', [fix, *objs]), ('late', [*objs, fix])):
        run(['g++', '-pthread', '-rdynamic', *SAN, '-o', f'{fx}/{name}', *o, '-ldw', '-lelf', '-ldl'])
    return b.link('check', objs + mine, flags=SAN)
PARTS = [Part('start', build, hang=60, env={'ASAN_EXTRA': 'disable_coredump=0'})]
