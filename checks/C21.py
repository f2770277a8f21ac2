import os, re, subprocess
from driver import Part, VERIF
from build import Build
RULE = ('every history of up to 2 operations (thorough: 3) out of dlopen with five combinations of flags, dlclose, failing dlopen and dlopen(NULL) of eight libraries (plain, depending on others, not removable in two ways, opening another in its constructor, linked with the program), up to 3 (thorough: 4) with fewer flags (and other combinations of flags for two libraries), '
        'and up to 6 (thorough: 8) with fewer libraries; an address in the code and one in the data of each library, wherever it was ever loaded, are looked up after each operation or only at the end, and compared with what the dynamic loader reports; and the return values, and errno after a lookup')
ASSUMPTIONS = ['dl_iterate_phdr reports the loaded objects', 'handles are not used after they are closed']
SRC = {
  'a': ('int data_a = 1;\nextern "C" int fn_a(int x)\n{ return x + data_a; }\n', ()),
  'b': ('extern "C" int fn_a(int); int data_b = 1;\nextern "C" int fn_b(int x)\n{ return fn_a(x) + data_b; }\n', ('a',)),
  'c': ('int data_c = 1;\n\nextern "C" int fn_c(int x)\n{ return x + data_c; }\n', ('-Wl,-z,nodelete',)),
  'd': ('template <class T> struct U { static int u; }; template <class T> int U<T>::u = 3; int data_d = 1;\n\nextern "C" int fn_d(int x)\n\n{ return x + data_d + U<int>::u; }\n', ()),
  'e': ('#include <dlfcn.h>\n#include <string>\nint data_e = 1;\nstatic void* h;\nextern "C" int fn_e(int x)\n{ return x + data_e; }\n'
        'static std::string path() { Dl_info i; dladdr((void*)&fn_e, &i); std::string s = i.dli_fname; return s.substr(0, s.rfind(\'/\')) + "/libvxa.so"; }\n'
        '__attribute__((constructor)) static void ini() { h = dlopen(path().c_str(), RTLD_NOW); }\n__attribute__((destructor)) static void fin() { dlclose(h); }\n', ()),
  'l': ('int data_l = 1;\n\n\n\nextern "C" int fn_l(int x)\n{ return x + data_l; }\n', ()),
  'm': ('extern "C" int fn_l(int); extern "C" int fn_b(int); int data_m = 1;\nextern "C" int fn_m(int x)\n{ return fn_l(x) + fn_b(x) + data_m; }\n', ('l', 'b')),
  'x': ('long pad_x[3] = {1, 2, 3}; int data_x = 1;\nint other(int x) { return x * 2 + 7; }\n\n\nextern "C" int fn_x(int x)\n{ return other(x) + data_x; }\n', ()),
}
def fixtures(d):
    os.makedirs(d, exist_ok=True)
    index = ''
    for n, (src, opts) in SRC.items():
        c = f'{d}/fix_{n}.cxx'
        open(c, 'w').write(src)
        ln = next(i for i, l in enumerate(src.split('\n'), 1) if l.startswith('{ return'))
        cmd = ['g++', '-g', '-O0', '-fPIC', '-shared', c, '-o', f'{d}/libvx{n}.so', f'-L{d}', '-Wl,-rpath,$ORIGIN', '-Wl,--no-as-needed', '-nostartfiles' if n != 'e' else '-g']
        cmd += [o if o.startswith('-') else f'-lvx{o}' for o in opts]
        subprocess.run(cmd, check=True, capture_output=True)
        syms = {l.split()[2]: l.split()[0] for l in subprocess.run(['nm', f'{d}/libvx{n}.so'], check=True, capture_output=True, text=True).stdout.split('\n') if len(l.split()) == 3}
        # The line of the brace is the first address; + 1 is still on it.
        first = next(i for i, l in enumerate(src.split('\n'), 1) if f'int fn_{n}(int x)' in l and 'extern "C" int fn_' + n in l)
        index += f'{n} {syms["fn_" + n]} {syms["data_" + n]} {ln}\n'
    open(f'{d}/index', 'w').write(index)
def build(bdir):
    fx = f'{bdir}/fixtures'
    b = Build(bdir, flags=('-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'))
    objs = b.add_lib()
    objs.append(b.add_src(f'{VERIF}/harness/c21.cxx'))
    b.compile()
    fixtures(fx)
    return b.link('check', objs, flags=('-rdynamic', f'-L{fx}', '-Wl,--no-as-needed', '-lvxl', f'-Wl,-rpath,{fx}'))
PARTS = [Part('history', build, total=800, hang=100)]
