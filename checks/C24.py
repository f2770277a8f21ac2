import os, subprocess
from driver import Part, VERIF, WRAP
from build import Build
RULE = 'two threads with every pair of twelve programs of look-ups (location, inlined function, function name, data, library without debug information) and dlopen and dlclose of libraries (also of one that opens another in its constructor), and three threads with the triples of five of them (quick: of at most five steps); for each of them every schedule with up to 2 (three threads, and quick: the longest pairs: 1; thorough: one more) preemptions, with data race detection, where the use of one libdw handle by two threads at a time counts as a race'
ASSUMPTIONS = ['sequentially consistent memory; memory orders only count for the detection of data races', 'the dynamic loader itself is correct and serialises opening and closing', 'libdw handles are not safe for concurrent use, as its documentation says; other libdw and libelf handles than those of dwarf_begin are private to a thread', 'a library is not closed while one of its addresses is looked up', 'stand-in for the missing threadsafe submodule']
SRC = {
  'a': ('int data_a = 1;\nextern "C" __attribute__((always_inline)) inline int inl_a(int x)\n{ data_a = x; return x * data_a; }\nextern "C" int fn_a(int x)\n{\n  data_a = 7;\n  return inl_a(x) + 1; }\n', ('-g',)),
  'b': ('int data_b = 1;\n\nextern "C" __attribute__((always_inline)) inline int inl_b(int x)\n{ data_b = x; return x * data_b; }\nextern "C" int fn_b(int x)\n{\n  data_b = 7;\n  return inl_b(x) + 1; }\n', ('-g',)),
  'e': ('#include <dlfcn.h>\n#include <string>\nint data_e = 1;\nstatic void* h;\nextern "C" __attribute__((always_inline)) inline int inl_e(int x)\n{ data_e = x; return x * data_e; }\nextern "C" int fn_e(int x)\n{\n  data_e = 7;\n  return inl_e(x) + 1; }\n'
        'static std::string path() { Dl_info i; dladdr((void*)&fn_e, &i); std::string s = i.dli_fname; return s.substr(0, s.rfind(\'/\')) + "/libvxa.so"; }\n'
        '__attribute__((constructor)) static void ini() { h = dlopen(path().c_str(), RTLD_NOW); }\n__attribute__((destructor)) static void fin() { dlclose(h); }\n', ('-g',)),
  'n': ('int data_n = 1;\nextern "C" int fn_n(int x)\n{\n  data_n = 7;\n  return x + data_n; }\n', ('-g0',)),
  'w': ('int data_w = 1;\nextern "C" int fn_w(int x)\n{\n  data_w = 7;\n  return x + data_w; }\n', ('-g0',)),
  'x': ('long pad_x[3] = {1, 2, 3}; int data_x = 1;\nextern "C" __attribute__((always_inline)) inline int inl_x(int x)\n{ data_x = x; return x * data_x; }\nextern "C" int fn_x(int x)\n{\n  data_x = 7;\n  return inl_x(x) + 1; }\n', ('-g',)),
}
def fixtures(d):
    os.makedirs(d, exist_ok=True)
    index, last = '', ''
    for n, (src, opts) in SRC.items():
        c, so = f'fix_{n}.cxx', f'{d}/libvx{n}.so'
        open(f'{d}/{c}', 'w').write(src)
        subprocess.run(['g++', '-O0', '-fPIC', '-shared', c, '-o', so, *opts], check=True, capture_output=True, cwd=d)
        syms = {l.split()[2]: l.split()[0] for l in subprocess.run(['nm', so], check=True, capture_output=True, text=True).stdout.split('\n') if len(l.split()) == 3}
        fn = int(syms[f'fn_{n}'], 16)
        lines = src.split('\n')
        no = lambda t: next(i for i, l in enumerate(lines, 1) if t in l)
        body, inl = no('  data_') , (no('{ data_') if n not in 'nw' else 0)
        # The addresses come from the line table, the expected lines from the source.
        out = subprocess.run(['objdump', '--dwarf=decodedline', so], check=True, capture_output=True, text=True).stdout if n not in 'nw' else ''
        at = {}
        for l in out.split('\n'):
            w = l.split()
            if len(w) >= 3 and w[0] == c and w[1].isdigit() and w[2].startswith('0x'):
                a = int(w[2], 16)
                if a >= fn: at.setdefault(int(w[1]), a)
        a_fn = at[body] if n not in 'nw' else fn
        a_inl = at[inl] if n not in 'nw' else fn
        line = f'{n} {a_fn:x} {a_inl:x} {syms["data_" + n]} {body} {inl}\n'
        if n == 'w': last = line
        else: index += line
    open(f'{d}/index', 'w').write(index + last)
LIBDW = ['dwarf_begin', 'dwarf_end', 'dwarf_nextcu', 'dwarf_offdie', 'dwarf_getfuncs', 'dwarf_ranges', 'dwarf_diecu', 'dwarf_getscopes', 'dwarf_haspc', 'dwarf_tag', 'dwarf_child', 'dwarf_siblingof', 'dwarf_attr_integrate', 'dwarf_diename', 'dwarf_getsrc_die', 'dwarf_formstring']
def build(bdir):
    b = Build(bdir, flags=('-fsanitize=thread', '--param=tsan-instrument-func-entry-exit=0', '-DVX_MC', f'-I{VERIF}/mc'))
    objs = b.add_lib()
    objs.append(b.add_src(f'{VERIF}/harness/c24.cxx'))
    objs.append(b.add_src(f'{VERIF}/mc/mcrt.cxx', base=False, flags=('-O2', '-fno-builtin-malloc')))
    objs.append(b.add_src(f'{VERIF}/mc/libdw_mc.cxx', base=False, flags=('-O2',)))
    b.compile()
    fixtures(f'{bdir}/fixtures')
    return b.link('check', objs, flags=('-rdynamic', '-Wl,-z,now', *['-Wl,--wrap=' + w for w in WRAP + LIBDW]))
PARTS = [Part('schedules', build, hang=700, total=800, queue=True)]
