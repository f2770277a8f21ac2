import os, re, subprocess
from driver import Part, VERIF
from build import Build, REPO, run
RULE = ('programs linked with the library, in which translation units with global objects use it in constructors and destructors in thirteen ways (output, leaving things on, channels, locations, demangling and type information, a second debug object, another stream, threads (from main and destructors), dlopen, a fatal message, '
        'the list of channels, utilities, statements without switching anything on): one such unit in all orders of construction of it and the five units of the library that have globals; every ordered pair of them at all positions in two (thorough: all) orders of the library; every ordered triple of them at two (thorough: four) positions. '
        'All output until the end of the process and how it ends are compared')
ASSUMPTIONS = ['no thread is created before all globals are constructed (tutorial 6)', 'the destructors are called in the opposite order of the constructors', 'globals of the standard library are constructed before all others', 'initialize() is called before the first use of libcw_do, other than in Dout, that precedes its construction', 'a channel or debug object of the user is not used before its own constructor']
KINDS = 'ABCDEFGHIJKLM'
def build(bdir):
    san = ('-fsanitize=address,undefined', '-fno-sanitize-recover=undefined')
    b = Build(bdir, flags=())
    fx = f'{bdir}/fixtures'
    os.makedirs(fx)
    main = b.add_src(f'{VERIF}/harness/c26.cxx')
    objs = b.add_lib(flags=san)
    order = [b.add_src(f'{VERIF}/harness/c26/fix.cxx', name=f'fix{i}', flags=(*san, f'-DKIND={i}')) for i in range(len(KINDS) + 1)]
    b.compile()
    open(f'{fx}/lib.cxx', 'w').write('extern "C" int fn_of_lib() { return 1; }\n')
    run(['g++', '-g', '-O0', '-fPIC', '-shared', f'{fx}/lib.cxx', '-o', f'{fx}/libvxl.so'])
    # The addresses of the constructors are in the file when it is not position independent.
    run(['g++', '-pthread', '-no-pie', '-rdynamic', *san, '-o', f'{fx}/order', *objs, *order, '-ldw', '-lelf', '-ldl'])
    # Which entry of .init_array belongs to which translation unit?
    out = run(['readelf', '-SW', f'{fx}/order'])
    m = re.search(r'\.init_array\s+INIT_ARRAY\s+([0-9a-f]+)\s+([0-9a-f]+)\s+([0-9a-f]+)', out)
    addr, off, size = (int(x, 16) for x in m.groups())
    d = open(f'{fx}/order', 'rb').read()[off:off + size]
    entries = [int.from_bytes(d[i:i + 8], 'little') for i in range(0, size, 8)]
    sym = {int(l.split()[0], 16): l.split()[2] for l in run(['nm', f'{fx}/order']).split('\n') if '_GLOBAL__sub_I' in l or ' _ZL5order' in l}
    own = [i for i, e in enumerate(entries) if 'order' in sym.get(e, '')]
    index = ''
    assert len(own) == 1, 'no constructor to put the others in order'
    tail = entries[own[0] + 1:]
    # frame_dummy is not one of a translation unit.
    tail = [(own[0] + 1 + i, e) for i, e in enumerate(tail) if e in sym]
    per_obj = []
    for o in objs + order:
        s = run(['nm', o])
        if '_GLOBAL__sub_I' in s: per_obj.append(o)
    assert len(per_obj) == len(tail), f'{len(per_obj)} translation units with globals, but {len(tail)} constructors'
    # They are in the order of linking.
    for (i, e), o in zip(tail, per_obj):
        name = os.path.basename(o)[:-2]
        k = re.match(r'fix(\d+)$', name)
        if k: name = f'user-{KINDS[int(k.group(1)) - 1]}' if k.group(1) != '0' else 'main'
        index += f'{chr(65 + i)} {name}\n'
    open(f'{fx}/index', 'w').write(index)
    # The channels of the library itself.
    out = subprocess.run([f'{fx}/order', '', '-', f'{fx}/libvxl.so', ''], capture_output=True, text=True, env={'LIBCWD_NO_STARTUP_MSGS': '1', 'ASAN_OPTIONS': 'detect_leaks=0', 'HOME': fx}, timeout=60)
    m = re.search(r'channels (.*)', out.stderr)
    labels = set(m.group(1).split() if m else []) - {'C_ONE', 'C_TWO', 'M'} | {'DEBUG', 'NOTICE', 'SYSTEM', 'WARNING+', 'ELFUTILS'}
    open(f'{fx}/channels', 'w').write('\n'.join(sorted(labels)))
    return b.link('check', [main])
PARTS = [Part('orders', build, hang=60)]
