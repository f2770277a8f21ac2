"""Fixture libraries for C22 and what an independent reader of the debug information (llvm-symbolizer) and of the symbol table says about every address of them."""
import concurrent.futures, json, os, re, subprocess
from build import run, VERIF, BuildError
F = f'{VERIF}/harness/c22'

def out(cmd, inp=None):
    p = subprocess.run(cmd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode: raise BuildError(' '.join(cmd) + '\n' + p.stderr[:2000])
    return p.stdout

def variants(thorough):
    v = []
    for cxx in ('g++', 'clang++'):
        for o in ('-O0', '-O1', '-O2', '-Os') + (('-O3', '-Og') if thorough else ()):
            for d in ('-gdwarf-4', '-gdwarf-5') + (('-gdwarf-3', '-gdwarf-2') if thorough else ()):
                v.append((f'{cxx}{o}{d}', cxx, [o, d], [], '', None))
        for o in ('-O0', '-O2'):
            n = f'{cxx}{o}'
            v += [(n + '-sections', cxx, [o, '-g', '-ffunction-sections'], ['-Wl,--gc-sections', '-Wl,-u,fx_use_derived', '-Wl,-u,fx_tmpl_b'], '', None),
                  (n + '-base', cxx, [o, '-g'], ['-Wl,-Ttext-segment=0x400000'], '', None),
                  (n + '-compressed', cxx, [o, '-g', '-gz'], [], '', None),
                  (n + '-g1', cxx, [o, '-g1'] if cxx == 'g++' else [o, '-g', '-gz=zstd'], [], '', None),  # clang -g1 has no linkage names.
                  (n + '-noseparate', cxx, [o, '-g'], ['-Wl,-z,noseparate-code'], '', None),
                  (n + '-lto', cxx, [o, '-g', '-flto'] if cxx == 'g++' else [o, '-g', '-fdebug-types-section'], [], '', None),
                  (n + '-debuglink', cxx, [o, '-g'], [], 'debuglink', None),
                  (n + '-noline', cxx, [o, '-g'], [], 'strip-debug', None),
                  (n + '-stripped', cxx, [o, '-g'], [], 'strip', None),
                  (n + '-partly', cxx, [o, '-g'], [], '', '-g0')]
    return v

def build_one(bdir, v):
    name, cxx, cf, lf, post, bflags = v
    d = f'{bdir}/fix/{name}'
    os.makedirs(d, exist_ok=True)
    cc = 'gcc' if cxx == 'g++' else 'clang'
    so = f'{d}/libfix.so'
    for src, c in (('fix_a.cxx', cxx), ('fix_b.cxx', cxx), ('fix_c.c', cc)):
        f = [x for x in cf if x != '-flto'] if src == 'fix_c.c' else cf
        extra = [bflags] if bflags and src == 'fix_b.cxx' else []
        std = ['-std=c++20'] if c == cxx else []
        run([c, '-w', '-fPIC', *std, *f, *extra, '-c', f'{F}/{src}', '-o', f'{d}/{src}.o'])
    run([cxx, '-shared', *[x for x in cf if x.startswith(('-O', '-flto', '-g'))], *lf, '-o', so, f'{d}/fix_a.cxx.o', f'{d}/fix_b.cxx.o', f'{d}/fix_c.c.o'])
    full = f'{d}/full.so'
    run(['objcopy', '--wildcard', '-N', '*', so, full])       # llvm-symbolizer prefers the names of the symbol table.
    if post == 'debuglink':
        run(['objcopy', '--only-keep-debug', so, f'{d}/libfix.so.debug'])
        run(['objcopy', '--strip-debug', f'--add-gnu-debuglink={d}/libfix.so.debug', so])
    elif post == 'strip-debug': run(['strip', '--strip-debug', so])
    elif post == 'strip': run(['strip', '--strip-all', so])
    oracle(so, full, f'{d}/oracle', post)
    return f'{d}/libfix.so'

def norm(n):
    n = n.split('.')[0]
    return re.sub(r'([CD])[0-9](E|I)', r'\1x\2', n)

def oracle(so, full, dst, post):
    # Executable segments.
    segs = []
    for l in out(['readelf', '-lW', so]).splitlines():
        w = l.split()
        if w and w[0] == 'LOAD': segs.append((int(w[2], 16), int(w[2], 16) + int(w[5], 16), 'E' in w[6:-1]))
    syms = []
    for l in out(['readelf', '-sW', so]).splitlines():
        w = l.split()
        if len(w) >= 8 and w[3] in ('FUNC', 'IFUNC') and w[6] != 'UND' and int(w[2], 0) > 0:
            syms.append((int(w[1], 16), int(w[1], 16) + int(w[2], 0), w[7].split('@')[0]))
    addrs = [a for s, e, x in segs if x for a in range(s, e)]
    dwarf = post not in ('strip-debug', 'strip')
    frames = {}
    if dwarf:
        o = out(['llvm-symbolizer', f'--obj={full}', '--no-demangle', '--inlines', '--functions=linkage', '--output-style=JSON', '--no-debuginfod'] , '\n'.join(hex(a) for a in addrs) + '\n')
        for l in o.splitlines():
            j = json.loads(l)
            frames[int(j['Address'], 16)] = j.get('Symbol', [])
    subs = subprograms(full) if dwarf else []
    lines = []
    for a in addrs:
        elf = sorted({norm(n) for s, e, n in syms if s <= a < e})
        in_dwarf = any(s <= a < e for s, e in subs)
        fr = frames.get(a, [])
        if in_dwarf:
            if not fr: raise BuildError(f'{full}: llvm-symbolizer has nothing for {a:#x}')
            f = fr[0]
            lines.append((a, 'D', ','.join(sorted({norm(f['FunctionName']), *(elf if len(fr) == 1 else ())})), f['FileName'], f['Line'], ','.join(sorted({norm(fr[-1]['FunctionName']), *elf}))))
        elif elf:
            lines.append((a, 'E', ','.join(elf), '', 0, ''))
        else:
            lines.append((a, 'N', '', '', 0, ''))
    # Run-length encode.
    with open(dst, 'w') as f:
        i = 0
        while i < len(lines):
            j = i
            while j < len(lines) and lines[j][1:] == lines[i][1:] and lines[j][0] == lines[i][0] + j - i: j += 1
            l = lines[i]
            e = ','.join(sorted({norm(n) for s, e, n in syms if s <= l[0] < e})) if l[1] == 'D' else ''
            f.write('\t'.join(map(str, (l[0], lines[j - 1][0] + 1, l[1], l[2] or '-', l[3] or '-', l[4], l[5] or '-'))) + '\n')
            i = j
        for s, e, x in segs:
            if not x:
                for a in sorted({s, (s + e) // 2, e - 1}): f.write(f'{a}\t{a + 1}\tN\t-\t-\t0\t-\n')

def subprograms(so):
    """Ranges of concrete subprograms, from llvm-dwarfdump."""
    r = []
    tag = None
    in_ranges = False
    for l in out(['llvm-dwarfdump', '--debug-info', so]).splitlines():
        m = re.match(r'0x[0-9a-f]+:\s+(DW_TAG_\w+)', l)
        if m:
            tag = m.group(1)
            lo = None
            in_ranges = False
            continue
        if tag != 'DW_TAG_subprogram': continue
        m = re.match(r'\s+DW_AT_low_pc\s+\((0x[0-9a-f]+)\)', l)
        if m: lo = int(m.group(1), 16)
        m = re.match(r'\s+DW_AT_high_pc\s+\((0x[0-9a-f]+)\)', l)
        if m and lo is not None: r.append((lo, int(m.group(1), 16)))
        for m in re.finditer(r'\[(0x[0-9a-f]+), (0x[0-9a-f]+)\)', l): r.append((int(m.group(1), 16), int(m.group(2), 16)))
    return r

def build_all(bdir, thorough):
    vs = variants(thorough)
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        sos = list(ex.map(lambda v: build_one(bdir, v), vs))
    with open(f'{bdir}/fixtures', 'w') as f:
        for v in vs: f.write(v[0] + '\t' + f'{bdir}/fix/{v[0]}/libfix.so' + '\n')
    return sos

if __name__ == '__main__':
    import sys
    os.makedirs(sys.argv[1], exist_ok=True)
    build_all(sys.argv[1], False)
