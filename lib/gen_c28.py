"""Generates all statements of up to three nested contexts with a debug macro in the hole."""
import itertools, os
# H is the hole, N a unique number (of a trace event / condition).
CONTEXTS = ['{ H; t(N); }', 'if (c(N)) H; else t(N);', 'if (c(N)) t(N); else H;', 'if (c(N)) H; t(N);', 'for (int i = 0; i < 2; ++i) H;', 'while (w(N)) H;', 'do H; while (w(N));',
            'switch (c(N)) { case 0: H; break; case 1: H; default: t(N); }', '[&]{ t(N); H; }();', 'try { H; throw 1; } catch (int) { t(N); }', 'if (c(N)) if (c(N1)) H; else t(N);', 'for (;;) { H; if (!w(N)) break; }', 'L##N: H; if (w(N)) goto L##N;']
# (what is written, what the code must be equivalent to)
MACROS = ['Dout(dc::notice, "x" << t(900))', 'Dout(dc::a|flush_cf|continued_cf, undeclared_thing << f<1, 2>(3) << t(901))', 'Debug(t(902))', 'Debug(int q = t(903), r; undeclared(q, r); if (q) { } else t(904))',
          'ForAllDebugChannels(while(!debugChannel.is_on()) debugChannel.on())', 'ForAllDebugObjects(t(905); debugObject.off())', 'LibcwDebug(ns::channels, t(906), t(907))', 'LibcwDout(ns::channels, obj[t(908)], dc::x, "a", t(909))',
          'LibcwdForAllDebugChannels(ns::channels, t(910))', 'LibcwdForAllDebugObjects(ns::channels, t(911); return)', 'Debug(return)', 'LibcwDout(std,, undeclared, t(913))', 'Dout(dc::finish, "")', 'Dout(dc::warning|cond_error_cf(t(912)), ({ return; 1; }))']
FATAL = [('DoutFatal(dc::fatal, "msg" << 3 << t(950))', 'FATAL("msg" << 3 << t(950))'),
         ('DoutFatal(dc::core|error_cf, std::hex << 255 << \' \' << std::pair<int, int>(1, t(951)).second)', 'FATAL(std::hex << 255 << \' \' << std::pair<int, int>(1, t(951)).second)'),
         ('LibcwDoutFatal(ns::channels, obj[t(952)], dc::fatal, "one\\ntwo" << std::endl << t(953))', 'FATAL("one\\ntwo" << std::endl << t(953))'),
         ('DoutFatal(undeclared(t(954)), "")', 'FATAL("")'),
         ('LibcwDoutFatal(std,, dc::fatal|undeclared, true << t(955))', 'FATAL(true << t(955))')]

def compose(ctxs, k=[0]):
    """Nested statement with the hole left in, and its number of conditions."""
    s = 'H;'
    n = 0
    for c in reversed(ctxs):
        c = c.replace('N1', str(10 * n + 5)).replace('##N', str(n)).replace('N', str(10 * n + 1))
        # A nested statement instead of `H;'.
        if s != 'H;': c = c.replace('H; else', 'H else').replace('H;', 'H').replace('H', '{ ' + s + ' }')
        s = c
        n += 1
    return s

def functions(depth):
    for d in range(0, depth + 1):
        for ctxs in itertools.product(CONTEXTS, repeat=d):
            if ctxs.count(CONTEXTS[-1]) > 1 or (CONTEXTS[-1] in ctxs and any('switch' in c or '[&]' in c for c in ctxs)): continue     # A label can not be defined twice.
            yield ctxs

def write(d, thorough):
    files = []
    N = 8
    allf = []
    for depth_ctxs in functions(3):
        n = len(depth_ctxs)
        if n == 3 and not thorough: ms = [0, 10]
        else: ms = range(len(MACROS))
        for m in ms: allf.append((compose(depth_ctxs), MACROS[m], '', 0))
        if n <= 2 or thorough:
            for a, b in FATAL: allf.append((compose(depth_ctxs), a, b, 1))
    def emit(name, head, use_ref, sub, tab):
        with open(f'{d}/{name}', 'w') as f:
            f.write(head)
            for i, (s, a, b, fatal) in sub:
                h = s.replace('H;', b + ';' if use_ref and b else ';' if use_ref else a + ';')
                f.write(f'static void f{i}() {{ {h} }}\n')
            f.write(f'Entry {tab}[] = {{\n')
            for i, (s, a, b, fatal) in sub:
                txt = s.replace('H;', a + ';').replace('\\', '\\\\').replace('"', '\\"')
                f.write(f'  {{ f{i}, "{txt}", {fatal} }},\n')
            f.write('  { nullptr, nullptr, 0 } };\n')
    for k in range(N):
        sub = list(enumerate(allf))[k::N]
        emit(f'nd{k}.cxx', '#include "c28.h"\n#include "nodebug.h"\n', False, sub, f'nd{k}')
        emit(f'ref{k}.cxx', '#include "c28.h"\n#define FATAL(...) fatal_ref([&](std::ostream& o) { o << __VA_ARGS__; })\n', True, sub, f'ref{k}')
        files += [f'{d}/nd{k}.cxx', f'{d}/ref{k}.cxx']
    # The same code without a table, to compare what is generated.
    for name, ref in (('code_nd.cxx', False), ('code_ref.cxx', True)):
        with open(f'{d}/{name}', 'w') as f:
            f.write('int t(int); int c(int); int w(int);\n' + ('' if ref else '#include "nodebug.h"\n'))
            i = 0
            for ctxs in functions(2):
                for m in MACROS:
                    f.write(f'void f{i}() {{ {compose(ctxs).replace("H;", ";" if ref else m + ";")} }}\n')
                    i += 1
    return files, len(allf), i

if __name__ == '__main__':
    import sys
    os.makedirs(sys.argv[1], exist_ok=True)
    print(write(sys.argv[1], False)[1:])
