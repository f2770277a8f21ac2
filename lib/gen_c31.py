"""Generates all statements of up to three nested contexts with a debug macro in the hole, and their references."""
import itertools
from gen_c28 import CONTEXTS as C28, compose
# Names that the macros could use.
HYG = 'int on = c(70), off = c(71); NAMES_DECL; '
CONTEXTS = C28 + ['[&](auto n) { t(N + !n); H; }(0);', 'if constexpr (sizeof(int) == 4) H; else t(N);', 'struct S##N { int n; ~S##N() { H; } }; { S##N s{c(N)}; t(s.n); }', 'switch (c(N)) case 1: H;', 'if (int v = c(N); v) H; else { t(N + v); }']
# (as written, reference, what precedes the statement, only in braces)
MACROS = [
    ('Dout(dc::notice, "x" << t(900))', 'REF(0, {NOTICE}, "x" << t(900))', '', 0),
    ('Dout(dc::mine, 1 << 2 << t(901))', 'REF(0, {APP_MINE}, 1 << 2 << t(901))', '', 0),
    ('Dout(dc::warning, "hidden" << t(902))', 'REF(0, {APP_WARNING}, "hidden" << t(902))', '', 0),
    ('LibcwDout(lib::channels, lib::dobj, dc::mine, std::pair<int, int>(1, t(903)).second)', 'REF(1, {LIB_MINE}, std::pair<int, int>(1, t(903)).second)', '', 0),
    ('LibcwDout(lib::channels, ::libcwd::libcw_do, dc::warning, "w" << t(904))', 'REF(0, {WARNING}, "w" << t(904))', '', 0),
    ('Dout(dc::notice|dc::mine, t(905))', 'REF(0, (std::initializer_list<int>{NOTICE, APP_MINE}), t(905))', '', 0),
    ('Dout(dc::mine|cond_error_cf(t(906) && c(60)), "e" << t(907))', 'REFC(0, {APP_MINE}, t(906) && c(60), "e" << t(907))', '', 0),
    ('Dout(dc::notice, on << off << NAMES << t(908))', 'REF(0, {NOTICE}, on << off << NAMES << t(908))', HYG, 0),
    ('Dout(dc::notice|cond_error_cf(NAMES && on), "c" << off << t(909))', 'REFC(0, {NOTICE}, NAMES && on, "c" << off << t(909))', HYG, 0),
    ('LibcwDout(lib::channels, lib::dobj, dc::mine|cond_error_cf(!on), !on << t(910))', 'REFC(1, {LIB_MINE}, !on, !on << t(910))', HYG.replace('int', 'bool'), 0),
    ('Dout(dc::notice, std::hex << 255 << std::setw(6) << std::setfill(\'*\') << nest(911) << true << std::noboolalpha << true)', 'REF(0, {NOTICE}, std::hex << 255 << std::setw(6) << std::setfill(\'*\') << ref_nest(911) << true << std::noboolalpha << true)', '', 0),
    ('MyDout(dc::mine, on << t(937) << NAMES)', 'REF(1, {APP_MINE}, on << t(937) << NAMES)', HYG, 0),
    ('Dout(dc::mine, std::vector<int>{1, t(912)} << Opaque{7})', 'REF(0, {APP_MINE}, (std::vector<int>{1, t(912)}) << Opaque{7})', '', 0),
    ('Dout(dc::notice, "o" << [&] { LibcwDout(lib::channels, lib::dobj, dc::mine, t(935)); Dout(dc::mine, "n" << on << NAMES); return t(936); }() << on)', 'REF(0, {NOTICE}, "o" << [&] { REF(1, {LIB_MINE}, t(935)); REF(0, {APP_MINE}, "n" << on << NAMES); return t(936); }() << on)', HYG, 0),
    ('Debug(t(913))', 't(913)', '', 0),
    ('Debug(int q = t(914), r = on && NAMES; if (q > 1 && r) t(915); else t(916))', '[&]{ int q = t(914), r = on && NAMES; if (q > 1 && r) t(915); else t(916); }()', HYG, 0),
    ('LibcwDebug(lib::channels, t(&dc::mine == &::lib::channels::dc::mine ? 917 : 918), t(919 + NAMES))', 't(917), t(919 + NAMES)', HYG, 0),
    ('Debug(t(&dc::mine == &::app::channels::dc::mine ? 920 : 921))', 't(920)', '', 0),
    ('ForAllDebugChannels(if (&debugChannel == &dc::mine) t(922))', 't(922)', '', 0),
    ('ForAllDebugObjects(if (&debugObject == &::lib::dobj) t(923))', 't(923)', '', 0),
    ('LibcwdForAllDebugChannels(lib::channels, if (&debugChannel == &dc::mine) t(925), t(926 + NAMES))', 't(925), t(926 + NAMES)', HYG, 0),
    ('LibcwdForAllDebugObjects(lib::channels, if (&debugObject == &::lib::dobj && on && NAMES) t(927))', 'on && t(927)', HYG, 0),
    ('DoutEntering(dc::notice, "f(" << t(928) << ")"); nest(929)', 'RefScope s(NOTICE, REF_W("f(" << t(928) << ")")); ref_nest(929)', '', 1),
    ('DoutEntering(dc::mine, on << NAMES); if (on) nest(930)', 'RefScope s(APP_MINE, REF_W(on << NAMES)); if (on) ref_nest(930)', HYG, 1),
    ('if (c(61)) Dout(dc::notice, t(931)); else Dout(dc::mine, t(932))', 'if (c(61)) REF(0, {NOTICE}, t(931)); else REF(0, {APP_MINE}, t(932))', '', 0),
    ('c(62) ? t(933) : [] { Dout(dc::notice, "in an expression"); return t(934); }()', 'c(62) ? t(933) : [] { REF(0, {NOTICE}, "in an expression"); return t(934); }()', '', 0),
]
FATAL = [('DoutFatal(dc::fatal, "msg" << 3 << t(950))', 'ref_fatal(0, REF_W("msg" << 3 << t(950)))', '', 0),
         ('DoutFatal(dc::fatal, on << off << NAMES << Opaque{t(951)})', 'ref_fatal(0, REF_W(on << off << NAMES << Opaque{t(951)}))', HYG, 0),
         ('LibcwDoutFatal(lib::channels, lib::dobj, dc::fatal, std::pair<int, int>(1, t(952)).second)', 'ref_fatal(1, REF_W(std::pair<int, int>(1, t(952)).second))', '', 0)]
def ok(ctxs, pre):
    goto = C28[-1]
    local = any('struct' in c for c in ctxs)
    if ctxs.count(goto) > 1 or (goto in ctxs and any('switch' in c or '[&]' in c or 'struct' in c for c in ctxs)): return False
    if local and any('[&](auto' in c for c in ctxs): return False
    if local and (pre or any('int v' in c for c in ctxs)): return False
    return True
def one(ctxs, text, pre, braces):
    s = compose(ctxs)
    return pre + s.replace('H;', '{ ' + text + '; }' if braces else text + ';')
def write(d, thorough, N):
    progs = []
    for depth in range(4 if thorough else 3):
        for ctxs in itertools.product(CONTEXTS, repeat=depth):
            for k, (a, b, pre, br) in enumerate(MACROS):
                if depth == 3 and k not in (0, 6, 8): continue
                if ok(ctxs, pre): progs.append((one(ctxs, a, pre, br), one(ctxs, b, pre, br), 0))
            if depth <= 1 or (thorough and depth == 2):
                for a, b, pre, br in FATAL:
                    if ok(ctxs, pre): progs.append((one(ctxs, a, pre, br), one(ctxs, b, pre, br), 1))
    files = []
    for k in range(N):
        sub = list(enumerate(progs))[k::N]
        for tab, j in (('real', 0), ('ref', 1)):
            name = f'{d}/{tab}{k}.cxx'
            with open(name, 'w') as f:
                f.write('#include "c31.h"\n')
                for i, p in sub: f.write(f'static void f{i}() {{ {p[j]} }}\n')
                f.write(f'Entry {tab}{k}[] = {{\n')
                for i, p in sub:
                    txt = p[0].replace('\\', '\\\\').replace('"', '\\"')
                    f.write(f'  {{ f{i}, "{txt}", {p[2]} }},\n')
                f.write('  { nullptr, nullptr, 0 } };\n')
            files.append(name)
    return files, len(progs)
if __name__ == '__main__':
    import sys
    print(write(sys.argv[1], len(sys.argv) > 2, 16)[1])
