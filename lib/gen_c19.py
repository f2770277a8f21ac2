"""Generates all C++ types up to a number of type constructors, with the encoding that the Itanium ABI prescribes."""
import itertools, sys

# A type is a tuple; see mangle().
PRE = r'''
struct A { char x[64]; };
class B { friend struct A; char x[3]; B(); };
struct Inc;
enum E { e0 };
enum class EC : char { c0 };
union U { int i; double d; };
struct Abs { virtual void f() = 0; };
namespace ns { struct C { short s; }; namespace in { struct D { char x[5]; }; } template<typename T> struct X { char x[7]; template<typename V> struct Y { char x[9]; }; }; struct Inc; }
template<typename T> struct X { T* t; char c; };
template<typename T, typename V> struct Y { T* t; V* v; int i; };
template<typename... T> struct Z { char x[sizeof...(T) + 1]; };
template<int n> struct I { char x[n < 0 ? 1 : n + 1]; };
template<template<typename> class T> struct TT { char x[11]; };
struct FS { char x[2]; };
struct S { char x[2]; };
struct S_ { char x[4]; };
struct S1_ { char x[4]; };
struct SS { char x[4]; };
struct AS0 { char x[4]; };
struct _ { char x[4]; };
struct a_ { char x[4]; };
struct I0_E { char x[4]; };
struct R { char x[4]; };
struct libcwd_type_info_exact1 { char x[4]; };
namespace { struct Anon { char x[6]; }; }
'''
BUILTIN = {'int': 'i', 'char': 'c', 'bool': 'b', 'double': 'd', 'unsigned long': 'm', 'long double': 'e', 'void': 'v', 'wchar_t': 'w', 'signed char': 'a', 'unsigned char': 'h', 'short': 's', 'unsigned short': 't',
           'unsigned int': 'j', 'long': 'l', 'long long': 'x', 'unsigned long long': 'y', 'float': 'f', '__int128': 'n', 'unsigned __int128': 'o'}
def b(n): return ('b', n)
def c(n): return ('c', tuple(n.split('::')), None)          # A class, enum or union.
def t(n, *args): return ('c', tuple(n.split('::')), tuple(args))
def lit(i): return ('lit', i)

def cv(x, q):
    """q: set of 'KV'. Qualifiers of an array are those of its elements."""
    if x[0] in ('arr',): return ('arr', x[1], cv(x[2], q))
    if x[0] == 'cv': return ('cv', x[1], ''.join(sorted(set(x[2]) | set(q), reverse=True)))
    return ('cv', x, ''.join(sorted(q, reverse=True)))

class Mangler:
    def __init__(self, first=()): self.subs = list(first)
    def seq(self, i):
        if i == 0: return 'S_'
        i -= 1; s = ''
        while True:
            s = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'[i % 36] + s
            i //= 36
            if i == 0: return f'S{s}_'
    def sub(self, key):
        return self.seq(self.subs.index(key)) if key in self.subs else None
    def add(self, key):
        if key not in self.subs: self.subs.append(key)
    def args(self, a):
        r = 'I'
        for x in a:
            if x[0] == 'lit': r += f'Li{"n" if x[1] < 0 else ""}{abs(x[1])}E'
            elif x[0] == 'pack': r += 'J' + ''.join(self(y) for y in x[1]) + 'E'
            elif x[0] == 'tmpl': r += self(('path', x[1]))
            else: r += self(x)
        return r + 'E'
    def prefix(self, path):
        """path: tuple of (name, args or None). Encodes without N E."""
        s = self.sub(('p', path))
        if s: return s
        name, a = path[-1]
        if a is not None:
            r = self.prefix(path[:-1] + ((name, None),)) + self.args(a)
        else:
            id = '12_GLOBAL__N_1' if name == '' else f'{len(name)}{name}'
            if len(path) == 1 and name == 'std': return 'St'
            r = (self.prefix(path[:-1]) if len(path) > 1 else '') + id
        self.add(('p', path))
        return r
    def __call__(self, x):
        if x[0] == 'b': return BUILTIN[x[1]]
        s = self.sub(x if x[0] != 'path' else ('p', x[1]))
        if s: return s
        k = x[0]
        if k == 'path':
            p = x[1]
            if len(p) == 1 or (len(p) == 2 and p[0][0] == 'std'): return self.prefix(p)
            # A nested name: N <prefix> E, where the candidate is the whole.
            name, a = p[-1]
            q = p[:-1] + ((name, None),)
            if a is not None: r = self.prefix(q) + self.args(a)
            else: r = self.prefix(p[:-1]) + ('12_GLOBAL__N_1' if name == '' else f'{len(name)}{name}')
            self.add(('p', p))
            return f'N{r}E'
        if k in ('ptr', 'ref', 'rref'): r = {'ptr': 'P', 'ref': 'R', 'rref': 'O'}[k] + self(x[1])
        elif k == 'cv': r = x[2] + self(x[1])
        elif k == 'arr': r = f'A{x[1]}_' + self(x[2])
        elif k == 'fun': r = 'F' + self(x[1]) + (''.join(self(a) for a in x[2]) or 'v') + 'E'
        elif k == 'mem': r = 'M' + self(x[1]) + self(x[2])
        else: raise ValueError(k)
        self.add(x)
        return r

def strip(x):
    """What typeid ignores."""
    if x[0] in ('ref', 'rref'): x = x[1]
    if x[0] == 'cv': return x[1]
    if x[0] == 'arr': return ('arr', x[1], strip_cv(x[2]))
    return x
def strip_cv(x):
    if x[0] == 'cv': return x[1]
    if x[0] == 'arr': return ('arr', x[1], strip_cv(x[2]))
    return x

def decl(x, d=''):
    """C++ for an abstract declarator of type x."""
    k = x[0]
    if k == 'b': return f'{x[1]} {d}'.rstrip()
    if k == 'path':
        n = '::'.join(name + ('' if a is None else '<' + ', '.join(str(y[1]) if y[0] == 'lit' else '::'.join(z[0] for z in y[1]) if y[0] == 'tmpl' else ', '.join(map(decl, y[1])) if y[0] == 'pack' else decl(y) for y in a) + '>') for name, a in x[1] if name)
        return f'{n} {d}'.rstrip()
    if k == 'cv':
        q = ' '.join({'K': 'const', 'V': 'volatile'}[y] for y in x[2])
        return decl(x[1], f'{q} {d}'.strip() if x[1][0] not in ('b', 'path') else f'{q} {d}')
    if k in ('ptr', 'ref', 'rref'):
        s = {'ptr': '*', 'ref': '&', 'rref': '&&'}[k] + d
        return decl(x[1], f'({s})' if x[1][0] in ('arr', 'fun') else s)
    if k == 'mem':
        s = f'{decl(x[1])}::*{d}'
        return decl(x[2], f'({s})' if x[2][0] in ('arr', 'fun') else f' {s}')
    if k == 'arr': return decl(x[2], f'{d}[{x[1]}]')
    if k == 'fun': return decl(x[1], f'{d}({", ".join(map(decl, x[2]))})')
    raise ValueError(k)

def P(*parts): return ('path', tuple((p, None) if isinstance(p, str) else p for p in parts))

INCOMPLETE = {P('Inc'), P('ns', 'Inc')}
VOID = b('void')
def uncv(x): return x[1] if x[0] == 'cv' else x
def complete(x):
    u = uncv(x)
    return not (u == VOID or u in INCOMPLETE or u[0] == 'fun' or (u[0] == 'arr' and (u[1] == '' or not complete(u[2]))))
def isref(x): return x[0] in ('ref', 'rref')

BASES = [b('int'), VOID, P('A'), P('B'), P('Inc'), P('E'), P('ns', 'C'), P('ns', 'in', 'D'), P('FS'), P('S_'), P(('X', (b('int'),))), P('ns', ('X', (b('int'),)), ('Y', (P('ns', 'C'),))), P('', 'Anon')]
UNARY = ['ptr', 'ref', 'rref', 'K', 'V', 'KV', 'arr', 'arr0', 'mem', 'X', 'Zp', 'fun0', 'fun1', 'nsX']
def unary(op, x):
    """None when ill-formed (or not used)."""
    if op == 'ptr': return None if isref(x) else ('ptr', x)
    if op in ('ref', 'rref'): return None if isref(x) or uncv(x) == VOID else (op, x)
    if op in ('K', 'V', 'KV'):
        if isref(x) or x[0] == 'fun': return None
        y = cv(x, op)
        return None if y == x else y
    if op == 'arr': return ('arr', '3', x) if not isref(x) and complete(x) and uncv(x) != P('Abs') else None
    if op == 'arr0': return ('arr', '', x) if not isref(x) and complete(x) and uncv(x) != P('Abs') else None
    if op == 'mem': return None if isref(x) or uncv(x) == VOID else ('mem', P('A'), x)
    if op == 'X': return None if isref(x) else P(('X', (x,)))
    if op == 'Zp': return P(('Z', (('pack', (x, P('A'), x)),)))
    if op == 'nsX': return P('ns', ('X', (x,)))
    if op == 'fun0': return ('fun', x, ()) if x[0] not in ('arr', 'fun', 'cv') else None
    if op == 'fun1': return ('fun', VOID, (x,)) if x[0] not in ('arr', 'fun', 'cv') and x != VOID else None
    raise ValueError(op)

def binary(x, y):
    if x[0] not in ('arr', 'fun', 'cv') and y[0] not in ('arr', 'fun', 'cv') and y != VOID: yield ('ptr', ('fun', x, (y,)))
    if x[0] not in ('arr', 'fun', 'cv') and y[0] not in ('arr', 'fun', 'cv') and x != VOID and y != VOID: yield ('ptr', ('fun', VOID, (x, y)))
    if not isref(x) and not isref(y): yield P(('Y', (x, y)))
    if x[0] == 'path' and x not in (P('E'),) and not isref(y) and uncv(y) != VOID: yield ('mem', x, y)

def topsize(x):
    """Usable as T of type_info_of<T>()?"""
    return complete(x[1]) if isref(x) else complete(x)

def all_types(thorough):
    seen, order = set(), []
    def put(x):
        if x is not None and x not in seen: seen.add(x); order.append(x)
    for n in BUILTIN: put(b(n))
    for x in BASES: put(x)
    for n in ('EC', 'U', 'Abs', 'S', 'S1_', 'SS', 'AS0', '_', 'a_', 'I0_E', 'R', 'libcwd_type_info_exact1'): put(P(n))
    put(P('ns', 'Inc'))
    for i in (0, 1, -1, 5, 36): put(P(('I', (lit(i),))))
    put(P(('TT', (('tmpl', (('X', None),)),))))
    put(P(('TT', (('tmpl', (('ns', None), ('X', None))),))))
    put(P(('Z', (('pack', ()),))))
    level0 = list(order)
    lvl = level0
    l1 = []
    for x in level0:
        for op in UNARY: l1.append(unary(op, x))
    l1 = [x for x in dict.fromkeys(l1) if x is not None]
    for x in l1: put(x)
    src2 = l1 if thorough else [x for x in l1 if any(y in BASES for y in subtypes(x))]
    l2 = [y for y in dict.fromkeys(unary(op, x) for x in src2 for op in UNARY) if y is not None]
    for x in l2: put(x)
    small = [b('int'), P('A'), P('Inc'), P('ns', 'C'), P('FS'), P(('X', (b('int'),)))]
    src3 = [x for x in l2 if any(y in ((small[1], small[3], small[4], small[5]) if thorough else (small[3], small[4])) for y in subtypes(x))]
    for x in src3:
        for op in (UNARY if thorough else ('ptr', 'ref', 'K', 'arr', 'X', 'fun1')): put(unary(op, x))
    # Two operands.
    pool = [x for x in order if x in BASES or x in (P('S_'), P('S1_'), P('AS0'), P('SS'), P('_'), P('a_'), P('I0_E'), P('S'))]
    pool += [x for x in l1 if x[0] in ('ptr', 'ref', 'cv') or x[0] == 'path' and x[1][-1][0] == 'X']
    pool = list(dict.fromkeys(pool))
    pool = [x for x in pool if any(y in small or (y[0] == 'path' and y[1][0][0] in ('S_', 'S1_', 'AS0', '_', 'S', 'SS')) for y in subtypes(x))]
    for x in pool:
        for y in pool:
            for z in binary(x, y): put(z)
    # Many different components: substitutions of one and two digits, that are one more in the name of the helper.
    for n in (2, 3, 8, 9, 10, 11, 12, 13, 20, 34, 35, 36, 37, 38, 39, 46, 47, 71, 72, 73, 74) + ((300, 600, 1294) if thorough else ()):
        comps = tuple(P(('I', (lit(i),))) for i in range(n - 1))
        for k in sorted({0, 1, 2, 7, 8, 9, 10, 11, 12, 33, 34, 35, 36, 37, 38, 70, 71, 72, n - 3, n - 2}):
            if 0 <= k < n - 1:
                for w in (comps[k], ('ptr', comps[k])):
                    put(P(('Z', (('pack', comps + (w,)),))))
                    put(('ptr', ('fun', VOID, comps + (w,))))
                    put(('ref', cv(P(('Z', (('pack', comps + (w, w)),))), 'K')))
    return [x for x in order if topsize(x)]

def subtypes(x):
    yield x
    for y in x[1:]:
        if isinstance(y, tuple):
            if y and isinstance(y[0], str) and y[0] in ('b', 'path', 'cv', 'ptr', 'ref', 'rref', 'arr', 'fun', 'mem', 'pack'): yield from subtypes(y)
            else:
                for z in y:
                    if isinstance(z, tuple):
                        if z and z[0] in ('b', 'path', 'cv', 'ptr', 'ref', 'rref', 'arr', 'fun', 'mem', 'pack'): yield from subtypes(z)
                        elif len(z) == 2 and z[1]:
                            for q in z[1]:
                                if isinstance(q, tuple): yield from subtypes(q)

def rows(thorough):
    for x in all_types(thorough):
        s = strip(x)
        quals = ''
        y = x
        if isref(y): quals += {'ref': 'R', 'rref': 'O'}[y[0]]; y = y[1]
        if y[0] == 'cv': quals += y[2]
        u = uncv(x)
        rs = f'sizeof({decl(u[1])})' if u[0] == 'ptr' and complete(u[1]) else '0'
        # What an expression of this type tells: T is deduced from `T const&'.
        e = x[1] if isref(x) else x
        e = uncv(e)
        ers = f'sizeof({decl(e[1])})' if e[0] == 'ptr' and complete(e[1]) else '0'
        m = Mangler()(s)
        yield decl(x), quals + Mangler()(uncv(y)), m, rs, ers

def write(outdir, nfiles, thorough):
    all_ = list(rows(thorough))
    fs = []
    for i in range(nfiles):
        n = f'{outdir}/types{i}.cxx'
        with open(n, 'w') as f:
            f.write('#include "c19.h"\n' + PRE + f'void group{i}()\n{{\n')
            part = all_[i::nfiles]
            f.write('\n'.join(f'  row<{d}>("{d}", "{full}", "{st}", {rs}, {ers});' for d, full, st, rs, ers in part))
            f.write('\n}\n')
        fs.append(n)
    return fs, len(all_)

if __name__ == '__main__':
    import os
    os.makedirs(sys.argv[1], exist_ok=True)
    print(write(sys.argv[1], 32, len(sys.argv) > 2)[1])
