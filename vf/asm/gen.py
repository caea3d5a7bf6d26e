"""Families of contract-carrying functions. Every function is compiled by the real compiler; its abstract syntax is its contract."""
import random
from .lang import *
from .spec import classify

ARITH = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>']
CMP = ['==', '!=', '<', '>', '<=', '>=']
LOG = ['&&', '||']


def called_results(x):
    """Result types of all the calls in a body."""
    if isinstance(x, Call):
        return [x.ty] + called_results(list(x.__dict__.values()))
    if isinstance(x, (list, tuple)):
        return [t for y in x for t in called_results(y)]
    if isinstance(x, E):
        return called_results(list(x.__dict__.values()))
    return []


def short(t):
    return {CHAR: 'c', UCHAR: 'uc', SHORT: 's', USHORT: 'us', INT: 'i', UINT: 'ui', LONG: 'l', ULONG: 'ul', FLOAT: 'f', DOUBLE: 'd', LDOUBLE: 'ld'}.get(t, 'x')


class Fam:
    def __init__(self, name):
        self.name, self.prog, self.n = name, Program(), 0

    def add(self, ret, params, body, tag):
        self.n += 1
        f = Func('f%d' % self.n, ret, params, body, tag)
        self.prog.funcs.append(f)
        # listed finding: a struct of one long double is returned in memory
        if any(isinstance(t, Struct) and classify(t) == 'X87' for t in [ret] + called_results(body)):
            self.finding(f, 'x87-struct-return', abi='x87-struct-memory')
        return f

    def finding(self, f, id, body=None, abi=None):
        """A listed finding: the function is known to behave like body instead (or body under another calling convention)."""
        f.known = (id, f.body if body is None else body, abi)

    def ext(self, name, ty):
        self.prog.externs[name] = ty
        return Var(name, ty)

    def glob(self, name, ty):
        self.prog.globals[name] = ty
        return Var(name, ty)

    def struct(self, s):
        self.prog.structs.append(s)
        return s


def v(n, t):
    return Var(n, t)


def ret(e):
    return ('return', e)


def ex(e):
    return ('expr', e)


def consts_for(t, op, rng):
    """Interesting constants of type t as right operands."""
    if isinstance(t, Fp):
        return [Num(x, t) for x in (2.0, -1.5, 0.0, 1.0)]
    w = t.bits
    if op in ('<<', '>>'):
        return [Num(x, t) for x in (0, 1, 5)]
    mx = (1 << (w - 1)) - 1 if t.signed else (1 << w) - 1
    c = [1, 2, 3, 8, 10, 16, mx, mx - 1, (mx >> 1) + 1]
    if t.signed:
        c += [-1, -2, -8, -mx - 1]
    if op in ('/', '%'):
        return [Num(x, t) for x in c]
    return [Num(x, t) for x in c + [0]]


def shiftarg(e, t):
    return e


def mod(fam, f, e):
    """Finding: the remainder of a signed value by a power of two is taken by a mask."""
    if e.op == '%' and e.ty.signed and e.b.v > 1 and not e.b.v & (e.b.v - 1):
        r = Bin('&', e.a, Num(e.b.v - 1, e.b.ty))
        fam.finding(f, 'mod-pow2', [ret(r)] if f.body[0][0] == 'return' else [ex(Asg(e.a, r)), ret(e.a)])


def int_binary(ops, tier='quick'):
    """Every binary operator on every pair of integer types, operands in registers, constants, globals, memory; results used and stored."""
    out = []
    rng = random.Random(1)
    for op in ops:
        f = Fam('int-binary-%s' % op)
        for t in INTS:
            f.glob('g_' + short(t), t)
        for ta in INTS:
            for tb in INTS:
                a, b = v('a', ta), v('b', tb)
                e = Bin(op, a, b)
                tag = '%s %s %s' % (ta, op, tb)
                f.add(e.ty, [('a', ta), ('b', tb)], [ret(e)], tag)
                g = v('g_' + short(tb), tb)
                f.add(e.ty, [('a', ta)], [ret(Bin(op, a, g))], tag + ' global right')
                f.add(e.ty, [('b', tb)], [ret(Bin(op, v('g_' + short(ta), ta), b))], tag + ' global left')
                if op in CMP + LOG:
                    f.add(INT, [('a', ta), ('b', tb)], [('if', e, [ret(Num(7))], [ret(Num(9))])], tag + ' in if')
                    f.add(LONG, [('a', ta), ('b', tb), ('x', LONG), ('y', LONG)], [ret(Cond(e, v('x', LONG), v('y', LONG)))], tag + ' in ?:')
                else:
                    ga = v('g_' + short(ta), ta)
                    f.add(VOID, [('b', tb)], [ex(Asg(ga, b, op))], tag + ' assign to global')
                    f.add(ta, [('a', ta), ('b', tb)], [ex(Asg(a, b, op)), ret(a)], tag + ' assign to local')
                    p = v('p', Ptr(ta))
                    f.add(e.ty, [('p', Ptr(ta)), ('q', Ptr(tb))], [ret(Bin(op, Deref(p), Deref(v('q', Ptr(tb)))))], tag + ' in memory')
                    f.add(ta, [('p', Ptr(ta)), ('b', tb)], [ret(Asg(Deref(p), b, op))], tag + ' assign in memory')
            for tb in (INT, UINT, LONG, ULONG) if tier == 'quick' else INTS:
                cs = consts_for(tb, op, rng)
                for c in cs:
                    if op in ('<<', '>>') and tb is not INT:
                        continue
                    tag = '%s %s %s' % (ta, op, c.c())
                    e = Bin(op, v('a', ta), c)
                    mod(f, f.add(e.ty, [('a', ta)], [ret(e)], tag), e)
                    if op not in CMP + LOG:
                        mod(f, f.add(ta, [('a', ta)], [ex(Asg(v('a', ta), c, op)), ret(v('a', ta))], tag + ' assign'), e)
                    else:
                        f.add(INT, [('a', ta)], [('if', e, [ret(Num(7))], [ret(Num(9))])], tag + ' in if')
                for c in cs[:4] + cs[-3:]:
                    if op in ('<<', '>>'):
                        c = Num(-3 if tb.signed else 5, tb)
                    e = Bin(op, c, v('a', ta))
                    f.add(e.ty, [('a', ta)], [ret(e)], '%s %s %s' % (c.c(), op, ta))
            if op in ('<<', '>>'):
                for n in range(promote(ta).bits):
                    e = Bin(op, v('a', ta), Num(n))
                    f.add(e.ty, [('a', ta)], [ret(e)], '%s %s %d' % (ta, op, n))
                    if n < ta.bits and n % 3 == 0:
                        p = v('p', Ptr(ta))
                        f.add(VOID, [('p', Ptr(ta))], [ex(Asg(Deref(p), Num(n), op))], '%s %s= %d in memory' % (ta, op, n))
            if op in ('*', '/', '%'):
                for k in range(promote(ta).bits - 1):
                    t = promote(ta)
                    c = Num(1 << k, t)
                    e = Bin(op, v('a', ta), c)
                    mod(f, f.add(e.ty, [('a', ta)], [ret(e)], '%s %s 2^%d' % (ta, op, k)), e)
        out.append(f)
    return out


def unary():
    return unary_int() + unary_fp()


def unary_int():
    f = Fam('unary-int')
    for t in INTS:
        g = f.glob('g_' + short(t), t)
        a = v('a', t)
        p = v('p', Ptr(t))
        for op in ('-', '~', '!', '+'):
            e = Un(op, a)
            f.add(e.ty, [('a', t)], [ret(e)], '%s%s' % (op, t))
            f.add(e.ty, [('p', Ptr(t))], [ret(Un(op, Deref(p)))], '%s*%s' % (op, t))
            f.add(t, [('a', t)], [ret(Cast(t, Un(op, Un(op, a))))], '%s%s%s' % (op, op, t))
        for op in ('++', '--'):
            for post in (True, False):
                tag = '%s%s %s' % ('post' if post else 'pre', op, t)
                f.add(t, [('a', t)], [ret(Inc(a, op, post))], tag)
                f.add(LONG, [('a', t)], [('decl', 'b', t, Inc(a, op, post)), ret(Bin('-', Bin('*', v('b', t), Num(3, LONG)), a))], tag + ' and use')
                f.add(t, [], [ret(Inc(g, op, post))], tag + ' global')
                f.add(t, [('p', Ptr(t))], [ret(Inc(Deref(p), op, post))], tag + ' memory')
                f.add(t, [('p', Ptr(t)), ('i', INT)], [ret(Inc(Index(p, v('i', INT)), op, post))], tag + ' element')
        f.add(INT, [('a', t)], [('if', a, [ret(Num(1))], None), ret(Num(2))], 'if (%s)' % t)
        f.add(INT, [('a', t)], [('if', Un('!', a), [ret(Num(1))], None), ret(Num(2))], 'if (!%s)' % t)
        f.add(LONG, [('a', t), ('x', LONG), ('y', LONG)], [ret(Cond(a, v('x', LONG), v('y', LONG)))], '%s ?:' % t)
    return [f]


def unary_fp():
    f = Fam('unary-fp')
    for t in FPS:
        g = f.glob('g_' + short(t), t)
        a, p = v('a', t), v('p', Ptr(t))
        f.add(INT, [('a', t)], [ret(Un('!', a))], '!%s' % t)
        f.add(t, [('a', t)], [ret(Un('+', a))], '+%s' % t)
        f.add(t, [('a', t)], [ret(Un('-', a))], '-%s' % t)
        f.add(t, [('p', Ptr(t))], [ret(Un('-', Deref(p)))], '-*%s' % t)
        f.add(INT, [('a', t)], [('if', a, [ret(Num(1))], None), ret(Num(2))], 'if (%s)' % t)
        f.add(INT, [('a', t)], [('if', Un('!', a), [ret(Num(1))], None), ret(Num(2))], 'if (!%s)' % t)
        for op in ('++', '--'):
            for post in (True, False):
                tag = '%s%s %s' % ('post' if post else 'pre', op, t)
                f.add(t, [('a', t)], [ret(Inc(a, op, post))], tag)
                f.add(t, [], [ret(Inc(g, op, post))], tag + ' global')
                f.add(t, [('p', Ptr(t))], [ret(Inc(Deref(p), op, post))], tag + ' memory')
    return [f]


def casts_int():
    return casts('int')


def casts_fp():
    return casts('fp')


def casts_const_int():
    return casts_const('int')


def casts_const_fp():
    return casts_const('fp')


def only(which, a, b):
    i = isinstance(a, Int) and isinstance(b, Int)
    return which == 'all' or i == (which == 'int')


def casts(which='all'):
    f = Fam('casts-' + which)
    T = INTS + FPS
    for t in T:
        f.glob('g_' + short(t), t)
        f.glob('h_' + short(t), t)
    for a in T:
        for b in T:
            if not only(which, a, b):
                continue
            x, p = v('a', a), v('p', Ptr(a))
            tag = '%s to %s' % (a, b)
            f.add(b, [('a', a)], [ret(Cast(b, x))], tag)
            f.add(b, [('p', Ptr(a))], [ret(Deref(p))], tag + ' from memory')
            f.add(b, [], [ret(v('g_' + short(a), a))], tag + ' from a global')
            f.add(VOID, [('a', a), ('p', Ptr(b))], [ex(Asg(Deref(v('p', Ptr(b))), x))], tag + ' to memory')
            f.add(VOID, [('a', a)], [ex(Asg(v('h_' + short(b), b), x))], tag + ' to a global')
            f.add(VOID, [], [ex(Asg(v('h_' + short(b), b), v('g_' + short(a), a)))], tag + ' global to global')
            if isinstance(a, Int) and isinstance(b, Int):
                for c in (LONG, UINT, CHAR, USHORT):
                    f.add(c, [('a', a)], [ret(Cast(c, Cast(b, x)))], tag + ' to %s' % c)
    return [f]


def casts_const(which='all'):
    f = Fam('casts-const-' + which)
    for a in INTS:
        for b in INTS + FPS:
            if not only(which, a, b):
                continue
            for c in (0, 1, 100, 127, 128, 200, 255, 32767, 32768, 65535, 2**31 - 1, 2**31, 2**32 - 1, 2**63 - 1, 2**63, 2**64 - 1, -1, -128, -32768, -2**31, -2**63):
                lo, hi = (-(1 << (a.bits - 1)), (1 << (a.bits - 1)) - 1) if a.signed else (0, (1 << a.bits) - 1)
                if lo <= c <= hi:
                    f.add(b, [('x', b)], [ex(Asg(v('x', b), Num(c, a))), ret(v('x', b))], '%s constant %d to %s' % (a, c, b))
    for b in INTS + FPS if which != 'int' else []:
        for c in (0.0, 1.5, 100.25, 0.1, 3.0, 120.99):
            for a in FPS:
                f.add(b, [], [ret(Num(c, a))], '%s constant %s to %s' % (a, c, b))
    return [f]


def fp_binary():
    f = Fam('fp-binary')
    T = INTS + FPS
    for t in T:
        f.glob('g_' + short(t), t)
    for op in ['+', '-', '*', '/'] + CMP + LOG:
        for ta in T:
            for tb in T:
                if isinstance(ta, Int) and isinstance(tb, Int):
                    continue
                a, b = v('a', ta), v('b', tb)
                e = Bin(op, a, b)
                tag = '%s %s %s' % (ta, op, tb)
                f.add(e.ty, [('a', ta), ('b', tb)], [ret(e)], tag)
                both = isinstance(ta, Fp) and isinstance(tb, Fp)
                if both or tb is INT or ta is INT:
                    f.add(e.ty, [('a', ta)], [ret(Bin(op, a, v('g_' + short(tb), tb)))], tag + ' global right')
                    f.add(e.ty, [('b', tb)], [ret(Bin(op, v('g_' + short(ta), ta), b))], tag + ' global left')
                    f.add(e.ty, [('p', Ptr(ta)), ('q', Ptr(tb))], [ret(Bin(op, Deref(v('p', Ptr(ta))), Deref(v('q', Ptr(tb)))))], tag + ' in memory')
                    if op in CMP + LOG:
                        f.add(INT, [('a', ta), ('b', tb)], [('if', e, [ret(Num(7))], [ret(Num(9))])], tag + ' in if')
                        f.add(LONG, [('a', ta), ('b', tb), ('x', LONG), ('y', LONG)], [ret(Cond(e, v('x', LONG), v('y', LONG)))], tag + ' in ?:')
                    else:
                        f.add(VOID, [('b', tb)], [ex(Asg(v('g_' + short(ta), ta), b, op))], tag + ' assign to global')
                        f.add(ta, [('a', ta), ('b', tb)], [ex(Asg(a, b, op)), ret(a)], tag + ' assign to local')
                        f.add(ta, [('p', Ptr(ta)), ('b', tb)], [ret(Asg(Deref(v('p', Ptr(ta))), b, op))], tag + ' assign in memory')
            if isinstance(ta, Fp):
                for c in [Num(2.0, ta), Num(-1.5, ta), Num(1.0, ta), Num(0.1, DOUBLE), Num(3, INT), Num(0.0, ta)]:
                    z = op == '*' and c.v == 0.0
                    e = Bin(op, v('a', ta), c)
                    x = f.add(e.ty, [('a', ta)], [ret(e)], '%s %s %s' % (ta, op, c.c()))
                    e = Bin(op, c, v('a', ta))
                    y = f.add(e.ty, [('a', ta)], [ret(e)], '%s %s %s' % (c.c(), op, ta))
                    if z:
                        f.finding(x, 'fp-mul-zero', [ret(Num(0.0, e.ty))])
                        f.finding(y, 'fp-mul-zero', [ret(Num(0.0, e.ty))])
                    if op in CMP:
                        f.add(INT, [('a', ta)], [('if', Bin(op, v('a', ta), c), [ret(Num(7))], [ret(Num(9))])], '%s %s %s in if' % (ta, op, c.c()))
    return [f]


def const_expr():
    """Operators on constants in expressions (folded by the compiler), including unsigned wrap-around; signed overflow is left out."""
    f = Fam('const-expr')
    vals = {INT: [0, 1, -1, 7, 100, 2**31 - 1, -2**31], UINT: [0, 1, 7, 2**31, 2**32 - 1], LONG: [0, 3, -1, 2**31, 2**32, 2**63 - 1, -2**63], ULONG: [0, 5, 2**32 - 1, 2**63, 2**64 - 1], CHAR: [-3, 5], UCHAR: [200]}
    n = 0
    for ta in vals:
        for tb in vals:
            for a in vals[ta]:
                for b in vals[tb]:
                    for op in ARITH + CMP + LOG:
                        n += 1
                        if n % 3 and op not in ('+', '-', '<', '/'):
                            continue
                        if n % 5 == 0:
                            continue
                        e = Bin(op, Num(a, ta), Num(b, tb))
                        t = usual(promote(ta), promote(tb)) if op not in ('<<', '>>') else promote(ta)
                        lo, hi = (-(1 << (t.bits - 1)), (1 << (t.bits - 1)) - 1) if t.signed else (0, (1 << t.bits) - 1)
                        m = lambda x: x if t.signed else x & hi
                        if op in ('<<', '>>'):
                            if not 0 <= b < t.bits or (op == '<<' and t.signed and (a < 0 or a << b > hi)):
                                continue
                        x, y = m(a), m(b)
                        if op in ('/', '%') and (y == 0 or (t.signed and x == lo and y == -1)):
                            continue
                        if t.signed and op in '+-*':
                            r = {'+': x + y, '-': x - y, '*': x * y}[op]
                            if not lo <= r <= hi:
                                continue
                        f.add(LONG, [], [ret(e)], '%s %s %s' % (Num(a, ta).c(), op, Num(b, tb).c()))
                        if n % 7 == 0:
                            f.add(LONG, [('x', INT)], [('decl', 'y', LONG, v('x', INT)), ret(Bin('^', Bin('+', e, v('y', LONG)), e))], '%s %s %s with x' % (Num(a, ta).c(), op, Num(b, tb).c()))
        for a in vals[ta]:
            for op in '-~!+':
                if op == '-' and promote(ta).signed and a == -(1 << (promote(ta).bits - 1)):
                    continue
                f.add(LONG, [], [ret(Un(op, Num(a, ta)))], '%s%s' % (op, Num(a, ta).c()))
                f.add(LONG, [('x', LONG)], [ret(Bin('&', v('x', LONG), Un(op, Num(a, ta))))], 'x & %s%s' % (op, Num(a, ta).c()))
    return [f]
