"""Families about register allocation: many values alive at once, spilled operands, values kept after their use, fixed registers."""
import random
from .lang import *
from .gen import *
from .gen_flow import N

SCAL = INTS + FPS


def okconv(a, b):
    return not (isinstance(a, Fp) and isinstance(b, Int))


def store(f, name, t, e):
    return ex(Asg(f.glob(name, t), e))


def operations(s, t):
    """All binary operators on operands of types s and t."""
    fp = isinstance(s, Fp) or isinstance(t, Fp)
    for op in ['+', '-', '*', '/'] + ([] if fp else ['%', '&', '|', '^', '<<', '>>']) + CMP:
        if op in '/%' and not fp and usual(promote(s), promote(t)).bits == 64 and False:
            continue
        yield op


def keep(tier='quick'):
    """The operands of an operation are used again after it."""
    out = []
    for s in SCAL:
        f = Fam('kept-operands-' + short(s))
        out.append(f)
        a = v('a', s)
        for t in SCAL:
            if t is not s and tier == 'quick' and (INTS + FPS).index(t) % 3 != (INTS + FPS).index(s) % 3:
                continue
            b = v('b', t)
            for op in operations(s, t):
                e = Bin(op, a, b)
                f.add(VOID, [('a', s), ('b', t)], [('decl', 'r', e.ty, e), store(f, 'r_' + short(e.ty), e.ty, v('r', e.ty)), store(f, 'k1_' + short(s), s, a), store(f, 'k2_' + short(t), t, b)], '%s %s %s, then both operands' % (s, op, t))
                if t is s:
                    f.add(e.ty, [('a', s), ('b', t)], [('decl', 'r', e.ty, e), store(f, 'k1_' + short(s), s, a), store(f, 'k2_' + short(t), t, b), ret(v('r', e.ty))], '%s %s %s, both operands, then the result' % (s, op, t))
        for t in SCAL:
            if not okconv(s, t):
                b = Cond(Bin('&&', Bin('>=', a, Num(0.0, s)), Bin('<', a, Num(100.0, s))), Cast(t, a), Num(0, t)) if t.bits > 1 else None
            else:
                b = Cast(t, a)
            f.add(VOID, [('a', s)], [('decl', 'r', t, b), store(f, 'r_' + short(t), t, v('r', t)), store(f, 'k_' + short(s), s, a)], '(%s) %s, then the operand' % (t, s))
            f.add(VOID, [('a', s)], [('decl', 'r', t, b), store(f, 'k_' + short(s), s, a), store(f, 'r_' + short(t), t, v('r', t))], '(%s) %s, the operand, then the result' % (t, s))
        for op in ('-', '!') + (() if isinstance(s, Fp) else ('~',)):
            e = Un(op, a)
            f.add(VOID, [('a', s)], [('decl', 'r', e.ty, e), store(f, 'r_' + short(e.ty), e.ty, v('r', e.ty)), store(f, 'k_' + short(s), s, a)], '%s %s, then the operand' % (op, s))
            f.add(VOID, [('a', s)], [('decl', 'r', e.ty, e), store(f, 'k_' + short(s), s, a), store(f, 'r_' + short(e.ty), e.ty, v('r', e.ty))], '%s %s, the operand, then the result' % (op, s))
    return out


def is_const(e):
    return isinstance(e, Num) or isinstance(e, (Un, Cast)) and is_const(e.e) or isinstance(e, Bin) and is_const(e.a) and is_const(e.b)


class Press:
    """Fillers: values that are loaded before and stored after the code in the middle."""
    def __init__(self, f, ni, nf):
        self.f = f
        self.ni, self.nf = ni, nf
        self.src = f.glob('fi', Arr(LONG, 20))
        self.dst = f.glob('fo', Arr(LONG, 20))
        self.fsrc = f.glob('ffi', Arr(DOUBLE, 20))
        self.fdst = f.glob('ffo', Arr(DOUBLE, 20))

    def before(self):
        return [('decl', 'x%d' % i, LONG, Index(self.src, N(i))) for i in range(self.ni)] + [('decl', 'y%d' % i, DOUBLE, Index(self.fsrc, N(i))) for i in range(self.nf)]

    def after(self):
        return [ex(Asg(Index(self.dst, N(i)), v('x%d' % i, LONG))) for i in range(self.ni)] + [ex(Asg(Index(self.fdst, N(i)), v('y%d' % i, DOUBLE))) for i in range(self.nf)]


def spilled(tier='quick'):
    """Operations while so many values are alive that operands and results are spilled."""
    out = []
    for s in SCAL:
        f = Fam('spilled-' + short(s))
        out.append(f)
        P = Press(f, 14, 15)
        a = v('a', s)
        for t in SCAL:
            if t is not s and (tier == 'quick' or isinstance(s, Fp) != isinstance(t, Fp)):
                continue
            b = v('b', t)
            for op in operations(s, t):
                e = Bin(op, a, b)
                f.add(VOID, [('a', s), ('b', t)], P.before() + [('decl', 'r', e.ty, e)] + P.after() + [store(f, 'r_' + short(e.ty), e.ty, v('r', e.ty)), store(f, 'k1_' + short(s), s, a), store(f, 'k2_' + short(t), t, b)], '%s %s %s under pressure' % (s, op, t))
                if op in CMP:
                    f.add(INT, [('a', s), ('b', t)], P.before() + [('if', e, P.after(), None), ret(N(1))], 'if %s %s %s under pressure' % (s, op, t))
            if not isinstance(s, Fp):
                for op in ('+', '-', '*', '/', '%', '<<', '>>', '&'):
                    for c in (3, 10):
                        e = Bin(op, a, N(c))
                        f.add(VOID, [('a', s)], P.before() + [('decl', 'r', e.ty, e)] + P.after() + [store(f, 'r_' + short(e.ty), e.ty, v('r', e.ty)), store(f, 'k1_' + short(s), s, a)], '%s %s %d under pressure' % (s, op, c))
        for t in SCAL:
            b = Cast(t, a) if okconv(s, t) else Cond(Bin('&&', Bin('>=', a, Num(0.0, s)), Bin('<', a, Num(100.0, s))), Cast(t, a), Num(0, t))
            f.add(VOID, [('a', s)], P.before() + [('decl', 'r', t, b)] + P.after() + [store(f, 'r_' + short(t), t, v('r', t)), store(f, 'k_' + short(s), s, a)], '(%s) %s under pressure' % (t, s))
        for op in ('-', '!') + (() if isinstance(s, Fp) else ('~',)):
            e = Un(op, a)
            f.add(VOID, [('a', s)], P.before() + [('decl', 'r', e.ty, e)] + P.after() + [store(f, 'r_' + short(e.ty), e.ty, v('r', e.ty)), store(f, 'k_' + short(s), s, a)], '%s %s under pressure' % (op, s))
        # memory
        p = v('p', Ptr(s))
        f.add(VOID, [('p', Ptr(s)), ('i', LONG)], P.before() + [('decl', 'r', s, Index(p, v('i', LONG)))] + P.after() + [store(f, 'r_' + short(s), s, v('r', s))], 'p[i] of %s under pressure' % s)
        f.add(VOID, [('p', Ptr(s)), ('i', INT), ('a', s)], P.before() + [ex(Asg(Index(p, v('i', INT)), a))] + P.after() + [store(f, 'k_' + short(s), s, a)], 'p[i] = %s under pressure' % s)
        e = f.ext('e_' + short(s), Fn(s, [s, s, INT]))
        f.add(s, [('a', s), ('b', s), ('i', INT)], P.before() + [('decl', 'r', s, Call(e, [a, v('b', s), v('i', INT)]))] + P.after() + [store(f, 'k_' + short(s), s, a), ret(v('r', s))], 'call with %s under pressure' % s)
    return out


class Mix:
    """Random straight line functions over many variables of all types."""
    def __init__(self, rng, f, types, pcall):
        self.r, self.f, self.types, self.pcall = rng, f, types, pcall
        self.es = []
        for k in range(5):
            ts = [rng.choice(types) for _ in range(rng.randrange(0, 5))]
            self.es.append(f.ext('e%d' % k, Fn(rng.choice(types + [VOID]), ts)))

    def conv(self, x, t):
        if x.ty is t:
            return x
        if not okconv(x.ty, t):
            return None
        return Cast(t, x) if self.r.random() < .5 else x

    def pick(self, t=None, strict=False):
        r = self.r
        c = [x for x in self.pool if t is None or x.ty is t or not strict and okconv(x.ty, t)]
        if not c or r.random() < .06:
            t = t or r.choice(self.types)
            return Num(r.choice([0.5, 2.0, -1.5]), t) if isinstance(t, Fp) else Num(r.choice([0, 1, 2, 7, 100]), t)
        return r.choice(c)

    def expr(self, d):
        r = self.r
        k = r.random()
        if d == 0 or k < .15:
            return self.pick()
        a = self.expr(d - 1)
        if k < .25 and is_arith(a.ty):
            return Un(r.choice('-~') if isinstance(a.ty, Int) else '-', a)
        if k < .35:
            t = r.choice(self.types)
            return Cast(t, a) if okconv(a.ty, t) else a
        b = self.expr(d - 1)
        fp = isinstance(a.ty, Fp) or isinstance(b.ty, Fp)
        if k < .45:
            return Bin(r.choice(CMP), a, b)
        if fp:
            # a constant zero as a factor is a known finding (E02)
            return Bin(r.choice('+-' if is_const(a) or is_const(b) else '+-*+-'), a, b)
        if k < .5:
            return Bin(r.choice(['<<', '>>']), a, Num(r.randrange(8)))
        if k < .56:
            return Bin(r.choice('/%'), a, Num(r.choice([3, 7, 10])))
        if k < .6:
            # a variable shift count
            return Bin(r.choice(['<<', '>>']), a, Bin('&', b, Num(7)))
        return Bin(r.choice('+-&|^+-'), a, b)

    def function(self, nv, ns, tag):
        r = self.r
        ps = [('a%d' % i, r.choice(self.types)) for i in range(r.randrange(2, 9))]
        self.pool = [v(*p) for p in ps]
        body, decls = [], []
        for j in range(nv):
            t = r.choice(self.types)
            e = None
            while e is None or not okconv(e.ty, t):
                e = self.expr(r.choice([1, 1, 2]))
            decls.append(('decl', 'l%d' % j, t, e))
            self.pool.append(v('l%d' % j, t))
        for j in range(ns):
            k = r.random()
            if k < self.pcall:
                e = r.choice(self.es)
                args = [self.pick(t) for t in e.ty.params]
                c = Call(e, args)
                lv = [x for x in self.pool if e.ty.ret is not VOID and okconv(e.ty.ret, x.ty)]
                body.append(ex(Asg(r.choice(lv), c)) if lv else ex(c))
            else:
                x = r.choice(self.pool)
                e = self.expr(r.choice([1, 2, 2]))
                if not okconv(e.ty, x.ty):
                    continue
                body.append(ex(Asg(x, e, '' if isinstance(x.ty, Fp) != isinstance(e.ty, Fp) or r.random() < .6 else '+')))
        # every variable is observed
        order = list(self.pool)
        r.shuffle(order)
        last = order.pop()
        fin = [store(self.f, 'o_%s_%s' % (x.name, short(x.ty)), x.ty, x) for x in order]
        self.f.add(last.ty, ps, decls + body + fin + [ret(last)], tag)


def mixed(tier='quick', seed=1):
    out = []
    sets = [[LONG, INT], INTS, [DOUBLE, FLOAT], [INT, LONG, DOUBLE], SCAL, [LDOUBLE, DOUBLE, INT], [UINT, ULONG, UCHAR, USHORT, SHORT]]
    for rep in range(1 if tier == 'quick' else 8):
        for k, types in enumerate(sets):
            rng = random.Random(seed * 7919 + k + 100 * rep)
            f = Fam('mixed-%d' % (k + rep * len(sets)))
            f.chunk = 12
            out.append(f)
            M = Mix(rng, f, types, [0, .15, .3][k % 3])
            for i in range(60):
                M.function(rng.choice([2, 5, 9, 14, 18]), rng.randrange(0, 8), 'random %d' % i)
    return out
