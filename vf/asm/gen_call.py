"""Families about calls: where arguments and results are, on the side of the caller and of the callee (System V AMD64)."""
import random
from .lang import *
from .gen import *
from .gen_flow import N

SCAL = INTS + FPS
VP = Ptr(VOID)


def sname(ts):
    return '_'.join('p' if isinstance(t, Ptr) else t.name if isinstance(t, Struct) else short(t) for t in ts) or 'v'


def okconv(a, b):
    return not (isinstance(a, Fp) and isinstance(b, Int))


def conversions():
    """Arguments and results are converted to the types of the prototype."""
    f = Fam('call-conversions')
    for s in SCAL:
        for t in SCAL:
            if not okconv(s, t):
                continue
            e = f.ext('arg_' + short(t), Fn(VOID, [t]))
            f.add(VOID, [('a', s)], [ex(Call(e, [v('a', s)]))], '%s passed as %s' % (s, t))
            g = f.glob('g_' + short(s), s)
            f.add(VOID, [], [ex(Call(e, [g]))], 'global %s passed as %s' % (s, t))
            f.add(VOID, [('p', Ptr(s))], [ex(Call(e, [Deref(v('p', Ptr(s)))]))], '%s in memory passed as %s' % (s, t))
            x = Num(-3 if isinstance(s, Int) and s.signed else 200 if isinstance(s, Int) else -2.5, s)
            f.add(VOID, [], [ex(Call(e, [x]))], '%s constant passed as %s' % (s, t))
            r = f.ext('res_' + short(s), Fn(s, []))
            f.add(t, [], [ret(Call(r, []))], 'result %s returned as %s' % (s, t))
            f.add(VOID, [('p', Ptr(t))], [ex(Asg(Deref(v('p', Ptr(t))), Call(r, [])))], 'result %s stored as %s' % (s, t))
            f.add(t, [('a', s)], [ret(v('a', s))], 'parameter %s returned as %s' % (s, t))
    return [f]


class RandCall:
    def __init__(self, rng, fam, structs=()):
        self.r, self.f, self.structs = rng, fam, list(structs)

    def type(self, void=False, agg=.15):
        r = self.r
        if void and r.random() < .15:
            return VOID
        if self.structs and r.random() < agg:
            return r.choice(self.structs)
        k = r.random()
        if k < .5:
            return r.choice(INTS)
        if k < .85:
            return r.choice([DOUBLE, FLOAT, DOUBLE, FLOAT, LDOUBLE])
        return Ptr(r.choice([INT, CHAR, DOUBLE]))

    def types(self, n):
        return [self.type() for _ in range(n)]

    def arity(self):
        return self.r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14])

    def const(self, t):
        r = self.r
        if isinstance(t, Fp):
            return Num(r.choice([0.5, 1.0, -3.0, 0.1]), t)
        if isinstance(t, Ptr):
            return Cast(t, Num(0))
        x = r.choice([0, 1, -1, 5, 100, 127])
        return Num(x if t.signed else abs(x), t)


def struct_pool(rng, fam, n, prefix, small=True):
    out = []
    for k in range(n):
        r = rng.random()
        if r < .12:
            ms = [('a', Arr(rng.choice([CHAR, SHORT, INT, FLOAT, DOUBLE]), rng.randrange(1, 6)))]
        elif r < .2:
            ms = [('a', LDOUBLE)]
        else:
            ms = [('m%d' % j, rng.choice([CHAR, SHORT, INT, LONG, FLOAT, DOUBLE, FLOAT, UCHAR, Ptr(INT)])) for j in range(rng.choice([1, 1, 2, 2, 2, 3, 3, 4, 5]))]
        if out and rng.random() < .15:
            ms.append(('n', rng.choice(out)))
        out.append(fam.struct(Struct('%s%d' % (prefix, k), ms)))
    return out


def members(s, e):
    """Scalar lvalues of a struct valued expression."""
    out = []
    for n, fd in s.fields.items():
        m = Mem_(e, n)
        if isinstance(fd.ty, Struct):
            out += members(fd.ty, m)
        elif isinstance(fd.ty, Arr):
            out += [Index(m, N(i)) for i in range(fd.ty.n)]
        else:
            out.append(m)
    return out


def callers(tier='quick', seed=1):
    """Random prototypes: every argument arrives and the result comes back."""
    rng = random.Random(seed * 17 + 5)
    out = []
    for chunk in range(16 if tier == 'quick' else 120):
        f = Fam('calls-%d' % chunk)
        out.append(f)
        ss = struct_pool(rng, f, 6, 'S') if chunk % 2 else []
        R = RandCall(rng, f, ss)
        gl = {}
        for k in range(60):
            ts, rt = R.types(R.arity()), R.type(True, .25)
            e = f.ext('e%d' % k, Fn(rt, ts))
            ps, args, pre = [], [], []
            for i, t in enumerate(ts):
                x = rng.random()
                nm = 'a%d' % i
                if isinstance(t, Struct):
                    if x < .35:
                        ps.append((nm, Ptr(t)))
                        args.append(Deref(v(nm, Ptr(t))))
                    elif x < .6:
                        args.append(f.glob('g_' + t.name, t))
                    elif x < .8:
                        ps.append((nm, t))
                        args.append(v(nm, t))
                    else:
                        ps.append((nm, Ptr(t)))
                        pre.append((('decl', 'l%d' % i, t, None), ex(Asg(v('l%d' % i, t), Deref(v(nm, Ptr(t)))))))
                        args.append(v('l%d' % i, t))
                    continue
                if x < .12:
                    args.append(R.const(t))
                elif x < .25 and not isinstance(t, Ptr):
                    args.append(f.glob('g_' + short(t), t))
                elif x < .4 and not isinstance(t, Ptr):
                    ps.append((nm, Ptr(t)))
                    args.append(Index(v(nm, Ptr(t)), N(rng.randrange(3))))
                elif x < .55 and isinstance(t, Int):
                    ps.append((nm, t))
                    args.append(Bin(rng.choice('+-^'), v(nm, t), N(rng.randrange(1, 9))))
                else:
                    s = t
                    if isinstance(t, Int) and x > .85:
                        s = rng.choice(INTS)
                    if isinstance(t, Fp) and x > .85:
                        s = rng.choice(SCAL)
                    ps.append((nm, s))
                    args.append(v(nm, s))
            if len(ps) > 1 and rng.random() < .3:
                rng.shuffle(ps)
            body = [d for d, _ in pre] + [a for _, a in pre]
            c = Call(e, args)
            tag = '%s(%s)' % (sname([rt] if rt is not VOID else []), sname(ts))
            x = rng.random()
            if rt is VOID:
                f.add(VOID, ps, body + [ex(c)], tag)
            elif isinstance(rt, Struct):
                if x < .35:
                    f.add(rt, ps, body + [ret(c)], tag + ' returned')
                elif x < .6:
                    f.add(VOID, ps + [('q', Ptr(rt))], body + [ex(Asg(Deref(v('q', Ptr(rt))), c))], tag + ' stored')
                elif x < .8:
                    f.add(VOID, ps, body + [ex(Asg(f.glob('g_' + rt.name, rt), c))], tag + ' stored in a global')
                else:
                    ms = members(rt, v('l', rt))
                    m = rng.choice(ms)
                    f.add(m.ty, ps, body[:len(pre)] + [('decl', 'l', rt, None)] + body[len(pre):] + [ex(Asg(v('l', rt), c)), ret(m)], tag + ' member')
            else:
                if x < .5 or isinstance(rt, Ptr):
                    f.add(rt, ps, body + [ret(c)], tag)
                elif x < .8:
                    f.add(VOID, ps + [('q', Ptr(rt))], body + [ex(Asg(Deref(v('q', Ptr(rt))), c))], tag + ' stored')
                else:
                    f.add(rt, ps + [('z', rt)], body + [ret(Bin('+', c, v('z', rt)))], tag + ' + z')
    return out


def callees(tier='quick', seed=1):
    """Random parameter lists seen from inside the function."""
    rng = random.Random(seed * 19 + 7)
    out = []
    for chunk in range(16 if tier == 'quick' else 120):
        f = Fam('parameters-%d' % chunk)
        out.append(f)
        ss = struct_pool(rng, f, 6, 'S') if chunk % 2 else []
        R = RandCall(rng, f, ss)
        sink = {}
        def st(t):
            return f.ext('use_' + sname([t]), Fn(VOID, [Ptr(t)] if isinstance(t, Struct) else [t]))
        for k in range(60):
            ts = R.types(max(1, R.arity()))
            ps = [('a%d' % i, t) for i, t in enumerate(ts)]
            i = rng.randrange(len(ts))
            t = ts[i]
            a = v('a%d' % i, t)
            tag = 'parameter %d of (%s)' % (i, sname(ts))
            x = rng.random()
            if isinstance(t, Struct):
                if x < .3:
                    f.add(t, ps, [ret(a)], tag + ' returned')
                elif x < .6:
                    m = rng.choice(members(t, a))
                    f.add(m.ty, ps, [ret(m)], tag + ' member')
                elif x < .8:
                    f.add(VOID, ps + [('q', Ptr(t))], [ex(Asg(Deref(v('q', Ptr(t))), a))], tag + ' stored')
                else:
                    m = [m for m in members(t, a) if not isinstance(m.ty, Ptr)]
                    if m:
                        m = rng.choice(m)
                        f.add(t, ps, [ex(Asg(m, N(3), '+' if x < .9 else '')), ret(a)], tag + ' modified')
                    else:
                        f.add(t, ps, [ret(a)], tag + ' returned')
                continue
            if x < .25:
                f.add(t, ps, [ret(a)], tag)
            elif x < .4:
                # all parameters are stored
                f.add(VOID, ps, [ex(Asg(f.glob('h%d_%s' % (j, sname([y])), y), v(n, y))) for j, (n, y) in enumerate(ps)], 'all of (%s)' % sname(ts))
            elif x < .55 and not isinstance(t, Ptr):
                f.add(t, ps, [ex(Asg(a, N(2), '+')), ex(Call(st(t), [a])), ret(a)], tag + ' modified, passed on and returned')
            elif x < .7 and not isinstance(t, Ptr):
                e = f.ext('ptr_' + sname([t]), Fn(VOID, [Ptr(t)]))
                f.add(t, ps, [ex(Call(e, [Addr(a)])), ret(a)], tag + ' address taken')
            else:
                j = rng.randrange(len(ts))
                b = v('a%d' % j, ts[j])
                if isinstance(ts[j], Struct) or isinstance(ts[j], Ptr) or isinstance(t, Ptr):
                    f.add(t, ps, [ret(a)], tag)
                else:
                    # live across a call
                    e = f.ext('nothing', Fn(VOID, []))
                    f.add(usual(promote(t), promote(ts[j])), ps, [ex(Call(e, [])), ret(Bin('-', a, b))], tag + ' minus parameter %d after a call' % j)
    return out


def stack_constants():
    """Constants of every type that are passed on the stack."""
    f = Fam('constants-on-the-stack')
    edge = [0, 1, -1, 127, 128, -128, 255, 32767, 32768, -32768, 65535, 2**31 - 1, 2**31, -2**31, 2**32 - 1, 2**32, 2**63 - 1, -2**63, 2**63, 2**64 - 1]
    for t in INTS:
        e = f.ext('st_' + short(t), Fn(VOID, [INT] * 6 + [t]))
        for s in (INT, UINT, LONG, ULONG):
            for x in edge:
                if (-(1 << (s.bits - 1)) if s.signed else 0) < x < (1 << (s.bits - (1 if s.signed else 0))):
                    f.add(VOID, [], [ex(Call(e, [N(i) for i in range(6)] + [Num(x, s)]))], '%s constant %d on the stack as %s' % (s, x, t))
    for t in FPS:
        e = f.ext('st_' + short(t), Fn(VOID, [DOUBLE] * 8 + [t]))
        for x in (0.0, 1.0, -2.5, 0.1, 1e300 if t is not FLOAT else 1e30):
            f.add(VOID, [], [ex(Call(e, [Num(float(i), DOUBLE) for i in range(8)] + [Num(x, t)]))], 'constant %s on the stack as %s' % (x, t))
    return f


def structures():
    """Structures of every shape at every place, between other arguments and with and without a result in memory."""
    f = Fam('structures')
    shapes = [[CHAR], [SHORT, CHAR], [INT, UCHAR], [INT, SHORT, CHAR], [LONG], [LONG, CHAR], [LONG, INT, CHAR], [FLOAT], [FLOAT, FLOAT], [FLOAT, FLOAT, FLOAT],
              [DOUBLE], [DOUBLE, FLOAT], [DOUBLE, DOUBLE], [FLOAT, INT], [INT, DOUBLE], [DOUBLE, CHAR], [FLOAT, FLOAT, INT], [LDOUBLE], [LONG, LONG, LONG],
              [DOUBLE, CHAR, DOUBLE, CHAR, INT], [Arr(CHAR, 3)], [Arr(CHAR, 7)], [Arr(CHAR, 15)], [Arr(SHORT, 5)], [Arr(CHAR, 17)]]
    big = f.struct(Struct('BIG', [('a', LONG), ('b', DOUBLE), ('c', LONG)]))
    for k, sh in enumerate(shapes):
        s = f.struct(Struct('T%d' % k, [('m%d' % i, t) for i, t in enumerate(sh)]))
        for n, before in enumerate(([], [INT, FLOAT], [LONG] * 5, [DOUBLE] * 7, [LONG] * 6 + [DOUBLE] * 8)):
            after = [INT, LDOUBLE, DOUBLE, CHAR]
            ts = before + [s] + after
            for rt in (VOID, big):
                e = f.ext('x%d_%d_%d' % (k, n, rt is big), Fn(rt, ts))
                ps = [('a%d' % i, t) for i, t in enumerate(before)] + [('s', Ptr(s))] + [('b%d' % i, t) for i, t in enumerate(after)]
                c = Call(e, [Deref(v(*p)) if p[0] == 's' else v(*p) for p in ps])
                if rt is VOID:
                    f.add(VOID, ps, [ex(c)], 'struct %d after %d arguments' % (k, len(before)))
                    f.add(VOID, [], [ex(Call(e, [f.glob('gs_%d' % k, s) if t is s else N(i) if isinstance(t, Int) else Num(i + .5, t) for i, t in enumerate(ts)]))], 'global struct %d after %d constants' % (k, len(before)))
                else:
                    f.add(VOID, ps + [('q', Ptr(big))], [ex(Asg(Deref(v('q', Ptr(big))), c))], 'struct %d after %d arguments, result in memory' % (k, len(before)))
            ps = [('a%d' % i, t) for i, t in enumerate(before)] + [('s', s)] + [('b%d' % i, t) for i, t in enumerate(after)]
            f.add(VOID, ps, [ex(Asg(f.glob('h%d_%s' % (j, sname([y])), y), v(x, y))) for j, (x, y) in enumerate(ps)], 'parameters around struct %d after %d arguments' % (k, len(before)))
            f.add(VOID, ps, [ex(Call(f.ext('nothing', Fn(VOID, [])), []))] + [ex(Asg(f.glob('h%d_%s' % (j, sname([y])), y), v(x, y))) for j, (x, y) in enumerate(ps)], 'parameters around struct %d after %d arguments and a call' % (k, len(before)))
        e = f.ext('r%d' % k, Fn(s, [INT]))
        f.add(VOID, [('q', Ptr(s)), ('i', INT)], [ex(Asg(Deref(v('q', Ptr(s))), Call(e, [v('i', INT)])))], 'result struct %d stored' % k)
        f.add(s, [('i', INT)], [ret(Call(e, [v('i', INT)]))], 'result struct %d returned' % k)
        f.add(s, [('s', s), ('x', DOUBLE)], [ret(v('s', s))], 'parameter struct %d returned' % k)
        f.add(s, [('q', Ptr(s)), ('i', INT)], [ret(Index(v('q', Ptr(s)), v('i', INT)))], 'element struct %d returned' % k)
    return [f, stack_constants()]


def varargs(tier='quick', seed=1):
    rng = random.Random(seed * 23 + 9)
    f = Fam('variadic-calls')
    e = f.ext('ve', Fn(INT, [Ptr(CHAR)], True))
    e2 = f.ext('vd', Fn(DOUBLE, [DOUBLE, INT], True))
    ss = struct_pool(rng, f, 4, 'S')
    R = RandCall(rng, f, ss)
    for k in range(300 if tier == 'quick' else 1500):
        ts = R.types(R.arity())
        ps = [('a%d' % i, t) for i, t in enumerate(ts)]
        args = [v(*p) for p in ps]
        va = [DOUBLE if t is FLOAT else promote(t) if isinstance(t, Int) else t for t in ts]
        if rng.random() < .6:
            fn = f.add(INT, [('s', Ptr(CHAR))] + ps, [ret(Call(e, [v('s', Ptr(CHAR))] + args))], 'variadic (%s)' % sname(ts))
            fn.vararg_types = {'ve': va}
        else:
            fn = f.add(DOUBLE, ps, [ret(Call(e2, [Num(1.5, DOUBLE), N(3)] + args))], 'variadic (double, int, %s)' % sname(ts))
            fn.vararg_types = {'vd': va}
    return [f]


def pointers(tier='quick', seed=1):
    rng = random.Random(seed * 29 + 11)
    f = Fam('function-pointers')
    R = RandCall(rng, f)
    for k in range(80 if tier == 'quick' else 800):
        ts, rt = R.types(R.arity()), R.type(True)
        ft = Fn(rt, ts)
        fp = v('fp', Ptr(ft))
        ps = [('a%d' % i, t) for i, t in enumerate(ts)]
        args = [v(*p) for p in ps]
        x = rng.random()
        where = 'parameter'
        if x < .4:
            at = rng.randrange(len(ps) + 1)
            pp = ps[:at] + [('fp', Ptr(ft))] + ps[at:]
            callee, pre = fp, []
        elif x < .55:
            pp, callee, pre = ps, f.glob('gfp%d' % k, Ptr(ft)), []
            where = 'global'
        elif x < .7:
            pp = ps + [('fp', Ptr(ft))]
            callee, pre = Deref(fp), []
            where = '(*parameter)'
        elif x < .85:
            pp = ps + [('t', Ptr(Ptr(ft)))]
            callee, pre = Index(v('t', Ptr(Ptr(ft))), N(2)), []
            where = 'array'
        else:
            pp = ps + [('fp', Ptr(ft))]
            pre = [('decl', 'l', Ptr(ft), fp)]
            callee = v('l', Ptr(ft))
            where = 'local'
        c = Call(callee, args)
        if rt is VOID:
            fn = f.add(VOID, pp, pre + [ex(c)], 'through a pointer (%s): void(%s)' % (where, sname(ts)))
        else:
            fn = f.add(rt, pp, pre + [ret(c)], 'through a pointer (%s): %s(%s)' % (where, sname([rt]), sname(ts)))
        fn.fnptr = ft
    for t in SCAL:
        e = f.ext('fn_' + short(t), Fn(t, [t]))
        P = Ptr(Fn(t, [t]))
        fn = f.add(P, [], [ret(e)], 'address of a function')
        fn = f.add(P, [], [ret(Addr(e))], '& of a function')
        fn = f.add(t, [('a', t)], [('decl', 'p', P, e), ret(Call(v('p', P), [v('a', t)]))], 'call through a constant pointer')
        fn.fnptr = Fn(t, [t])
        fn = f.add(t, [('a', t), ('n', INT)], [('decl', 'p', P, Cond(v('n', INT), e, v('q', P))), ret(Call(v('p', P), [v('a', t)]))], 'call through a selected pointer')
        fn.params.append(('q', P))
        fn.ty = Fn(t, [y for _, y in fn.params])
        fn.fnptr = Fn(t, [t])
    return [f]


def sequences(tier='quick', seed=1):
    """Several calls: values live across calls, results used later, nested calls."""
    rng = random.Random(seed * 31 + 13)
    out = []
    for chunk in range(6 if tier == 'quick' else 60):
        f = Fam('call-sequences-%d' % chunk)
        out.append(f)
        ss = struct_pool(rng, f, 3, 'S') if chunk == 2 else []
        R = RandCall(rng, f, ss)
        es = []
        for k in range(12):
            ts, rt = R.types(rng.randrange(0, 9)), R.type(True, .2)
            es.append(f.ext('e%d' % k, Fn(rt, ts)))
        for k in range(40):
            ps = [('a%d' % i, t) for i, t in enumerate(R.types(rng.randrange(1, 8)))]
            pool = [v(*p) for p in ps]
            decls, body = [], []
            for j in range(rng.randrange(2, 5)):
                e = rng.choice(es)
                ft = e.ty
                def pick(t, d=0):
                    c = [x for x in pool if x.ty is t or isinstance(t, (Int, Fp)) and isinstance(x.ty, (Int, Fp)) and okconv(x.ty, t) or isinstance(t, Ptr) and isinstance(x.ty, Ptr) and repr(x.ty) == repr(t)]
                    if isinstance(t, Struct) and not c:
                        return f.glob('g_' + t.name, t)
                    if not c or not isinstance(t, Struct) and rng.random() < .15:
                        return R.const(t)
                    return rng.choice(c)
                args = [pick(t) for t in ft.params]
                # one nested call
                if args and rng.random() < .35:
                    i = rng.randrange(len(args))
                    cand = [x for x in es if x.ty.ret is ft.params[i] or is_arith(ft.params[i]) and is_arith(x.ty.ret) and okconv(x.ty.ret, ft.params[i])]
                    if cand:
                        x = rng.choice(cand)
                        args[i] = Call(x, [pick(t) for t in x.ty.params])
                        # the order of the evaluation of arguments is unspecified: nothing the nested call can change
                        args = [a if i == n or not isinstance(a, Var) or a.name[0] != 'g' else a for n, a in enumerate(args)]
                        if any(isinstance(a, Var) and a.name.startswith('g_') for a in args):
                            continue
                c = Call(e, args)
                if ft.ret is VOID:
                    body.append(ex(c))
                else:
                    n = 'r%d' % j
                    decls.append(('decl', n, ft.ret, None))
                    body.append(ex(Asg(v(n, ft.ret), c)))
                    pool.append(v(n, ft.ret))
            res = [x for x in pool if x.name[0] == 'r' and not isinstance(x.ty, Ptr)] or pool
            x = rng.choice(res)
            e = x
            if is_arith(x.ty):
                o = [y for y in pool if is_arith(y.ty)]
                e = Bin('-', x, rng.choice(o))
            f.add(e.ty, ps, decls + body + [ret(e)], 'sequence %d' % k)
    return out
