"""Families about memory: pointers, indexing, structs, unions, bit-fields, local objects."""
import random
from .lang import *
from .gen import *

LABEL = {}


def nm(t):
    return decl(t, '').strip()


def pointers(tier='quick'):
    out = []
    els = INTS + FPS + [Ptr(CHAR)]
    f0 = Fam('pointers')
    out.append(f0)
    s3 = f0.struct(Struct('S3', [('a', CHAR), ('b', CHAR), ('c', CHAR)]))
    s12 = f0.struct(Struct('S12', [('a', INT), ('b', SHORT), ('c', INT)]))
    s24 = f0.struct(Struct('S24', [('a', LONG), ('b', DOUBLE), ('c', CHAR)]))
    for t in els:
        P = Ptr(t)
        p, q = v('p', P), v('q', P)
        for it in INTS:
            i = v('i', it)
            tag = '%s * and %s' % (nm(t), it)
            f0.add(t, [('p', P), ('i', it)], [ret(Index(p, i))], tag + ' p[i]')
            f0.add(VOID, [('p', P), ('i', it), ('x', t)], [ex(Asg(Index(p, i), v('x', t)))], tag + ' p[i] = x')
            f0.add(P, [('p', P), ('i', it)], [ret(Bin('+', p, i))], tag + ' p + i')
            f0.add(P, [('p', P), ('i', it)], [ret(Bin('+', i, p))], tag + ' i + p')
            f0.add(P, [('p', P), ('i', it)], [ret(Bin('-', p, i))], tag + ' p - i')
            f0.add(P, [('p', P), ('i', it)], [ret(Addr(Index(p, i)))], tag + ' &p[i]')
            f0.add(P, [('p', P), ('i', it)], [ex(Asg(p, i, '+')), ret(p)], tag + ' p += i')
            f0.add(P, [('p', P), ('i', it)], [ex(Asg(p, i, '-')), ret(p)], tag + ' p -= i')
            f0.add(t, [('p', P), ('i', it)], [ret(Deref(Bin('-', p, i)))], tag + ' *(p - i)')
        for k in (0, 1, -1, 2, 5, 100, -7):
            f0.add(t, [('p', P)], [ret(Index(p, Num(k)))], '%s * p[%d]' % (nm(t), k))
            f0.add(VOID, [('p', P), ('x', t)], [ex(Asg(Index(p, Num(k)), v('x', t)))], '%s * p[%d] = x' % (nm(t), k))
            f0.add(P, [('p', P)], [ret(Bin('+', p, Num(k)))], '%s * p + %d' % (nm(t), k))
            f0.add(P, [('p', P)], [ret(Bin('-', p, Num(k)))], '%s * p - %d' % (nm(t), k))
        f0.add(LONG, [('p', P), ('q', P)], [ret(Bin('-', p, q))], '%s * p - q' % nm(t))
        for op in ('==', '!=', '<', '>', '<=', '>='):
            f0.add(INT, [('p', P), ('q', P)], [ret(Bin(op, p, q))], '%s * p %s q' % (nm(t), op))
            f0.add(INT, [('p', P), ('q', P)], [('if', Bin(op, p, q), [ret(Num(3))], None), ret(Num(4))], '%s * if p %s q' % (nm(t), op))
        for op in ('++', '--'):
            for post in (True, False):
                f0.add(P, [('p', P)], [ret(Inc(p, op, post))], '%s * %s %s' % (nm(t), op, post))
                f0.add(LONG, [('p', P)], [('decl', 'o', P, Inc(p, op, post)), ret(Bin('-', Cast(LONG, p), Cast(LONG, v('o', P))))], '%s * %s %s and use' % (nm(t), op, post))
                f0.add(t, [('p', P)], [ret(Deref(Inc(p, op, post)))], '%s * *%s %s' % (nm(t), op, post))
                f0.add(VOID, [('p', P), ('x', t)], [ex(Asg(Deref(Inc(p, op, post)), v('x', t)))], '%s * *%s %s = x' % (nm(t), op, post))
                PP = Ptr(P)
                f0.add(t, [('z', PP)], [ret(Deref(Inc(Deref(v('z', PP)), op, post)))], '%s ** *(*z)%s %s' % (nm(t), op, post))
        f0.add(INT, [('p', P)], [ret(Un('!', p))], '!%s *' % nm(t))
        f0.add(INT, [('p', P)], [('if', p, [ret(Num(1))], None), ret(Num(2))], 'if (%s *)' % nm(t))
        f0.add(INT, [('p', P)], [ret(Bin('==', p, Num(0)))], '%s * == 0' % nm(t))
        f0.add(INT, [('p', P)], [ret(Bin('&&', p, Deref(p)))], '%s * p && *p' % nm(t))
        f0.add(INT, [('p', P), ('q', P)], [ret(Bin('||', p, q))], '%s * p || q' % nm(t))
        f0.add(P, [('c', INT), ('p', P), ('q', P)], [ret(Cond(v('c', INT), p, q))], '%s * c ? p : q' % nm(t))
        f0.add(LONG, [('p', P)], [ret(Cast(LONG, p))], '%s * to long' % nm(t))
        f0.add(INT, [('p', P)], [ret(Cast(INT, Cast(LONG, p)))], '%s * to int' % nm(t))
        f0.add(P, [('x', ULONG)], [ret(Cast(P, v('x', ULONG)))], 'unsigned long to %s *' % nm(t))
    for t in (s3, s12, s24):
        P = Ptr(t)
        p, q = v('p', P), v('q', P)
        for it in (CHAR, INT, UINT, LONG, ULONG):
            i = v('i', it)
            tag = '%s * and %s' % (nm(t), it)
            for m, fd in t.fields.items():
                f0.add(fd.ty, [('p', P), ('i', it)], [ret(Mem_(Index(p, i), m))], tag + ' p[i].' + m)
                f0.add(VOID, [('p', P), ('i', it), ('x', fd.ty)], [ex(Asg(Mem_(Bin('+', p, i), m, True), v('x', fd.ty)))], tag + ' (p + i)->%s = x' % m)
            f0.add(P, [('p', P), ('i', it)], [ret(Bin('-', p, i))], tag + ' p - i')
            f0.add(VOID, [('p', P), ('q', P), ('i', it)], [ex(Asg(Deref(p), Index(q, i)))], tag + ' *p = q[i]')
            f0.add(VOID, [('p', P), ('q', P), ('i', it)], [ex(Asg(Index(p, i), Deref(q)))], tag + ' p[i] = *q')
        f0.add(LONG, [('p', P), ('q', P)], [ret(Bin('-', p, q))], '%s * p - q' % nm(t))
        for op in ('++', '--'):
            f0.add(P, [('p', P)], [ret(Inc(p, op, True))], '%s * %s' % (nm(t), op))
            f0.add(P, [('p', P)], [ret(Inc(p, op, False))], '%s %s *' % (op, nm(t)))
    # global arrays, two dimensions, pointers to arrays
    f1 = Fam('arrays')
    out.append(f1)
    for t in els:
        n = 'ga_' + (short(t) if not isinstance(t, Ptr) else 'p')
        g1 = f1.glob(n, Arr(t, 10))
        g2 = f1.glob(n + '2', Arr(Arr(t, 5), 3))
        A = Ptr(Arr(t, 4))
        for it in (CHAR, UCHAR, SHORT, INT, UINT, LONG, ULONG):
            i, j = v('i', it), v('j', it)
            tag = '%s[] and %s' % (nm(t), it)
            f1.add(t, [('i', it)], [ret(Index(g1, i))], tag)
            f1.add(VOID, [('i', it), ('x', t)], [ex(Asg(Index(g1, i), v('x', t)))], tag + ' store')
            f1.add(t, [('i', it), ('j', it)], [ret(Index(Index(g2, i), j))], tag + ' 2d')
            f1.add(VOID, [('i', it), ('j', it), ('x', t)], [ex(Asg(Index(Index(g2, i), j), v('x', t)))], tag + ' 2d store')
            f1.add(t, [('p', A), ('i', it), ('j', it)], [ret(Index(Index(v('p', A), i), j))], tag + ' pointer to array')
            f1.add(Ptr(t), [('i', it)], [ret(Addr(Index(g1, i)))], tag + ' address')
            f1.add(t, [('i', it)], [ret(Deref(Bin('+', g1, i)))], tag + ' *(a + i)')
        for k in (0, 1, 7, 9):
            f1.add(t, [], [ret(Index(g1, Num(k)))], '%s[%d]' % (nm(t), k))
            f1.add(VOID, [('x', t)], [ex(Asg(Index(g1, Num(k)), v('x', t)))], '%s[%d] = x' % (nm(t), k))
            f1.add(t, [], [ret(Index(Index(g2, Num(k % 3)), Num(k % 5)))], '%s[%d][%d]' % (nm(t), k % 3, k % 5))
        f1.add(ULONG, [], [ret(Bin('+', SizeOf(g1), Bin('*', Num(1000), SizeOf(Index(g2, Num(0))))))], 'sizeof %s[]' % nm(t))
        f1.add(A, [('p', A), ('i', INT)], [ret(Bin('+', v('p', A), v('i', INT)))], '%s (*)[4] + i' % nm(t))
        f1.add(LONG, [('p', A), ('q', A)], [ret(Bin('-', v('p', A), v('q', A)))], '%s (*)[4] p - q' % nm(t))
        f1.add(LONG, [('p', A)], [ret(Bin('-', Cast(LONG, Inc(v('p', A), '++', False)), Cast(LONG, v('p', A))))] if False else [ex(Inc(v('p', A))), ret(Cast(LONG, v('p', A)))], '%s (*)[4] ++' % nm(t))
    # local arrays
    f2 = Fam('local-arrays')
    out.append(f2)
    for t in INTS + FPS:
        a = v('a', Arr(t, 4))
        init = [ex(Asg(Index(a, Num(k)), v('xyzw'[k], t))) for k in range(4)]
        ps = [(c, t) for c in 'xyzw']
        for k in range(4):
            f2.add(t, ps, [('decl', 'a', Arr(t, 4), None)] + init + [ret(Index(a, Num(k)))], '%s local [%d]' % (nm(t), k))
        i = Bin('&', v('i', INT), Num(3))
        f2.add(t, [('i', INT)] + ps, [('decl', 'a', Arr(t, 4), None)] + init + [ret(Index(a, i))], '%s local [i & 3]' % nm(t))
        f2.add(t, [('i', INT)] + ps, [('decl', 'a', Arr(t, 4), None)] + init + [ex(Asg(Index(a, i), v('x', t))), ret(Index(a, Num(2)))], '%s local [i & 3] = x' % nm(t))
        f2.add(t, [('i', INT)] + ps, [('decl', 'a', Arr(t, 4), None), ('decl', 'p', Ptr(t), None)] + init + [ex(Asg(v('p', Ptr(t)), Bin('+', a, i))), ret(Deref(v('p', Ptr(t))))], '%s local pointer' % nm(t))
        f2.add(t, ps[:3], [('decl', 'a', Arr(t, 4), [v('x', t), v('y', t), v('z', t)]), ret(Index(a, Num(2)))], '%s local initialiser' % nm(t))
        f2.add(t, ps[:3], [('decl', 'a', Arr(t, 4), [v('x', t), v('y', t), v('z', t)]), ret(Index(a, Num(3)))], '%s local initialiser, zero' % nm(t))
        f2.add(t, ps[:1], [('decl', 'p', Ptr(t), None), ('decl', 'y', t, v('x', t)), ex(Asg(v('p', Ptr(t)), Addr(v('y', t)))), ex(Asg(Deref(v('p', Ptr(t))), Num(3), '+')), ret(v('y', t))], '%s address of local' % nm(t))
    return out


def layouts(rng, n):
    out = []
    for k in range(n):
        ms = []
        for j in range(rng.randint(1, 5)):
            t = rng.choice(INTS + FPS + [INT, CHAR, Ptr(CHAR)])
            if rng.random() < .25:
                t = Arr(t, rng.randint(1, 4))
            ms.append(('m%d' % j, t))
        out.append(ms)
    return out


def scal(t):
    """A scalar member path of t: function from lvalue to lvalue."""
    if isinstance(t, Struct):
        n, f = list(t.fields.items())[-1]
        g, s = scal(f.ty)
        return (lambda e: g(Mem_(e, n))), s
    if isinstance(t, Arr):
        g, s = scal(t.to)
        return (lambda e: g(Index(e, Num(t.n - 1)))), s
    return (lambda e: e), t


def structs(tier='quick', seed=1):
    rng = random.Random(seed * 7 + 1)
    out = []
    nest = None
    n = 0
    for chunk in range(6 if tier == 'quick' else 40):
        f = Fam('structs-%d' % chunk)
        out.append(f)
        pool = []
        for ms in layouts(rng, 5):
            n += 1
            union = rng.random() < .2
            if union:          # what the padding of a long double holds is not specified
                ms = [m for m in ms if flat(m[1])[0][1] is not LDOUBLE] or [('m0', INT), ('m1', DOUBLE)]
            if pool and rng.random() < .4:
                ms.insert(rng.randint(0, len(ms)), ('n', rng.choice(pool + [Arr(pool[0], 2)])))
            s = f.struct(Struct('T%d' % n, ms, union=union))
            pool.append(s)
            P = Ptr(s)
            p, q = v('p', P), v('q', P)
            g = f.glob('g%d' % n, s)
            l = v('l', s)
            tag = repr(s) + ' '
            f.add(ULONG, [], [ret(SizeOf(s))], tag + 'sizeof')
            for name, fd in s.fields.items():
                path, t = scal(fd.ty)
                f.add(t, [('p', P)], [ret(path(Mem_(p, name, True)))], tag + 'p->%s' % name)
                f.add(VOID, [('p', P), ('x', t)], [ex(Asg(path(Mem_(p, name, True)), v('x', t)))], tag + 'p->%s = x' % name)
                f.add(t, [], [ret(path(Mem_(g, name)))], tag + 'g.%s' % name)
                f.add(VOID, [('x', t)], [ex(Asg(path(Mem_(g, name)), v('x', t)))], tag + 'g.%s = x' % name)
                f.add(Ptr(t), [('p', P)], [ret(Addr(path(Mem_(p, name, True))))], tag + '&p->%s' % name)
                f.add(t, [('p', P)], [('decl', 'l', s, None), ex(Asg(l, Deref(p))), ret(path(Mem_(l, name)))], tag + 'l = *p; l.%s' % name)
                f.add(VOID, [('p', P), ('x', t)], [('decl', 'l', s, None), ex(Asg(l, Deref(p))), ex(Asg(path(Mem_(l, name)), v('x', t))), ex(Asg(Deref(p), l))], tag + 'l = *p; l.%s = x; *p = l' % name)
                if isinstance(t, (Int, Fp)):
                    f.add(t, [('p', P), ('x', t)], [ret(Asg(path(Mem_(p, name, True)), v('x', t), '+'))], tag + 'p->%s += x' % name)
                    f.add(t, [('p', P)], [ret(Inc(path(Mem_(p, name, True))))], tag + 'p->%s++' % name)
            f.add(VOID, [('p', P), ('q', P)], [ex(Asg(Deref(p), Deref(q)))], tag + '*p = *q')
            f.add(VOID, [('p', P)], [ex(Asg(g, Deref(p)))], tag + 'g = *p')
            f.add(VOID, [('p', P)], [ex(Asg(Deref(p), g))], tag + '*p = g')
            f.add(VOID, [('p', P), ('i', LONG)], [ex(Asg(Index(p, v('i', LONG)), g))], tag + 'p[i] = g')
    # plain copies of every size
    f = Fam('struct-copies')
    out.append(f)
    for size in list(range(1, 41)) + [48, 63, 64, 100, 127, 128]:
        s = f.struct(Struct('C%d' % size, [('a', Arr(UCHAR, size))]))
        P = Ptr(s)
        f.add(VOID, [('p', P), ('q', P)], [ex(Asg(Deref(v('p', P)), Deref(v('q', P))))], 'copy of %d bytes' % size)
        f.add(VOID, [('p', P), ('q', P)], [('decl', 'l', s, Deref(v('q', P))), ex(Asg(Deref(v('p', P)), v('l', s)))], 'copy of %d bytes through a local' % size)
    return out


def bf_layouts(rng, n):
    out = []
    for k in range(n):
        ms = []
        for j in range(rng.randint(2, 6)):
            t = rng.choice([INT, UINT])
            r = rng.random()
            if r < .15:
                ms.append(('m%d' % j, rng.choice([CHAR, SHORT, INT, LONG])))
            elif r < .22:
                ms.append((None, INT, rng.choice([0, 3, 5])))
            else:
                ms.append(('m%d' % j, t, rng.randint(1, t.bits)))
        if not any(m[0] and len(m) == 3 for m in ms):
            ms.append(('z', INT, 5))
        out.append(ms)
    return out


def bitfields(tier='quick', seed=1):
    rng = random.Random(seed * 11 + 3)
    out = []
    n = 0
    for chunk in range(8 if tier == 'quick' else 60):
        f = Fam('bit-fields-%d' % chunk)
        out.append(f)
        for ms in bf_layouts(rng, 4):
            n += 1
            s = f.struct(Struct('B%d' % n, ms, union=rng.random() < .15))
            P = Ptr(s)
            p, g, l = v('p', P), f.glob('g%d' % n, s), v('l', s)
            tag = repr(s) + ' '
            f.add(ULONG, [], [ret(SizeOf(s))], tag + 'sizeof')
            bs = [(a, b) for a, b in s.fields.items() if b.width]
            for name, fd in bs:
                m = Mem_(p, name, True)
                t = fd.ty
                tg = tag + '%s %s:%d ' % (t, name, fd.width)
                f.add(promote(t, fd.width), [('p', P)], [ret(m)], tg + 'load')
                f.add(LONG, [('p', P)], [ret(Cast(LONG, m))], tg + 'load as long')
                f.add(VOID, [('p', P), ('x', INT)], [ex(Asg(m, v('x', INT)))], tg + 'store')
                f.add(VOID, [('p', P), ('x', LONG)], [ex(Asg(m, v('x', LONG)))], tg + 'store of a long')
                f.add(INT, [('p', P), ('x', INT)], [ret(Cast(INT, Asg(m, v('x', INT))))], tg + 'value of a store')
                f.add(VOID, [('x', INT)], [ex(Asg(Mem_(g, name), v('x', INT)))], tg + 'global store')
                f.add(INT, [], [ret(Cast(INT, Mem_(g, name)))], tg + 'global load')
                f.add(VOID, [('p', P)], [ex(Asg(m, Num(rng.choice([0, 1, 5, -1, 12345]))))], tg + 'constant store')
                for op in rng.sample(['+', '-', '*', '&', '|', '^', '/', '%'], 3):
                    f.add(INT, [('p', P), ('x', INT)], [ret(Cast(INT, Bin(op, m, v('x', INT))))], tg + op + ' x')
                    f.add(VOID, [('p', P), ('x', INT)], [ex(Asg(m, v('x', INT), op))], tg + op + '= x')
                for op in rng.sample(['<<', '>>'], 1):
                    f.add(VOID, [('p', P)], [ex(Asg(m, Num(rng.randint(0, 5)), op))], tg + op + '=')
                f.add(VOID, [('p', P)], [ex(Inc(m, rng.choice(['++', '--']), rng.random() < .5))], tg + 'inc')
                f.add(INT, [('p', P)], [ret(Cast(INT, Inc(m, rng.choice(['++', '--']), True)))], tg + 'value of post inc')
                f.add(INT, [('p', P)], [ret(Cast(INT, Inc(m, rng.choice(['++', '--']), False)))], tg + 'value of pre inc')
                f.add(INT, [('p', P)], [('if', m, [ret(Num(1))], None), ret(Num(2))], tg + 'if')
                f.add(INT, [('p', P), ('x', INT)], [ret(Bin(rng.choice(CMP), m, v('x', INT)))], tg + 'compare')
                f.add(promote(t, fd.width), [('p', P)], [ret(Un(rng.choice(['-', '~']), m))], tg + 'unary')
                other = rng.choice(bs)[0]
                f.add(VOID, [('p', P)], [ex(Asg(m, Mem_(p, other, True)))], tg + 'from ' + other)
                f.add(VOID, [('p', P), ('x', INT)], [('decl', 'l', s, None), ex(Asg(l, Deref(p))), ex(Asg(Mem_(l, name), v('x', INT))), ex(Asg(Deref(p), l))], tg + 'local')
            xs = [('x%d' % k, INT) for k in range(min(4, len(bs)))]
            f.add(VOID, [('p', P)] + xs, [ex(Asg(Mem_(p, b[0], True), v(x[0], INT))) for x, b in zip(xs, bs)], tag + 'several stores')
    return out


def bitfield_places(tier='quick'):
    """Every width at every bit offset of a unit of 32 bits (neighbours on both sides)."""
    out = []
    n = 0
    for w in range(1, 33):
        f = Fam('bit-field-width-%d' % w)
        out.append(f)
        for o in range(0, 33 - w):
            n += 1
            t = [INT, UINT]
            ms = [('lo', UINT, o)] if o else []
            ms.append(('m', INT, w))
            if o + w < 32:
                ms.append(('hi', UINT, 32 - o - w))
            for t in (INT, UINT):
                s = f.struct(Struct('W%d%s' % (n, 'u' if t is UINT else 's'), [(a, t if a == 'm' else b, c) for a, b, c in ms]))
                P = Ptr(s)
                m = Mem_(v('p', P), 'm', True)
                tg = '%s m:%d at bit %d ' % (t, w, o)
                f.add(LONG, [('p', P)], [ret(Cast(LONG, m))], tg + 'load')
                f.add(VOID, [('p', P), ('x', INT)], [ex(Asg(m, v('x', INT)))], tg + 'store')
                if (n + (t is INT)) % 3 == 0 or tier != 'quick':
                    f.add(VOID, [('p', P), ('x', INT)], [ex(Asg(m, v('x', INT), '+'))], tg + 'add')
                    f.add(INT, [('p', P)], [ret(Cast(INT, Inc(m, '--', True)))], tg + 'post decrement')
    return out
