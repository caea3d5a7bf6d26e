"""Families about control flow: branches, loops, switch, goto, short circuit, and variables carried around loops; hand written shapes
over all integer types and random structured programs."""
import random
from .lang import *
from .gen import *


def N(x, t=INT):
    return Num(x, t)


def mk(f, ret_t, params, body, tag):
    return f.add(ret_t, params, body, tag)


def shapes():
    f = Fam('flow-shapes')
    ext = f.ext('ext', Fn(INT, [INT]))
    extv = f.ext('extv', Fn(VOID, []))
    g = f.glob('g', INT)
    call = lambda e: Call(ext, [e])
    for t in INTS:
        a, b, c, n, i, s = (v(k, t) for k in 'abcnis')
        k1, k7, k3 = N(1, INT), N(7), N(3)
        P = [('a', t), ('b', t), ('n', t)]
        lim = Bin('&', n, k3)
        d = lambda name, e, ty=t: ('decl', name, ty, e)
        add = lambda body, tag, r=t, ps=P: mk(f, r, ps, body, '%s %s' % (t, tag))
        add([d('s', N(0)), d('i', N(0)), ('while', Bin('<', i, lim), [ex(Asg(s, a, '+')), ex(Inc(i))]), ret(s)], 'while')
        add([d('s', N(0)), d('i', N(0)), ('do', [ex(Asg(s, a, '+')), ex(Inc(i))], Bin('<', i, lim)), ret(s)], 'do')
        add([d('s', a), d('i', None), ('for', Asg(i, N(0)), Bin('<', i, lim), Inc(i), [ex(Asg(s, Bin('+', Bin('*', s, k3), b)))]), ret(s)], 'for')
        add([d('s', a), d('i', None), ('for', Asg(i, lim), Bin('>', i, N(0)), Inc(i, '--'), [ex(Asg(s, b, '-'))]), ret(s)], 'for down')
        add([d('s', a), d('i', None), ('for', Asg(i, N(0)), None, Inc(i), [('if', Bin('>=', i, lim), [('break',)], None), ex(Asg(s, b, '+'))]), ret(s)], 'for break')
        add([d('s', a), d('i', None), ('for', Asg(i, N(0)), Bin('<', i, N(4)), Inc(i), [('if', Bin('==', i, lim), [('continue',)], None), ex(Asg(s, Bin('^', Bin('*', s, k3), i)))]), ret(s)], 'for continue')
        add([d('s', a), d('i', N(0)), ('while', Bin('<', Inc(i), N(4)), [('if', Bin('==', i, lim), [('continue',)], None), ex(Asg(s, Bin('+', Bin('*', s, k7), i)))]), ret(s)], 'while continue')
        add([d('s', a), d('i', N(0)), ('do', [('if', Bin('==', i, lim), [('continue',)], None), ex(Asg(s, Bin('+', Bin('*', s, k7), i)))], Bin('<', Inc(i), N(4))), ret(s)], 'do continue')
        add([d('i', None), d('t', None), ('for', Asg(i, N(0)), Bin('<', i, lim), Inc(i), [ex(Asg(v('t', t), a)), ex(Asg(a, b)), ex(Asg(b, v('t', t)))]), ret(Bin('-', Bin('*', a, k3), b))], 'swap in a loop')
        add([d('i', None), d('t', None), ('for', Asg(i, N(0)), Bin('<', i, lim), Inc(i), [ex(Asg(v('t', t), Bin('+', a, b))), ex(Asg(a, b)), ex(Asg(b, v('t', t)))]), ret(a)], 'fibonacci')
        add([d('c', N(9)), d('i', None), d('t', None), ('for', Asg(i, N(0)), Bin('<', i, lim), Inc(i), [ex(Asg(v('t', t), a)), ex(Asg(a, b)), ex(Asg(b, c)), ex(Asg(c, v('t', t)))]), ret(Bin('+', Bin('*', a, k7), Bin('-', Bin('*', b, k3), c)))], 'rotation in a loop')
        add([d('s', N(1)), d('l', None), d('i', None), ('for', Asg(i, N(0)), Bin('<', i, lim), Inc(i), [ex(Asg(v('l', t), s)), ex(Asg(s, Bin('+', s, a)))]), ('if', Bin('>', lim, N(0)), [ret(v('l', t))], None), ret(s)], 'value before the last iteration')
        add([d('i', None), d('j', None), d('s', N(0)), ('for', Asg(i, N(0)), Bin('<', i, lim), Inc(i), [('for', Asg(v('j', t), N(0)), Bin('<', v('j', t), i), Inc(v('j', t)), [ex(Asg(s, Bin('+', a, v('j', t)), '+'))])]), ret(s)], 'nested loops')
        add([d('i', None), d('j', None), d('s', N(0)), ('for', Asg(i, N(0)), Bin('<', i, N(3)), Inc(i), [('for', Asg(v('j', t), N(0)), Bin('<', v('j', t), N(3)), Inc(v('j', t)), [('if', Bin('==', v('j', t), lim), [('break',)], None), ('if', Bin('==', i, Bin('&', a, k3)), [('continue',)], None), ex(Inc(s))])]), ret(s)], 'break and continue in nested loops')
        add([d('s', a), ('block', [d('s', b), ex(Asg(s, N(5), '+')), ex(Asg(n, s))]), ret(Bin('-', s, n))], 'shadowed variable')
        add([('if', Bin('>', a, b), [d('s', Bin('-', a, b)), ret(s)], [d('s', Bin('-', b, a)), ret(Bin('*', s, k3))])], 'if else blocks')
        add([('if', a, [('if', b, [ret(N(1))], None)], [ret(N(2))]), ret(N(3))], 'dangling else')
        add([('if', Bin('<', a, N(0)), [ret(N(1))], [('if', Bin('==', a, N(0)), [ret(N(2))], [('if', Bin('<', a, b), [ret(N(3))], [ret(N(4))])])])], 'else if chain')
        add([d('s', Cond(Bin('>', a, b), a, b)), ret(Cond(Bin('>', s, n), s, n))], 'max of three')
        add([ret(Cond(Bin('>', a, b), Cond(Bin('>', a, n), a, n), Cond(Bin('>', b, n), b, n)))], 'nested ?:')
        for x in ('&&', '||'):
            for y in ('&&', '||'):
                e = Bin(x, Bin(y, a, Bin('<', b, n)), Bin('>', a, N(3)))
                add([ret(e)], '(a %s b < n) %s a > 3' % (y, x), INT)
                add([('if', e, [ret(N(1))], None), ret(N(2))], 'if (a %s b < n) %s a > 3' % (y, x))
                e = Bin(x, a, Bin(y, Un('!', b), Bin('!=', n, a)))
                add([ret(Bin('+', e, N(5)))], 'a %s (!b %s n != a)' % (x, y), INT)
                add([d('i', N(0)), ('while', Bin('&&', Bin('<', i, N(3)), e), [ex(Inc(i)), ex(Inc(b))]), ret(i)], 'while a %s (!b %s n != a)' % (x, y))
        for x in ('&&', '||'):
            add([ret(Bin(x, a, call(Cast(INT, b))))], 'a %s call' % x, INT)
            add([ret(Bin(x, call(Cast(INT, b)), a))], 'call %s a' % x, INT)
            add([('if', Bin(x, a, call(Cast(INT, b))), [ex(Asg(g, N(1)))], [ex(Asg(g, N(2)))]), ret(a)], 'if a %s call' % x)
            add([ret(Bin(x, Inc(a), Inc(b)))], 'a++ %s b++' % x, INT)
            add([ex(Bin(x, a, Asg(b, n))), ret(b)], 'a %s b = n' % x)
            add([ret(Bin(x, Bin('!=', a, N(0)), Bin('>', Bin('%', b, N(7)), N(1))))], 'guarded %s' % x, INT)
        add([ret(Bin('&&', Bin('!=', b, N(0)), Bin('>', Bin('/', Cast(UINT, a), Cast(UINT, b)), N(3))))], 'guarded division', INT, P) if t is UINT else None
        add([ret(Cond(a, call(N(1)), call(N(2))))], '?: with calls', INT)
        add([ret(Comma(Asg(b, Bin('+', a, N(1))), Bin('*', b, k3)))], 'comma')
        add([ex(Cond(a, Asg(b, N(3)), Asg(n, N(4)))), ret(Bin('-', b, n))], '?: with assignments')
        # switch
        sw = lambda cases, e=a: ('switch', e, cases)
        add([sw([(N(1), [ret(N(10))]), (N(2), [ret(N(20))]), (None, [ret(N(30))])])], 'switch')
        add([d('s', N(0)), sw([(N(1), [ex(Asg(s, N(1), '+'))]), (N(2), [ex(Asg(s, N(2), '+')), ('break',)]), (None, [ex(Asg(s, N(4), '+'))]), (N(5), [ex(Asg(s, N(8), '+'))])]), ret(s)], 'switch with fall through and default in the middle')
        add([d('s', N(0)), sw([(N(3), [ex(Asg(s, b))])]), ret(s)], 'switch without default')
        add([sw([(None, [ret(N(1))])])], 'switch with only a default')
        add([d('s', N(0)), sw([(N(1), []), (N(2), []), (N(3), [ex(Asg(s, b)), ('break',)]), (N(4), [])]), ret(s)], 'switch with shared labels')
        add([d('s', N(0)), d('i', None), ('for', Asg(i, N(0)), Bin('<', i, N(3)), Inc(i), [sw([(N(0), [('continue',)]), (N(1), [ex(Asg(s, a, '+')), ('break',)]), (None, [ex(Asg(s, b, '+'))])], Bin('+', i, Bin('&', n, N(1))))]), ret(s)], 'switch in a loop')
        add([d('s', N(0)), sw([(N(0), [sw([(N(0), [ret(N(1))]), (N(1), [ex(Asg(s, N(2))), ('break',)])], b), ex(Asg(s, N(5), '+')), ('break',)]), (N(1), [ret(N(3))]), (None, [ex(Asg(s, N(7)))])]), ret(s)], 'nested switch')
        if t.signed:
            add([sw([(N(-1), [ret(N(1))]), (N(-128), [ret(N(2))]), (N(127), [ret(N(3))]), (N(0), [ret(N(4))])]), ret(N(5))], 'switch on negative values')
        else:
            mx = (1 << t.bits) - 1
            add([sw([(N(mx, t if t.rank >= 3 else INT), [ret(N(1))]), (N(mx // 2 + 1, t if t.rank >= 3 else INT), [ret(N(2))]), (N(0), [ret(N(4))])]), ret(N(5))], 'switch on large values')
        if t in (LONG, ULONG):
            add([sw([(N(2 ** 32, LONG), [ret(N(1))]), (N(0), [ret(N(2))]), (N(2 ** 40 + 1, LONG), [ret(N(3))]), (N(1), [ret(N(4))])]), ret(N(5))], 'switch on long values')
        add([sw([(N(1), [ret(N(10))]), (N(200), [ret(N(20))]), (N(70000), [ret(N(25))]), (N(-3), [ret(N(26))]), (None, [ret(N(30))])], Bin('+', a, N(0)))], 'switch on a promoted value')
        # goto
        add([d('s', N(0)), d('i', N(0)), ('label', 'again'), ('if', Bin('<', i, lim), [ex(Asg(s, a, '+')), ex(Inc(i)), ('goto', 'again')], None), ret(s)], 'goto backwards')
        add([d('s', a), ('if', Bin('>', a, b), [('goto', 'out')], None), ex(Asg(s, b)), ('label', 'out'), ret(s)], 'goto forwards')
        add([d('i', None), d('j', None), ('for', Asg(i, N(0)), Bin('<', i, N(3)), Inc(i), [('for', Asg(v('j', t), N(0)), Bin('<', v('j', t), N(3)), Inc(v('j', t)), [('if', Bin('==', Bin('+', i, v('j', t)), lim), [('goto', 'out')], None)])]), ('label', 'out'), ret(Bin('+', Bin('*', i, k7), v('j', t)))], 'goto out of loops')
        # loops with calls and globals
        add([d('i', None), ('for', Asg(i, N(0)), Bin('<', i, lim), Inc(i), [ex(call(Cast(INT, Bin('+', i, a))))]), ret(b)], 'call in a loop')
        add([d('i', None), ('for', Asg(i, N(0)), Bin('<', i, lim), Inc(i), [ex(Asg(g, Bin('+', i, a), '+'))]), ret(b)], 'global in a loop')
        add([d('i', N(0)), ('while', Bin('<', Inc(i, '++', False), N(4)), [('if', Bin('==', call(Cast(INT, i)), N(3)), [('break',)], None)]), ret(i)], 'call decides the loop')
        p = v('p', Ptr(t))
        add([d('s', N(0)), d('i', N(0)), ('while', Bin('&&', Bin('<', i, N(3)), Index(p, i)), [ex(Asg(s, Index(p, i), '+')), ex(Inc(i))]), ret(s)], 'walk over an array', t, [('p', Ptr(t))])
        add([d('i', N(0)), ('while', Bin('<', i, lim), [ex(Asg(Index(p, i), Bin('+', a, i))), ex(Inc(i))]), ret(i)], 'fill an array', t, [('p', Ptr(t)), ('a', t), ('n', t)])
        q = v('q', Ptr(t))
        add([d('i', Bin('&', n, k3)), ('while', Inc(i, '--'), [ex(Asg(Deref(Inc(p)), Deref(Inc(q))))]), ret(Deref(v('r', Ptr(t))))], 'copy loop', t, [('p', Ptr(t)), ('q', Ptr(t)), ('n', t), ('r', Ptr(t))])
    for t in FPS:
        a, b, s, n, i = v('a', t), v('b', t), v('s', t), v('n', INT), v('i', INT)
        P = [('a', t), ('b', t), ('n', INT)]
        lim = Bin('&', n, N(3))
        add = lambda body, tag, r=t, ps=P: mk(f, r, ps, body, '%s %s' % (t, tag))
        add([('decl', 's', t, b), ('decl', 'i', INT, None), ('for', Asg(i, N(0)), Bin('<', i, lim), Inc(i), [ex(Asg(s, a, '+'))]), ret(s)], 'sum in a loop')
        add([('decl', 'i', INT, N(0)), ('decl', 't', t, None), ('while', Bin('<', i, lim), [ex(Asg(v('t', t), a)), ex(Asg(a, b)), ex(Asg(b, v('t', t))), ex(Inc(i))]), ret(a)], 'swap in a loop')
        add([('decl', 's', t, Cond(Bin('>', a, b), a, b)), ret(s)], 'max')
        add([('if', Bin('&&', Bin('<', a, b), n), [ret(a)], None), ret(b)], 'if &&')
        add([('decl', 'i', INT, N(0)), ('while', Bin('&&', Bin('<', a, b), Bin('<', i, N(3))), [ex(Asg(a, b)), ex(Inc(i))]), ret(i)], 'while compare', INT)
        add([('switch', n, [(N(0), [ret(a)]), (N(1), [ret(b)])]), ret(N(0.0, t))], 'switch')
    return [f]


class Rand:
    """Random structured functions without unspecified evaluation order."""
    def __init__(self, rng, fam, types, fp=False):
        self.r, self.f, self.types = rng, fam, types
        self.fp = fp
        self.scope, self.n, self.budget = [], 0, 1
        self.ro = set()
        self.calls = 0
        self.limit = 10
        self.inloop = 0

    def const(self, t):
        r = self.r
        if isinstance(t, Fp):
            return Num(r.choice([0.5, 1.0, 2.0, -3.0, 0.1, 100.0]), t)
        if r.random() < .6:
            x = r.randrange(-20, 100)
        else:
            x = r.choice([0, 1, -1, 127, 128, 255, 256, 32767, 65535, 65536, 2 ** 31 - 1, -2 ** 31, 2 ** 32, 2 ** 40, 2 ** 63 - 1])
        t = t if t.rank >= 3 else INT
        x &= (1 << t.bits) - 1
        if t.signed and x >> (t.bits - 1):
            x -= 1 << t.bits
        return Num(x, t)

    def var(self, pred=lambda t: True):
        c = [x for x in self.scope if pred(x.ty)]
        return self.r.choice(c) if c else None

    def leaf(self):
        r = self.r
        x = self.var(is_arith)
        if x is None or r.random() < .2:
            return self.const(r.choice(self.types))
        return x

    def expr(self, d):
        r = self.r
        if d <= 0 or r.random() < .15:
            return self.leaf()
        k = r.random()
        if k < .55:
            a, b = self.expr(d - 1), self.expr(d - 1)
            fp = isinstance(a.ty, Fp) or isinstance(b.ty, Fp)
            op = r.choice(['+', '-', '+', '-', '*'] if fp else ['+', '-', '&', '|', '^', '+', '-', '<<', '>>', '*', '/', '%'])
            if fp:
                if isinstance(b, Num) and op == '*' and b.v == 0:
                    op = '+'
                return Bin(op, a, b)
            if op in ('<<', '>>'):
                return Bin(op, a, Num(r.randrange(promote(a.ty).bits)))
            if op == '*':
                return Bin(op, a, Num(r.choice([2, 3, 5, 7, 8, 10, 16, -1, -3])))
            if op == '/':
                return Bin(op, a, Num(r.choice([2, 3, 4, 7, 10, 16])))
            if op == '%':
                return Bin(op, Cast(UINT, a), Num(r.choice([2, 3, 7, 8, 10]), UINT))
            return Bin(op, a, b)
        if k < .65:
            a = self.expr(d - 1)
            return Un(r.choice(['-', '~', '!'] if isinstance(a.ty, Int) else ['-', '!']), a)
        if k < .8:
            return Bin(r.choice(CMP + LOG), self.expr(d - 1), self.expr(d - 1))
        if k < .9:
            t = r.choice(self.types)
            a = self.expr(d - 1)
            if isinstance(a.ty, Fp) and isinstance(t, Int):
                return Cast(t, Bin('!=', a, Num(1.0, a.ty)))
            return Cast(t, a)
        return Cond(self.expr(d - 1), self.expr(d - 1), self.expr(d - 1))

    def conv(self, e, t):
        if isinstance(e.ty, Fp) and isinstance(t, Int):
            return Bin('>', e, Num(2.0, e.ty))
        return e

    def cost(self, n):
        if self.budget * n > self.limit:
            return False
        self.budget *= n
        return True

    def call(self):
        r = self.r
        t = [r.choice(self.types) for _ in range(r.choice([0, 1, 2, 3, 4, 6, 8]))]
        rt = r.choice(self.types + [VOID])
        k = 'x%s_%s' % (short(rt) if rt is not VOID else 'v', ''.join(short(x) for x in t))
        fn = self.f.ext(k, self.f.prog.externs.get(k) or Fn(rt, t))
        self.calls += 1
        return Call(fn, [self.conv(self.expr(1), x) for x in t])

    def stmts(self, d, n):
        out, decls = [], []
        mark = len(self.scope)
        for _ in range(self.r.randrange(0, 3) if d < self.depth else 0):
            t = self.r.choice(self.types)
            self.n += 1
            x = v('v%d' % self.n, t)
            decls.append(('decl', x.name, t, self.conv(self.expr(2), t)))
            self.scope.append(x)
        for _ in range(n):
            out.append(self.stmt(d))
        del self.scope[mark:]
        return decls + out

    def target(self):
        c = [x for x in self.scope if is_arith(x.ty) and x.name not in self.ro]
        return self.r.choice(c)

    def stmt(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < .45:
            x = self.target()
            e = self.conv(self.expr(r.choice([1, 2, 2, 3])), x.ty)
            op = r.choice(['', '', '', '+', '-', '^', '|', '&'] if isinstance(x.ty, Int) else ['', '', '+', '-'])
            if op in '^|&' and op and isinstance(e.ty, Fp):
                op = ''
            if isinstance(x.ty, Int) and isinstance(e.ty, Fp):
                op = ''
            return ex(Asg(x, e, op))
        if k < .5:
            x = self.target()
            return ex(Inc(x, r.choice(['++', '--']), r.random() < .5))
        if k < .62:
            c = self.call()
            x = self.target()
            if isinstance(c.ty, Void) or isinstance(c.ty, Fp) and isinstance(x.ty, Int):
                return ex(c)
            return ex(Asg(x, c))
        if k < .8 and self.cost(2):
            return ('if', self.expr(2), self.stmts(d - 1, r.randrange(1, 3)), self.stmts(d - 1, r.randrange(1, 3)) if r.random() < .6 else None)
        if k < .92:
            m = r.choice([1, 3])
            if self.cost(m + 1):
                self.n += 1
                t = r.choice([x for x in self.types if isinstance(x, Int)])
                i = v('i%d' % self.n, t)
                src = self.var(lambda t: isinstance(t, Int)) or self.const(INT)
                self.scope.append(i)
                self.ro.add(i.name)
                self.n += 1
                lim = v('n%d' % self.n, INT)
                self.inloop += 1
                body = self.stmts(d - 1, r.randrange(1, 4))
                if r.random() < .3 and self.cost(2):
                    body.append(('if', self.expr(1), [(r.choice(['break', 'continue']),)], None))
                    if r.random() < .5:
                        body.append(self.stmt(0))
                self.inloop -= 1
                self.scope.pop()
                kind = r.choice(['for', 'while', 'do'])
                inner = {'for': ('for', Asg(i, Num(0)), Bin('<', i, lim), Inc(i), body),
                         'while': ('while', Bin('<', Inc(i), lim), body),
                         'do': ('do', body, Bin('<', Inc(i, '++', False), lim))}[kind]
                return ('block', [('decl', lim.name, INT, Bin('&', src, Num(m))), ('decl', i.name, t, Num(0)), inner])
        if self.cost(4):
            e = self.var(lambda t: isinstance(t, Int)) or self.const(INT)
            vals = r.sample([0, 1, 2, 3, 5, 10, 100], 3)
            cs = []
            for x in vals + [None]:
                b = self.stmts(d - 1, r.randrange(1, 3))
                if r.random() < .7:
                    b.append(('break',))
                cs.append((None if x is None else Num(x), b))
            if r.random() < .5:
                r.shuffle(cs)
            return ('switch', e, cs)
        x = self.target()
        return ex(Asg(x, self.conv(self.expr(2), x.ty)))

    def function(self, depth, nstmts, nparams, tag):
        r = self.r
        self.scope, self.budget, self.n, self.calls, self.ro, self.depth = [], 1, 0, 0, set(), depth + 1
        ps = []
        for i in range(nparams):
            t = r.choice(self.types)
            ps.append(('a%d' % i, t))
            self.scope.append(v('a%d' % i, t))
        for g, t in self.f.prog.globals.items():
            if r.random() < .5:
                self.scope.append(v(g, t))
        if not self.scope:
            ps.append(('a0', INT))
            self.scope.append(v('a0', INT))
        decls = []
        for i in range(r.randrange(1, 4)):
            t = r.choice(self.types)
            x = v('l%d' % i, t)
            decls.append(('decl', x.name, t, self.conv(self.expr(2), t)))
            self.scope.append(x)
        body = [self.stmt(depth) for _ in range(nstmts)]
        rt = r.choice(self.types)
        return self.f.add(rt, ps, decls + body + [ret(self.conv(self.expr(3), rt))], tag)


def flow_random(tier='quick', seed=1):
    out = []
    n = 100 if tier == 'quick' else 600
    for k in range(4):
        rng = random.Random(seed * 1000 + k)
        f = Fam('flow-random-%d' % k)
        types = [[INT, LONG], INTS, [CHAR, SHORT, INT, UINT], [INT, UINT, LONG, ULONG]][k]
        for t in (INT, LONG, UCHAR):
            f.glob('g_' + short(t), t)
        R = Rand(rng, f, types)
        f.chunk = 10
        for i in range(n):
            R.function(rng.choice([1, 2, 2, 3]), rng.randrange(2, 6), rng.randrange(1, 6), 'random %d' % i)
        out.append(f)
    return out
