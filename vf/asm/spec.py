"""Meaning of the C subset (the contract side) and the System V calling convention (how machine state and C values correspond)."""
import z3
from .mem import *
from .x86 import Infeasible, RNE, RTZ, TooManyPaths, Fault, SUB, R64
from .lang import *

IREGS = ['rdi', 'rsi', 'rdx', 'rcx', 'r8', 'r9']


# set while a function with the listed finding x87-struct-return is checked
X87_STRUCT_MEMORY = [False]


def classify(t):
    """Classes of the eightbytes of a type: list of INTEGER/SSE, or 'MEMORY', or 'X87'."""
    if isinstance(t, (Int, Ptr)):
        return ['INTEGER']
    if t is LDOUBLE:
        return 'X87'
    if isinstance(t, Fp):
        return ['SSE']
    if t.size > 16:
        return 'MEMORY'
    cl = [None] * ((t.size + 7) // 8)
    fl = flat(t)
    if any(y is LDOUBLE for _, y in fl):
        return 'X87' if len(fl) == 1 and not X87_STRUCT_MEMORY[0] else 'MEMORY'
    for off, y in fl:
        if off % y.align:
            return 'MEMORY'
        k = 'SSE' if isinstance(y, Fp) else 'INTEGER'
        i = off // 8
        cl[i] = k if cl[i] in (None, k) else 'INTEGER'
    return [c or 'SSE' for c in cl]


def arg_slots(types, ret, fixed=None):
    """Location of every argument: ('int', reg) ('sse', n) ('split', [slots]) ('stack', offset). Also stack bytes and number of SSE registers."""
    ni, ns, st = 0, 0, 0
    out = []
    if not isinstance(ret, Void) and isinstance(ret, Struct) and (classify(ret) == 'MEMORY'):
        ni = 1
    for t in types:
        c = classify(t)
        if isinstance(c, list):
            wi, ws = c.count('INTEGER'), c.count('SSE')
            if ni + wi <= 6 and ns + ws <= 8:
                slots = []
                for k in c:
                    if k == 'INTEGER':
                        slots.append(('int', IREGS[ni])); ni += 1
                    else:
                        slots.append(('sse', ns)); ns += 1
                out.append(slots)
                continue
        a = 16 if t.align > 8 else 8
        st = (st + a - 1) // a * a
        out.append([('stack', st)])
        st += (t.size + 7) // 8 * 8
    return out, st, ns


def pad(bv, n, fresh):
    return bv if bv.size() == n else simp(z3.Concat(fresh(n - bv.size()), bv))


def to_bits(t, v):
    """Bits of a C value."""
    return fp_to_bv(v) if isinstance(t, Fp) else v


def from_bits(t, b):
    return bv_to_fp(b, t.sort) if isinstance(t, Fp) else b


def nbits(t):
    return 80 if t is LDOUBLE else 8 * t.size


def unsigned_to_fp_big(v, s):
    """Conversion of v >= 2^63 (lemma)."""
    if s == X:
        return simp(fadd(RNE, z3.fpSignedToFP(RNE, v, s), simp(z3.fpToFP(RNE, z3.RealVal(2 ** 64), s))))
    h = simp(z3.fpSignedToFP(RNE, simp(z3.LShR(v, 1) | (v & 1)), s))
    return simp(fadd(RNE, h, h))


def fp_to_unsigned_big(v, two63):
    """Conversion of 2^63 <= v < 2^64 to an unsigned long (lemma)."""
    return simp(z3.fpToSBV(RTZ, simp(z3.fpSub(RNE, v, two63)), BV(64)) ^ z3.BitVecVal(2 ** 63, 64))


def lemmas():
    """[(name, hypothesis, conclusion)] about the conversions between unsigned long and floating point."""
    out = []
    for s in (S, D, X):
        v = z3.BitVec('v', 64)
        out.append(('unsigned long below 2^63 to %s' % s, v >= 0, z3.fpUnsignedToFP(RNE, v, s) == z3.fpSignedToFP(RNE, v, s)))
        out.append(('unsigned long from 2^63 to %s' % s, v < 0, z3.fpUnsignedToFP(RNE, v, s) == unsigned_to_fp_big(v, s)))
        f = z3.FP('f', s)
        two63 = z3.fpToFP(RNE, z3.RealVal(2 ** 63), s)
        out.append(('%s below 2^63 to unsigned long' % s, z3.And(z3.fpLT(f, two63), z3.fpGT(f, z3.FPVal(-1.0, s))), z3.fpToUBV(RTZ, f, BV(64)) == z3.fpToSBV(RTZ, f, BV(64))))
        out.append(('%s from 2^63 to unsigned long' % s, z3.And(z3.fpGEQ(f, two63), z3.fpLT(f, z3.fpToFP(RNE, z3.RealVal(2 ** 64), s))), z3.fpToUBV(RTZ, f, BV(64)) == fp_to_unsigned_big(f, two63)))
    return out


def convert(v, a, b, path):
    """Value v of type a converted to type b; conversions that are not defined end the path."""
    if isinstance(b, Void):
        return v
    if isinstance(a, (Arr, Struct)) or isinstance(b, Struct):
        return v
    if isinstance(a, Ptr):
        a = ULONG
    if isinstance(b, Ptr):
        b = ULONG
    if a is b:
        return v
    if isinstance(a, Int) and isinstance(b, Int):
        if b.bits <= a.bits:
            return simp(z3.Extract(b.bits - 1, 0, v)) if b.bits < a.bits else v
        return simp((z3.SignExt if a.signed else z3.ZeroExt)(b.bits - a.bits, v))
    if isinstance(a, Int):
        if a is ULONG:
            # by the lemmas of lemmas.py; their case split is the one machine code without an unsigned conversion has to make
            if z3.is_bv_value(v):
                return simp(z3.fpUnsignedToFP(RNE, v, b.sort))
            if path.branch(v >= 0):
                return simp(z3.fpSignedToFP(RNE, v, b.sort))
            return unsigned_to_fp_big(v, b.sort)
        w = v if a.bits == 64 else (z3.SignExt if a.signed else z3.ZeroExt)(64 - a.bits, v)
        return simp(z3.fpSignedToFP(RNE, simp(w), b.sort))
    if isinstance(b, Int):
        s = a.sort
        lo, hi = (-(2 ** (b.bits - 1)), 2 ** (b.bits - 1)) if b.signed else (0, 2 ** b.bits)

        def c(x):
            return z3.fpToFP(RNE, z3.RealVal(x), s)
        # -1 < x for the unsigned types; for signed types x > lo - 1 where that is representable, else x >= lo
        exact = (b.bits <= 16) or (b.bits == 32 and s != S) or (s == X)
        low = z3.fpGT(v, simp(c(lo - 1))) if (exact or not b.signed) else z3.fpGEQ(v, simp(c(lo)))
        path.assume(z3.And(low, z3.fpLT(v, simp(c(hi)))))
        if b is ULONG:
            two63 = simp(c(2 ** 63))
            if path.branch(z3.fpLT(v, two63)):
                return simp(z3.fpToSBV(RTZ, v, BV(64)))
            return fp_to_unsigned_big(v, two63)
        return simp(z3.Extract(b.bits - 1, 0, z3.fpToSBV(RTZ, v, BV(64))))
    return simp(z3.fpFPToFP(RNE, v, b.sort))


class Ret(Exception):
    pass


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Goto(Exception):
    pass


def walk(x, f):
    if isinstance(x, E):
        f(x)
        for k in x.kids():
            walk(k, f)
    elif isinstance(x, (list, tuple)):
        for y in x:
            walk(y, f)


class Spec:
    def __init__(self, prog, func, path, mem, events, compare):
        self.prog, self.func, self.path, self.mem = prog, func, path, mem
        self.events, self.compare = events, compare
        self.ncalls = 0
        self.vars, self.types = {}, {}
        self.inmem = set()
        self.escaped = []
        self.scope_n = 0

        def f(x):
            if isinstance(x, Addr):
                y = x.e
                while isinstance(y, Mem_) and not y.arrow:
                    y = y.e
                if isinstance(y, Var):
                    self.inmem.add(y.name)
        walk([s for s in func.body], f)

    # ---- variables
    def declare(self, name, ty):
        self.types[name] = ty
        if isinstance(ty, (Arr, Struct)) or name in self.inmem:
            self.scope_n += 1
            b = z3.BitVec('&loc:%s:%d' % (name, self.scope_n), 64)
            self.mem.add_base(b, 'loc:%s:%d' % (name, self.scope_n))
            self.vars[name] = ('mem', b)
        else:
            self.vars[name] = ('val', None)

    def setvar(self, name, v):
        k = self.vars[name]
        if k[0] == 'mem':
            self.store(k[1], self.types[name], v)
        else:
            self.vars[name] = ('val', v)

    def load(self, a, t):
        if isinstance(t, (Arr, Fn)):
            return a
        if isinstance(t, Struct):
            return self.mem.read(a, t.size)
        return from_bits(t, self.mem.read(a, 10 if t is LDOUBLE else t.size))

    def store(self, a, t, v):
        r, off = self.mem.locate(a)
        if isinstance(t, Struct):
            r.write(off, t.size, v)
            cov = set()
            for o, y in flat(t):
                cov.update(range(o, o + (10 if y is LDOUBLE else y.size)))
            for o in range(t.size):
                if o not in cov:
                    r.dontcare.append((off, o, 1))
            return
        n = 10 if t is LDOUBLE else t.size
        r.write(off, n, simp(to_bits(t, v)))
        if n == 10:
            r.dontcare.append((off, 10, 6))

    # ---- lvalues: ('var', name) or (address, type, field)
    def lval(self, e):
        if isinstance(e, Var):
            if e.name in self.vars:
                k = self.vars[e.name]
                return ('var', e.name) if k[0] == 'val' else (k[1], e.ty, None)
            return (z3.BitVec('&' + e.name, 64), e.ty, None)
        if isinstance(e, Deref):
            return (self.ev(e.e), e.ty, None)
        if isinstance(e, Index):
            return (self.ptradd(self.ev(e.a), rv(e.a.ty), self.ev(e.i), rv(e.i.ty), e.i.width), e.ty, None)
        if isinstance(e, Mem_):
            if e.arrow:
                a = self.ev(e.e)
            else:
                l = self.lval(e.e)
                a = l[0]
            return (simp(a + e.f.off), e.ty, e.f)
        raise Unsupported('lvalue %s' % type(e).__name__)

    def ptradd(self, p, pt, i, it, width=None, neg=False):
        it2 = promote(it, width)
        i = convert(i, it, it2, self.path)
        x = convert(i, it2, LONG, self.path)
        sz = pt.to.size
        d = x * sz
        return simp(p - d if neg else p + d)

    def getl(self, l):
        if isinstance(l[0], str) and l[0] == 'var':
            v = self.vars[l[1]][1]
            if v is None:
                raise Unsupported('uninitialised %s' % l[1])
            return v
        a, t, f = l
        if f is not None and f.width is not None:
            u = self.mem.read(a, t.size)
            b = z3.Extract(f.bit + f.width - 1, f.bit, u)
            return simp((z3.SignExt if t.signed else z3.ZeroExt)(t.bits - f.width, b)) if f.width < t.bits else simp(b)
        return self.load(a, t)

    def setl(self, l, v):
        """Stores and returns the value of the assignment."""
        if isinstance(l[0], str):
            self.setvar(l[1], v)
            return v
        a, t, f = l
        if f is not None and f.width is not None:
            # only the bytes the field lies in change
            lo, hi = f.bit // 8, (f.bit + f.width + 7) // 8
            for k in range(lo, hi):
                pass
            u = self.mem.read(a, t.size)
            m = ((1 << f.width) - 1) << f.bit
            u = simp((u & z3.BitVecVal(~m, t.bits)) | ((v << f.bit) & z3.BitVecVal(m, t.bits)))
            for k in range(lo, hi):
                self.mem.write(simp(a + k), 1, z3.Extract(8 * k + 7, 8 * k, u))
            b = z3.Extract(f.width - 1, 0, v)
            return simp((z3.SignExt if t.signed else z3.ZeroExt)(t.bits - f.width, b)) if f.width < t.bits else v
        self.store(a, t, v)
        return v

    # ---- expressions
    def truth(self, e):
        if isinstance(e, Bin) and e.op in ('==', '!=', '<', '>', '<=', '>='):
            return self.rel(e)
        if isinstance(e, Un) and e.op == '!':
            return z3.Not(self.truth(e.e))
        if isinstance(e, Bin) and e.op in ('&&', '||'):
            a = self.truth(e.a)
            if e.b.pure():
                b = self.truth(e.b)
                return z3.And(a, b) if e.op == '&&' else z3.Or(a, b)
            if self.path.branch(a):
                return self.truth(e.b) if e.op == '&&' else z3.BoolVal(True)
            return z3.BoolVal(False) if e.op == '&&' else self.truth(e.b)
        return self.nz(self.ev(e), rv(e.ty))

    def nz(self, v, t):
        if isinstance(t, Fp):
            return z3.Not(z3.fpIsZero(v))
        return v != 0

    def rel(self, e):
        a, b = self.ev(e.a), self.ev(e.b)
        ta, tb = rv(e.a.ty), rv(e.b.ty)
        if is_arith(ta) and is_arith(tb):
            t = usual(promote(ta, e.a.width), promote(tb, e.b.width))
            a, b = convert(a, ta, t, self.path), convert(b, tb, t, self.path)
        else:
            t = ULONG
            a, b = convert(a, ta, ULONG if isinstance(ta, Ptr) else ta, self.path), convert(b, tb, tb, self.path)
            if a.size() != 64:
                a = convert(a, ta, LONG, self.path)
            if b.size() != 64:
                b = convert(b, tb, LONG, self.path)
        if isinstance(t, Fp):
            f = {'==': z3.fpEQ, '!=': lambda x, y: z3.Not(z3.fpEQ(x, y)), '<': z3.fpLT, '>': z3.fpGT, '<=': z3.fpLEQ, '>=': z3.fpGEQ}[e.op]
            return f(a, b)
        if t.signed:
            return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[e.op]
        return {'==': a == b, '!=': a != b, '<': z3.ULT(a, b), '>': z3.UGT(a, b), '<=': z3.ULE(a, b), '>=': z3.UGE(a, b)}[e.op]

    def arith(self, op, a, ta, b, tb, t):
        """a op b carried out in type t (operands of ta, tb; shifts: t is the promoted left type)."""
        p = self.path
        if op in ('<<', '>>'):
            a = convert(a, ta, t, p)
            tb2 = promote(tb)
            b = convert(b, tb, tb2, p)
            p.assume(z3.And(z3.ULT(b, t.bits)))
            b = convert(b, tb2, t, p) if tb2.bits != t.bits else b
            return simp(a << b if op == '<<' else a >> b if t.signed else z3.LShR(a, b))
        a, b = convert(a, ta, t, p), convert(b, tb, t, p)
        if isinstance(t, Fp):
            return simp({'+': fadd, '-': z3.fpSub, '*': fmul, '/': z3.fpDiv}[op](RNE, a, b))
        if op in ('/', '%'):
            p.assume(b != 0)
            if t.signed:
                p.assume(z3.Not(z3.And(b == -1, a == 1 << (t.bits - 1))))
                return simp(a / b if op == '/' else z3.SRem(a, b))
            return simp(z3.UDiv(a, b) if op == '/' else z3.URem(a, b))
        return simp({'+': a + b, '-': a - b, '*': a * b, '&': a & b, '|': a | b, '^': a ^ b}[op])

    def b2i(self, c):
        return simp(z3.If(c, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))

    def ev(self, e):
        p = self.path
        if isinstance(e, Num):
            if isinstance(e.ty, Fp):
                return simp(z3.fpToFP(RNE, z3.RealVal(repr(float(e.v))), e.ty.sort))
            return z3.BitVecVal(e.v, e.ty.bits if isinstance(e.ty, Int) else 64)
        if isinstance(e, SizeOf):
            t = e.what if isinstance(e.what, Ty) else e.what.ty
            return z3.BitVecVal(t.size, 64)
        if isinstance(e, Var) and isinstance(e.ty, (Arr, Fn)):
            if e.name in self.vars:
                return self.vars[e.name][1]
            return z3.BitVec('&' + e.name, 64)
        if isinstance(e, Mem_) and not e.arrow and not e.e.lv:
            # member of a struct value
            v = self.ev(e.e)
            f = e.f
            if f.width is not None:
                raise Unsupported('bit-field of a struct value')
            n = nbits(f.ty)
            return from_bits(f.ty, simp(z3.Extract(8 * f.off + n - 1, 8 * f.off, v)))
        if isinstance(e, Deref) and isinstance(e.ty, Fn):
            return self.ev(e.e)
        if e.lv:
            return self.getl(self.lval(e))
        if isinstance(e, Addr):
            if isinstance(e.e.ty, Fn):
                return self.ev(e.e)
            return self.lval(e.e)[0]
        if isinstance(e, Un):
            if e.op == '!':
                return self.b2i(z3.Not(self.truth(e.e)))
            v = convert(self.ev(e.e), rv(e.e.ty), e.ty, p)
            if isinstance(e.ty, Fp):
                return simp(z3.fpMul(RNE, v, z3.FPVal(-1.0, e.ty.sort))) if e.op == '-' else v
            return simp({'-': -v, '~': ~v, '+': v}[e.op])
        if isinstance(e, Bin):
            if e.op in ('&&', '||', '==', '!=', '<', '>', '<=', '>='):
                return self.b2i(self.truth(e))
            ta, tb = rv(e.a.ty), rv(e.b.ty)
            a, b = self.ev(e.a), self.ev(e.b)
            if isinstance(ta, Ptr) and isinstance(tb, Ptr):
                d = simp(a - b)
                sz = ta.to.size
                # both point into the same object: the difference is a multiple of the size
                if sz > 1:
                    p.assume(z3.SRem(d, z3.BitVecVal(sz, 64)) == 0)
                return simp(d / z3.BitVecVal(sz, 64))
            if isinstance(ta, Ptr):
                return self.ptradd(a, ta, b, tb, e.b.width, e.op == '-')
            if isinstance(tb, Ptr):
                return self.ptradd(b, tb, a, ta, e.a.width)
            if e.a.width:
                a, ta = convert(a, ta, promote(ta, e.a.width), p), promote(ta, e.a.width)
            if e.b.width:
                b, tb = convert(b, tb, promote(tb, e.b.width), p), promote(tb, e.b.width)
            return self.arith(e.op, a, ta, b, tb, e.ty)
        if isinstance(e, Cond):
            q = self.truth(e.q)
            if isinstance(e.ty, (Int, Fp)) and e.a.pure() and e.b.pure():
                a = convert(self.ev(e.a), rv(e.a.ty), e.ty, p)
                b = convert(self.ev(e.b), rv(e.b.ty), e.ty, p)
                return simp(z3.If(q, a, b))
            k = e.a if p.branch(q) else e.b
            if isinstance(e.ty, Void):
                self.ev(k)
                return None
            return convert(self.ev(k), rv(k.ty) if not isinstance(e.ty, Ptr) or isinstance(rv(k.ty), Ptr) else LONG if isinstance(k.ty, Int) and k.ty.bits == 64 else k.ty, e.ty, p)
        if isinstance(e, Cast):
            v = self.ev(e.e)
            if isinstance(e.ty, Void):
                return None
            t = rv(e.e.ty)
            if isinstance(t, Int) and e.e.width:
                pass
            return convert(v, t, e.ty, p)
        if isinstance(e, Asg):
            if isinstance(e.ty, Struct):
                v = self.ev(e.e)
                l = self.lval(e.lhs)
                return self.setl(l, v)
            if not e.op:
                v = convert(self.ev(e.e), rv(e.e.ty), e.ty, p)
                l = self.lval(e.lhs)
                return self.setl(l, v)
            l = self.lval(e.lhs)
            b = self.ev(e.e)
            a = self.getl(l)
            tb = rv(e.e.ty)
            if isinstance(e.ty, Ptr):
                return self.setl(l, self.ptradd(a, e.ty, b, tb, e.e.width, e.op == '-'))
            ta = e.ty
            pa, pb = promote(ta, e.lhs.width), promote(tb, e.e.width)
            t = pa if e.op in ('<<', '>>') else usual(pa, pb)
            r = self.arith(e.op, convert(a, ta, pa, p), pa, convert(b, tb, pb, p), pb, t)
            return self.setl(l, convert(r, t, ta, p))
        if isinstance(e, Inc):
            l = self.lval(e.lhs)
            a = self.getl(l)
            d = 1 if e.op == '++' else -1
            if isinstance(e.ty, Ptr):
                r = simp(a + d * e.ty.to.size)
            elif isinstance(e.ty, Fp):
                r = simp((fadd if d > 0 else z3.fpSub)(RNE, a, z3.FPVal(1.0, e.ty.sort)))
            else:
                r = simp(a + d)
            x = self.setl(l, r)
            return a if e.post else x
        if isinstance(e, Comma):
            self.ev(e.a)
            return self.ev(e.b)
        if isinstance(e, Call):
            return self.call(e)
        raise Unsupported('expression %s' % type(e).__name__)

    def call(self, e):
        fv = self.ev(e.fn)
        args = []
        ft = e.fty
        for i, a in enumerate(e.args):
            v = self.ev(a)
            ta = rv(a.ty)
            if i < len(ft.params):
                t = rv(ft.params[i])
                v = convert(v, ta, t, self.path)
            else:
                t = DOUBLE if ta is FLOAT else promote(ta, a.width) if isinstance(ta, Int) else ta
                v = convert(v, ta, t, self.path)
            args.append((t, v))
        return self.compare(self, fv, ft, args)

    # ---- statements
    def block(self, ss):
        saved = (dict(self.vars), dict(self.types))
        names = [s[1] for s in ss if s[0] == 'decl']
        i = 0
        labels = {s[1]: k for k, s in enumerate(ss) if s[0] == 'label'}
        while i < len(ss):
            try:
                self.stmt(ss[i])
                i += 1
            except Goto as g:
                if g.args[0] not in labels:
                    raise
                i = labels[g.args[0]]
                self.tick()
        for n in names:
            if n in saved[0]:
                self.vars[n], self.types[n] = saved[0][n], saved[1][n]
            else:
                del self.vars[n]

    def tick(self):
        self.path.fuel -= 20
        if self.path.fuel < 0:
            raise TooManyPaths('path too long')

    def init(self, a, t, x):
        """Initialises the object at address a (already zeroed)."""
        if isinstance(x, list):
            if isinstance(t, Arr):
                for i, y in enumerate(x):
                    self.init(simp(a + i * t.to.size), t.to, y)
            else:
                for f, y in zip(t.fields.values(), x):
                    if f.width is not None:
                        self.setl((simp(a + f.off), f.ty, f), convert(self.ev(y), rv(y.ty), f.ty, self.path))
                    else:
                        self.init(simp(a + f.off), f.ty, y)
        else:
            self.store(a, t, convert(self.ev(x), rv(x.ty), t, self.path))

    def stmt(self, s):
        k, p = s[0], self.path
        if k == 'expr':
            self.ev(s[1])
        elif k == 'decl':
            self.declare(s[1], s[2])
            if s[3] is not None:
                if isinstance(s[3], list):
                    if self.vars[s[1]][0] != 'mem':
                        raise Unsupported('scalar init list')
                    b = self.vars[s[1]][1]
                    r, _ = self.mem.locate(b)
                    r.write(0, s[2].size, z3.BitVecVal(0, 8 * s[2].size))
                    self.init(b, s[2], s[3])
                else:
                    self.setvar(s[1], convert(self.ev(s[3]), rv(s[3].ty), s[2], p))
        elif k == 'if':
            if p.branch(self.truth(s[1])):
                self.block(s[2])
            elif s[3]:
                self.block(s[3])
        elif k == 'while':
            while p.branch(self.truth(s[1])):
                self.tick()
                try:
                    self.block(s[2])
                except Brk:
                    break
                except Cont:
                    pass
        elif k == 'do':
            while True:
                self.tick()
                try:
                    self.block(s[1])
                except Brk:
                    break
                except Cont:
                    pass
                if not p.branch(self.truth(s[2])):
                    break
        elif k == 'for':
            if s[1]:
                self.ev(s[1])
            while s[2] is None or p.branch(self.truth(s[2])):
                self.tick()
                try:
                    self.block(s[4])
                except Brk:
                    break
                except Cont:
                    pass
                if s[3]:
                    self.ev(s[3])
        elif k == 'switch':
            t = promote(rv(s[1].ty), s[1].width)
            v = convert(self.ev(s[1]), rv(s[1].ty), t, p)
            start = None
            for i, (c, _) in enumerate(s[2]):
                if c is not None and p.branch(v == convert(self.ev(c), c.ty, t, p)):
                    start = i
                    break
            if start is None:
                start = next((i for i, (c, _) in enumerate(s[2]) if c is None), None)
            if start is not None:
                try:
                    for _, b in s[2][start:]:
                        self.block(b)
                except Brk:
                    pass
        elif k == 'break':
            raise Brk
        elif k == 'continue':
            raise Cont
        elif k == 'return':
            raise Ret(None if s[1] is None else convert(self.ev(s[1]), rv(s[1].ty), self.func.ret, p))
        elif k == 'block':
            self.block(s[1])
        elif k == 'goto':
            raise Goto(s[1])
        elif k == 'label':
            pass
        else:
            raise Unsupported(k)

    def run(self):
        try:
            self.block(self.func.body)
        except Ret as r:
            return r.args[0]
        return None
