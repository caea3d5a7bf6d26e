"""A typed C subset: abstract syntax, C text, and its meaning (the specification side), independent of the compiler.
The meaning of a function is executed symbolically along the paths its machine code can take."""
import z3
from .mem import *
from .x86 import Infeasible, RNE, RTZ, TooManyPaths


class Ty:
    pass


class Int(Ty):
    def __init__(self, name, bits, signed, rank):
        self.name, self.bits, self.signed, self.rank = name, bits, signed, rank
        self.size = self.align = bits // 8

    def __repr__(self):
        return self.name


class Fp(Ty):
    def __init__(self, name, size, sort, rank):
        self.name, self.size, self.align, self.sort, self.rank = name, size, size, sort, rank

    def __repr__(self):
        return self.name


class Ptr(Ty):
    size = align = 8

    def __init__(self, to):
        self.to = to

    def __repr__(self):
        return decl(self, '').strip()


class Arr(Ty):
    def __init__(self, to, n):
        self.to, self.n = to, n
        self.size, self.align = to.size * n, to.align


class Void(Ty):
    size = align = 1
    name = 'void'


class Fn(Ty):
    size = align = 1

    def __init__(self, ret, params, variadic=False):
        self.ret, self.params, self.variadic = ret, params, variadic


class Field:
    def __init__(self, name, ty, off, bit=None, width=None):
        self.name, self.ty, self.off, self.bit, self.width = name, ty, off, bit, width


class Struct(Ty):
    """Layout by the System V ABI."""
    def __init__(self, name, members, union=False, packed=False):
        self.name, self.union = name, union
        self.fields = {}
        self.members = members
        bit, align = 0, 1
        top = 0
        for m in members:
            nm, ty, w = m if len(m) == 3 else (*m, None)
            a = 1 if packed else ty.align
            if union:
                bit = 0
            if w is None:
                bit = (bit + 8 * a - 1) // (8 * a) * (8 * a)
                self.fields[nm] = Field(nm, ty, bit // 8)
                bit += 8 * ty.size
                align = max(align, a)
            else:
                if w == 0:
                    bit = (bit + 8 * ty.align - 1) // (8 * ty.align) * (8 * ty.align)
                    continue
                if bit // (8 * ty.size) != (bit + w - 1) // (8 * ty.size):
                    bit = (bit + 8 * ty.size - 1) // (8 * ty.size) * (8 * ty.size)
                if nm:
                    self.fields[nm] = Field(nm, ty, bit // (8 * ty.size) * ty.size, bit % (8 * ty.size), w)
                    align = max(align, ty.align)
                bit += w
            top = max(top, bit)
        self.align = align
        self.size = (top + 8 * align - 1) // (8 * align) * align

    def flat(self, base=0):
        """[(offset, scalar type)] of all scalars (bit-fields as their storage unit)."""
        out = []
        for f in self.fields.values():
            out += flat(f.ty, base + f.off)
        return out

    def __repr__(self):
        return ('union ' if self.union else 'struct ') + self.name


def flat(t, base=0):
    if isinstance(t, Struct):
        return t.flat(base)
    if isinstance(t, Arr):
        return [x for i in range(t.n) for x in flat(t.to, base + i * t.to.size)]
    return [(base, t)]


CHAR, UCHAR = Int('char', 8, True, 1), Int('unsigned char', 8, False, 1)
SHORT, USHORT = Int('short', 16, True, 2), Int('unsigned short', 16, False, 2)
INT, UINT = Int('int', 32, True, 3), Int('unsigned int', 32, False, 3)
LONG, ULONG = Int('long', 64, True, 4), Int('unsigned long', 64, False, 4)
FLOAT, DOUBLE, LDOUBLE = Fp('float', 4, S, 1), Fp('double', 8, D, 2), Fp('long double', 16, X, 3)
VOID = Void()
INTS = [CHAR, UCHAR, SHORT, USHORT, INT, UINT, LONG, ULONG]
FPS = [FLOAT, DOUBLE, LDOUBLE]
UNS = {CHAR: UCHAR, SHORT: USHORT, INT: UINT, LONG: ULONG}


def decl(t, name):
    """C declarator."""
    if isinstance(t, Ptr):
        inner = '*' + name
        if isinstance(t.to, (Arr, Fn)):
            inner = '(' + inner + ')'
        return decl(t.to, inner)
    if isinstance(t, Arr):
        return decl(t.to, '%s[%d]' % (name, t.n))
    if isinstance(t, Fn):
        ps = ', '.join(decl(p, '').strip() for p in t.params) + (', ...' if t.variadic else '')
        return decl(t.ret, '%s(%s)' % (name, ps or 'void'))
    return ('%s %s' % (repr(t) if not isinstance(t, Void) else 'void', name)).rstrip()


def is_arith(t):
    return isinstance(t, (Int, Fp))


def promote(t, width=None):
    if width is not None and t.bits <= 32:
        return INT if width < 32 or t.signed else UINT
    return INT if isinstance(t, Int) and t.rank < 3 else t


def usual(a, b):
    if isinstance(a, Fp) or isinstance(b, Fp):
        fs = [t for t in (a, b) if isinstance(t, Fp)]
        return max(fs, key=lambda t: t.rank)
    a, b = promote(a), promote(b)
    if a is b:
        return a
    if a.signed == b.signed:
        return a if a.rank > b.rank else b
    u, s = (a, b) if not a.signed else (b, a)
    if u.rank >= s.rank:
        return u
    return s            # a long holds every unsigned int


# ---------------------------------------------------------------- expressions

class E:
    width = None       # of a bit-field lvalue
    lv = False

    def pure(self):
        return all(x.pure() for x in self.kids()) and not self.effect()

    def effect(self):
        return False

    def kids(self):
        return [v for v in self.__dict__.values() if isinstance(v, E)] + [x for v in self.__dict__.values() if isinstance(v, (list, tuple)) for x in v if isinstance(x, E)]


def rv(t):
    """Type of an expression after array and function decay."""
    if isinstance(t, Arr):
        return Ptr(t.to)
    if isinstance(t, Fn):
        return Ptr(t)
    return t


class Num(E):
    def __init__(self, v, ty=INT, text=None):
        self.v, self.ty, self.text = v, ty, text

    def c(self):
        if self.text:
            return self.text
        if isinstance(self.ty, Fp):
            return '%r%s' % (float(self.v), {FLOAT: 'f', DOUBLE: '', LDOUBLE: 'L'}[self.ty])
        t = self.ty
        if t.rank < 3:
            return '((%s) %s)' % (t.name, self.v if self.v >= 0 else '(%d)' % self.v)
        if self.v < 0:
            if self.v == -(1 << (t.bits - 1)):
                return '(%d%s - 1)' % (self.v + 1, 'L' if t.rank == 4 else '')
            return '(%d%s)' % (self.v, 'L' if t.rank == 4 else '')
        return '%d%s' % (self.v, {INT: '', UINT: 'u', LONG: 'L', ULONG: 'uL'}[t])


class Var(E):
    lv = True

    def __init__(self, name, ty):
        self.name, self.ty = name, ty

    def c(self):
        return self.name


class Un(E):
    def __init__(self, op, e):
        self.op, self.e = op, e
        t = rv(e.ty)
        self.ty = INT if op == '!' else promote(t, e.width)

    def c(self):
        return '(%s%s)' % (self.op + (' ' if self.op == '-' else ''), self.e.c())


class Bin(E):
    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b
        ta, tb = rv(a.ty), rv(b.ty)
        if is_arith(ta):
            ta = promote(ta, a.width)
        if is_arith(tb):
            tb = promote(tb, b.width)
        if op in ('&&', '||', '==', '!=', '<', '>', '<=', '>='):
            self.ty = INT
        elif op in ('<<', '>>'):
            self.ty = ta
        elif isinstance(ta, Ptr) and isinstance(tb, Ptr):
            self.ty = LONG
        elif isinstance(ta, Ptr):
            self.ty = ta
        elif isinstance(tb, Ptr):
            self.ty = tb
        else:
            self.ty = usual(ta, tb)

    def c(self):
        return '(%s %s %s)' % (self.a.c(), self.op, self.b.c())

    def effect(self):
        return self.op in ('/', '%', '<<', '>>')       # may be undefined: not to be evaluated speculatively


class Cond(E):
    def __init__(self, q, a, b):
        self.q, self.a, self.b = q, a, b
        ta, tb = rv(a.ty), rv(b.ty)
        self.ty = usual(promote(ta, a.width), promote(tb, b.width)) if is_arith(ta) and is_arith(tb) else (tb if isinstance(ta, Int) else ta)

    def c(self):
        return '(%s ? %s : %s)' % (self.q.c(), self.a.c(), self.b.c())


class Cast(E):
    def __init__(self, ty, e):
        self.ty, self.e = ty, e

    def c(self):
        return '((%s) %s)' % (decl(self.ty, '').strip(), self.e.c())

    def effect(self):
        return isinstance(self.ty, Int) and isinstance(self.e.ty, Fp)


class Deref(E):
    lv = True

    def __init__(self, e):
        self.e = e
        self.ty = rv(e.ty).to

    def c(self):
        return '(*%s)' % self.e.c()

    def effect(self):
        return True      # keep the order of memory accesses simple


class Index(E):
    lv = True

    def __init__(self, a, i):
        self.a, self.i = a, i
        self.ty = rv(a.ty).to

    def c(self):
        return '%s[%s]' % (self.a.c(), self.i.c())

    def effect(self):
        return True


class Mem_(E):
    lv = True

    def __init__(self, e, name, arrow=False):
        self.e, self.name, self.arrow = e, name, arrow
        st = rv(e.ty).to if arrow else e.ty
        self.f = st.fields[name]
        self.ty, self.width = self.f.ty, self.f.width
        self.lv = arrow or e.lv

    def c(self):
        return '%s%s%s' % (self.e.c(), '->' if self.arrow else '.', self.name)

    def effect(self):
        return self.arrow


class Addr(E):
    def __init__(self, e):
        self.e = e
        self.ty = Ptr(e.ty)

    def c(self):
        return '(&%s)' % self.e.c()


class Asg(E):
    def __init__(self, lhs, e, op=''):
        self.lhs, self.e, self.op = lhs, e, op
        self.ty = lhs.ty

    def c(self):
        return '(%s %s= %s)' % (self.lhs.c(), self.op, self.e.c())

    def effect(self):
        return True


class Inc(E):
    def __init__(self, lhs, op='++', post=True):
        self.lhs, self.op, self.post = lhs, op, post
        self.ty = lhs.ty

    def c(self):
        return '(%s%s)' % (self.lhs.c(), self.op) if self.post else '(%s%s)' % (self.op, self.lhs.c())

    def effect(self):
        return True


class Call(E):
    def __init__(self, fn, args):
        self.fn, self.args = fn, args
        t = rv(fn.ty)
        self.fty = t.to
        self.ty = self.fty.ret

    def c(self):
        return '%s(%s)' % (self.fn.c(), ', '.join(a.c() for a in self.args))

    def effect(self):
        return True


class Comma(E):
    def __init__(self, a, b):
        self.a, self.b = a, b
        self.ty = rv(b.ty)

    def c(self):
        return '(%s, %s)' % (self.a.c(), self.b.c())


class SizeOf(E):
    ty = ULONG

    def __init__(self, what):
        self.what = what

    def c(self):
        return 'sizeof(%s)' % (decl(self.what, '').strip() if isinstance(self.what, Ty) else self.what.c())

    def kids(self):
        return []


# ---------------------------------------------------------------- statements: tuples
# ('decl', name, ty, init|None) ('expr', e) ('if', e, then, else) ('while', e, body) ('do', body, e) ('for', init, cond, step, body)
# ('switch', e, [(value|None, [stmts])]) ('break',) ('continue',) ('return', e|None) ('block', [stmts]) ('goto', l) ('label', l)

def ctext(s, ind=1):
    p = '    ' * ind
    k = s[0]
    if k == 'decl':
        i = s[3]
        if isinstance(i, list):
            i = '{%s}' % ', '.join(x.c() for x in i)
        elif i is not None:
            i = i.c()
        return p + ('static ' if len(s) > 4 and s[4] else '') + decl(s[2], s[1]) + (' = ' + i if i else '') + ';\n'
    if k == 'expr':
        return p + s[1].c() + ';\n'
    if k == 'if':
        return p + 'if (%s)\n%s' % (s[1].c(), blk(s[2], ind)) + (p + 'else\n' + blk(s[3], ind) if s[3] else '')
    if k == 'while':
        return p + 'while (%s)\n%s' % (s[1].c(), blk(s[2], ind))
    if k == 'do':
        return p + 'do\n%s%swhile (%s);\n' % (blk(s[1], ind), p, s[2].c())
    if k == 'for':
        return p + 'for (%s; %s; %s)\n%s' % (s[1].c() if s[1] else '', s[2].c() if s[2] else '', s[3].c() if s[3] else '', blk(s[4], ind))
    if k == 'switch':
        r = p + 'switch (%s) {\n' % s[1].c()
        for v, body in s[2]:
            r += p + ('default:\n' if v is None else 'case %s:\n' % v.c())
            r += ''.join(ctext(x, ind + 1) for x in body)
            if not body:
                r += p + '    ;\n'
        return r + p + '}\n'
    if k in ('break', 'continue'):
        return p + k + ';\n'
    if k == 'return':
        return p + 'return%s;\n' % (' ' + s[1].c() if s[1] else '')
    if k == 'block':
        return blk(s[1], ind)
    if k == 'goto':
        return p + 'goto %s;\n' % s[1]
    if k == 'label':
        return s[1] + ': ;\n'
    raise KeyError(k)


def blk(ss, ind):
    p = '    ' * ind
    ds = [s for s in ss if s[0] == 'decl']
    assert all(s[0] == 'decl' for s in ss[:len(ds)])
    return p + '{\n' + ''.join(ctext(x, ind + 1) for x in ss) + p + '}\n'


class Func:
    def __init__(self, name, ret, params, body, tag=''):
        self.name, self.ret, self.params, self.body, self.tag = name, ret, params, body, tag
        self.ty = Fn(ret, [t for _, t in params])

    def proto(self):
        return decl(self.ret, '%s(%s)' % (self.name, ', '.join(decl(t, n) for n, t in self.params) or 'void'))

    def c(self):
        return self.proto() + '\n' + blk(getattr(self, 'cbody', self.body), 0)


class Program:
    def __init__(self):
        self.structs, self.globals, self.externs, self.funcs = [], {}, {}, []

    def head(self):
        r = ''
        for s in self.structs:
            r += '%r {\n' % s + ''.join('    %s%s;\n' % (decl(m[1], m[0] or ''), ' : %d' % m[2] if len(m) == 3 and m[2] is not None else '') for m in s.members) + '};\n'
        for n, t in self.globals.items():
            r += decl(t, n) + ';\n'
        for n, t in self.externs.items():
            r += 'extern ' + decl(t, n) + ';\n'
        return r

    def c(self, funcs=None):
        return self.head() + '\n'.join(f.c() for f in (funcs if funcs is not None else self.funcs))
