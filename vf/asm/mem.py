"""Symbolic memory shared by the machine model and the specification: regions named by a base address, byte-accurate write logs,
values kept as written (so floating point values and pointers come back as the terms they were)."""
import z3

D, S, X = z3.Float64(), z3.Float32(), z3.FPSort(15, 64)
BV = z3.BitVecSort
XORIG = {}       # 79 significant bits of an 80 bit value -> the value as it was in memory
D2BV = z3.Function('D2BV', D, BV(64))
S2BV = z3.Function('S2BV', S, BV(32))
X2BV = z3.Function('X2BV', X, BV(80))
simp = z3.simplify


def fadd(rm, a, b):
    return z3.fpAdd(rm, *sorted((a, b), key=lambda t: t.hash()))


def fmul(rm, a, b):
    return z3.fpMul(rm, *sorted((a, b), key=lambda t: t.hash()))


class Unsupported(Exception):
    pass


def app(t, f):
    return z3.is_app(t) and t.decl().eq(f)


def fp_to_bv(t):
    """Bits of a floating point term."""
    s = t.sort()
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_FPA_TO_FP and t.num_args() == 1 and t.arg(0).sort().kind() == z3.Z3_BV_SORT and t.arg(0).size() == s.ebits() + s.sbits():
        if s.ebits() != 15:
            return t.arg(0)
        o = XORIG.get(t.arg(0).get_id())
        if o is not None and o[0].eq(t.arg(0)):
            return o[1]
    if z3.is_fp_value(t):
        b = simp(z3.fpToIEEEBV(t))
        if s.ebits() != 15:
            return b
        return simp(z3.Concat(z3.Extract(78, 63, b), z3.If(z3.Extract(77, 63, b) == 0, z3.BitVecVal(0, 1), z3.BitVecVal(1, 1)), z3.Extract(62, 0, b)))
    return {8: S2BV, 11: D2BV, 15: X2BV}[s.ebits()](t)


def bv_to_fp(b, s):
    """Floating point value with the given bits (80 bit extended: the explicit integer bit is implied by the exponent)."""
    b = simp(b)
    f = {8: S2BV, 11: D2BV, 15: X2BV}[s.ebits()]
    if app(b, f):
        return b.arg(0)
    if s.ebits() == 15:
        o, b = b, simp(z3.Concat(z3.Extract(79, 64, b), z3.Extract(62, 0, b)))
        XORIG[b.get_id()] = (b, o)
    return simp(z3.fpBVToFP(b, s))


def addends(t):
    """Decomposes an address into (list of non-constant addends, constant)."""
    t = simp(t, som=True) if not z3.is_bv_value(t) else t
    c = 0
    xs = []
    stack = [t]
    while stack:
        x = stack.pop()
        if z3.is_bv_value(x):
            c += x.as_long()
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_BADD:
            stack.extend(x.children())
        else:
            xs.append(x)
    return xs, c & (2**64 - 1)


class Region:
    def __init__(self, name, array=None):
        self.name = name
        self.array = array if array is not None else z3.Array('mem_' + name, BV(64), BV(8))
        self.log = []          # (offset term or int, nbytes, value bv)
        self.dontcare = []     # (offset int, nbytes): padding the last whole-object write did not define

    def copy(self):
        r = Region(self.name, self.array)
        r.log = list(self.log)
        r.dontcare = list(self.dontcare)
        return r

    def write(self, off, n, val):
        self.log.append((off, n, val))

    def byte(self, off):
        """Byte at offset (int or BV64 term)."""
        pend = []
        res = None
        for (wo, wn, wv) in reversed(self.log):
            if isinstance(off, int) and isinstance(wo, int):
                if wo <= off < wo + wn:
                    k = off - wo
                    res = z3.Extract(8 * k + 7, 8 * k, wv)
                    break
                continue
            d = simp(T(off) - T(wo))
            if z3.is_bv_value(d):
                k = d.as_long()
                if k < wn:
                    res = z3.Extract(8 * k + 7, 8 * k, wv)
                    break
                continue
            c = simp(z3.ULT(d, wn))
            if z3.is_false(c):
                continue
            w = wv.size()
            sh = (z3.ZeroExt(w - 64, d) if w > 64 else z3.Extract(w - 1, 0, d)) if w != 64 else d
            b = z3.Extract(7, 0, z3.LShR(wv, sh * 8)) if w > 8 else wv
            if z3.is_true(c):
                res = b
                break
            pend.append((c, b))
        if res is None:
            res = z3.Select(self.array, T(off))
        for c, b in reversed(pend):
            res = z3.If(c, b, res)
        return res

    def read(self, off, n):
        for (wo, wn, wv) in reversed(self.log):
            if isinstance(off, int) and isinstance(wo, int):
                if wo == off and wn == n:
                    return wv
                if wo + wn <= off or off + n <= wo:
                    continue
                break
            if wn == n and z3.is_bv_value(d := simp(T(off) - T(wo))) and d.as_long() == 0:
                return wv
            break
        bs = [self.byte(off + k if isinstance(off, int) else simp(off + k)) for k in range(n)]
        return simp(z3.Concat(*reversed(bs))) if n > 1 else simp(bs[0])


def T(x):
    return z3.BitVecVal(x, 64) if isinstance(x, int) else x


class Mem:
    def __init__(self):
        self.regions = {}
        self.bases = {}        # term id -> (term, region name)
        self.auto = 0
        self.path = None       # splits the path when an object on the stack is indexed

    def add_base(self, term, name, array=None):
        self.bases[term.get_id()] = (term, name)
        if name not in self.regions:
            self.regions[name] = Region(name, array)

    def copy(self):
        m = Mem()
        m.regions = {k: v.copy() for k, v in self.regions.items()}
        m.bases = dict(self.bases)
        return m

    def locate(self, addr):
        xs, c = addends(addr)
        hit = [x for x in xs if x.get_id() in self.bases]
        if len(hit) > 1:
            raise Unsupported('address with several bases: %s' % addr)
        if not hit:
            # a pointer read from memory, or returned by a call: a region of its own
            cand = [x for x in xs if x.size() == 64 and z3.is_app(x) and (x.decl().kind() == z3.Z3_OP_CONCAT and z3.is_select(x.arg(0)) or x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0)]
            if len(cand) != 1:
                raise Unsupported('address without a base: %s' % str(addr)[:200])
            self.add_base(cand[0], 'ptr_%s' % hash_name(cand[0]))
            hit = cand
        r = self.regions[self.bases[hit[0].get_id()][1]]
        rest = [x for x in xs if x is not hit[0] and x.get_id() != hit[0].get_id()]
        if len(xs) - len(rest) != 1:
            raise Unsupported('base used twice: %s' % addr)
        c = c if c < 2**63 else c - 2**64
        if not rest:
            return r, c
        off = z3.BitVecVal(c, 64)
        for x in rest:
            off = off + x
        off = simp(off)
        if self.path is not None and (r.name == 'stack' or r.name.startswith('loc:')):
            return r, self.path.choose(off)
        return r, off

    def read(self, addr, n):
        r, off = self.locate(addr)
        return r.read(off, n)

    def write(self, addr, n, val):
        r, off = self.locate(addr)
        r.write(off, n, simp(val))


_names = {}


def hash_name(t):
    import hashlib
    return hashlib.sha1(t.sexpr().encode()).hexdigest()[:12]
