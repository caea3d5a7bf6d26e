"""Contract of every compiled function: whatever the arguments, memory and results of calls, the machine code terminates along the
same paths as the C meaning, returns the same value, performs the same calls, leaves the same memory and keeps the calling convention."""
import os, re, subprocess, sys, tempfile, time, random, traceback
import z3
from .mem import *
from .x86 import *
from .lang import *
from .spec import *
from .obj import Obj

WCC_TIMEOUT = 60


class Env:
    """Environment of the machine: how symbols, calls and the caller look."""
    def __init__(self, prog, func):
        self.prog, self.func = prog, func
        self.ret_addr = z3.BitVec('retaddr', 64)
        self.range_ok = z3.BoolVal(False)
        self.sexts = {}
        self.kept, self.kept_x = (), ()
        self.escaped = []
        self.ncalls = 0
        self.arg_bytes = 0

    def global_base(self, mem, name):
        b = z3.BitVec('&' + name, 64)
        if b.get_id() not in mem.bases:
            new_region(mem, b, name, self.ncalls)
        return b

    def fn_name(self, m, t):
        return t

    def proto(self, name):
        if isinstance(name, z3.ExprRef):
            if z3.is_const(name) and str(name)[0] == '&':
                return self.proto(str(name)[1:])
            return self.func.fnptr
        if name in self.prog.externs:
            return self.prog.externs[name]
        for f in self.prog.funcs:
            if f.name == name:
                return f.ty
        return None

    def call(self, m, path, name):
        if isinstance(name, str) and name in ('memcpy', 'memset', 'memmove') and self.proto(name) is None:
            return self.builtin(m, name)
        ft = self.proto(name)
        if ft is None:
            raise Fault('call of unknown function %s' % name)
        nm = name if isinstance(name, str) else str(name)[1:] if z3.is_const(name) and str(name)[0] == '&' else name
        sp = m.sp()
        nargs = list(ft.params)
        if ft.variadic:
            nargs += m.env.varargs(path, self, nm)
        nargs = [rv(t) for t in nargs]
        slots, size, nsse = arg_slots(nargs, ft.ret)
        if ft.variadic:
            al = m.get('al')
            m.must.append(('number of vector registers in al', z3.And(z3.UGE(al, nsse), z3.ULE(al, 8))))
        args = []
        for t, ss in zip(nargs, slots):
            bits = []
            for s in ss:
                if s[0] == 'int':
                    bits.append(m.get(s[1]))
                elif s[0] == 'sse':
                    v = m.x[s[1]]
                    if isinstance(t, Fp) and v is not None and z3.is_fp(v) and v.sort() == t.sort:
                        bits.append(fp_to_bv(v))
                    else:
                        bits.append(m.xbits(s[1], 64))
                else:
                    bits.append(m.load(simp(m.r['rsp'] + s[1]), 10 if t is LDOUBLE else t.size))
            b = simp(z3.Concat(*reversed(bits))) if len(bits) > 1 else bits[0]
            n = nbits(t)
            b = simp(z3.Extract(n - 1, 0, b)) if b.size() > n else b
            args.append((t, b))
        k = self.ncalls
        hid = None
        if isinstance(ft.ret, Struct) and classify(ft.ret) == 'MEMORY':
            hid = m.get('rdi')
        ev = dict(name=nm, args=args, mem=m.mem.copy(), sp=sp)
        # objects on the stack the callee can reach
        for t, b in args:
            if isinstance(t, Ptr) and not isinstance(t.to, (Fn, Void)):
                try:
                    r, off = m.mem.locate(b)
                except Unsupported:
                    continue
                if r.name == 'stack' and isinstance(off, int) and off not in [o for o, _ in self.escaped]:
                    self.escaped.append((off, t.to.size))
        ev['escaped'] = list(self.escaped)
        m.events.append(ev)
        self.ncalls += 1
        havoc(m.mem, k + 1)
        st = m.mem.regions['stack']
        for i, (off, n) in enumerate(self.escaped):
            st.write(off, n, z3.BitVec('esc_%d_%d' % (k, i), 8 * n))
        self.ret = (ft.ret, k, hid)

    def builtin(self, m, name):
        n = simp(m.get('rdx'))
        if not z3.is_bv_value(n) or n.as_long() > 4096:
            raise Unsupported('%s of unknown size' % name)
        n = n.as_long()
        a = m.get('rdi')
        if name == 'memset':
            c = simp(z3.Extract(7, 0, m.get('rsi')))
            m.store(a, n, simp(z3.Concat(*[c] * n)) if n > 1 else c)
        else:
            m.store(a, n, m.load(m.get('rsi'), n))
        self.ret = ('builtin', a, None)

    def after_call(self, m):
        t, k, hid = self.ret
        if t == 'builtin':
            m.r['rax'] = k
            return
        if isinstance(t, Void):
            return
        v = ret_var(t, k)
        c = classify(t)
        if c == 'MEMORY':
            m.store(hid, t.size, v)
            m.r['rax'] = hid
        elif c == 'X87':
            m.fpush(bv_to_fp(z3.Extract(79, 0, v) if v.size() > 80 else v, X))
        else:
            ir, xr = ['rax', 'rdx'], [0, 1]
            for i, k in enumerate(c):
                lo, hi = 64 * i, min(64 * i + 64, v.size())
                b = simp(z3.Extract(hi - 1, lo, v))
                if k == 'INTEGER':
                    m.r[ir.pop(0)] = pad(b, 64, lambda n: m.fresh('hi', BV(n)))
                else:
                    x = xr.pop(0)
                    m.x[x] = bv_to_fp(b, t.sort) if isinstance(t, Fp) else pad(b, 64, lambda n: m.fresh('hi', BV(n)))


def ret_var(t, k):
    return z3.BitVec('ret_%d' % k, nbits(t))


def new_region(mem, base, name, k):
    mem.add_base(base, name, z3.Array('mem_%s%s' % (name, '_after%d' % k if k else ''), BV(64), BV(8)))


def havoc(mem, k):
    """A call may change everything it can reach."""
    for n, r in mem.regions.items():
        if n == 'stack' or n.startswith(('sec:', 'loc:')):
            continue
        q = Region(n, z3.Array('mem_%s_after%d' % (n, k), BV(64), BV(8)))
        mem.regions[n] = q


class Outcome:
    def __init__(self, func):
        self.func = func
        self.status, self.msg, self.obls, self.ok, self.paths = 'proved', '', 0, 0, 0
        self.fails = []          # (what, model values or None)
        self.secs = 0


def initial(prog, func, env):
    """Machine registers and the two memories at the entry of the function."""
    mm, ms = Mem(), Mem()
    for mem in (mm, ms):
        for n, t in prog.globals.items():
            new_region(mem, z3.BitVec('&' + n, 64), n, 0)
        for n, t in func.params:
            if isinstance(rv(t), Ptr) and not isinstance(rv(t).to, Fn):
                new_region(mem, z3.BitVec(n, 64), n, 0)
    rsp = z3.BitVec('rsp0', 64)
    mm.add_base(rsp, 'stack')
    return mm, ms, rsp


def setup_machine(m, prog, func, rsp):
    for r in R64:
        m.r[r] = z3.BitVec('in_' + r, 64)
    m.r['rsp'] = rsp
    st = m.mem.regions['stack']
    st.write(0, 8, m.env.ret_addr)
    types = [rv(t) for _, t in func.params]
    slots, size, _ = arg_slots(types, func.ret)
    m.env.arg_bytes = size
    if isinstance(func.ret, Struct) and classify(func.ret) == 'MEMORY':
        h = z3.BitVec('&result', 64)
        new_region(m.mem, h, 'result', 0)
        m.r['rdi'] = h
    vals = []
    for (n, t0), t, ss in zip(func.params, types, slots):
        v = z3.BitVec(n, nbits(t))
        vals.append((t, v))
        for i, s in enumerate(ss):
            if s[0] == 'stack':
                m.mem.regions['stack'].write(8 + s[1], v.size() // 8, v)
                continue
            b = simp(z3.Extract(min(64 * i + 64, v.size()) - 1, 64 * i, v))
            if s[0] == 'int':
                m.r[s[1]] = pad(b, 64, lambda k: z3.BitVec('hi_%s' % s[1], k))
            else:
                m.x[s[1]] = bv_to_fp(b, t.sort) if isinstance(t, Fp) else pad(b, 64, lambda k: z3.BitVec('hi_x%d' % s[1], k))
    m.init_r = dict(m.r)
    return vals


def run_machine(path, obj, code, prog, func, start):
    env = Env(prog, func)
    env.varargs = lambda path, e, nm: func.vararg_types[nm] if isinstance(nm, str) else []
    mm, ms, rsp = initial(prog, func, env)
    mm.path = path
    m = Machine(obj, code, mm, env)
    vals = setup_machine(m, prog, func, rsp)
    m.vals = vals
    m.ms = ms
    try:
        m.run(path, start)
        m.fault = None
        m.fault = exit_state(m, rsp)
    except Fault as f:
        m.fault = str(f)
    return m


def exit_state(m, rsp):
    if not z3.is_true(simp(m.r['rsp'] == rsp + 8)):
        return 'the stack pointer is not restored'
    for r in CALLEE:
        if not m.r[r].eq(m.init_r[r]) and not z3.is_true(simp(m.r[r] == m.init_r[r])):
            return 'callee saved register %s is not restored' % r
    w = simp(m.fcw)
    if not z3.is_bv_value(w) or w.as_long() != 0x37f:
        return 'the x87 control word is not restored'
    want = 1 if not isinstance(m.env.func.ret, Void) and classify(m.env.func.ret) == 'X87' else 0
    if len(m.st) != want:
        return 'the x87 stack holds %d values at the return' % len(m.st)
    return None


def result_terms(m, func):
    """The result where the calling convention puts it."""
    t = func.ret
    if isinstance(t, Void):
        return None
    c = classify(t)
    if c == 'X87':
        return m.st[-1] if t is LDOUBLE else fp_to_bv(m.st[-1])
    if c == 'MEMORY':
        return m.mem.regions['result'].read(0, t.size)
    if isinstance(t, Fp):
        return m.xfp(0, t.sort)
    ir, xr = ['rax', 'rdx'], [0, 1]
    bits = []
    for k in c:
        bits.append(m.get(ir.pop(0)) if k == 'INTEGER' else m.xbits(xr.pop(0), 64))
    b = simp(z3.Concat(*reversed(bits))) if len(bits) > 1 else bits[0]
    return simp(z3.Extract(nbits(t) - 1, 0, b)) if b.size() > nbits(t) else b


def eq(name, t, a, b):
    """Obligation: machine value a equals specified value b of type t (padding of structs is free)."""
    if isinstance(t, Struct):
        out = []
        for o, y in flat(t):
            n = 10 if y is LDOUBLE else y.size
            if 8 * (o + n) <= a.size():
                out.append(('%s, bytes %d to %d' % (name, o, o + n - 1), simp(z3.Extract(8 * (o + n) - 1, 8 * o, a)) == simp(z3.Extract(8 * (o + n) - 1, 8 * o, b))))
        return out
    return [(name, a == b)]


def compare_mem(ma, ms, prog, what, skip=()):
    out = []
    names = set(n for n, r in ma.regions.items() if r.log) | set(n for n, r in ms.regions.items() if r.log)
    for n in sorted(names):
        if n == 'stack' or n.startswith(('sec:', 'loc:')) or n in skip:
            continue
        ra, rs = ma.regions.get(n), ms.regions.get(n)
        if ra is None:
            ra = Region(n, rs.array)
        if rs is None:
            rs = Region(n, ra.array)
        if not ra.log and not rs.log:
            continue
        log = ra.log + rs.log
        if all(isinstance(o, int) for o, _, _ in log):
            offs = sorted({o + k for o, s, _ in log for k in range(s)})
            dc = {o + f + k for o, f, s in rs.dontcare if isinstance(o, int) for k in range(s)}
            # whole writes first: keep terms as written
            done = set()
            for o, s, v in rs.log:
                if all(o + k not in done for k in range(s)) and not any(o + k in dc for k in range(s)):
                    out.append(('%s of %s at offset %d' % (what, n, o), ra.read(o, s) == rs.read(o, s)))
                    done.update(range(o, o + s))
            for o in offs:
                if o not in done and o not in dc:
                    out.append(('%s of %s at offset %d' % (what, n, o), ra.read(o, 1) == rs.read(o, 1)))
        else:
            # the same writes in the same order are sufficient
            easy = None
            if len(ra.log) == len(rs.log) and all(a[1] == b[1] for a, b in zip(ra.log, rs.log)):
                easy = z3.And(*[z3.And(T(a[0]) == T(b[0]), a[2] == b[2]) for a, b in zip(ra.log, rs.log)])
            f = z3.BitVec('any_%s' % n, 64)
            x, y = ra.byte(f), rs.byte(f)
            c = simp(x == y)
            for o, k, s in rs.dontcare:
                c = z3.Or(c, z3.ULT(f - T(o) - k, s))
            out.append(('%s of %s' % (what, n), c, easy))
    return out


def make_compare(m, obls, prog):
    state = dict(k=0, esc=[])

    def compare(sp, fv, ft, args):
        k = state['k']
        state['k'] += 1
        if k >= len(m.events):
            obls.append(('call %d is made' % k, z3.BoolVal(False)))
            raise Stop
        ev = m.events[k]
        nm = ev['name']
        want = fv
        got = z3.BitVec('&' + nm, 64) if isinstance(nm, str) else nm
        if not got.eq(want):
            obls.append(('callee of call %d' % k, got == want))
        if len(args) != len(ev['args']):
            obls.append(('number of arguments of call %d' % k, z3.BoolVal(False)))
            raise Stop
        for i, ((t, v), (ta, b)) in enumerate(zip(args, ev['args'])):
            if isinstance(t, Ptr):
                try:
                    r, off = sp.mem.locate(v)
                except Unsupported:
                    r = None
                if r is not None and r.name.startswith('loc:'):
                    try:
                        ra, offa = ev['mem'].locate(b)
                    except Unsupported:
                        ra = None
                    if ra is None or ra.name != 'stack' or not isinstance(offa, int):
                        obls.append(('argument %d of call %d points to a local object' % (i, k), z3.BoolVal(False)))
                        raise Stop
                    known = [e for e in state['esc'] if e[0] == r.name and e[1] == off]
                    if known:
                        if known[0][2] != offa:
                            obls.append(('argument %d of call %d points to the right object' % (i, k), z3.BoolVal(False)))
                    else:
                        state['esc'].append((r.name, off, offa, t.to.size))
                    continue
            if isinstance(t, Fp):
                av = bv_to_fp(b, t.sort)
                obls.append(('argument %d of call %d' % (i, k), av == v))
            else:
                obls.extend(eq('argument %d of call %d' % (i, k), t, b, v))
        for rn, off, offa, n in state['esc']:
            a, s = ev['mem'].regions['stack'], sp.mem.regions[rn]
            for j in range(n):
                pa, ps = a.read(offa + j, 1), s.read(off + j if isinstance(off, int) else simp(off + j), 1)
                if not pa.eq(ps) and not (z3.is_select(ps)):
                    obls.append(('object behind a pointer passed to call %d, byte %d' % (k, j), pa == ps))
        obls.extend(compare_mem(ev['mem'], sp.mem, prog, 'memory seen by call %d:' % k, skip=('result',)))
        havoc(sp.mem, k + 1)
        for i, (rn, off, offa, n) in enumerate(state['esc']):
            sp.mem.regions[rn].write(off, n, z3.BitVec('esc_%d_%d' % (k, i), 8 * n))
        if isinstance(ft.ret, Void):
            return None
        v = ret_var(ft.ret, k)
        return from_bits(ft.ret, v) if not isinstance(ft.ret, Struct) else v
    compare.state = state
    return compare


class Stop(Exception):
    pass


def check_path(path, m, prog, func):
    """[(spec path, obligations)] of one machine path."""
    def spec(p):
        obls = []
        cmp_ = make_compare(m, obls, prog)
        sp = Spec(prog, func, p, m.ms.copy(), m.events, cmp_)
        sp.obls = obls
        sp.mem.path = p
        for (n, t), (tt, v) in zip(func.params, m.vals):
            sp.declare(n, rv(t))
            sp.setvar(n, from_bits(tt, v) if not isinstance(tt, Struct) else v)
        try:
            r = sp.run()
        except Stop:
            return obls
        if m.fault:
            obls.append((m.fault, z3.BoolVal(False)))
            return obls
        if cmp_.state['k'] != len(m.events):
            obls.append(('no more than %d calls are made' % cmp_.state['k'], z3.BoolVal(False)))
        if r is not None:
            obls.extend(eq('result', func.ret, result_terms(m, func), r))
            if isinstance(func.ret, Struct) and classify(func.ret) == 'MEMORY':
                obls.append(('the address of the result is returned', m.get('rax') == z3.BitVec('&result', 64)))
        obls.extend(compare_mem(m.mem, sp.mem, prog, 'final contents', skip=('result',)))
        for w, c in m.must:
            obls.append((w, c))
        return obls
    return explore(spec, path.pc, 60)


FPOPS = {z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_SUB, z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_DIV, z3.Z3_OP_FPA_TO_FP_UNSIGNED, z3.Z3_OP_FPA_TO_SBV, z3.Z3_OP_FPA_TO_UBV, z3.Z3_OP_FPA_TO_FP,
         z3.Z3_OP_BMUL, z3.Z3_OP_BSDIV, z3.Z3_OP_BUDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BUREM, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BSREM_I, z3.Z3_OP_BUREM_I}


def abstract(ts, ops):
    """Replaces loads from unknown memory (and, with ops, arithmetic the solver is slow on) by fresh constants: what is proved of the
    result holds of the original."""
    sub, seen = {}, {}

    def load(t):
        if z3.is_select(t) and z3.is_const(t.arg(0)):
            return True
        return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_CONCAT and all(z3.is_select(x) for x in t.children())

    def go(t):
        i = t.get_id()
        if i in seen:
            return seen[i][1]
        if not z3.is_app(t) or t.num_args() == 0:
            r = t
        elif load(t):
            r = z3.Const('abs_%d' % len(sub), t.sort())
            sub[i] = (t, r)
        elif ops and t.decl().kind() in FPOPS and not (t.decl().kind() == z3.Z3_OP_BMUL and any(z3.is_bv_value(x) for x in t.children())):
            r = z3.Const('abs_%d' % len(sub), t.sort())
            sub[i] = (t, r)
        else:
            ch = [go(x) for x in t.children()]
            r = t if all(a.eq(b) for a, b in zip(ch, t.children())) else t.decl()(*ch) if t.decl().kind() not in NARY or len(ch) <= 2 else rebuild(t, ch)
        seen[i] = (t, r)
        return r
    return [go(t) for t in ts], bool(sub)


NARY = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR, z3.Z3_OP_CONCAT, z3.Z3_OP_DISTINCT}


def rebuild(t, ch):
    return z3.substitute(t, *[(a, b) for a, b in zip(t.children(), ch) if not a.eq(b)])


COMMUTES = {z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_EQ}
USORTS, UFUNCS = {}, {}


def usort(s):
    n = 'fp%d' % (s.ebits() + s.sbits())
    if n not in USORTS:
        USORTS[n] = z3.DeclareSort(n)
    return USORTS[n]


def ufunc(name, args, rng):
    k = (name, tuple(str(a.sort()) for a in args), str(rng))
    if k not in UFUNCS:
        UFUNCS[k] = z3.Function('u:%s:%d' % (name, len(UFUNCS)), *[a.sort() for a in args], rng)
    return UFUNCS[k](*args)


def bitfun(sort):
    return {8: S2BV, 11: D2BV, 15: X2BV}[sort.ebits()]


ZEROS = [bitfun(x)(z3.FPVal(0.0, x)) == 0 for x in (S, D, X)]


def euf(ts):
    """The terms with floating point values in uninterpreted sorts, and floating point operations and the multiplications and divisions
    the solver is slow on as uninterpreted functions of their operands; with facts about the comparisons. What is proved of the result
    holds of the original."""
    seen, facts, known = {}, [], set()

    def load(t):
        return z3.is_select(t) and z3.is_const(t.arg(0)) or z3.is_app(t) and t.decl().kind() == z3.Z3_OP_CONCAT and all(z3.is_select(x) for x in t.children())

    def nan(x):
        return ufunc('nan', [x], z3.BoolSort())

    def neg(x, t):
        if z3.is_app(x) and x.decl().name().startswith('u:fp.neg'):
            return x.arg(0)
        return ufunc('fp.neg', [x], usort(t.sort()))

    def cmp(k, a, b):
        i, j = a.get_id(), b.get_id()
        lt, gt = ufunc('lt', [a, b], z3.BoolSort()), ufunc('lt', [b, a], z3.BoolSort())
        e = ufunc('eq', [a, b], z3.BoolSort())
        if (min(i, j), max(i, j)) not in known:
            known.add((min(i, j), max(i, j)))
            n = z3.Or(nan(a), nan(b))
            facts.append(e == ufunc('eq', [b, a], z3.BoolSort()))
            facts.extend([z3.Or(z3.And(n, z3.Not(lt), z3.Not(gt), z3.Not(e)), z3.And(z3.Not(n), z3.Or(z3.And(lt, z3.Not(gt), z3.Not(e)), z3.And(z3.Not(lt), gt, z3.Not(e)), z3.And(z3.Not(lt), z3.Not(gt), e))))])
        return e if k == 'eq' else lt

    def go(t):
        i = t.get_id()
        if i in seen:
            return seen[i][1]
        if not z3.is_app(t):
            raise Unsupported('quantifier')
        k = t.decl().kind()
        ch = t.children()
        if load(t):
            r = z3.Const('ld%d' % i, t.sort())
        elif z3.is_fp(t) and not ch:
            r = z3.Const('c:' + (t.sexpr() if z3.is_fp_value(t) else t.decl().name()), usort(t.sort()))
            if z3.is_fp_value(t):
                facts.append(nan(r) == z3.BoolVal(t.isNaN()))
                if not t.isNaN():
                    f = bitfun(t.sort())
                    facts.append(ufunc(f.name() + str(f.params()), [r], f.range()) == fp_to_bv(t))
        elif z3.is_fprm(t):
            r = z3.Const('rm:' + t.sexpr(), z3.BitVecSort(3)) if not ch else z3.If(go(ch[0]), go(ch[1]), go(ch[2])) if k == z3.Z3_OP_ITE else None
            if r is None:
                raise Unsupported('rounding mode')
        elif not ch:
            r = t
        elif k == z3.Z3_OP_ITE:
            r = z3.If(*[go(x) for x in ch])
        elif k == z3.Z3_OP_EQ and z3.is_fp(ch[0]):
            r = go(ch[0]) == go(ch[1])
        elif k == z3.Z3_OP_FPA_LT or k == z3.Z3_OP_FPA_GT:
            a, b = go(ch[0]), go(ch[1])
            r = cmp('lt', a, b) if k == z3.Z3_OP_FPA_LT else cmp('lt', b, a)
        elif k == z3.Z3_OP_FPA_EQ:
            r = cmp('eq', go(ch[0]), go(ch[1]))
        elif k == z3.Z3_OP_FPA_LE or k == z3.Z3_OP_FPA_GE:
            a, b = go(ch[0]), go(ch[1])
            a, b = (a, b) if k == z3.Z3_OP_FPA_LE else (b, a)
            r = z3.Or(cmp('lt', a, b), cmp('eq', a, b))
        elif k == z3.Z3_OP_FPA_IS_NAN:
            r = nan(go(ch[0]))
        elif z3.is_fp(t) or any(z3.is_fp(x) or z3.is_fprm(x) for x in ch) or k in FPOPS and not (k == z3.Z3_OP_BMUL and any(z3.is_bv_value(x) for x in ch)):
            a = [go(x) for x in ch]
            if k == z3.Z3_OP_FPA_MUL:
                m = [x for x in ch[1:] if z3.is_fp_value(x) and x.sexpr() == z3.FPVal(-1.0, x.sort()).sexpr()]
                if m:
                    # multiplication by -1
                    r = neg(a[2] if m[0].eq(ch[1]) else a[1], t)
                    seen[i] = (t, r)
                    return r
            nm = t.decl().name() + str(t.decl().params())
            if k in (z3.Z3_OP_FPA_TO_FP, z3.Z3_OP_FPA_TO_FP_UNSIGNED) and len(a) == 2 and z3.is_bv(a[1]):
                # integers: all as 64 bit ones
                n = a[1].size()
                if n < 64:
                    a[1] = z3.SignExt(64 - n, a[1]) if k == z3.Z3_OP_FPA_TO_FP else z3.ZeroExt(64 - n, a[1])
                nm = 'of_int' if n < 64 or k == z3.Z3_OP_FPA_TO_FP else 'of_uint'
            rs = usort(t.sort()) if z3.is_fp(t) else t.sort()
            r = neg(a[0], t) if k == z3.Z3_OP_FPA_NEG else ufunc(nm, a, rs)
            if nm in ('of_int', 'of_uint'):
                facts.append(z3.Implies(a[1] == 0, r == go(z3.FPVal(0.0, t.sort()))))
            if k in COMM and len(a) >= 2 and not a[-2].eq(a[-1]):
                facts.append(r == ufunc(nm, a[:-2] + [a[-1], a[-2]], rs))
        else:
            a = [go(x) for x in ch]
            r = t if all(x.eq(y) for x, y in zip(a, ch)) else t.decl()(*a) if k not in NARY or len(a) <= 2 else rebuild(t, a)
        seen[i] = (t, r)
        return r
    return [go(t) for t in ts], facts


def prove(pc, c, timeout):
    if z3.is_and(c):
        r = z3.unsat
        for x in c.children():
            r, s = prove(pc, x, timeout)
            if r != z3.unsat:
                break
        return r, s
    try:
        ts, facts = euf(list(pc) + [c])
        s = z3.Solver()
        s.set('timeout', min(timeout, 3000))
        s.add(*ts[:-1], *facts, z3.Not(ts[-1]))
        if s.check() == z3.unsat:
            return z3.unsat, s
    except (Unsupported, z3.Z3Exception):
        if os.environ.get('VF_DEBUG'):
            traceback.print_exc()
    for ops in (True, False):
        ts, any_ = abstract(list(pc) + [c], ops)
        if any_:
            s = z3.Solver()
            s.set('timeout', timeout if not ops else min(timeout, 3000))
            s.add(*ts[:-1])
            s.add(z3.Not(ts[-1]))
            if s.check() == z3.unsat:
                return z3.unsat, s
    if z3.is_eq(c) and not z3.is_bool(c.arg(0)) and congruent(pc, c.arg(0), c.arg(1), timeout, 3):
        return z3.unsat, None
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*pc, *ZEROS)
    s.add(z3.Not(c))
    r = s.check()
    if r == z3.sat:
        # the solver's models are not always right about floating point
        m = s.model()
        if z3.is_true(m.eval(c, True)) or any(z3.is_false(m.eval(x, True)) for x in pc):
            return z3.unknown, s
    return r, s


COMM = {z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_MUL, z3.Z3_OP_BMUL}


def same(pc, x, y, timeout, depth):
    if x.eq(y):
        return True
    if x.sort() != y.sort():
        return False
    if congruent(pc, x, y, timeout, depth):
        return True
    ts, _ = abstract(list(pc) + [x == y], False)
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*ts[:-1])
    s.add(z3.Not(ts[-1]))
    if s.check() == z3.unsat:
        return True
    if not z3.is_fp(x):
        return False
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*pc)
    s.add(x != y)
    return s.check() == z3.unsat


def congruent(pc, a, b, timeout, depth):
    """a == b because the same operation is applied to equal operands."""
    if not depth or a.num_args() == 0 or not a.decl().eq(b.decl()) or a.num_args() != b.num_args() or a.decl().kind() not in FPOPS | {z3.Z3_OP_EXTRACT, z3.Z3_OP_CONCAT, z3.Z3_OP_UNINTERPRETED}:
        return False
    x, y = a.children(), b.children()
    if a.decl().kind() in COMM and len(x) >= 2:
        # operands the other way around: those which are the same term decide
        if x[-1].eq(y[-2]) or x[-2].eq(y[-1]):
            y = y[:-2] + [y[-1], y[-2]]
        elif not (x[-1].eq(y[-1]) or x[-2].eq(y[-2])):
            if all(same(pc, p, q, min(timeout, 2000), depth - 1) for p, q in zip(x, y[:-2] + [y[-1], y[-2]])):
                return True
    return all(same(pc, p, q, timeout, depth - 1) for p, q in zip(x, y))


def consts_of(ts):
    seen, out, st = set(), {}, list(ts)
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[t.decl().name()] = t
        st.extend(t.children())
    return out


SPECIAL = [0, 1, 2, 3, 5, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1, 2**64 - 2, 2**64 - 128, 10, 100, 1000]
FSPECIAL = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 2.0, 3.0, -2.5, 0.1, 100.25, -100.75, 1e10, 123456.789, 4294967295.0, 2147483648.0, 9e18, 1e19, 1.8e19, 1e-10, 1e30, 3e38, float('inf'), float('-inf'), float('nan'), 127.9, -128.5, 255.5, 65535.5, 7.0, 1e300]


def random_value(rng, t, name):
    import struct as st
    n = t.size()
    if n in (32, 64, 80) and rng.random() < 0.5:
        f = rng.choice(FSPECIAL) if rng.random() < .7 else rng.uniform(-1000, 1000)
        try:
            if n == 64:
                return int.from_bytes(st.pack('<d', f), 'little')
            if n == 32:
                return int.from_bytes(st.pack('<f', f), 'little')
        except OverflowError:
            pass
        if n == 80 and f == f and abs(f) != float('inf'):
            return simp(fp_to_bv(simp(z3.fpToFP(RNE, z3.FPVal(f, D), X)))).as_long()
    if n > 80:
        return rng.getrandbits(n)
    r = rng.random()
    if r < .6:
        return rng.choice(SPECIAL) & ((1 << n) - 1)
    if r < .8:
        return -rng.choice(SPECIAL) & ((1 << n) - 1)
    return rng.getrandbits(n)


def refute(pc, c, rng, secs, extra=()):
    """Looks for a failing input by evaluation (used when the solver has no answer)."""
    ts = list(pc) + [c]
    cs = consts_of(ts)
    vs = [t for t in cs.values() if z3.is_bv(t)]
    if any(z3.is_array(t) for t in cs.values()):
        return None
    end = time.time() + secs
    n = 0
    while time.time() < end:
        n += 1
        sub = [(t, z3.BitVecVal(random_value(rng, t, nm), t.size())) for nm, t in cs.items() if z3.is_bv(t)]
        ok = True
        for q in pc:
            if not z3.is_true(simp(z3.substitute(q, *sub))):
                ok = False
                break
        if ok and z3.is_false(simp(z3.substitute(c, *sub))):
            return {t.decl().name(): v.as_long() for t, v in sub}
    return None


def model_values(s, ts):
    md = s.model()
    out = {}
    for n, t in consts_of(ts).items():
        if z3.is_bv(t):
            v = md.eval(t, model_completion=True)
            if z3.is_bv_value(v):
                out[n] = v.as_long()
        elif z3.is_array(t):
            a = md.eval(t, model_completion=True)
            d = {}
            default = 0
            fi = a
            while z3.is_app(fi) and fi.decl().kind() == z3.Z3_OP_STORE:
                k, v = fi.arg(1), fi.arg(2)
                if z3.is_bv_value(k) and z3.is_bv_value(v):
                    kk = k.as_long()
                    d.setdefault(kk if kk < 2**63 else kk - 2**64, v.as_long())
                fi = fi.arg(0)
            if z3.is_const_array(fi) and z3.is_bv_value(fi.arg(0)):
                default = fi.arg(0).as_long()
            out[n] = dict(default=default, at=d)
    return out


def verify(obj, code, prog, func, timeout=8000, seed=1, limit=25):
    DEADLINE[0] = time.time() + limit
    X87_STRUCT_MEMORY[0] = getattr(func, 'abi', None) == 'x87-struct-memory'
    try:
        return verify_(obj, code, prog, func, timeout, seed)
    finally:
        DEADLINE[0] = None


def verify_(obj, code, prog, func, timeout=8000, seed=1):
    o = Outcome(func)
    t0 = time.time()
    try:
        sym = obj.byname.get(func.name)
        if not sym:
            o.status, o.msg = 'error', 'no code for %s' % func.name
            return o
        start = sym['value']
        fcode = {a: i for a, i in code.items() if start <= a < start + sym['size']} if sym['size'] else code
        ps = explore(lambda p: run_machine(p, obj, fcode, prog, func, start), [], 200)
        o.paths = len(ps)
        if not ps:
            o.status, o.msg = 'error', 'no path'
        rng = random.Random(seed)
        live = 0
        for p, m in ps:
            check_time()
            for sp, obls in check_path(p, m, prog, func):
                live += 1
                o.obls += len(obls)
                rest = []
                for n, c, *easy in obls:
                    check_time()
                    c = simp(c)
                    if easy and easy[0] is not None and not z3.is_true(c):
                        e = simp(easy[0])
                        if z3.is_true(e) or prove(sp.pc, e, 4000)[0] == z3.unsat:
                            o.ok += 1
                            continue
                    if z3.is_true(c):
                        o.ok += 1
                    else:
                        rest.append((n, c))
                if not rest:
                    continue
                pc = sp.pc
                allc = z3.And(*[c for _, c in rest]) if len(rest) > 1 else rest[0][1]
                r, s = prove(pc, allc, timeout)
                if r == z3.unsat:
                    o.ok += len(rest)
                    continue
                bad = False
                for n, c in rest:
                    check_time()
                    r, s = prove(pc, c, timeout) if len(rest) > 1 else (r, s)
                    if r == z3.unsat:
                        o.ok += 1
                    elif r == z3.sat:
                        o.fails.append((n, model_values(s, pc + [c])))
                        bad = True
                        break
                    else:
                        x = refute(pc, c, rng, 6)
                        if x is not None:
                            o.fails.append((n, x))
                            bad = True
                            break
                        o.status = 'undecided'
                        o.msg = 'solver: no answer for %s' % n
                if bad and len(o.fails) > 2:
                    break
            if len(o.fails) > 2:
                break
        if o.fails:
            o.status = 'failed'
        elif o.status == 'proved' and not live:
            o.status, o.msg = 'error', 'no specified behaviour (vacuous)'
    except OutOfTime:
        o.status, o.msg = 'undecided', 'time limit of the function'
        if o.fails:
            o.status = 'failed'
    except (Unsupported, TooManyPaths) as e:
        o.status, o.msg = 'undecided', '%s: %s' % (type(e).__name__, str(e)[:300])
    except RecursionError as e:
        o.status, o.msg = 'undecided', 'recursion'
    except z3.Z3Exception as e:
        o.status, o.msg = 'undecided', 'z3: ' + str(e)[:200]
    o.secs = time.time() - t0
    return o
