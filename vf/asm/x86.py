"""Symbolic execution of the x86-64 code of one function, path by path, as objdump shows it."""
import re, time, z3
from .mem import *

R64 = 'rax rbx rcx rdx rsi rdi rbp rsp r8 r9 r10 r11 r12 r13 r14 r15'.split()
SUB = {}
for r in R64:
    SUB[r] = (r, 64)
for r in ('a', 'b', 'c', 'd'):
    SUB['e%sx' % r] = ('r%sx' % r, 32); SUB['%sx' % r] = ('r%sx' % r, 16); SUB['%sl' % r] = ('r%sx' % r, 8)
for r in ('si', 'di', 'bp', 'sp'):
    SUB['e' + r] = ('r' + r, 32); SUB[r] = ('r' + r, 16); SUB[r + 'l'] = ('r' + r, 8)
for i in range(8, 16):
    SUB['r%dd' % i] = ('r%d' % i, 32); SUB['r%dw' % i] = ('r%d' % i, 16); SUB['r%db' % i] = ('r%d' % i, 8)
SZ = dict(b=8, w=16, l=32, q=64)
CALLEE = ('rbx', 'rbp', 'r12', 'r13', 'r14', 'r15')
RNE, RTZ = z3.RNE(), z3.RTZ()


class Infeasible(Exception):
    pass


class Path:
    """One execution: decisions are replayed, then extended; alternatives go to the work list."""
    def __init__(self, dec, pre, timeout=3000):
        self.dec, self.i, self.alts = list(dec), 0, []
        self.pc = list(pre)
        self.s = None
        self.timeout = timeout
        self.fuel = 6000

    def solver(self):
        if self.s is None:
            self.s = z3.Solver()
            self.s.set('timeout', self.timeout)
            self.s.add(*self.pc)
        return self.s

    def add(self, c):
        self.pc.append(c)
        if self.s is not None:
            self.s.add(c)

    def feasible(self, c):
        check_time()
        s = self.solver()
        s.push()
        s.add(c)
        r = s.check()
        s.pop()
        return r != z3.unsat

    def branch(self, cond):
        c = simp(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.i < len(self.dec):
            d = self.dec[self.i]
        else:
            t, f = self.feasible(c), self.feasible(z3.Not(c))
            if not t and not f:
                raise Infeasible
            if t and f:
                self.alts.append(self.dec[:self.i] + [False])
            d = t
            self.dec.append(d)
        self.i += 1
        self.add(c if d else z3.Not(c))
        return d

    def choose(self, off):
        """Signed value of a term, splitting the path over its possible values."""
        if z3.is_bv_value(off):
            return off.as_signed_long()
        if self.i < len(self.dec):
            d = self.dec[self.i]
        else:
            s = self.solver()
            s.push()
            vals = []
            while len(vals) < 17 and s.check() == z3.sat:
                x = s.model().eval(off, model_completion=True)
                vals.append(x.as_signed_long())
                s.add(off != x)
            s.pop()
            if len(vals) == 17:
                raise Unsupported('unbounded index into an object on the stack')
            if not vals:
                raise Infeasible
            vals.sort()
            for x in vals[1:]:
                self.alts.append(self.dec[:self.i] + [x])
            d = vals[0]
            self.dec.append(d)
        self.i += 1
        self.add(off == d)
        return d

    def assume(self, cond):
        c = simp(cond)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible
        self.add(c)


class TooManyPaths(Exception):
    pass


DEADLINE = [None]


class OutOfTime(Exception):
    pass


def check_time():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise OutOfTime


def explore(fn, pre, limit=400):
    """fn(path) for every feasible path; returns [(path, result)]."""
    work = [[]]
    out = []
    while work:
        check_time()
        p = Path(work.pop(), pre)
        try:
            r = fn(p)
            out.append((p, r))
        except Infeasible:
            pass
        work += p.alts
        if len(out) > limit:
            raise TooManyPaths('more than %d paths' % limit)
    return out


class Flags:
    def __init__(self, kind, a=None, b=None):
        self.kind, self.a, self.b = kind, a, b

    def cond(self, cc):
        neg = {'ne': 'e', 'nz': 'e', 'z': 'e', 'ge': 'l', 'nl': 'l', 'g': 'le', 'nle': 'le', 'ae': 'b', 'nb': 'b', 'nc': 'b', 'c': 'b', 'a': 'be', 'nbe': 'be', 'ns': 's', 'np': 'p', 'no': 'o', 'nae': 'b', 'na': 'be', 'nge': 'l', 'ng': 'le', 'po': 'p', 'pe': 'p'}
        if cc in ('z', 'c', 'nae', 'na', 'nge', 'ng', 'pe'):
            cc = neg[cc]
        elif cc in neg:
            return z3.Not(self.cond(neg[cc]))
        k, a, b = self.kind, self.a, self.b
        if k == 'cmp':
            if cc == 'e': return a == b
            if cc == 'l': return a < b
            if cc == 'le': return a <= b
            if cc == 'b': return z3.ULT(a, b)
            if cc == 'be': return z3.ULE(a, b)
            if cc == 's': return (a - b) < 0
        if k == 'logic':
            zero = z3.BitVecVal(0, a.size())
            if cc == 'e': return a == zero
            if cc in ('l', 's'): return a < zero
            if cc == 'le': return a <= zero
            if cc == 'b': return z3.BoolVal(False)
            if cc == 'be': return a == zero
        if k == 'res':       # flags of an arithmetic result: only ZF and SF are modelled
            if cc == 'e': return a == 0
            if cc == 's': return a < 0
        if k == 'fcom':      # a compared with b
            un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            if cc == 'e': return z3.Or(un, z3.fpEQ(a, b))
            if cc == 'b': return z3.Or(un, z3.fpLT(a, b))
            if cc == 'be': return z3.Not(z3.fpGT(a, b))
            if cc == 'p': return un
        raise Unsupported('condition %s after %s' % (cc, k))


class Fault(Exception):
    """The code does something the contract forbids on this path."""


class Machine:
    def __init__(self, obj, code, mem, env):
        self.obj, self.code, self.mem, self.env = obj, code, mem, env
        self.r = {}
        self.x = [None] * 16
        self.st = []
        self.fcw = z3.BitVecVal(0x37f, 16)
        self.flags = Flags('none')
        self.events = []
        self.must = []        # (what, condition): obligations of the code itself
        self.fresh_n = 0
        self.consts = {}
        self.used = set()

    def fresh(self, name, sort):
        self.fresh_n += 1
        return z3.Const('havoc_%s_%d' % (name, self.fresh_n), sort)

    # ---- registers
    def get(self, name):
        b, n = SUB[name]
        v = self.r[b]
        return v if n == 64 else simp(z3.Extract(n - 1, 0, v))

    def set(self, name, v):
        b, n = SUB[name]
        v = simp(v)
        if v.size() != n:
            raise Unsupported('size of %s' % name)
        if n == 32:
            v = simp(z3.ZeroExt(32, v))
        elif n < 32:
            v = simp(z3.Concat(z3.Extract(63, n, self.r[b]), v))
        self.r[b] = v

    def xbits(self, i, n):
        v = self.x[i]
        if v is None:
            v = self.x[i] = self.fresh('xmm', BV(64))
        if z3.is_fp(v):
            b = fp_to_bv(v)
            if b.size() < 64:
                b = z3.Concat(self.fresh('xmmhi', BV(32)), b)
            v = b
        return simp(z3.Extract(n - 1, 0, v)) if n != v.size() else v

    def xfp(self, i, s):
        v = self.x[i]
        if v is not None and z3.is_fp(v):
            if v.sort() == s:
                return v
        return bv_to_fp(self.xbits(i, 64 if s == D else 32), s)

    # ---- operands
    def symbol(self, sym, add):
        """Base term and offset of a relocation target."""
        if sym['type'] == 3:
            sec = self.obj.sec[sym['sec']]
            for y in self.obj.syms:
                if y['sec'] == sym['sec'] and y['type'] == 1 and y['value'] <= add < y['value'] + max(y['size'], 1):
                    return self.env.global_base(self.mem, y['name']), add - y['value']
            return self.const_base(sec['name'], sec['data']), add
        if sym['type'] in (0, 1, 2) and sym['sec'] not in (0, 0xfff2) and sym['name'].startswith('.'):
            sec = self.obj.sec[sym['sec']]
            return self.const_base(sec['name'], sec['data']), sym['value'] + add
        return self.env.global_base(self.mem, sym['name']), add

    def const_base(self, name, data):
        b = z3.BitVec('&sec:' + name, 64)
        if b.get_id() not in self.mem.bases:
            self.mem.add_base(b, 'sec:' + name)
            self.consts['sec:' + name] = data
        return b

    def addr(self, op, relocs, nxt):
        m = re.match(r'(?:%fs:)?(-?0x[0-9a-f]+|-?\d+)?(?:\((%\w+)?(?:,(%\w+))?(?:,(\d))?\))?$', op)
        if not m:
            raise Unsupported('operand ' + op)
        disp = int(m.group(1), 0) if m.group(1) else 0
        if m.group(2) == '%rip':
            if not relocs:
                # a direct reference inside .text (the assembler resolved it)
                b = self.const_base('.text', self.obj.sec[self.obj.text_index()]['data'])
                return b + (disp + nxt)
            off, (ty, sym, add) = relocs[0]
            if ty in (2, 4):
                b, o = self.symbol(sym, add + (nxt - off))
                return simp(b + o)
            if ty in (9, 41, 42):
                return ('got', self.env.global_base(self.mem, sym['name']))
            raise Unsupported('relocation type %d' % ty)
        if relocs:
            raise Unsupported('absolute relocation')
        a = z3.BitVecVal(disp, 64)
        if m.group(2):
            a = self.get(m.group(2)[1:]) + a
        if m.group(3):
            a = a + self.get(m.group(3)[1:]) * int(m.group(4) or 1)
        return simp(a)

    def load(self, a, n):
        if isinstance(a, tuple):
            if n != 8:
                raise Unsupported('GOT access')
            return a[1]
        r, off = self.mem.locate(a)
        if r.name in self.consts:
            data = self.consts[r.name]
            if isinstance(off, int):
                if off < 0 or off + n > len(data):
                    raise Fault('read outside of section %s' % r.name)
                return z3.BitVecVal(int.from_bytes(data[off:off + n], 'little'), n * 8)
            xs, c = addends(off)
            win = data[c:c + 16]
            ix = simp(off - c)
            res = z3.BitVecVal(0, n * 8)
            for k in range(0, len(win) - n + 1):
                res = z3.If(ix == k, z3.BitVecVal(int.from_bytes(win[k:k + n], 'little'), n * 8), res)
            return simp(res)
        self.used.add(r.name)
        if r.name == 'stack' and isinstance(off, int):
            sp = self.sp()
            if off < sp - 128:
                raise Fault('read below the stack pointer')
        return r.read(off, n)

    def sp(self):
        r, off = self.mem.locate(self.r['rsp'])
        if r.name != 'stack' or not isinstance(off, int):
            raise Fault('the stack pointer is not an offset from its entry value')
        return off

    def store(self, a, n, v):
        if isinstance(a, tuple):
            raise Fault('write to the GOT')
        r, off = self.mem.locate(a)
        if r.name in self.consts:
            raise Fault('write to constant data')
        self.used.add(r.name)
        if r.name == 'stack':
            if isinstance(off, int):
                if off + n > 0 and not (8 <= off and off + n <= 8 + self.env.arg_bytes):
                    raise Fault('write to the frame of the caller (offset %d)' % off)
                if off < self.sp() - 128:
                    raise Fault('write below the red zone')
        r.write(off, n, simp(v))

    def src(self, op, n, relocs, nxt):
        if op[0] == '$':
            return z3.BitVecVal(int(op[1:], 0), n)
        if op[0] == '%' and not op.startswith('%fs:'):
            v = self.get(op[1:])
            if v.size() != n:
                raise Unsupported('operand size of %s' % op)
            return v
        return self.load(self.addr(op, relocs, nxt), n // 8)

    def dst(self, op, n, v, relocs, nxt):
        if op[0] == '%':
            self.set(op[1:], v)
        else:
            self.store(self.addr(op, relocs, nxt), n // 8, v)

    def fsrc(self, op, s, relocs, nxt):
        if op.startswith('%xmm'):
            return self.xfp(int(op[4:]), s)
        return bv_to_fp(self.load(self.addr(op, relocs, nxt), 8 if s == D else 4), s)

    def push(self, v):
        self.r['rsp'] = simp(self.r['rsp'] - 8)
        self.store(self.r['rsp'], 8, v)

    def pop(self):
        v = self.load(self.r['rsp'], 8)
        self.r['rsp'] = simp(self.r['rsp'] + 8)
        return v

    def fpush(self, v):
        if len(self.st) >= 8:
            raise Fault('x87 stack overflow')
        self.st.append(simp(v))

    def fpop(self):
        if not self.st:
            raise Fault('x87 stack underflow')
        return self.st.pop()

    def rm(self):
        w = simp(self.fcw)
        if not z3.is_bv_value(w):
            raise Unsupported('symbolic control word')
        return (RNE, z3.RTN(), z3.RTP(), RTZ)[w.as_long() >> 10 & 3]

    # ---- execution
    def run(self, path, start):
        """Executes until the return of the function."""
        pc = start
        while True:
            path.fuel -= 1
            if path.fuel < 0:
                raise TooManyPaths('path too long')
            if pc not in self.code:
                raise Fault('control leaves the function at %#x' % pc)
            mn, ops, nxt, relocs = self.code[pc]
            r = self.step(path, mn, ops, nxt, relocs)
            if r == 'ret':
                return
            pc = nxt if r is None else r

    def step(self, path, mn, o, nxt, rl):
        mn = {'xmmword': ''}.get(mn, mn)
        if mn.startswith(('nop', 'endbr', 'data16')):
            return
        # control flow
        if mn in ('jmp', 'jmpq'):
            return self.target(o[0], rl)
        if mn[0] == 'j':
            c = self.flags.cond(mn[1:])
            return self.target(o[0], rl) if path.branch(c) else None
        if mn in ('call', 'callq'):
            return self.call(path, o[0], rl)
        if mn in ('ret', 'retq'):
            ra = self.pop()
            if not (ra.eq(self.env.ret_addr) or z3.is_true(simp(ra == self.env.ret_addr))):
                raise Fault('returns to something else than the return address')
            return 'ret'
        if mn in ('leave', 'leaveq'):
            self.r['rsp'] = self.r['rbp']
            self.r['rbp'] = self.pop()
            return
        if mn in ('push', 'pushq'):
            self.push(self.src(o[0], 64, rl, nxt))
            return
        if mn in ('pop', 'popq'):
            v = self.pop()
            self.dst(o[0], 64, v, rl, nxt)
            return
        if mn == 'cltq':
            self.r['rax'] = simp(z3.SignExt(32, self.get('eax')))
            return
        if mn in ('cqto', 'cltd', 'cwtd'):
            n = {'cqto': 64, 'cltd': 32, 'cwtd': 16}[mn]
            a = {64: 'rax', 32: 'eax', 16: 'ax'}[n]
            d = {64: 'rdx', 32: 'edx', 16: 'dx'}[n]
            v = simp(z3.If(z3.Extract(n - 1, n - 1, self.get(a)) == 1, z3.BitVecVal(-1, n), z3.BitVecVal(0, n)))
            self.set(d, v)
            self.env.sexts[self.get(d).get_id()] = (self.get(d), self.get(a))
            return
        if mn.startswith('set'):
            self.dst(o[0], 8, simp(z3.If(self.flags.cond(mn[3:]), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))), rl, nxt)
            return
        if mn.startswith('cmov'):
            for suf in ('', 'l', 'q', 'w'):
                pass
            n = SUB[o[1][1:]][1]
            cc = mn[4:]
            if cc[-1] in 'lqw' and cc not in ('l', 'nl'):
                cc = cc[:-1]
            self.set(o[1][1:], z3.If(self.flags.cond(cc), self.src(o[0], n, rl, nxt), self.get(o[1][1:])))
            return
        # SSE moves and arithmetic
        if mn in ('movss', 'movsd', 'movapd', 'movaps', 'movups', 'movupd', 'movdqa', 'movdqu'):
            return self.fmove(mn, o, rl, nxt)
        if mn in ('movd', 'movq') and ('%xmm' in o[0] or '%xmm' in o[1]):
            n = 64 if mn == 'movq' else 32
            if o[1].startswith('%xmm'):
                v = self.src(o[0], n, rl, nxt) if not o[0].startswith('%xmm') else self.xbits(int(o[0][4:]), n)
                self.x[int(o[1][4:])] = simp(v if n == 64 else z3.ZeroExt(32, v))
            else:
                self.dst(o[1], n, self.xbits(int(o[0][4:]), n), rl, nxt)
            return
        if mn in ('xorps', 'xorpd', 'pxor') and o[0] == o[1]:
            self.x[int(o[0][4:])] = z3.BitVecVal(0, 64)
            return
        m = re.match(r'(add|sub|mul|div)(ss|sd)$', mn)
        if m:
            s = D if m.group(2) == 'sd' else S
            b, a = self.fsrc(o[0], s, rl, nxt), self.xfp(int(o[1][4:]), s)
            f = dict(add=fadd, sub=z3.fpSub, mul=fmul, div=z3.fpDiv)[m.group(1)]
            self.x[int(o[1][4:])] = simp(f(RNE, a, b))
            return
        if mn in ('comiss', 'comisd', 'ucomiss', 'ucomisd'):
            s = D if mn.endswith('d') else S
            self.flags = Flags('fcom', self.xfp(int(o[1][4:]), s), self.fsrc(o[0], s, rl, nxt))
            return
        m = re.match(r'cvtsi2(ss|sd)([lq])?$', mn)
        if m:
            n = SUB[o[0][1:]][1] if o[0][0] == '%' else {'l': 32, 'q': 64}[m.group(2)]
            v = self.src(o[0], n, rl, nxt)
            v = simp(z3.SignExt(64 - n, v)) if n < 64 else v
            self.x[int(o[1][4:])] = simp(z3.fpSignedToFP(RNE, v, D if m.group(1) == 'sd' else S))
            return
        m = re.match(r'cvtt(ss|sd)2si([lq])?$', mn)
        if m:
            n = SUB[o[1][1:]][1]
            f = self.fsrc(o[0], D if m.group(1) == 'sd' else S, rl, nxt)
            self.set(o[1][1:], self.toint(f, RTZ, n))
            return
        if mn == 'cvtss2sd':
            self.x[int(o[1][4:])] = simp(z3.fpFPToFP(RNE, self.fsrc(o[0], S, rl, nxt), D))
            return
        if mn == 'cvtsd2ss':
            self.x[int(o[1][4:])] = simp(z3.fpFPToFP(RNE, self.fsrc(o[0], D, rl, nxt), S))
            return
        if mn[0] == 'f':
            return self.x87(mn, o, rl, nxt)
        # integer moves
        if mn == 'movabsq':
            self.set(o[1][1:], z3.BitVecVal(int(o[0][1:], 0), 64))
            return
        m = re.match(r'mov(s|z)(b|w|l)(w|l|q)$', mn)
        if m:
            a, b = SZ[m.group(2)], SZ[m.group(3)]
            v = self.src(o[0], a, rl, nxt)
            self.dst(o[1], b, (z3.SignExt if m.group(1) == 's' else z3.ZeroExt)(b - a, v), rl, nxt)
            return
        m = re.match(r'mov([bwlq])$', mn)
        if m:
            n = SZ[m.group(1)]
            v = self.src(o[0], n, rl, nxt)
            self.dst(o[1], n, v, rl, nxt)
            return
        m = re.match(r'lea([lq])$', mn)
        if m:
            a = self.addr(o[0], rl, nxt)
            if isinstance(a, tuple):
                raise Unsupported('lea of GOT')
            self.set(o[1][1:], a if m.group(1) == 'q' else z3.Extract(31, 0, a))
            return
        m = re.match(r'(add|sub|and|or|xor|cmp|test)([bwlq])$', mn)
        if m:
            n = SZ[m.group(2)]
            s, d = self.src(o[0], n, rl, nxt), self.src(o[1], n, rl, nxt)
            k = m.group(1)
            if k == 'cmp':
                self.flags = Flags('cmp', d, s)
                return
            if k == 'test':
                self.flags = Flags('logic', simp(d & s))
                return
            if k == 'xor' and o[0] == o[1]:
                v = z3.BitVecVal(0, n)
            else:
                v = simp({'add': d + s, 'sub': d - s, 'and': d & s, 'or': d | s, 'xor': d ^ s}[k])
            self.flags = Flags('logic', v) if k in ('and', 'or', 'xor') else Flags('cmp', d, s) if k == 'sub' else Flags('res', v)
            self.dst(o[1], n, v, rl, nxt)
            return
        m = re.match(r'(neg|not|inc|dec)([bwlq])$', mn)
        if m:
            n = SZ[m.group(2)]
            d = self.src(o[0], n, rl, nxt)
            v = simp({'neg': -d, 'not': ~d, 'inc': d + 1, 'dec': d - 1}[m.group(1)])
            if m.group(1) != 'not':
                self.flags = Flags('res', v)
            self.dst(o[0], n, v, rl, nxt)
            return
        m = re.match(r'(shl|sal|shr|sar)([bwlq])$', mn)
        if m:
            n = SZ[m.group(2)]
            cnt = self.get('cl') if len(o) == 2 and o[0] == '%cl' else z3.BitVecVal(int(o[0][1:], 0) if len(o) == 2 else 1, 8)
            cnt = cnt & (63 if n == 64 else 31)
            d = self.src(o[-1], n, rl, nxt)
            c = simp(z3.ZeroExt(n - 8, cnt) if n > 8 else cnt)
            f = {'shl': lambda: d << c, 'sal': lambda: d << c, 'shr': lambda: z3.LShR(d, c), 'sar': lambda: d >> c}[m.group(1)]
            v = simp(f())
            self.flags = Flags('res', v) if z3.is_bv_value(c) and c.as_long() else Flags('none')
            self.dst(o[-1], n, v, rl, nxt)
            return
        m = re.match(r'bt([csr])([wlq])$', mn)
        if m and o[0][0] == '$' and o[1][0] == '%':
            n = SZ[m.group(2)]
            bit = z3.BitVecVal(1 << (int(o[0][1:], 0) % n), n)
            d = self.src(o[1], n, rl, nxt)
            self.flags = Flags('none')
            self.dst(o[1], n, simp({'c': d ^ bit, 's': d | bit, 'r': d & ~bit}[m.group(1)]), rl, nxt)
            return
        m = re.match(r'imul([wlq])$', mn)
        if m and len(o) >= 2:
            n = SZ[m.group(1)]
            s = self.src(o[0], n, rl, nxt)
            d = self.get(o[1][1:]) if len(o) == 2 else self.src(o[1], n, rl, nxt)
            self.set(o[-1][1:], s * d)
            self.flags = Flags('none')
            return
        m = re.match(r'(i?)div([wlq])$', mn)
        if m:
            n = SZ[m.group(2)]
            s = self.src(o[0], n, rl, nxt)
            an, dn = {32: ('eax', 'edx'), 64: ('rax', 'rdx'), 16: ('ax', 'dx')}[n]
            a, d = self.get(an), self.get(dn)
            self.must.append(('division by zero trap', s != 0))
            if m.group(1):
                sx = self.env.sexts.get(d.get_id())
                if not ((sx and sx[1].eq(a)) or not path.feasible(d != z3.If(z3.Extract(n - 1, n - 1, a) == 1, z3.BitVecVal(-1, n), z3.BitVecVal(0, n)))):
                    raise Fault('the high half of the dividend is not its sign')
                self.must.append(('division overflow trap', z3.Not(z3.And(s == -1, a == 1 << (n - 1)))))
                q, r = a / s, z3.SRem(a, s)
            else:
                if not (z3.is_bv_value(d) and d.as_long() == 0) and path.feasible(d != 0):
                    raise Fault('the high half of the dividend is not zero')
                q, r = z3.UDiv(a, s), z3.URem(a, s)
            self.set(an, q)
            self.set(dn, r)
            self.flags = Flags('none')
            return
        if mn in ('rep stosq', 'rep movsq'):
            raise Unsupported(mn)
        raise Unsupported('instruction %s %s' % (mn, ','.join(o)))

    def target(self, op, rl):
        if rl:
            off, (ty, sym, add) = rl[0]
            if sym['sec'] == self.obj.text_index():
                return sym['value'] + add + 4
            raise Unsupported('jump out of the section')
        return int(op.split()[0], 16)

    def toint(self, f, rm, n):
        """cvtt: integer indefinite when out of range."""
        v = z3.fpToSBV(rm, f, z3.BitVecSort(n))
        lo, hi = -(2.0 ** (n - 1)), 2.0 ** (n - 1)
        s = f.sort()
        if n == 64 or s != D:
            inr = z3.And(z3.fpGEQ(f, z3.fpToFP(RNE, z3.FPVal(lo, D), s)), z3.fpLT(f, z3.fpToFP(RNE, z3.FPVal(hi, D), s)))
        else:
            inr = z3.And(z3.fpGT(f, z3.FPVal(lo - 1, s)), z3.fpLT(f, z3.FPVal(hi, s)))
        self.must.append(('conversion in range', z3.Or(simp(inr), self.env.range_ok)))
        return simp(v)

    def fmove(self, mn, o, rl, nxt):
        n = {'movss': 4, 'movsd': 8}.get(mn, 16)
        if o[0].startswith('%xmm') and o[1].startswith('%xmm'):
            v = self.x[int(o[0][4:])]
            self.x[int(o[1][4:])] = self.fresh('xmm', BV(64)) if v is None else v
        elif o[1].startswith('%xmm'):
            a = self.addr(o[0], rl, nxt)
            if n == 16:
                raise Unsupported('16 byte load')
            v = self.load(a, n)
            s = D if n == 8 else S
            f = {8: D2BV, 4: S2BV}[n]
            self.x[int(o[1][4:])] = v.arg(0) if app(v, f) else bv_to_fp(v, s)
        else:
            i = int(o[0][4:])
            if n == 16:
                a = self.addr(o[1], rl, nxt)
                self.store(a, 8, self.xbits(i, 64))
                self.store(simp(a + 8), 8, self.fresh('xmmhi', BV(64)))
                return
            v = self.x[i]
            b = fp_to_bv(v) if v is not None and z3.is_fp(v) and v.sort() == (D if n == 8 else S) else self.xbits(i, 8 * n)
            self.store(self.addr(o[1], rl, nxt), n, b)

    def x87(self, mn, o, rl, nxt):
        st = self.st

        def mem(n):
            return self.load(self.addr(o[0], rl, nxt), n)

        def need(k):
            if len(st) < k:
                raise Fault('x87 stack underflow')
        if mn in ('fldt', 'fldl', 'flds') and not o[0].startswith('%st'):
            if mn == 'fldt':
                v = bv_to_fp(mem(10), X)
            else:
                s, n = (D, 8) if mn == 'fldl' else (S, 4)
                v = z3.fpFPToFP(RNE, bv_to_fp(mem(n), s), X)
            self.fpush(v)
        elif mn in ('fldz', 'fld1'):
            self.fpush(z3.FPVal(0.0 if mn == 'fldz' else 1.0, X))
        elif mn == 'fld':
            k = int(re.search(r'\d', o[0]).group())
            need(k + 1)
            self.fpush(st[-1 - k])
        elif mn in ('fstpt', 'fstpl', 'fstps', 'fstl', 'fsts'):
            need(1)
            v = st[-1]
            if mn == 'fstpt':
                self.store(self.addr(o[0], rl, nxt), 10, fp_to_bv(v))
            else:
                s, n = (D, 8) if 'l' in mn[3:] else (S, 4)
                self.store(self.addr(o[0], rl, nxt), n, fp_to_bv(simp(z3.fpFPToFP(self.rm(), v, s))))
            if 'p' in mn:
                st.pop()
        elif mn in ('filds', 'fildl', 'fildq', 'fildll'):
            n = {'filds': 2, 'fildl': 4, 'fildq': 8, 'fildll': 8}[mn]
            v = mem(n)
            v = simp(z3.SignExt(64 - 8 * n, v)) if n < 8 else v
            self.fpush(z3.fpSignedToFP(RNE, v, X))
        elif mn in ('fistps', 'fistpl', 'fistpq', 'fistpll', 'fisttpq', 'fisttpll', 'fisttpl', 'fisttps'):
            n = {'s': 16, 'l': 32, 'q': 64}[mn[-1]]
            if mn.endswith('ll'):
                n = 64
            need(1)
            v = st.pop()
            rm = RTZ if 'tt' in mn else self.rm()
            lo, hi = z3.FPVal(-2.0 ** (n - 1), X), z3.FPVal(2.0 ** (n - 1), X)
            inr = z3.And(z3.fpGT(v, z3.fpSub(RNE, lo, z3.FPVal(1.0, X))), z3.fpLT(v, hi)) if n < 64 else z3.And(z3.fpGEQ(v, lo), z3.fpLT(v, hi))
            self.must.append(('conversion in range', z3.Or(simp(inr), self.env.range_ok)))
            self.store(self.addr(o[0], rl, nxt), n // 8, simp(z3.fpToSBV(rm, v, z3.BitVecSort(n))))
        elif mn in ('fnstcw', 'fnstcww'):
            self.store(self.addr(o[0], rl, nxt), 2, self.fcw)
        elif mn in ('fldcw', 'fldcww'):
            self.fcw = mem(2)
        elif mn in ('fxch',):
            k = int(re.search(r'\d', o[0]).group()) if o else 1
            need(k + 1)
            st[-1], st[-1 - k] = st[-1 - k], st[-1]
        elif mn in ('fchs', 'fabs'):
            need(1)
            st[-1] = simp((z3.fpNeg if mn == 'fchs' else z3.fpAbs)(st[-1]))
        elif mn == 'fstp':
            k = int(re.search(r'\((\d)\)', o[0]).group(1)) if '(' in o[0] else 0
            need(k + 1)
            st[-1 - k] = st[-1]
            st.pop()
        elif mn in ('faddp', 'fmulp', 'fsubp', 'fsubrp', 'fdivp', 'fdivrp'):
            k = 1
            for x in o:
                m = re.search(r'\((\d)\)', x)
                if m and m.group(1) != '0':
                    k = int(m.group(1))
            need(k + 1)
            a, b = st[-1 - k], st[-1]          # st(k), st(0)
            # AT&T names (binutils): fsubp: st(k) = st(0) - st(k) ; fsubrp: st(k) = st(k) - st(0)  (the historic swap)
            r = {'faddp': lambda: fadd(RNE, a, b), 'fmulp': lambda: fmul(RNE, a, b),
                 'fsubp': lambda: z3.fpSub(RNE, b, a), 'fsubrp': lambda: z3.fpSub(RNE, a, b),
                 'fdivp': lambda: z3.fpDiv(RNE, b, a), 'fdivrp': lambda: z3.fpDiv(RNE, a, b)}[mn]()
            st[-1 - k] = simp(r)
            st.pop()
        elif mn in ('fadds', 'faddl'):
            need(1)
            s, n = (S, 4) if mn == 'fadds' else (D, 8)
            st[-1] = simp(fadd(RNE, st[-1], z3.fpFPToFP(RNE, bv_to_fp(mem(n), s), X)))
        elif mn in ('fcomip', 'fucomip', 'fcomi', 'fucomi', 'fcompi', 'fucompi'):
            need(2)
            self.flags = Flags('fcom', st[-1], st[-2])
            if mn in ('fcomip', 'fucomip', 'fcompi', 'fucompi'):
                st.pop()
        elif mn.startswith('fcmov'):
            need(2)
            cc = {'fcmovnbe': 'a', 'fcmovnb': 'ae', 'fcmovb': 'b', 'fcmovbe': 'be', 'fcmove': 'e', 'fcmovne': 'ne'}[mn]
            st[-1] = simp(z3.If(self.flags.cond(cc), st[-2], st[-1]))
        else:
            raise Unsupported('instruction %s %s' % (mn, ','.join(o)))

    def call(self, path, op, rl):
        if op[0] == '*':
            t = self.src(op[1:], 64, rl, None)
            name = self.env.fn_name(self, t)
        else:
            if not rl:
                # resolved by the assembler: a function of the same file
                a = int(op.split()[0], 16)
                name = next((y['name'] for y in self.obj.syms if y['type'] == 2 and y['value'] == a and y['sec'] == self.obj.text_index()), None)
            else:
                sym, add = rl[0][1][1], rl[0][1][2]
                name = sym['name']
                if sym['type'] == 3:
                    a = add + 4
                    name = next((y['name'] for y in self.obj.syms if y['type'] == 2 and y['value'] == a and y['sec'] == sym['sec']), None)
        if name is None:
            raise Unsupported('call of %s' % op)
        sp = self.sp()
        if (sp + 8) % 16 != 0:       # entry: rsp + 8 is a multiple of 16, and stack offsets are relative to rsp at entry
            raise Fault('the stack is not 16 byte aligned at the call of %s' % name)
        if self.st:
            raise Fault('x87 stack not empty at the call of %s' % name)
        if simp(self.fcw).as_long() != 0x37f:
            raise Fault('x87 control word changed at a call')
        self.env.call(self, path, name)
        for r in ('rax', 'rcx', 'rdx', 'rsi', 'rdi', 'r8', 'r9', 'r10', 'r11'):
            if r not in self.env.kept:
                self.r[r] = self.fresh(r, BV(64))
        for i in range(16):
            if i not in self.env.kept_x:
                self.x[i] = None
        self.env.after_call(self)
        # the callee's frame destroys everything below the stack pointer
        st = self.mem.regions['stack']
        st.write(sp - 4096, 4096, z3.BitVec('havoc_frame_%d' % self.fresh_n, 4096 * 8))
        self.fresh_n += 1
        self.flags = Flags('none')
        return
