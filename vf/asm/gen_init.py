"""Families about initialisers. Static objects: the contract of an object gives the value of every byte (and relocation) of every member,
compared with the sections and relocations of the object file. Automatic objects: functions whose meaning assigns every member."""
import random, re
from fractions import Fraction
from .lang import *
from .gen import *


def fp_bits(x, t):
    """Bits of the value of type t nearest to the rational x."""
    p, emax, bias = {FLOAT: (24, 8, 127), DOUBLE: (53, 11, 1023), LDOUBLE: (64, 15, 16383)}[t]
    if x == 0:
        return 0
    s, x = (1, -x) if x < 0 else (0, x)
    e = 0
    while x >= 2:
        x, e = x / 2, e + 1
    while x < 1:
        x, e = x * 2, e - 1
    m = x * (1 << (p - 1))
    q = m.numerator // m.denominator
    r = m - q
    if r > Fraction(1, 2) or r == Fraction(1, 2) and q & 1:
        q += 1
    if q >> p:
        q, e = q >> 1, e + 1
    if t is LDOUBLE:
        return s << 79 | (e + bias) << 64 | q
    return s << (emax + p - 1) | (e + bias) << (p - 1) | q & (1 << (p - 1)) - 1


class Text:
    def __init__(self, t):
        self.t = t

    def c(self):
        return self.t


class Data(Func):
    """An object with static storage duration. leaves: [(offset, bytes or None, bit, width, value)] with value an int, ('sym', name, addend)
    or ('str', bytes, addend)."""
    def __init__(self, name, text, size, align, leaves, tag, bind=1, getter=None):
        Func.__init__(self, name, VOID, [], [], tag)
        self.text, self.size, self.align, self.leaves, self.bind = text, size, align, leaves, bind
        self.getter = getter
        self.data = True

    def c(self):
        return self.text


def check_data(ob, f):
    """Compares the object file with the contract: (status, message, obligations, discharged, 1, failures)."""
    fails, n = [], 0
    def ob_(what, ok):
        nonlocal n
        n += 1
        if not ok:
            fails.append((what, None))
    pat = re.compile(r'(.*\.)?%s\.\d+$' % re.escape(f.name)) if f.getter else None      # an object of a function
    cand = [s for s in ob.syms if (pat.match(s['name']) if pat else s['name'] == f.name) and s['type'] != 3]
    if len(cand) != 1 or not cand[0]['sec']:
        return ('failed', '', 1, 0, 1, [('%s is defined once' % f.name, None)])
    s = cand[0]
    ob_('linkage of %s' % f.name, s['bind'] == f.bind)
    if s['sec'] == 0xfff2:      # common: zeros
        data, rel, base, sect = b'\0' * s['size'], {}, 0, None
        ob_('alignment', s['value'] % f.align == 0)
        ob_('size', s['size'] >= f.size)
    elif s['sec'] < len(ob.sec):
        sect = ob.sec[s['sec']]
        data, rel, base = sect['data'], ob.rel.get(s['sec'], {}), s['value']
        ob_('alignment', base % f.align == 0)
        ob_('the object lies in a writable or constant section', sect['flags'] & 2)
        ob_('the object lies in its section', base + f.size <= len(data))
        if s['size']:
            ob_('size', s['size'] >= f.size)
            others = [x for x in ob.syms if x['sec'] == s['sec'] and x is not s and x['type'] != 3 and x['size'] and x['value'] < base + f.size and base < x['value'] + x['size']]
            ob_('the object overlaps no other one', not others)
    else:
        return ('failed', '', 1, 0, 1, [('section of %s' % f.name, None)])
    used = set()
    for off, size, bit, width, val in f.leaves:
        o = base + off
        w = 'bytes %d to %d of the object' % (off, off + size - 1) if bit is None else 'bits %d to %d of the object' % (8 * off + bit, 8 * off + bit + width - 1)
        if isinstance(val, int):
            got = int.from_bytes(data[o:o + size], 'little')
            if bit is not None:
                ob_(w, got >> bit & (1 << width) - 1 == val & (1 << width) - 1 and not any(k in rel for k in range(o, o + size)))
            else:
                ob_(w, got == val & (1 << 8 * size) - 1 and not any(k in rel for k in range(o - 7, o + size)))
            continue
        r = rel.get(o)
        if r is None or r[0] != 1:
            ob_(w + ' (address)', False)
            continue
        used.add(o)
        typ, sym, add = r
        if val[0] == 'sym':
            tgt = [x for x in ob.syms if x['name'] == val[1] and x['type'] != 3]
            ok = sym['name'] == val[1] and add == val[2] or tgt and tgt[0]['sec'] == sym['sec'] and sym['sec'] and sym['value'] + add == tgt[0]['value'] + val[2]
            ob_(w + ' (address of %s + %d)' % (val[1], val[2]), bool(ok))
        else:
            d = ob.sec[sym['sec']]['data'] if 0 < sym['sec'] < len(ob.sec) else b''
            a = sym['value'] + add - val[2]
            ob_(w + ' (string literal)', a >= 0 and d[a:a + len(val[1])] == val[1] and not any(k in ob.rel.get(sym['sec'], {}) for k in range(a, a + len(val[1]))))
    extra = [k - base for k in rel if base <= k < base + f.size and k not in used]
    ob_('no other relocations in the object', not extra)
    return ('failed' if fails else 'proved', '', n, n - len(fails), 1, fails)


def confirm_data(wcc, prog, f, d):
    """The compiled object, read by a program: (difference, files)."""
    import os, subprocess
    syms = sorted({l[4][1] for l in f.leaves if not isinstance(l[4], int) and l[4][0] == 'sym'})
    t = '#include <stdio.h>\n#include <string.h>\n' + ''.join('extern char %s[];\n' % s for s in syms if s != f.name)
    t += 'extern char *%s(void);\n#define %s (%s())\n' % (f.getter, f.name, f.getter) if f.getter else 'extern char %s[];\n' % f.name
    t += 'int bad;\nstatic void b(int off, int size, const char *e) { if (memcmp(%s + off, e, size)) { bad = 1; printf("bytes at offset %%d:", off); for (int i = 0; i < size; i++) printf(" %%02x", (unsigned char) %s[off + i]); printf(", expected"); for (int i = 0; i < size; i++) printf(" %%02x", (unsigned char) e[i]); printf("\\n"); } }\n' % (f.name, f.name)
    t += 'static void bf(int off, int size, int bit, int width, unsigned long e) { unsigned long v = 0; memcpy(&v, %s + off, size); v = v >> bit & (width == 64 ? -1ul : (1ul << width) - 1); if (v != e) { bad = 1; printf("bit-field at offset %%d bit %%d: %%lx, expected %%lx\\n", off, bit, v, e); } }\n' % f.name
    t += 'int main(void) {\n    if ((unsigned long) %s %% %d) { bad = 1; printf("misaligned\\n"); }\n' % (f.name, f.align)
    for off, size, bit, width, val in f.leaves:
        if isinstance(val, int) and bit is None:
            t += '    b(%d, %d, "%s");\n' % (off, size, ''.join('\\x%02x' % x for x in (val & (1 << 8 * size) - 1).to_bytes(size, 'little')))
        elif isinstance(val, int):
            t += '    bf(%d, %d, %d, %d, %dul);\n' % (off, size, bit, width, val & (1 << width) - 1)
        elif val[0] == 'sym':
            t += '    if (*(char **) (%s + %d) != %s + %d) { bad = 1; printf("address at offset %d is not %s + %d\\n"); }\n' % (f.name, off, val[1], val[2], off, val[1], val[2])
        else:
            t += '    if (memcmp(*(char **) (%s + %d) - %d, "%s", %d)) { bad = 1; printf("string at offset %d\\n"); }\n' % (f.name, off, val[2], ''.join('\\%03o' % x for x in val[1]), len(val[1]), off)
    t += '    return bad;\n}\n'
    os.makedirs(d, exist_ok=True)
    src = prog.c([f])
    if f.bind == 0 and not f.getter:
        src = src.replace('static ', '')
    open(os.path.join(d, 'f.c'), 'w').write(src)
    open(os.path.join(d, 'd.c'), 'w').write(t)
    def go(cc):
        e = os.path.join(d, 'x')
        if os.path.exists(e):
            os.unlink(e)
        p = subprocess.run('%s -c -o f.o f.c && gcc -w -g0 -o x d.c f.o -no-pie && timeout 10 ./x' % cc, shell=True, cwd=d, capture_output=True, text=True, errors='replace')
        return p.returncode if os.path.exists(e) else -1, p.stdout
    g, w = go('gcc -w -fno-pie'), go(wcc)
    files = dict(f=src, d=t, script='"$WCC" -c -o f.o f.c && gcc -w -no-pie -o x d.c f.o && ./x')
    if g[0] == 0 and w[0] == 1:
        return w[1], files
    return None, dict(files, ran='gcc %s wcc %s %s' % (g, w[0], w[1]))


# ---------------------------------------------------------------- generation

SIMPLE = {'n': 10, 't': 9, '0': 0, 'r': 13, '\\': 92, '"': 34, "'": 39, 'a': 7, 'b': 8, 'f': 12, 'v': 11, '?': 63}


class Gen:
    def __init__(self, rng, fam):
        self.r, self.f = rng, fam
        p = fam.prog
        self.inner = fam.struct(Struct('In', [('p', CHAR), ('q', INT), ('r', Arr(SHORT, 3))]))
        self.garr = fam.glob('garr', Arr(INT, 10))
        self.gst = fam.glob('gst', Arr(self.inner, 4))
        self.gl = fam.glob('gl', LONG)
        self.gc = fam.glob('gc', Arr(CHAR, 20))
        self.ext1 = fam.ext('ext1', Fn(INT, [INT]))
        self.ns = 0

    # ---- types

    def scalar(self):
        r = self.r.random()
        if r < .6:
            return self.r.choice(INTS)
        if r < .8:
            return self.r.choice(FPS)
        return Ptr(self.r.choice([CHAR, INT, LONG, SHORT, self.inner, VOID]))

    def bits_ty(self):
        return self.r.choice([INT, UINT, INT, UINT])

    def struct_ty(self, depth, union=False):
        self.ns += 1
        name = 'T%d' % self.ns
        ms = []
        n = self.r.randrange(1, 6)
        bf = not union and self.r.random() < .4
        for i in range(n):
            if bf and self.r.random() < .6:
                w = self.r.choice([1, 2, 3, 5, 7, 8, 9, 13, 16, 17, 24, 31, 32])
                if self.r.random() < .12:
                    ms.append((None, INT, self.r.choice([0, 3, 5])))
                ms.append(('m%d' % i, self.bits_ty(), w))
            else:
                ms.append(('m%d' % i, self.type(depth - 1)))
        return self.f.struct(Struct(name, ms, union=union))

    def type(self, depth):
        r = self.r.random()
        if depth <= 0 or r < .4:
            return self.scalar()
        if r < .65:
            return Arr(CHAR if self.r.random() < .3 else self.type(depth - 1), self.r.randrange(1, 5))
        if r < .75:
            return self.struct_ty(depth, True)
        return self.struct_ty(depth)

    # ---- values: text, and ('int', n) etc.

    def string(self, n=None):
        """(C text, bytes without the terminating zero)"""
        r = self.r
        n = r.randrange(0, 7) if n is None else n
        t, b = '', b''
        for i in range(n):
            k = r.random()
            if k < .7:
                c = r.choice('abcxyz AB%&;{}')
                t, b = t + c, b + c.encode()
            elif k < .85:
                e = r.choice(list(SIMPLE))
                if e == '0':
                    t += '\\000'
                    b += b'\0'
                else:
                    t, b = t + '\\' + e, b + bytes([SIMPLE[e]])
            elif k < .95:
                x = r.choice([1, 7, 63, 127, 128, 200, 255])
                t, b = t + '\\%03o' % x, b + bytes([x])
            else:
                x = r.choice([1, 0x7f, 0x80, 0xff])
                t, b = t + '\\x%x" "' % x, b + bytes([x])
        return '"' + t + '"', b

    def number(self, t):
        """An arithmetic constant expression for a member of arithmetic type t: (text, value as a rational)."""
        r = self.r
        k = r.random()
        bits = 64 if isinstance(t, Fp) else t.bits
        if isinstance(t, Fp) and k < .6:
            x = r.choice(['1.5', '0.1', '-2.25', '1e10', '3.0f', '0.1f', '7.5L', '.5', '100.', '-0.3', '1e-3', '16777217.0', '0.1L'])
            neg = x[0] == '-'
            q = Fraction(x.lstrip('-').rstrip('fL').rstrip('.') if not x.rstrip('fL').endswith('.') else x.lstrip('-').rstrip('fL').rstrip('.'))
            lt = FLOAT if x[-1] == 'f' else LDOUBLE if x[-1] == 'L' else DOUBLE
            q = from_fp(fp_bits(q, lt), lt)
            return x, -q if neg else q
        if k < .15 and not isinstance(t, Fp):
            x = r.choice(['1.9', '-1.9', '100.5f', '3.0L'])
            if x[0] == '-' and not t.signed:
                x = x[1:]
            return x, Fraction(int(float(x.rstrip('fL'))))
        if k < .3:
            c = r.choice(['a', '0', ' ', '\\n', '\\0', '\\377', '\\\'', '"'])
            n = {'\\n': 10, '\\0': 0, '\\377': -1, "\\'": 39}.get(c, ord(c[-1]))
            return "'%s'" % c, Fraction(n)
        if k < .4:
            n, x = r.choice([(4, 'sizeof(int)'), (16, 'sizeof(long double)'), (40, 'sizeof(garr)'), (12, '3 * 4'), (-8, '-(1 << 3)'), (1, '3 > 2'), (255, '0xff'), (7, '1 ? 7 : 8'), (-1, '~0'), (5, '0x10 / 3'), (8, '010'), (20, 'sizeof gc'), (65, "(int) 'A'"), (2, '(char) 258'), (1, '!0')])
            return x, Fraction(n)
        n = r.choice([0, 1, 2, -1, 7, 100, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, 2**31 - 1, -2**31, 2**31, 2**32 - 1, 2**32, 2**63 - 1, -2**62, r.randrange(-1000, 1000), r.randrange(-2**31, 2**31)])
        if isinstance(t, Fp):
            return ('(%d)' % n if n != -2**31 else '(-2147483647 - 1)') + ('' if abs(n) < 2**31 or n == -2**31 else ''), Fraction(n)
        if not -2**(bits - 1) <= n < 2**bits and r.random() < .7:
            n %= 100
        return ('%d' % n if n >= -2**31 + 1 and n < 2**31 else '(-2147483647 - 1)' if n == -2**31 else '%dL' % n), Fraction(n)

    def bitval(self, t, width):
        while True:
            x, q = self.number(t)
            if '.' not in x:
                return x, int(q)

    def pointer(self, t):
        r = self.r
        k = r.random()
        to = t.to
        if k < .2:
            return r.choice(['0', '(void *) 0', '0L']), 0
        if to is CHAR and k < .6:
            s, b = self.string()
            a = r.choice([0, 0, 0, 1, 2]) if len(b) >= 2 else 0
            return (s if not a else '%s + %d' % (s, a) if r.random() < .6 else '&(%s)[%d]' % (s, a) if '" "' not in s else '%s + %d' % (s, a)), ('str', b + b'\0', a)
        c = []
        if to is INT:
            i = r.randrange(10)
            c = [('garr', 'garr', 0), ('&garr[%d]' % i, 'garr', 4 * i), ('garr + %d' % i, 'garr', 4 * i), ('%d + garr' % i, 'garr', 4 * i), ('&gst[2].q', 'gst', 2 * 16 + 4), ('&garr[5] - 2', 'garr', 12), ('(int *) &gl', 'gl', 0), ('&gst[1].q + 1', 'gst', 16 + 8)]
        elif to is LONG:
            c = [('&gl', 'gl', 0), ('(long *) &garr[3]', 'garr', 12), ('&gl + 1', 'gl', 8), ('(long *) garr + 1', 'garr', 8)]
        elif to is SHORT:
            c = [('gst[1].r', 'gst', 16 + 8), ('&gst[3].r[2]', 'gst', 48 + 8 + 4), ('gst[2].r + 1', 'gst', 32 + 10), ('gst->r', 'gst', 8)]
        elif to is CHAR:
            c = [('gc', 'gc', 0), ('&gc[7]', 'gc', 7), ('gc + 3', 'gc', 3), ('&gst[1].p', 'gst', 16), ('(char *) &gl + 3', 'gl', 3), ('(char *) garr', 'garr', 0), ('(char *) &garr[2]', 'garr', 8)]
        elif isinstance(to, Struct):
            c = [('gst', 'gst', 0), ('&gst[3]', 'gst', 48), ('gst + 1', 'gst', 16), ('&gst[3] - 1', 'gst', 32)]
        elif isinstance(to, Void):
            c = [('&gl', 'gl', 0), ('garr', 'garr', 0), ('&gst[1].r[1]', 'gst', 16 + 10), ('gc', 'gc', 0), ('(void *) (garr + 1)', 'garr', 4), ('&gst[2]', 'gst', 32)]
        x, s, a = r.choice(c)
        return x, ('sym', s, a)

    # ---- initialisers; self.leaves collects (path function, type, width, value)

    def leaf(self, t, width=None):
        if isinstance(t, Ptr):
            return self.pointer(t)
        x, q = self.number(t)
        if isinstance(t, Fp):
            return x, fp_bits(q, t)
        return x, int(q) & (1 << t.bits) - 1

    def zero(self, t, off):
        """Leaves of a zero initialised object."""
        if isinstance(t, Struct) and t.union:
            self.zero(list(t.fields.values())[0].ty, off) if t.fields else None
        elif isinstance(t, Struct):
            for f in t.fields.values():
                if f.width is not None:
                    self.leaves.append((off + f.off, f.ty.size, f.bit, f.width, 0))
                else:
                    self.zero(f.ty, off + f.off)
        elif isinstance(t, Arr):
            for i in range(t.n):
                self.zero(t.to, off + i * t.to.size)
        else:
            self.leaves.append((off, 10 if t is LDOUBLE else t.size, None, None, 0))

    def items(self, t):
        """[(type, offset, bit, width)] of the members an initialiser list of t gives values to."""
        if isinstance(t, Struct):
            fs = list(t.fields.values())
            return [(f.ty, f.off, f.bit, f.width) for f in (fs[:1] if t.union else fs)]
        return [(t.to, i * t.to.size, None, None) for i in range(t.n)]

    def init(self, t, off, full=False, top=False):
        """Initialiser of t at offset off with braces (or a scalar): text. With full, all scalars get one."""
        r = self.r
        if isinstance(t, Arr) and t.to is CHAR and t.n and r.random() < .6:
            n = r.choice([t.n, t.n - 1, r.randrange(0, t.n + 1)])
            s, b = self.string(max(0, n))
            for i in range(t.n):
                self.leaves.append((off + i, 1, None, None, b[i] if i < len(b) else 0))
            return s if r.random() < .7 else '{%s}' % s
        if isinstance(t, (Arr, Struct)):
            x = self.list(t, off, r.random() < .6)
            return '{' + x + (',' if r.random() < .15 else '') + '}'
        x, val = self.leaf(t)
        self.leaves.append((off, 10 if t is LDOUBLE else t.size, None, None, val))
        return x if r.random() < .95 or not top else '{%s}' % x

    def list(self, t, off, complete):
        """Contents of the braces."""
        r = self.r
        its = self.items(t)
        n = len(its) if complete else r.randrange(1, len(its) + 1)
        out = []
        stop = False
        for i, (ty, o, bit, width) in enumerate(its):
            if i >= n or stop:
                if bit is not None:
                    self.leaves.append((off + o, ty.size, bit, width, 0))
                else:
                    self.zero(ty, off + o)
                continue
            if bit is not None:
                x, q = self.bitval(ty, width)
                self.leaves.append((off + o, ty.size, bit, width, q))
                out.append(x)
            elif isinstance(ty, (Arr, Struct)) and r.random() < .4:
                # without its own braces
                x, done = self.elided(ty, off + o, i == n - 1)
                out += x
                stop = not done
            else:
                out.append(self.init(ty, off + o))
        if isinstance(t, Struct) and t.union and isinstance(t, Struct):
            pass
        return ', '.join(out)

    def elided(self, t, off, last):
        """Initialisers of the members of t in the surrounding list: ([text], all of them given)."""
        if isinstance(t, Arr) and t.to is CHAR and self.r.random() < .5:
            s, b = self.string(self.r.randrange(0, t.n + 1))
            for i in range(t.n):
                self.leaves.append((off + i, 1, None, None, b[i] if i < len(b) else 0))
            return [s], True
        out = []
        its = self.items(t)
        n = len(its)
        if last and self.r.random() < .4:
            n = self.r.randrange(1, n + 1)
        stop = False
        for i, (ty, o, bit, width) in enumerate(its):
            if i >= n or stop:
                if bit is not None:
                    self.leaves.append((off + o, ty.size, bit, width, 0))
                else:
                    self.zero(ty, off + o)
                stop = True
                continue
            if bit is not None:
                x, q = self.bitval(ty, width)
                self.leaves.append((off + o, ty.size, bit, width, q))
                out.append(x)
            elif isinstance(ty, (Arr, Struct)):
                # a brace at the start would belong to t itself
                if i == 0 or self.r.random() < .5:
                    x, done = self.elided(ty, off + o, last and i == n - 1)
                    out += x
                    stop = not done
                else:
                    out.append(self.init(ty, off + o))
            else:
                out.append(self.init(ty, off + o))
        return out, not stop

    def object(self, depth, static=False, local=False):
        r = self.r
        t = self.type(depth)
        while isinstance(t, Struct) and not t.fields:
            t = self.type(depth)
        self.leaves = []
        self.f.n += 1
        name = 'o%d' % self.f.n
        sized = None
        pre = 'static ' if static else ''
        if isinstance(t, Arr) and r.random() < .3:
            if t.to is CHAR and r.random() < .7:
                s, b = self.string()
                b += b'\0'
                t = Arr(CHAR, len(b))
                for i in range(t.n):
                    self.leaves.append((i, 1, None, None, b[i]))
                x = s if r.random() < .7 else '{%s}' % s
            else:
                x = '{' + self.list(t, 0, True) + '}'
            text = pre + decl(t.to, name + '[]') + ' = ' + x + ';\n'
            # the size of the array is that of its initialiser
            sized = decl(t.to, name + 's[]') + ' = ' + x + ';\nunsigned long size_%s = sizeof(%ss);\n' % (name, name)
        else:
            text = pre + decl(t, name) + ' = ' + self.init(t, 0, top=True) + ';\n'
        if local:
            # with static storage inside a function
            text = 'void *get_%s(void)\n{\n    static %s    return %s%s;\n}\n' % (name, text, '&' if not isinstance(t, Arr) else '', name)
            d = Data(name, text, t.size, t.align, self.leaves, 'static in a function: ' + decl(t, name), bind=0, getter='get_' + name)
            self.f.prog.funcs.append(d)
            return d
        if static:
            text += 'void *get_%s(void) { return %s%s; }\n' % (name, '&' if not isinstance(t, Arr) else '', name)
        d = Data(name, text, t.size, t.align, self.leaves, '%s %s' % (pre, decl(t, name)), bind=0 if static else 1)
        self.f.prog.funcs.append(d)
        if sized:
            d2 = Data('size_' + name, sized, 8, 8, [(0, 8, None, None, t.size)], 'sizeof an array of unknown size ' + name)
            self.f.prog.funcs.append(d2)
        return d


def from_fp(b, t):
    p, emax, bias = {FLOAT: (24, 8, 127), DOUBLE: (53, 11, 1023), LDOUBLE: (64, 15, 16383)}[t]
    if t is LDOUBLE:
        m, e = b & (1 << 64) - 1, b >> 64 & 0x7fff
    else:
        m, e = b & (1 << (p - 1)) - 1 | 1 << (p - 1), b >> (p - 1) & (1 << emax) - 1
    return Fraction(m) * Fraction(2) ** (e - bias - p + 1)


def static_objects(tier='quick', seed=1):
    out = []
    for k in range(12 if tier == 'quick' else 60):
        rng = random.Random(seed * 4241 + k)
        f = Fam('static-initialisers-%d' % k)
        f.chunk = 30
        out.append(f)
        g = Gen(rng, f)
        for i in range(60):
            r = rng.random()
            g.object(rng.choice([0, 1, 1, 2, 2, 3]), r < .2, r > .8)
    return out


# ---------------------------------------------------------------- objects with automatic storage duration

def paths(t, lv, off=0):
    """{(offset, bit): lvalue} of the scalars of an object (of a union those of its first member)."""
    r = {}
    if isinstance(t, Struct):
        for n, f in list(t.fields.items())[:1 if t.union else None]:
            if f.width is not None:
                r[off + f.off, f.bit] = Mem_(lv, n)
            else:
                r.update(paths(f.ty, Mem_(lv, n), off + f.off))
    elif isinstance(t, Arr):
        for i in range(t.n):
            r.update(paths(t.to, Index(lv, Num(i)), off + i * t.to.size))
    else:
        r[off, None] = lv
    return r


class Auto(Gen):
    PARAMS = [('a', INT), ('b', LONG), ('c', CHAR), ('e', UINT), ('h', USHORT), ('d', DOUBLE), ('g', FLOAT), ('p', Ptr(CHAR))]

    def __init__(self, rng, fam):
        Gen.__init__(self, rng, fam)
        self.out = {}
        for t in INTS + FPS + [Ptr(CHAR)]:
            self.out[short(t) if not isinstance(t, Ptr) else 'p'] = fam.glob('out_' + (short(t) if not isinstance(t, Ptr) else 'p'), Arr(t, 16))
        self.sp = fam.glob('sp', Ptr(self.inner))

    def scalar(self):
        r = self.r.random()
        return self.r.choice(INTS) if r < .75 else self.r.choice(FPS) if r < .9 else Ptr(CHAR)

    def value(self, t, fp=False):
        r = self.r
        if fp and r.random() < .5:
            x = r.choice([v('d', DOUBLE), v('g', FLOAT), Bin('+', v('d', DOUBLE), v('g', FLOAT)), Un('-', v('d', DOUBLE)), Num(1.5, DOUBLE), Num(0.25, FLOAT)])
            return x
        n, ty = r.choice(self.PARAMS[:5])
        e = v(n, ty)
        k = r.random()
        if k < .35:
            return e
        if k < .5:
            return Num(r.choice([0, 1, -1, 3, 200, 70000, -5]))
        if k < .6:
            return Bin(r.choice(['&', '|', '^']), e, Num(r.choice([1, 0xff, -2, 0x5555])))
        if k < .7:
            n2, t2 = r.choice(self.PARAMS[:5])
            return Bin(r.choice(['^', '&', '<', '==']), e, v(n2, t2))
        if k < .8:
            return Index(self.garr, Num(r.randrange(10)))
        if k < .9:
            return Mem_(Index(self.gst, Num(r.randrange(4))), r.choice('pq'))
        return Cast(r.choice([SHORT, UCHAR, LONG]), e)

    def leaf(self, t, width=None):
        if isinstance(t, Ptr):
            e = self.r.choice([v('p', t), Bin('+', v('p', t), Num(2)), Addr(Index(self.gc, Num(5))), Num(0)])
        else:
            e = self.value(t, isinstance(t, Fp))
        return e.c(), e

    def bitval(self, t, width):
        e = self.value(t)
        return e.c(), e

    def init(self, t, off, full=False, top=False):
        if t is self.inner and self.r.random() < .5:
            # from an expression of structure type
            e = self.r.choice([Deref(self.sp), Index(self.gst, Num(self.r.randrange(4))), Index(self.gst, Num(1))])
            for (o, bit), lv in paths(t, e).items():
                self.leaves.append((off + o, lv.ty.size, None, None, lv))
            return e.c()
        return Gen.init(self, t, off, full, top)

    def type(self, depth):
        if depth > 0 and self.r.random() < .12:
            return self.inner
        return Gen.type(self, depth)

    def auto(self, depth):
        r = self.r
        while True:
            t = self.type(depth)
            if len(paths(t, v('o', t))) <= 24 and not (isinstance(t, Struct) and not t.fields):
                break
        self.leaves = []
        x = Gen.init(self, t, 0, top=True) if not t is self.inner else self.init(t, 0, top=True)
        ps = paths(t, v('o', t))
        body = []
        for off, size, bit, width, val in self.leaves:
            lv = ps[off, bit]
            body.append(ex(Asg(lv, Num(val) if isinstance(val, int) else val)))
        assert len(body) == len(ps), (len(body), len(ps))
        cs, tail = {}, []
        for k, lv in sorted(ps.items(), key=lambda k: (k[0][0], k[0][1] or 0)):
            n = short(lv.ty) if not isinstance(lv.ty, Ptr) else 'p'
            g, i = self.out[n], cs.get(n, 0)
            cs[n] = i + 1
            if i < 16:
                tail.append(ex(Asg(Index(g, Num(i)), lv)))
        d = ('decl', 'o', t, None)
        ci = ('decl', 'o', t, Text(x))
        tag = '%s = %s' % (decl(t, 'o'), x)
        if r.random() < .3:
            # executed again after the object has been changed
            dirty = [ex(Asg(lv, Num(r.choice([77, -1])) if not isinstance(lv.ty, Ptr) else v('p', lv.ty))) for _, lv in ps.items()]
            n, k = v('n', INT), v('k', INT)
            loop = r.choice([lambda b: ('for', Asg(k, Num(0)), Bin('<', k, Num(2)), Inc(k), b), lambda b: ('do', b + [ex(Inc(k))], Bin('<', k, Num(3)))])
            k0 = ('decl', 'k', INT, Num(0))
            f = self.f.add(VOID, self.PARAMS, [k0, loop([d] + body + tail + dirty)], 'in a loop: ' + tag)
            f.cbody = [k0, loop([ci] + tail + dirty)]
        else:
            f = self.f.add(VOID, self.PARAMS, [d] + body + tail, tag)
            f.cbody = [ci] + tail
        return f


def automatic_objects(tier='quick', seed=1):
    out = []
    for k in range(8 if tier == 'quick' else 40):
        rng = random.Random(seed * 7177 + k)
        f = Fam('automatic-initialisers-%d' % k)
        f.chunk = 20
        out.append(f)
        g = Auto(rng, f)
        for i in range(40):
            g.auto(rng.choice([0, 1, 1, 2, 2, 3]))
    return out
