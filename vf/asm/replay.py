"""Runs a compiled function natively against the same function compiled by gcc (with undefined behaviour trapped, so that such inputs
are left out) on the inputs of the verifier's model and on random inputs. Used only to confirm a violation; it decides nothing."""
import os, re, subprocess
from .lang import *
from .spec import walk

PRE = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
typedef unsigned long u64;
static char *outp; static int outn;
#define OUTMAX (1 << 20)
#define P(...) do { if (outn < OUTMAX - 300) outn += snprintf(outp + outn, 200, __VA_ARGS__); } while (0)
static u64 rs;
static u64 rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DUL >> 3; }
static const u64 sp[] = {0,1,2,3,5,7,8,15,16,31,32,63,64,127,128,129,255,256,257,32767,32768,65535,65536,0x7fffffffUL,0x80000000UL,0x80000001UL,0xffffffffUL,0x100000000UL,0x7fffffffffffffffUL,0x8000000000000000UL,10,100,1000};
static u64 rint_(void) { u64 r = rnd() % 10; u64 v = sp[rnd() % (sizeof sp / 8)]; if (r < 3) return rnd() % 9 - 4; if (r < 6) return v; if (r < 8) return -v; return rnd() ^ rnd() << 31; }
static const double fsp[] = {0.0,-0.0,1,-1,.5,1.5,2,3,-2.5,.1,100.25,-100.75,1e10,123456.789,4294967295.0,2147483648.0,9e18,1e19,1.8e19,1e-10,1e30,127.9,-128.5,255.5,65535.5,7,1e300,-3,12};
static double rfp(void) { u64 r = rnd() % 10; if (r < 4) return (long) (rnd() % 2000) / 8.0 - 100; if (r == 9) return (long) rnd(); if (r == 8) return __builtin_inf(); if (r == 7 && rnd() % 4 == 0) return __builtin_nan(""); return fsp[rnd() % (sizeof fsp / 8)]; }
struct rg { char *b; u64 n; int id; }; static struct rg rg[4096]; static int nrg;
static void *mkbuf(u64 n) { static char pool[1 << 22]; static u64 used; if (nrg > 4000 || used + n + 160 > sizeof pool) return 0; char *p = pool + used + 32; memset(pool + used, 0xa7, n + 64); used += (n + 79) / 16 * 16 + 16; rg[nrg].b = p; rg[nrg].n = n; rg[nrg].id = nrg; nrg++; return p; }
static void optr(void *p) { for (int i = 0; i < nrg; i++) if ((char *) p >= rg[i].b && (char *) p <= rg[i].b + rg[i].n) { P("buf%d+%ld ", i, (long) ((char *) p - rg[i].b)); return; } P("ptr "); }
static void ofp(void *p, int n) { unsigned char *c = p; double d; long double l; float f;
  if (n == 4) { memcpy(&f, p, 4); if (f != f) { P("nan "); return; } } else if (n == 8) { memcpy(&d, p, 8); if (d != d) { P("nan "); return; } } else { memcpy(&l, p, 10); n = 10; if (l != l) { P("nan "); return; } }
  for (int i = n - 1; i >= 0; i--) P("%02x", c[i]); P(" "); }
'''


def key(t, names):
    k = id(t)
    if k not in names:
        names[k] = (len(names), t)
    return names[k][0]


class Gen:
    def __init__(self, prog, func):
        self.prog, self.func = prog, func
        self.names, self.done, self.text = {}, set(), []

    def filler(self, t, depth):
        """Name of a C function filling an object of type t."""
        n = 'fill_%d_%d' % (key(t, self.names), depth)
        if n in self.done:
            return n
        self.done.add(n)
        if isinstance(t, Int):
            b = '*(%s *) p = rint_();' % t.name
        elif isinstance(t, Fp):
            b = '%s v = rfp(); memcpy(p, &v, %d);' % (t.name, 10 if t is LDOUBLE else t.size)
        elif isinstance(t, Ptr):
            if isinstance(t.to, Fn):
                b = '*(void **) p = (void *) %s;' % self.stub('fnptr_%d' % key(t.to, self.names), t.to)
            elif isinstance(t.to, Void):
                b = '*(void **) p = mkbuf(256);'
            elif depth >= 2 or t.to.size > 65536:
                b = '*(void **) p = 0;'
            else:
                f = self.filler(t.to, depth + 1)
                b = 'char *b = mkbuf(16UL * %d); if (b) for (int i = 0; i < 16; i++) %s(b + i * %dUL); *(void **) p = b ? b + 8UL * %d : 0;' % (t.to.size, f, t.to.size, t.to.size)
        elif isinstance(t, Arr):
            f = self.filler(t.to, depth)
            b = 'for (int i = 0; i < %d; i++) %s((char *) p + i * %dUL);' % (t.n, f, t.to.size)
        elif isinstance(t, Struct):
            b = 'for (int i = 0; i < %d; i++) ((char *) p)[i] = rnd();' % t.size
            if not t.union:
                for f in t.fields.values():
                    if f.width is None:
                        b += ' %s((char *) p + %d);' % (self.filler(f.ty, depth), f.off)
        else:
            b = ''
        self.text.append('static void %s(void *p) { %s }\n' % (n, b))
        return n

    def outer(self, t):
        n = 'out_%d' % key(t, self.names)
        if n in self.done:
            return n
        self.done.add(n)
        if isinstance(t, Int):
            b = 'P("%%lx ", (u64) *(%s *) p);' % t.name
        elif isinstance(t, Fp):
            b = 'ofp(p, %d);' % t.size
        elif isinstance(t, Ptr):
            b = 'optr(*(void **) p);'
        elif isinstance(t, Arr):
            b = 'for (int i = 0; i < %d; i++) %s((char *) p + i * %dUL);' % (t.n, self.outer(t.to), t.to.size)
        elif isinstance(t, Struct):
            b = ''
            if t.union:
                for f in t.fields.values():
                    if not isinstance(f.ty, (Ptr, Fp)):
                        b += ' %s((char *) p + %d);' % (self.outer(f.ty), f.off)
            else:
                for f in t.fields.values():
                    if f.width is None:
                        b += ' %s((char *) p + %d);' % (self.outer(f.ty), f.off)
                    else:
                        b += ' P("%%x ", *(%s *) ((char *) p + %d) >> %d & %dU);' % ('unsigned ' + f.ty.name.replace('unsigned ', ''), f.off, f.bit, (1 << f.width) - 1)
        else:
            b = ''
        self.text.append('static void %s(void *p) { %s }\n' % (n, b))
        return n

    def stub(self, n, t):
        """Definition of a function the tested function calls."""
        if 'stub_' + n in self.done:
            return n
        self.done.add('stub_' + n)
        outs = [self.outer(p) for p in t.params]
        body = 'P("%s( ");' % n
        for i, (p, o) in enumerate(zip(t.params, outs)):
            if isinstance(p, Ptr) and not isinstance(p.to, (Fn, Void)):
                body += ' if (a%d) { %s(a%d); %s(a%d); }' % (i, self.outer(p.to), i, self.filler(p.to, 2), i)
            else:
                body += ' %s(&a%d);' % (o, i)
        va = ''
        if t.variadic and n in getattr(self.func, 'vararg_types', {}):
            body += ' va_list ap; va_start(ap, a%d);' % (len(t.params) - 1)
            for i, p in enumerate(self.func.vararg_types[n]):
                p = rv(p)
                body += ' { %s = va_arg(ap, %s); %s(&v); }' % (decl(p, 'v'), decl(p, '').strip(), self.outer(p))
            body += ' va_end(ap);'
        body += ' P(")\\n"); globals_out(); globals_fill();'
        if not isinstance(t.ret, Void):
            body += ' static %s; memset(&r, 0, sizeof r); %s(&r); return r;' % (decl(t.ret, 'r'), self.filler(t.ret, 2))
        ps = ', '.join(decl(p, 'a%d' % i) for i, p in enumerate(t.params)) + (', ...' if t.variadic else '')
        self.text.append('%s { %s }\n' % (decl(t.ret, '%s(%s)' % (n, ps or 'void')), body))
        return n

    def driver(self, model, n, seed):
        f, prog = self.func, self.prog
        fills, outs = [], []
        chk = ''
        for g, t in prog.globals.items():
            # guards around every global, checked after the call
            self.text.insert(0, 'asm(".data\\n.balign 16\\n.globl guard_%s\\nguard_%s: .fill 32,1,0xa7\\n.globl %s\\n%s: .fill %d,1,0\\n.fill 32,1,0xa7\\n.text\\n"); extern unsigned char guard_%s[];\n' % (g, g, g, g, t.size, g))
            chk += ' for (int i = 0; i < 32; i++) if (guard_%s[i] != 0xa7 || guard_%s[i + 32 + %d] != 0xa7) { P("overwritten next to %s\\n"); break; }' % (g, g, t.size, g)
            fills.append('%s(&%s);' % (self.filler(t, 0), g))
            outs.append('P("%s: "); %s(&%s); P("\\n");' % (g, self.outer(t), g))
        self.text.append('static void globals_fill(void) { %s }\nstatic void globals_out(void) { %s }\n' % (' '.join(fills), ' '.join(outs) + chk))
        for e, t in prog.externs.items():
            if isinstance(t, Fn):
                self.stub(e, t)
        body, args, after = '', [], ''
        for i, (p, t0) in enumerate(f.params):
            t = rv(t0)
            body += ' static %s; %s(&q%d);' % (decl(t, 'q%d' % i), self.filler(t, 0), i)
            x = model.get(p) if model else None
            if isinstance(x, int) and not isinstance(t, (Ptr, Struct)):
                nb = 10 if t is LDOUBLE else t.size
                body += ' if (!it) { static const unsigned char m[] = {%s}; memcpy(&q%d, m, %d); }' % (','.join(str(c) for c in (x & ((1 << 8 * nb) - 1)).to_bytes(nb, 'little')), i, nb)
            body += ' P("%s = "); %s(&q%d); P("\\n");' % (p, self.outer(t), i)
            if isinstance(t, Ptr) and not isinstance(t.to, (Fn, Void)):
                body += ' char *b%d = (char *) q%d;' % (i, i)
                after += ' P("*%s after: "); for (int i = -8; i < 8; i++) { %s(b%d + i * %dL); } P("\\n");' % (p, self.outer(t.to), i, t.to.size)
                body += ' P("*%s = "); %s(b%d); P("\\n");' % (p, self.outer(t.to), i)
            args.append('q%d' % i)
        fp = decl(f.ret, '(*fn)(%s)' % (', '.join(decl(rv(t), '') for _, t in f.params) or 'void'))
        if isinstance(f.ret, Void):
            call = 'fn(%s);' % ', '.join(args)
        else:
            call = 'static %s; r = fn(%s); P("result: "); %s(&r); P("\\n");' % (decl(f.ret, 'r'), ', '.join(args), self.outer(f.ret))
        types = ', '.join(decl(rv(t), '') for _, t in f.params) or 'void'
        ref = 'extern %s;\nextern %s;\n' % (decl(f.ret, '%s(%s)' % (f.name, types)), decl(f.ret, 'ref_%s(%s)' % (f.name, types)))
        self.text.append(ref)
        self.text.append('''static void one(int it, int which) { rs = 88172645463325252UL + 1000003UL * (it + %dUL); for (int i = 0; i < 5; i++) rnd();
  %s; fn = which ? ref_%s : %s; globals_fill(); %s outp[outn] = 0; P("globals before\\n"); globals_out(); P("call\\n"); %s %s globals_out(); }
int main(void) {
  char *sh = mmap(0, 2 * OUTMAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); int ran = 0;
  for (int it = 0; it < %d; it++) { int st[2];
    for (int w = 1; w >= 0; w--) { memset(sh + w * OUTMAX, 0, 64); outp = sh + w * OUTMAX; outn = 0; pid_t c = fork(); if (!c) { alarm(2); freopen("/dev/null", "w", stderr); one(it, w); outp[outn] = 0; _exit(0); } waitpid(c, &st[w], 0); if (w && st[1]) break; }
    if (st[1]) continue; ran++;
    if (st[0] || strcmp(sh, sh + OUTMAX)) { if (st[0]) printf("DIFFERENT: the compiled function crashed (status %%d)\\n", st[0]); else printf("DIFFERENT\\n");
      if (!st[0]) printf("--- compiled by wcc\\n%%s", sh); printf("--- expected\\n%%s", sh + OUTMAX); return 1; } }
  printf("same on %%d inputs\\n", ran); return 0; }
''' % (seed, fp, f.name, f.name, body, call, after, n))
        head = PRE + re.sub(r'(?m)^(?=(%s)$)' % '|'.join(re.escape(decl(t, n) + ';') for n, t in prog.globals.items()), 'extern ', prog.head()) if prog.globals else PRE + prog.head()
        return head + 'static void globals_fill(void);\nstatic void globals_out(void);\n' + ''.join(self.text)


def program(prog, func):
    helpers = [f for f in prog.funcs if f is not func]
    return prog.c([func])


def sources(prog, func, model, n=400, seed=1):
    prog2 = prog
    # functions of the program which are called become stubs
    called = set()
    walk(func.body, lambda e: called.add(e.fn.name) if isinstance(e, Call) and isinstance(e.fn, Var) else None)
    walk(func.body, lambda e: called.add(e.name) if isinstance(e, Var) and isinstance(e.ty, Fn) else None)
    ex = {k: v for k, v in prog.externs.items() if k in called or not isinstance(v, Fn)}
    q = Program()
    q.structs, q.globals, q.externs, q.funcs = prog.structs, {k: v for k, v in prog.globals.items() if uses(func, k)}, ex, prog.funcs
    g = Gen(q, func)
    return q.c([func]), g.driver(model, n, seed)


def uses(func, name):
    hit = []
    walk(func.body, lambda e: hit.append(1) if isinstance(e, Var) and e.name == name else None)
    return bool(hit)


SCRIPT = r'''
set -e
"$WCC" -c -o w.o f.c
gcc -w -fcommon -O0 -fwrapv -fno-stack-protector -c -o r.o -fsanitize=undefined,float-cast-overflow,float-divide-by-zero -fno-sanitize=alignment,null,object-size,float-divide-by-zero -fsanitize-undefined-trap-on-error f.c
objcopy --redefine-sym %(f)s=ref_%(f)s r.o
gcc -w -fcommon -no-pie -O0 -fno-stack-protector -o t d.c w.o r.o
set +e
timeout 60 ./t
'''


def confirm(wcc, prog, func, model, d, n=400, seed=1):
    """(text of the difference or None, files)"""
    try:
        f, drv = sources(prog, func, model, n, seed)
    except Exception as e:
        return None, dict(f=prog.c([func]), d=None, script=None, why=repr(e))
    files = dict(f=f, d=drv, script=SCRIPT % dict(f=func.name))
    return run(wcc, files, d), files


def run(wcc, files, d):
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'f.c'), 'w').write(files['f'])
    if not files.get('script'):
        return None
    open(os.path.join(d, 'd.c'), 'w').write(files['d'] or '')
    try:
        p = subprocess.run(['bash', '-c', files['script']], cwd=d, env=dict(os.environ, WCC=wcc), capture_output=True, text=True, timeout=150, errors='replace')
    except subprocess.TimeoutExpired:
        return None
    if p.returncode == 1 and 'DIFFERENT' in p.stdout:
        return p.stdout[:6000]
    if os.environ.get('VF_DEBUG') and 'same on' not in p.stdout:
        print(p.stdout[-500:], p.stderr[-1500:])
    files['ran'] = p.stdout[-200:]
    return None
