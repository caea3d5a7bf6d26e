"""Compiles the functions of families with the compiler built from /repo and verifies them in parallel."""
import concurrent.futures, pickle, select, hashlib, json, multiprocessing, os, re, shutil, subprocess, sys, tempfile, time
from .lang import *
from . import verify as V
from .obj import Obj

WCC = None


def compile_funcs(wcc, prog, funcs, d, name):
    """Object file of the functions, or (None, message)."""
    src = os.path.join(d, name + '.c')
    open(src, 'w').write(prog.c(funcs))
    o = os.path.join(d, name + '.o')
    try:
        p = subprocess.run([wcc, '-c', '-o', o, src], capture_output=True, text=True, timeout=120, cwd=d, errors='replace')
    except subprocess.TimeoutExpired:
        return None, 'the compiler does not terminate'
    if p.returncode or not os.path.exists(o):
        return None, 'compiler exit code %d: %s' % (p.returncode, (p.stdout + p.stderr)[-300:])
    return o, None


def do_chunk(a):
    wcc, prog, funcs, d, name, timeout, seed, deadline = a
    t0 = time.time()
    res = []
    obj, err = compile_funcs(wcc, prog, funcs, d, name)
    if obj is None:
        if len(funcs) == 1:
            return [(funcs[0], 'rejected', err, 0, 0, 0, [('the compiler accepts the function and terminates', None)], time.time() - t0)]
        h = len(funcs) // 2
        return do_chunk((wcc, prog, funcs[:h], d, name + 'a', timeout, seed, deadline)) + do_chunk((wcc, prog, funcs[h:], d, name + 'b', timeout, seed, deadline))
    try:
        ob = Obj(obj)
        code = ob.disassemble()
    except Exception as e:
        return [(f, 'error', 'cannot read the object file: %s' % e, 0, 0, 0, [], 0) for f in funcs]
    os.unlink(obj)
    # in a child process, which is ended when a function takes too long (the solver does not always keep its limit)
    i = 0
    while i < len(funcs):
        rd, wr = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                os.close(rd)
                with os.fdopen(wr, 'wb') as w:
                    for f in funcs[i:]:
                        if time.time() > deadline:
                            r = ('skipped', 'out of time', 0, 0, 0, [], 0)
                        else:
                            try:
                                if getattr(f, 'data', False):
                                    from .gen_init import check_data
                                    t1 = time.time()
                                    r = (*check_data(ob, f), time.time() - t1)
                                    b = pickle.dumps(r)
                                    w.write(len(b).to_bytes(8, 'little') + b)
                                    continue
                                x = V.verify(ob, code, prog, f, timeout, seed, LIMIT)
                                r = (x.status, x.msg, x.obls, x.ok, x.paths, x.fails, x.secs)
                            except Exception as e:
                                import traceback
                                r = ('error', traceback.format_exc()[-600:], 0, 0, 0, [], 0)
                        b = pickle.dumps(r)
                        w.write(len(b).to_bytes(8, 'little') + b)
                        w.flush()
            finally:
                os._exit(0)
        os.close(wr)
        t1 = time.time()
        buf = b''
        while i < len(funcs):
            ready = select.select([rd], [], [], max(0.1, t1 + LIMIT + 8 - time.time()))[0]
            if not ready:
                break
            b = os.read(rd, 1 << 20)
            if not b:
                break
            buf += b
            while len(buf) >= 8 and len(buf) >= 8 + int.from_bytes(buf[:8], 'little'):
                n = int.from_bytes(buf[:8], 'little')
                res.append((funcs[i], *pickle.loads(buf[8:8 + n])))
                buf = buf[8 + n:]
                i += 1
                t1 = time.time()
        os.close(rd)
        try:
            os.kill(pid, 9)
        except OSError:
            pass
        os.waitpid(pid, 0)
        if i < len(funcs):
            res.append((funcs[i], 'undecided', 'time limit of the function', 0, 0, 0, [], time.time() - t1))
            i += 1
    return res


LIMIT = 25
_tasks = []      # inherited by the forked workers (types are compared by identity, so they must not be pickled)


def _worker(i):
    r = do_chunk(_tasks[i][1])
    return [(f.name, *x) for f, *x in r]


def run_families(wcc, fams, d, jobs=8, timeout=8000, seed=1, budget=600, chunk=40):
    """[(family, function, status, message, obligations, discharged, paths, failures, seconds)]"""
    deadline = time.time() + budget
    global _tasks
    tasks = _tasks = []
    for fam in fams:
        fs = fam.prog.funcs
        ch = getattr(fam, 'chunk', chunk)
        for i in range(0, len(fs), ch):
            tasks.append((fam, (wcc, fam.prog, fs[i:i + ch], d, re.sub(r'\W', '_', fam.name) + hashlib.sha1(fam.name.encode()).hexdigest()[:6] + '_%d' % i, timeout, seed, deadline)))
    out = []
    sys.setrecursionlimit(20000)
    ctx = multiprocessing.get_context('fork')
    with concurrent.futures.ProcessPoolExecutor(jobs, mp_context=ctx) as ex:
        futs = [(t[0], ex.submit(_worker, i)) for i, t in enumerate(tasks)]
        for fam, fu in futs:
            by = {f.name: f for f in fam.prog.funcs}
            for r in fu.result():
                out.append((fam, by[r[0]], *r[1:]))
    return out
