"""python3-vt main.py <wcc> <request.json> <result.json>: verifies families of functions compiled by wcc.
request: {families: [expression], tier, seed, budget, timeout, jobs, native: seconds per failure}"""
import json, os, random, re, shutil, sys, tempfile, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
import concurrent.futures
from vf.asm import batch, replay
from vf.asm.lang import *


def load():
    import importlib
    ns = {}
    for m in ('gen', 'gen_mem', 'gen_call', 'gen_flow', 'gen_rand', 'gen_init'):
        try:
            ns[m] = importlib.import_module('vf.asm.' + m)
        except ModuleNotFoundError as e:
            if m not in str(e):
                raise
    return ns


def lemmas(timeout):
    import z3
    from vf.asm.spec import lemmas as L
    out = []
    for name, h, c in L():
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(h, z3.Not(c))
        t = time.time()
        r = s.check()
        out.append(dict(name=name, status='proved' if r == z3.unsat else 'undecided' if r == z3.unknown else 'failed', secs=time.time() - t))
    return out


def main(wcc, req, res):
    rq = json.load(open(req))
    ns = load()
    ns['tier'], ns['seed'] = rq['tier'], rq['seed']
    fams = []
    for e in rq['families']:
        fams += eval(e, ns)
    d = tempfile.mkdtemp(prefix='vfasm')
    try:
        t0 = time.time()
        rs = batch.run_families(wcc, fams, d, jobs=rq['jobs'], timeout=rq['timeout'], seed=rq['seed'], budget=rq['budget'])
        fails, known = [], {}
        alts = {}
        bad = [r for r in rs if r[2] in ('failed', 'rejected', 'error')]
        # listed findings: the function behaves exactly as the finding says
        cand = [r for r in rs if r[2] in ('failed', 'undecided', 'error') and getattr(r[1], 'known', None)]
        if cand:
            by = {}
            for r in cand:
                by.setdefault(id(r[0]), (r[0], []))[1].append(r)
            af = []
            for fam, rr in by.values():
                p = Program()
                p.structs, p.globals, p.externs = fam.prog.structs, fam.prog.globals, fam.prog.externs
                g = type(fam)(fam.name + ' known')
                g.prog = p
                for r in rr:
                    f = r[1]
                    a = Func(f.name, f.ret, f.params, f.known[1], f.tag)
                    a.src = f
                    a.cbody = f.body
                    a.abi = f.known[2]
                    for k in ('vararg_types', 'fnptr'):
                        if hasattr(f, k):
                            setattr(a, k, getattr(f, k))
                    p.funcs.append(a)
                af.append(g)
            for r in batch.run_families(wcc, af, d, jobs=rq['jobs'], timeout=rq['timeout'], seed=rq['seed'], budget=rq['budget']):
                if r[2] == 'proved':
                    alts[id(r[1].src)] = r[1].src.known[0]
        left = []
        for r in bad + [r for r in cand if r not in bad and id(r[1]) in alts]:
            k = alts.get(id(r[1]))
            if k:
                known.setdefault(k, []).append(r[1].tag)
            else:
                left.append(r)
        hard = [r for r in left if r[2] != 'error']
        sel, seen = [], {}
        for r in hard:
            k = seen.get(r[0].name, 0)
            if k < 3 and len(sel) < 12:
                sel.append(r)
                seen[r[0].name] = k + 1

        # no answer from the verifier: bounded stand-in, the function is run
        rest = [r for r in rs if r[2] in ('undecided', 'error') and id(r[1]) not in alts]
        random.Random(rq['seed']).shuffle(rest)
        stand_in = rest[:32]

        def conf(ir):
            i, r = ir
            fam, f = r[0], r[1]
            dd = os.path.join(d, 'native%d' % i)
            x = dict(family=fam.name, func=f.name, tag=f.tag, status=r[2], msg=r[3], source=fam.prog.c([f]), fails=[(a, str(b)[:1500]) for a, b in r[7][:3]])
            if r[2] == 'rejected':
                x.update(confirmed=True, how='the compiler does not accept the program: ' + r[3], files=dict(f=x['source'], script='"$WCC" -c -o w.o f.c'))
            elif getattr(f, 'data', False):
                from vf.asm.gen_init import confirm_data
                diff, files = confirm_data(wcc, fam.prog, f, dd)
                x.update(confirmed=bool(diff), how=diff, files=files)
            else:
                model = next((b for a, b in r[7] if b), {})
                diff, files = replay.confirm(wcc, fam.prog, f, model, dd, rq.get('runs', 400), rq['seed'])
                x.update(confirmed=bool(diff), how=diff, files=files)
            shutil.rmtree(dd, ignore_errors=True)
            return x
        with concurrent.futures.ThreadPoolExecutor(rq['jobs']) as ex:
            fails = list(ex.map(conf, enumerate(sel)))
            for x in ex.map(conf, enumerate(stand_in, 100)):
                if x['confirmed']:
                    x['fails'] = [('bounded stand-in: the function agrees with its meaning on the inputs tried', '')]
                    fails.append(x)
                    hard.append(x)
        fam = {}
        for r in rs:
            q = fam.setdefault(r[0].name, dict(functions=0, obligations=0, discharged=0, paths=0, secs=0.0, status={}))
            q['functions'] += 1
            q['obligations'] += r[4]
            q['discharged'] += r[5]
            q['paths'] += r[6]
            q['secs'] += r[8]
            st = 'known finding' if id(r[1]) in alts else r[2]
            q['status'][st] = q['status'].get(st, 0) + 1
        und = [(r[0].name, r[1].tag, r[2], r[3][-200:]) for r in rs if r[2] in ('undecided', 'skipped', 'error') and id(r[1]) not in alts]
        sample = []
        rng = random.Random(rq['seed'])
        for r in rng.sample(rs, min(5, len(rs))):
            sample.append(dict(family=r[0].name, function=r[0].prog.c([r[1]])[-600:] if len(r[0].prog.head()) > 2000 else r[0].prog.c([r[1]]), status=r[2], obligations=r[4]))
        json.dump(dict(families=fam, failures=fails, nfail=len(hard), known=known, undecided=und[:60], nund=len(und), stand_in=len(stand_in), samples=sample,
                       lemmas=lemmas(60000) if rq.get('lemmas') else [], secs=time.time() - t0), open(res, 'w'))
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == 'replay':
        v = json.load(open(sys.argv[3]))['replay']
        d = tempfile.mkdtemp(prefix='vfasm')
        open(os.path.join(d, 'f.c'), 'w').write(v['files']['f'])
        if v['files'].get('d'):
            open(os.path.join(d, 'd.c'), 'w').write(v['files']['d'])
        import subprocess
        p = subprocess.run(['bash', '-c', v['files'].get('script') or 'true'], cwd=d, env=dict(os.environ, WCC=sys.argv[2]))
        shutil.rmtree(d, ignore_errors=True)
        sys.exit(1 if p.returncode else 0)
    main(*sys.argv[1:4])
