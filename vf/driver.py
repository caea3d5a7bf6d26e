import concurrent.futures, importlib.util, json, os, re, subprocess, sys, time
from . import core
from .core import *


class Check:
    def __init__(self, pid, dir, obls, stages=(), assumptions=(), trusted=(), level='proof', fallback_unwind=None):
        self.pid, self.dir, self.obls, self.stages = pid, dir, list(obls), list(stages)
        self.assumptions, self.trusted, self.level = list(assumptions), list(trusted), level
        self.fallback_unwind = fallback_unwind or {}


@dataclasses.dataclass
class StageRes:
    """Result of a non-CBMC obligation group (VCs generated from emitted code and decided by z3)."""
    name: str
    status: str                      # proved / failed / undecided / error
    total: int = 0
    ok: int = 0
    secs: float = 0
    funcs: tuple = ()
    backend: str = 'z3'
    msg: str = ''
    failures: list = dataclasses.field(default_factory=list)   # [(obligation, detail, replay dict or None, confirmed bool)]
    bounded: str = None
    extra: dict = dataclasses.field(default_factory=dict)


def load(pid):
    d = os.path.join(VERIF, 'checks', pid)
    spec = importlib.util.spec_from_file_location('check_' + pid, os.path.join(d, 'check.py'))
    m = importlib.util.module_from_spec(spec)
    sys.path.insert(0, d)
    spec.loader.exec_module(m)
    c = m.check()
    c.dir = d
    c.pid = pid
    return c


def known_findings(pid):
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == pid and k.get('kind') == 'known']


def replay_path(pid, name):
    d = os.path.join(VERIF, 'evidence', 'replay') if not os.environ.get('VF_NOEVIDENCE') else '/tmp/vf-replay'
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, '%s-%s.json' % (pid, re.sub(r'\W+', '_', name)))


def process(env, chk, o, seed):
    """Returns (Res, violation or None)."""
    r = decide(env, chk, o)
    if r.status == 'error' and o.loops:
        # the loop contracts no longer fit the text of the function: bounded stand-in on the real code, unrolled
        note = 'loop contracts could not be attached (%s); bounded stand-in' % r.msg.split('\n')[-1][:160]
        u = chk.fallback_unwind.get(o.name, 6)
        o2 = dataclasses.replace(o, loops=None, unwind=u, solver='sat', defines=(*o.defines, 'VF_BOUNDED=%d' % u), timeout=min(o.timeout, 200))
        r = decide(env, chk, o2, bounded='loops unrolled %d times' % u)
        r.how = note
        o = dataclasses.replace(o2, name=o.name)
        if r.status == 'undecided':
            r.how += '; unrolling undecided: ' + r.msg[:120]
    viol = None
    if r.status in ('failed', 'undecided', 'error'):
        conf = None
        note = ''
        if o.native:
            try:
                for prop, vals in (r.inputs or []):
                    x = native_replay(env, chk, o, vals)
                    if x:
                        conf = x
                        note = 'verifier counterexample for %s replayed on the real code' % prop
                        break
                if not conf:
                    x, st = native_search(env, chk, o, o.search if r.status == 'failed' else max(10, o.search), seed)
                    if x:
                        conf = x
                        note = 'failing input found by searching with the contract as oracle after the proof failed'
                    else:
                        r.how += ' native search: %d runs, %d checked, no failing input' % tuple(st)
            except ToolError as e:
                note = 'native replay not possible: ' + str(e)[-600:]
        if conf or r.status == 'failed':
            viol = dict(property=chk.pid, obligation=o.name, enforced=o.enforce, status=r.status, failed=r.failed, note=note, verifier=r.msg,
                        failing=conf[0] if conf else None, inputs=conf[1] if conf else None, verifier_inputs=r.inputs,
                        confirmed=bool(conf), harness=o.src)
    return r, viol


def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = argv[3] if len(argv) > 3 else None
    t0 = time.time()
    chk = load(pid)
    env = Env(pid)
    try:
        if any(o for o in chk.obls):
            build_lib(env)
    except ToolError as e:
        print('ERROR: cannot translate the sources: %s' % e)
        return 2
    obls = [o for o in chk.obls if (tier == 'thorough' or o.tier == 'quick') and (not only or re.search(only, o.name))]
    results, viols, sres = [], [], []
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(process, env, chk, o, seed) for o in sorted(obls, key=lambda o: -o.timeout)]
        for s in chk.stages:
            if only and not re.search(only, s.__name__):
                continue
            x = s(env, chk, tier, seed)
            sres += x if isinstance(x, list) else [x]
        for f in futs:
            r, v = f.result()
            results.append(r)
            if v:
                viols.append(v)
            print('%-10s %-44s %4d/%-4d obligations %6.1fs%s %s' % (r.status, r.obl.name, r.ok, r.total, r.secs, ' [bounded: %s]' % r.bounded if r.bounded else '', (r.msg + ' ' + r.how)[:300] if r.status != 'proved' or r.how else ''))
            for x in r.failed[:3]:
                print('           failed obligation %s: %s (line %s in %s)' % x)
            sys.stdout.flush()
    for s in sres:
        print('%-10s %-44s %4d/%-4d obligations %6.1fs %s' % (s.status, s.name, s.ok, s.total, s.secs, s.msg[:300]))
        for (ob, detail, rep, conf) in s.failures:
            viols.append(dict(property=pid, obligation='%s/%s' % (s.name, ob), status='failed', failed=[detail], confirmed=conf, replay=rep, failing=detail))
    known = known_findings(pid)
    rc = 0
    for k in known:
        if k.get('id'):
            continue            # printed by the stage that meets it
        still = True
        if k.get('replay'):
            o = [o for o in chk.obls if o.name == k['replay']['obligation']]
            if o:
                try:
                    oo = dataclasses.replace(o[0], defines=(*o[0].defines, 'VF_KNOWN'), name=o[0].name + '-known')
                    still = bool(native_replay(env, chk, oo, k['replay']['inputs']))
                except ToolError:
                    still = True
        elif k.get('cmd'):
            p = subprocess.run(['bash', '-c', k['cmd']], cwd=VERIF, capture_output=True, env=dict(os.environ, REPO=REPO))
            still = p.returncode != 0
        if still:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for v in viols:
        p = replay_path(pid, v['obligation'])
        json.dump(v, open(p, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s%s' % (pid, p, '' if v['confirmed'] else ' no-failing-input-found'))
        print('  obligation %s: %s' % (v['obligation'], v.get('failing') or '; '.join('%s %s' % (x[0], x[1]) for x in v['failed'][:3] if isinstance(x, (tuple, list)))))
        rc = 1
    errs = [r for r in results if r.status == 'error'] + [s for s in sres if s.status == 'error']
    und = [r for r in results if r.status == 'undecided'] + [s for s in sres if s.status == 'undecided']
    for r in und:
        print('UNDECIDED %s: %s' % (r.obl.name if hasattr(r, 'obl') else r.name, r.msg[:300]))
    good = [r for r in results if r.status == 'proved'] + [s for s in sres if s.status == 'proved']
    if rc == 0 and (errs or not good):
        for r in errs:
            print('ERROR %s: %s' % (r.obl.name if hasattr(r, 'obl') else r.name, r.msg[-1500:]))
        rc = 2 if not good or any(not getattr(getattr(r, 'obl', None), 'native', False) for r in errs) else 0
        if rc == 0 and any(r.msg.startswith('vacuous') or r.msg.startswith('no obl') for r in errs):
            rc = 2
    full = [r for r in results if not r.bounded] + [s for s in sres if not s.bounded]
    bnd = [r for r in results if r.bounded] + [s for s in sres if s.bounded]
    nob = sorted({m for r in results for m in r.nobody})
    ev = dict(property=pid, tier=tier, seed=seed, level=chk.level,
              coverage=dict(
                  obligations=sum(r.total for r in full), discharged=sum(r.ok for r in full),
                  bounded_obligations=sum(r.total for r in bnd), bounded_discharged=sum(r.ok for r in bnd),
                  checker_cmd='cd /verif && ./run check %s %s' % (pid, tier),
                  trusted_base=['CBMC 6.11 (goto-cc, goto-instrument --dfcc, cbmc; SAT back end, cvc5 1.1.2 where stated)', 'the C semantics of x86-64 as CBMC models it', *chk.trusted],
                  tasks=[dict(task=r.obl.name, enforces=r.obl.enforce, replaced_by_contract=sorted(set(r.obl.replace) | set(getattr(env, 'swapped', {}).get(r.obl.name, []))), functions=list(r.obl.funcs) or ([r.obl.enforce] if r.obl.enforce else []),
                              loop_contracts=sorted({x[0] for s in (r.obl.loops or {}).values() for x in s}),
                              status=r.status, obligations=r.total, discharged=r.ok, back_end=r.obl.solver, solver_s=round(r.solver_secs, 2), bounded=r.bounded, note=r.how or None) for r in sorted(results, key=lambda r: r.obl.name)] +
                        [dict(task=s.name, functions=list(s.funcs), status=s.status, obligations=s.total, discharged=s.ok, back_end=s.backend, solver_s=round(s.secs, 2), bounded=s.bounded, **s.extra) for s in sres],
                  functions_under_contract=sorted({f for r in results for f in (list(r.obl.funcs) or ([r.obl.enforce] if r.obl.enforce else []))} | {f for s in sres for f in s.funcs}),
                  solver_s=round(sum(r.solver_secs for r in results) + sum(s.secs for s in sres), 1)),
              assumptions=chk.assumptions + ['function without body, result arbitrary: ' + m for m in nob], wall_s=round(time.time() - t0, 1), violations=len(viols))
    tv = getattr(env, 'tv', None)
    if tv:
        ev['coverage'].update(programs=tv['programs'], programs_proved=tv['proved'], disagreements_checked=tv['disagreements'], samples=tv['samples'][:12],
                              undecided_programs=tv.get('nund', 0), undecided=tv['undecided'][:20])
        ev['coverage']['trusted_base'] = ['z3 4.13 (python bindings)', 'the model of the x86-64 instructions in vf/asm/x86.py', 'the meaning of C and of the calling convention in vf/asm/spec.py and lang.py', 'GNU as and objdump', *([] if not chk.obls else ev['coverage']['trusted_base'][:2]), *chk.trusted]
    if not only and not os.environ.get('VF_NOEVIDENCE'):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d obligations, %d discharged, %d bounded (%d discharged), %d violations, %.1f s' % (
        pid, tier, ev['coverage']['obligations'], ev['coverage']['discharged'], ev['coverage']['bounded_obligations'], ev['coverage']['bounded_discharged'], len(viols), time.time() - t0))
    return rc


def replay(path):
    v = json.load(open(path))
    if v.get('replay') and v['replay'].get('files'):
        from . import asmstage
        wcc = asmstage.build_wcc(Env(v['property']))
        return subprocess.call(['python3-vt', os.path.join(VERIF, 'vf', 'asm', 'main.py'), 'replay', wcc, path], cwd=VERIF)
    if v.get('replay') and v['replay'].get('cmd'):
        return subprocess.call(['bash', '-c', v['replay']['cmd']], cwd=VERIF)
    if not v.get('inputs') and v.get('inputs') != []:
        print(json.dumps(v, indent=1))
        return 1
    chk = load(v['property'])
    env = Env(v['property'])
    o = [o for o in chk.obls if o.name == v['obligation']][0]
    x = native_replay(env, chk, o, v['inputs'])
    print('FAILS: %s with inputs %s' % x if x else 'passes')
    return 1 if x else 0
