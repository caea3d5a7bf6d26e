"""Stages of engine B: contracts of functions compiled by the compiler built from /repo's current sources."""
import glob, json, os, shutil, subprocess, time
from .core import REPO, VERIF, JOBS, ToolError
from .driver import StageRes


def build_wcc(env):
    """wcc built from the current sources in the scratch directory of the run (nothing is written to /repo)."""
    d = os.path.join(env.dir, 'wccbuild')
    exe = os.path.join(d, 'wcc')
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    for f in glob.glob(REPO + '/*.[ch]') + [REPO + '/Makefile']:
        if os.path.basename(f) not in ('instrrules-generated.c', 'internals.c'):
            shutil.copy(f, d)
    for sub in ('include',):
        if os.path.isdir(os.path.join(REPO, sub)):
            shutil.copytree(os.path.join(REPO, sub), os.path.join(d, sub), dirs_exist_ok=True)
    b = os.path.join(d, 'vfbin')
    os.makedirs(b, exist_ok=True)
    open(os.path.join(b, 'gcc'), 'w').write('#!/bin/sh\nexec /usr/bin/gcc -fcommon -O1 "$@"\n')
    os.chmod(os.path.join(b, 'gcc'), 0o755)
    e = dict(os.environ, PATH=b + ':' + os.environ['PATH'], LC_ALL='C')
    for k in ('MAKEFLAGS', 'MFLAGS', 'GCC_OPTS', 'WCC_OPTS', 'AS', 'PRINT_IR'):
        e.pop(k, None)
    p = subprocess.run(['make', '--eval=.DELETE_ON_ERROR:', '-j8', 'wcc'], cwd=d, env=e, capture_output=True, text=True, timeout=600, errors='replace')
    if p.returncode or not os.path.exists(exe):
        raise ToolError('wcc does not build: ' + (p.stdout + p.stderr)[-800:])
    return exe


def known_ids(pid):
    p = os.path.join(VERIF, 'known-findings.json')
    return {k['id']: k for k in json.load(open(p))['findings'] if k['property'] == pid and k.get('kind') == 'known' and k.get('id')}


def families(name, exprs, budget=(240, 700), timeout=8000, lemmas=False, funcs=()):
    """Stage verifying the given families (expressions over the gen modules; `tier` and `seed` may be used)."""
    def stage(env, chk, tier, seed):
        t0 = time.time()
        try:
            wcc = build_wcc(env)
        except (ToolError, subprocess.TimeoutExpired) as e:
            return StageRes(name, 'error', msg=str(e))
        rq = os.path.join(env.dir, name + '.req')
        rs = os.path.join(env.dir, name + '.res')
        q = tier != 'quick'
        json.dump(dict(families=[e for e in exprs], tier=tier, seed=seed, budget=budget[q], timeout=timeout * (3 if q else 1), jobs=JOBS, lemmas=lemmas), open(rq, 'w'))
        p = subprocess.run(['python3-vt', os.path.join(VERIF, 'vf', 'asm', 'main.py'), wcc, rq, rs], capture_output=True, text=True, errors='replace')
        if p.returncode or not os.path.exists(rs):
            return StageRes(name, 'error', msg=(p.stdout + p.stderr)[-800:])
        r = json.load(open(rs))
        out = []
        ids = known_ids(chk.pid)
        for k, tags in r['known'].items():
            if k in ids:
                print('KNOWN-FINDING: property=%s %s (%d functions of the families)' % (chk.pid, ids[k]['what'], len(tags)))
                env.known_printed = getattr(env, 'known_printed', set()) | {k}
            else:
                out.append(StageRes(name + '-' + k, 'failed', failures=[(k, 'behaves like the unlisted finding %s: %s' % (k, tags[:3]), None, False)]))
        for fam, x in sorted(r['families'].items()):
            st = x['status']
            bad = [f for f in r['failures'] if f['family'] == fam]
            nbad = st.get('failed', 0) + st.get('rejected', 0) + len([f for f in bad if f['status'] not in ('failed', 'rejected')])
            fl = []
            for f in bad:
                what = f['fails'][0][0] if f['fails'] else f['msg']
                det = 'contract of `%s` [%s]: %s%s' % (f['tag'], f['func'], what, '; ' + f['how'].split('\n')[0] if f['confirmed'] and f['how'] else '')
                fl.append(('%s/%s' % (fam, f['tag']), det, dict(files=f['files'], source=f['source'], difference=f['how'], model=f['fails']), f['confirmed']))
            if nbad and not fl:
                fl.append((fam, '%d functions fail (see the other families for the first ones)' % nbad, None, False))
            k = dict(st)
            status = 'failed' if nbad else 'proved' if x['discharged'] and not set(st) - {'proved', 'known finding', 'undecided', 'skipped'} else 'error' if st.get('error') and not st.get('proved') else 'proved' if st.get('proved') else 'undecided'
            out.append(StageRes('%s/%s' % (name, fam), status, total=x['obligations'], ok=x['discharged'], secs=x['secs'], funcs=tuple(funcs), backend='z3 (verification conditions from the emitted machine code)',
                                msg='%d functions %s' % (x['functions'], ' '.join('%s:%d' % i for i in sorted(st.items()))), failures=fl,
                                bounded='programs of the family', extra=dict(programs=x['functions'], paths=x['paths'], outcome=st)))
        for l in r['lemmas']:
            out.append(StageRes('lemma/' + l['name'], l['status'] if l['status'] != 'failed' else 'error', total=1, ok=int(l['status'] == 'proved'), secs=l['secs'], backend='z3', msg='lemma of the specification'))
        tv = env.__dict__.setdefault('tv', dict(programs=0, proved=0, undecided=[], samples=[], disagreements=0))
        tv['programs'] += sum(x['functions'] for x in r['families'].values())
        tv['proved'] += sum(x['status'].get('proved', 0) for x in r['families'].values())
        tv['disagreements'] += r['nfail']
        tv['undecided'] += r['undecided']
        tv['nund'] = tv.get('nund', 0) + r['nund']
        tv['samples'] += r['samples']
        print('engine B %s: %d functions in %.1f s, %d undecided' % (name, tv['programs'], time.time() - t0, r['nund']))
        for u in r['undecided'][:8]:
            print('UNDECIDED %s: %s: %s %s' % (u[0], u[1], u[2], u[3][-120:].replace('\n', ' ')))
        return out
    stage.__name__ = name
    return stage
