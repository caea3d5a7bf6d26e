"""Contract-verification runner: extracts the real functions from /repo on every run, generates obligations with
goto-instrument --dfcc (contract enforcement / contract replacement / loop contracts) and decides them with cbmc."""
import atexit, concurrent.futures, dataclasses, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOLINK = {'main.c', 'instrgen.c', 'make-internals.c', 'instrrules.c', 'instrrules-generated.c', 'internals.c'}
JOBS = int(os.environ.get('VF_JOBS', '8'))

STD = ['--no-standard-checks', '--pointer-check', '--bounds-check', '--div-by-zero-check']


@dataclasses.dataclass
class Obl:
    """One proof task: harness + (optionally) a function whose contract is enforced."""
    name: str
    src: str                          # harness file in the check's folder
    unit: tuple = ()                  # repo files textually included by the harness (so not linked again)
    entry: str = 'harness'
    enforce: str = None               # function whose contract is enforced
    rec: bool = False                 # recursive: calls to itself are replaced by the contract
    replace: tuple = ()               # callees checked against their contract, not their body
    funcs: tuple = ()                 # functions of /repo this task puts under contract (for the evidence)
    loops: dict = None                # {file: [(function, ordinal, clauses)]}: loop contracts inserted mechanically
    unwind: int = None
    unwindset: tuple = ()
    solver: str = 'sat'
    checks: tuple = None
    defines: tuple = ()
    bounded: str = None               # None: complete; otherwise the stated bound
    timeout: int = 300
    tier: str = 'quick'
    link: tuple = None                # repo files to link (None = every library file)
    search: float = 20                # seconds of native search for a failing input when a proof fails
    native: bool = True
    objbits: int = 12
    extra: tuple = ()
    drop: tuple = ()                  # functions whose bodies are removed (must be listed in `replace` models)
    dfcc: bool = None                 # contract instrumentation (frames, replacement, loop contracts); None: when enforce/replace/loops ask for it
    body: tuple = ()                  # light mode: a callee f is checked against its contract `vfc_f` (from the harness text) unless listed here or enforced

    consts: dict = None               # macros of wcc.h given another (smaller) value in the included files; must be stated in `bounded`

    @property
    def instrumented(self):
        return self.dfcc if self.dfcc is not None else bool(self.replace or self.loops or self.rec)


class Env:
    def __init__(self, prop):
        self.prop = prop
        self.dir = tempfile.mkdtemp(prefix='vf-%s-' % prop)
        atexit.register(shutil.rmtree, self.dir, True)
        self.src = os.path.join(self.dir, 'src')
        os.mkdir(self.src)
        self.gb = {}
        self.nat = {}
        self.untranslated = {}
        self.extracted = {}
        self.lock = threading.Lock()

    def lib_files(self):
        return sorted(os.path.basename(f) for f in glob.glob(REPO + '/*.c') if os.path.basename(f) not in NOLINK)


def run(cmd, timeout=None, cwd=None, env=None):
    """Runs a command in a process group of its own, so that a timeout also ends the solvers it started."""
    t = time.time()
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=cwd, env=env, errors='replace', start_new_session=True)
    try:
        so, se = p.communicate(timeout=timeout)
        return p.returncode, so, se, time.time() - t
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.communicate()
        return -999, '', 'timeout', time.time() - t


class ToolError(Exception):
    pass


# ---------------------------------------------------------------- loop contract insertion

TOK = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|[A-Za-z_]\w*|\d[\w.]*|\s+|.', re.S)


def tokens(text):
    pos = 0
    for m in TOK.finditer(text):
        s = m.group(0)
        if not (s.isspace() or s.startswith('//') or s.startswith('/*')):
            yield m.start(), m.end(), s


def find_function(toks, name):
    """Index range of the tokens of the body of the definition of `name`."""
    depth = 0
    i = 0
    while i < len(toks):
        s = toks[i][2]
        if s == '{':
            depth += 1
        elif s == '}':
            depth -= 1
        elif depth == 0 and s == name and i + 1 < len(toks) and toks[i + 1][2] == '(':
            j = match(toks, i + 1)
            if j + 1 < len(toks) and toks[j + 1][2] == '{':
                return j + 1, match(toks, j + 1)
        i += 1
    return None


def match(toks, i):
    o = toks[i][2]
    c = {'(': ')', '{': '}', '[': ']'}[o]
    d = 0
    while i < len(toks):
        if toks[i][2] == o:
            d += 1
        elif toks[i][2] == c:
            d -= 1
            if d == 0:
                return i
        i += 1
    raise ToolError('unbalanced %s' % o)


def loop_headers(toks, a, b):
    """Positions (char offsets) right after the header of each for/while loop of a body, in textual order."""
    res = []
    i = a
    do_ends = set()
    while i < b:
        s = toks[i][2]
        if s in ('for', 'while') and toks[i + 1][2] == '(':
            j = match(toks, i + 1)
            res.append((toks[j][1], s, i))
        i += 1
    return res


def annotate(text, specs):
    toks = list(tokens(text))
    ins = []
    for fn, ordinal, clauses in specs:
        r = find_function(toks, fn)
        if not r:
            raise ToolError('function %s not found for loop contract' % fn)
        hs = loop_headers(toks, *r)
        if ordinal >= len(hs):
            raise ToolError('loop %d of %s not found' % (ordinal, fn))
        ins.append((hs[ordinal][0], '\n' + clauses + '\n'))
    for pos, t in sorted(ins, reverse=True):
        text = text[:pos] + t + text[pos:]
    return text


# ---------------------------------------------------------------- building

def goto_cc(env, out, files, defines, inc, extra=()):
    cmd = ['goto-cc', '-DVF_CBMC', '-DBUILD_DIR="/repo"', *['-D' + d for d in defines]]
    for i in inc:
        cmd += ['-I', i]
    cmd += [*extra, '-o', out, *files]
    rc, so, se, _ = run(cmd, 120)
    if rc != 0 or not os.path.exists(out):
        raise ToolError('goto-cc failed: ' + (so + se)[-1500:])


def extract(env, f):
    """Scratch copy of a source file in which arguments passed to functions defined with an empty parameter list `()` are
    dropped (the callee cannot see them; goto-cc refuses the mismatch). Nothing else changes. Returns None if not needed."""
    text = open(os.path.join(REPO, f)).read()
    toks = list(tokens(text))
    noarg = set()
    depth = 0
    for i, (a, b, t) in enumerate(toks):
        if t == '{':
            depth += 1
        elif t == '}':
            depth -= 1
        elif depth == 0 and t == '(' and i + 2 < len(toks) and toks[i + 1][2] == ')' and toks[i + 2][2] == '{':
            noarg.add(toks[i - 1][2])
    cuts = []
    depth = 0
    for i, (a, b, t) in enumerate(toks):
        if t == '{':
            depth += 1
        elif t == '}':
            depth -= 1
        elif depth and t in noarg and toks[i + 1][2] == '(' and toks[i + 2][2] != ')':
            j = match(toks, i + 1)
            cuts.append((toks[i + 1][1], toks[j][0]))
    if not cuts:
        return None
    for a, b in reversed(cuts):
        text = text[:a] + text[b:]
    open(os.path.join(env.src, f), 'w').write(text)
    env.extracted[f] = len(cuts)
    return os.path.join(env.src, f)


def build_lib(env):
    def one(f):
        o = os.path.join(env.dir, f + '.gb')
        try:
            goto_cc(env, o, [extract(env, f) or os.path.join(REPO, f)], (), (REPO,), ('-c',))
        except ToolError as e:
            env.untranslated[f] = str(e)
            return None
        return f, o
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        env.gb = dict(x for x in ex.map(one, env.lib_files()) if x)


def build_native_lib(env):
    d = os.path.join(env.dir, 'nat')
    os.makedirs(d, exist_ok=True)

    def one(f):
        o = os.path.join(d, f + '.o')
        rc, so, se, _ = run(['gcc', '-fcommon', '-O1', '-g', '-w', '-fsanitize=address', '-fno-sanitize-recover', '-DBUILD_DIR="/repo"', '-Dexit=vf_exit',
                             '-I', REPO, '-c', os.path.join(REPO, f), '-o', o], 200)
        if rc:
            raise ToolError('gcc failed on %s: %s' % (f, se[-800:]))
        return f, o
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        env.nat = dict(ex.map(one, env.lib_files()))
    for f in ('vf_native.c', 'vf_setup.c'):
        o = os.path.join(d, f + '.o')
        rc, so, se, _ = run(['gcc', '-O1', '-g', '-w', '-fsanitize=address', '-c', os.path.join(VERIF, 'vf', f), '-o', o], 100)
        if rc:
            raise ToolError('gcc failed on %s: %s' % (f, se[-800:]))
        env.nat[f] = o


def const_dir(env, o):
    """Copies of the included files and wcc.h with other values of the limits."""
    if not o.consts:
        return []
    d = os.path.join(env.dir, 'const-' + o.name)
    if not os.path.isdir(d):
        os.makedirs(d + '.tmp', exist_ok=True)
        for f in (*o.unit, 'wcc.h'):
            text = open(os.path.join(env.src if f in env.extracted else REPO, f)).read()
            for k, v in o.consts.items():
                text, n = re.subn(r'^#define %s[ \t].*$' % k, '#define %s %s' % (k, v), text, flags=re.M)
                if f == 'wcc.h' and n != 1:
                    raise ToolError('macro %s not found in wcc.h' % k)
            open(os.path.join(d + '.tmp', f), 'w').write(text)
        os.replace(d + '.tmp', d)
    return [d]


def native_exe(env, chk, o):
    with env.lock:
        if not env.nat:
            build_native_lib(env)
    exe = os.path.join(env.dir, 'nat', o.name + '.exe')
    if os.path.exists(exe):
        return exe
    objs = [p for f, p in env.nat.items() if f not in o.unit]
    rc, so, se, _ = run(['gcc', '-fcommon', '-O1', '-g', '-w', '-fsanitize=address', '-fno-sanitize-recover', '-DBUILD_DIR="/repo"', '-Dexit=vf_exit',
                         *['-D' + d for d in o.defines], '-Dharness=harness', *(['-D%s=harness' % o.entry] if o.entry != 'harness' else []),
                         *['-I' + x for x in const_dir(env, o)], '-I', REPO, '-I', os.path.join(VERIF, 'vf'), '-I', chk.dir,
                         os.path.join(chk.dir, o.src), *objs, '-Wl,--unresolved-symbols=ignore-all', '-lm', '-o', exe + '.tmp%d' % threading.get_ident()], 200)
    if rc == 0:
        os.replace(exe + '.tmp%d' % threading.get_ident(), exe)
    if rc:
        raise ToolError('native build failed: ' + se[-1500:])
    return exe


# ---------------------------------------------------------------- proving

def parse_json(out):
    try:
        return json.loads(out)
    except Exception:
        i = out.rfind('\n]')
        try:
            return json.loads(out[:i + 2] if i > 0 else out.rstrip().rstrip(',') + ']')
        except Exception:
            return None


def cbmc_cmd(o, gb):
    if not o.instrumented and not o.unwind:
        o = dataclasses.replace(o, unwind=4)
    cmd = ['cbmc', gb, *(o.checks if o.checks is not None else STD)]
    if o.unwind:
        cmd += ['--unwind', str(o.unwind), '--unwinding-assertions']
    if o.unwindset:
        cmd += ['--unwindset', ','.join(o.unwindset)]
        if not o.unwind:
            cmd += ['--unwinding-assertions']
    if o.solver == 'cvc5':
        cmd += ['--cvc5']
    elif o.solver == 'z3':
        cmd += ['--z3']
    if o.objbits:
        cmd += ['--object-bits', str(o.objbits)]
    cmd += list(o.extra)
    return cmd


def prepare(env, chk, o, with_loops=True):
    inc = [env.src, REPO, os.path.join(VERIF, 'vf'), chk.dir]
    inc[:0] = const_dir(env, o)
    defines = list(o.defines)
    annotated = {}
    if o.loops and with_loops:
        d = os.path.join(env.dir, 'ann-' + o.name)
        os.makedirs(d, exist_ok=True)
        for f, specs in o.loops.items():
            text = open(os.path.join(env.src if f in env.extracted else REPO, f)).read()
            open(os.path.join(d, f), 'w').write(annotate(text, specs))
            annotated[f] = os.path.join(d, f)
        inc.insert(0, d)
        defines.append('VF_LOOPS')
    base = os.path.join(env.dir, o.name + ('' if with_loops else '-unrolled'))
    hgb = base + '.h.gb'
    htext = open(os.path.join(chk.dir, o.src)).read()
    # functions used only inside contract clauses must survive the removal of unreachable functions
    keep = {}
    heads = [p for p in glob.glob(chk.dir + '/*.h') + glob.glob(os.path.dirname(chk.dir) + '/*.h') if re.search(r'#include "[^"]*\b%s"' % re.escape(os.path.basename(p)), htext)]
    for t in [htext] + [open(p).read() for p in heads]:
        for m in re.finditer(r'^(?:static )?[\w* ]*?\b((?:vfc|pre|post|inv|sp|gh)_\w+)\s*\(([^;{]*)\)\s*\{', t, re.M):
            keep[m.group(1)] = 0 if m.group(2).strip() in ('', 'void') else m.group(2).count(',') + 1
    h2 = base + '.h.c'
    inst = o.instrumented and (with_loops or o.replace or o.rec)
    if not inst:
        keep = {}
    open(h2, 'w').write('#include "%s"\nvoid vf_keep(void) { if (vf_n == 0) return; /* keeps contract predicates alive */\n%s}\n' % (
        os.path.join(chk.dir, o.src), ''.join(' %s(%s);\n' % (k, ', '.join('0' * n)) for k, n in sorted(keep.items()))))
    inst = o.instrumented and (with_loops or o.replace or o.rec)
    if not inst:
        defines.append('VF_PLAIN')
    goto_cc(env, hgb, [h2], defines, inc, ('-c',))
    names = o.link if o.link is not None else [f for f in env.gb]
    objs = [env.gb[f] for f in names if f not in o.unit and f in env.gb and (inst or f not in ('memory.c', 'error.c'))]
    if not inst:
        with env.lock:
            if 'stubs' not in env.__dict__:
                env.stubs = os.path.join(env.dir, 'stubs.gb')
                goto_cc(env, env.stubs, [os.path.join(VERIF, 'vf', 'vf_stubs.c')], (), (), ('-c',))
        objs.append(env.stubs)
    gb = base + '.gb'
    rc, so, se, _ = run(['goto-cc', '--function', o.entry, '-o', gb, hgb, *objs], 120)
    if rc != 0 or not os.path.exists(gb):
        raise ToolError('link failed: ' + (so + se)[-1500:])
    for fn in o.drop:
        g2 = gb + '.d'
        run(['goto-instrument', '--remove-function-body', fn, gb, g2], 60)
        if os.path.exists(g2):
            os.replace(g2, gb)
    swap = []
    if not inst:
        swap = sorted({m for t in [htext] + [open(p).read() for p in heads] for m in re.findall(r'^[\w* ]*?\bvfc_(\w+)\s*\(', t, re.M)} - {o.enforce} - set(o.body))
        g2 = gb + '.s'
        rc, so, se, _ = run(['goto-instrument', *[x for k in swap for x in ('--replace-calls', '%s:vfc_%s' % (k, k))], gb, g2], 60)
        if os.path.exists(g2):
            os.replace(g2, gb)
        else:
          for k in swap:   # one at a time: a callee that no longer exists is simply not replaced
            g2 = gb + '.s'
            run(['goto-instrument', '--replace-calls', '%s:vfc_%s' % (k, k), gb, g2], 60)
            if os.path.exists(g2):
                os.replace(g2, gb)
    with env.lock:
        env.__dict__.setdefault('swapped', {})[o.name] = swap
    g2 = base + '.u.gb'
    run(['goto-instrument', '--drop-unused-functions', gb, g2], 100)
    if os.path.exists(g2):
        gb = g2
    if inst:
        g2 = base + '.i.gb'
        cmd = ['goto-instrument', '--dfcc', o.entry]
        if o.enforce:
            cmd += ['--enforce-contract-rec' if o.rec else '--enforce-contract', o.enforce]
        for r in o.replace:
            cmd += ['--replace-call-with-contract', r]
        if o.loops and with_loops:
            cmd += ['--apply-loop-contracts']
        cmd += [gb, g2]
        rc, so, se, _ = run(cmd, 200)
        if rc != 0 or not os.path.exists(g2):
            raise ToolError('goto-instrument failed: ' + (so + se)[-2500:])
        gb = g2
    return gb


@dataclasses.dataclass
class Res:
    obl: Obl
    status: str = 'error'            # proved / failed / undecided / error
    total: int = 0
    ok: int = 0
    failed: list = dataclasses.field(default_factory=list)
    msg: str = ''
    secs: float = 0
    solver_secs: float = 0
    inputs: list = None
    bounded: str = None
    nobody: list = dataclasses.field(default_factory=list)
    how: str = ''
    dead: list = dataclasses.field(default_factory=list)


def decide(env, chk, o, with_loops=True, bounded=None):
    r = Res(o, bounded=bounded or o.bounded)
    t0 = time.time()
    try:
        gb = prepare(env, chk, o, with_loops)
    except ToolError as e:
        r.msg = str(e)
        r.secs = time.time() - t0
        return r
    cmd = cbmc_cmd(o, gb)
    rc, so, se, secs = run(cmd + ['--verbosity', '8'], o.timeout)
    r.solver_secs = secs
    r.secs = time.time() - t0
    if rc == -999:
        r.status = 'undecided'
        r.msg = 'timeout after %d s' % o.timeout
        return r
    results, fn = [], ''
    for l in so.split('\n'):
        m = re.match(r'(\S+) function (\S+)$', l)
        if m:
            fn = m.group(2)
        m = re.match(r'\[(\S+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$', l)
        if m:
            results.append(dict(property=m.group(1), description=m.group(3), status=m.group(4), sourceLocation=dict(line=m.group(2) or '?', function=fn)))
        if 'no body for' in l:
            r.nobody.append(l.strip())
    if '** Results:' not in so:
        r.msg = 'no verifier results: ' + (so + se)[-800:]
        return r
    reach = [x for x in results if x.get('description') == 'vf_reach']
    # obligations about the contract library itself and about the harness text are side conditions: they must hold, but are not counted
    rest = [x for x in results if x.get('description') != 'vf_reach']
    side = [x for x in rest if x['property'].startswith(('__CPROVER', 'vf_', 'free.', 'malloc.', 'h_', 'harness', 'sp_')) and not x.get('description', '').startswith('vf: ') and x['status'] == 'SUCCESS']
    rest = [x for x in rest if x not in side]
    unw = [x for x in rest if '.unwind.' in x['property'] and x['status'] == 'FAILURE']
    bad = [x for x in rest if x['status'] == 'FAILURE' and x not in unw]
    missing = [x for x in bad if 'undefined function should be unreachable' in x.get('description', '')]
    if missing:
        r.msg = 'tool: functions without a body or contract: ' + ', '.join(x['property'] for x in missing[:6])
        r.total = len(rest)
        return r
    unk = [x for x in rest if x['status'] not in ('FAILURE', 'SUCCESS')]
    r.total = len(rest)
    r.ok = sum(x['status'] == 'SUCCESS' for x in rest)
    if bad:
        r.status = 'failed'
        r.failed = [(x['property'], x.get('description', ''), x.get('sourceLocation', {}).get('line', '?'), x.get('sourceLocation', {}).get('function', '?')) for x in bad]
        trace(env, o, cmd, r, bad)
    elif unk or unw:
        r.status = 'undecided'
        r.msg = 'unresolved: ' + ', '.join(x['property'] for x in (unk + unw)[:5])
    elif not rest:
        r.msg = 'no obligations generated'
    elif not reach or any(x['status'] != 'FAILURE' for x in reach):
        r.dead = [x['property'] for x in reach if x['status'] != 'FAILURE'] or ['none']
        r.msg = 'vacuous: reachability canary not reached (%s)' % r.dead
    else:
        r.status = 'proved'
    return r


def pick(bad):
    def rank(x):
        d = x.get('description', '')
        p = x['property']
        if d.startswith('vf:'):
            return 0
        if '.postcondition' in p:
            return 1
        if 'precondition' in p:
            return 2
        return 3
    return sorted(bad, key=rank)


def trace(env, o, cmd, r, bad):
    r.inputs = []
    for x in pick(bad)[:3]:
        rc, so, se, _ = run(cmd + ['--json-ui', '--trace', '--property', x['property']], min(o.timeout, 200))
        js = parse_json(so)
        if js is None:
            continue
        for e in js:
            for y in e.get('result', []) if isinstance(e, dict) else []:
                if y['property'] != x['property'] or 'trace' not in y:
                    continue
                vals = {}
                for s in y['trace']:
                    if s.get('stepType') == 'assignment':
                        m = re.match(r'vf_log\[(\d+)[lL]*\]$', s.get('lhs', ''))
                        if m:
                            v = s.get('value', {})
                            b = v.get('binary')
                            if b:
                                n = int(b, 2)
                                if n >= 1 << 63:
                                    n -= 1 << 64
                                vals[int(m.group(1))] = n
                if vals:
                    r.inputs.append((x['property'], [vals.get(i, 0) for i in range(max(vals) + 1)]))
                else:
                    r.inputs.append((x['property'], []))


def native_replay(env, chk, o, vals):
    exe = native_exe(env, chk, o)
    e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:handle_segv=0:handle_sigfpe=0:handle_abort=0:allocator_may_return_null=1')
    rc, so, se, _ = run([exe, 'replay', *map(str, vals)], 60, env=e)
    m = re.search(r'VF_FAIL (.*)\nVF_INPUTS(.*)', so)
    if m:
        return m.group(1), [int(v) for v in m.group(2).split()]
    return None


def native_search(env, chk, o, secs, seed):
    exe = native_exe(env, chk, o)
    e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:handle_segv=0:handle_sigfpe=0:handle_abort=0:allocator_may_return_null=1')
    end = time.time() + secs
    k = 0
    stats = [0, 0]
    while time.time() < end:
        left = max(1, end - time.time())
        rc, so, se, _ = run([exe, 'search', '%.1f' % min(5, left), str(seed * 1000 + k)], 60, env=e)
        k += 1
        m = re.search(r'VF_FAIL (.*)\nVF_INPUTS(.*)', so)
        if m:
            return (m.group(1), [int(v) for v in m.group(2).split()]), stats
        m = re.search(r'runs=(\d+) checked=(\d+)', so)
        if m:
            stats[0] += int(m.group(1))
            stats[1] += int(m.group(2))
        elif rc != 0:
            break
    return None, stats
