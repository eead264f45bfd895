"""Shared machinery: TLC runs, sharded workers, verdicts, evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, signal, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
EVID = os.path.join(VERIF, 'evidence')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
PY = '/opt/venv/bin/python'
REPO = os.environ.get('XII_REPO', '/repo')
NCPU = min(8, os.cpu_count() or 1)

_scratch = None


def scratch():
    """A private scratch directory, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='verif-')
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


class MachineryError(Exception):
    pass


# --------------------------------------------------------------- TLC
class TLCResult(object):
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        if m:
            self.generated, self.distinct = map(int, m[-1])
        else:
            m = re.findall(r'The number of states generated: (\d+)', out)
            self.generated = int(m[-1]) if m else 0
            self.distinct = self.generated
        # strings printed by the spec: "@@TAG json"; lines of several workers may run together
        self.printed = []
        for tag, body in re.findall(r'"@@(\w+) ((?:[^"\\\n]|\\.)*)"', out):
            self.printed.append((tag, body.replace('\\"', '"').replace('\\\\', '\\')))

    def tagged(self, tag):
        out = []
        for t, r in self.printed:
            if t != tag:
                continue
            try:
                out.append(json.loads(r))
            except ValueError:
                # torn output of concurrent workers; verdicts are printed by a single one
                if tag == 'FAIL':
                    raise MachineryError('cannot read the verdict %s' % r[:300])
        return out

    @property
    def invariant_violated(self):
        return bool(re.search(r'Error: (Invariant|Action property|Temporal|Property|Evaluating invariant|Assumption)', self.out)) \
            or 'is violated' in self.out


def tlc(module, cfg, args=(), env=None, workers=1, timeout=800, heap='2g', cwd=SPEC):
    """Run TLC on spec/<module>.tla with the configuration cfg (file name or text)."""
    d = tempfile.mkdtemp(dir=scratch())
    if cfg.endswith('.cfg') and '\n' not in cfg:
        cfgpath = os.path.join(cwd, cfg)
    else:
        cfgpath = os.path.join(d, module + '.cfg')
        with open(cfgpath, 'w') as f:
            f.write(cfg)
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
           '-Xmx' + heap, '-Xss64m', '-XX:TieredStopAtLevel=4', '-cp', JAR, 'tlc2.TLC',
           '-metadir', os.path.join(d, 'states'), '-noGenerateSpecTE',
           '-workers', str(workers), '-config', cfgpath] + list(args) + [module + '.tla']
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors='replace')
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as ex:
        out = (ex.stdout or b'').decode(errors='replace') if isinstance(ex.stdout, bytes) else (ex.stdout or '')
        rc = 'timeout'
    shutil.rmtree(d, True)
    return TLCResult(out, rc, time.time() - t)


def tlc_ok(res, what):
    """TLC must have finished without any error, otherwise the machinery is broken."""
    if res.rc != 0:
        raise MachineryError('%s: TLC ended with %s\n%s' % (what, res.rc, res.out[-3000:]))
    return res


# --------------------------------------------------------------- environment of the code under test
def code_env():
    """Environment in which the code of /repo runs; private copy of the JIT cache."""
    e = dict(os.environ)
    jit = os.path.join(scratch(), 'dijitso')
    if not os.path.isdir(jit):
        src = '/opt/vp/cache/dijitso'
        if os.path.isdir(src):
            shutil.copytree(src, jit, symlinks=True)
        else:
            os.makedirs(jit)
    mpl = os.path.join(scratch(), 'mpl')
    os.makedirs(mpl, exist_ok=True)
    e.update(HOME=e.get('HOME', '/root'), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
             MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             DIJITSO_CACHE_DIR=jit, MPLCONFIGDIR=mpl, LANG=e.get('LANG', 'C.UTF-8'),
             PATH='/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
             PYTHONPATH=REPO + ':' + os.path.join(VERIF, 'harness'))
    return e


# --------------------------------------------------------------- running cases on the real code
def run_cases(prop, cases, per_case=60, nproc=None, budget=700, group=None):
    """Run the cases in worker processes; returns a list of traces, one per
    case and in the same order: a trace is a list of event dictionaries.
    A case that kills or hangs its worker gets the single event {'ev': 'crash'}."""
    nproc = nproc or NCPU
    nproc = max(1, min(nproc, len(cases)))
    work = tempfile.mkdtemp(dir=scratch())
    results = {}
    if group is None:
        queues = [list(range(k, len(cases), nproc)) for k in range(nproc)]
    else:       # cases which need the same compiled forms go to the same worker
        by = {}
        for i, c in enumerate(cases):
            by.setdefault(group(c), []).append(i)
        queues = [[] for _ in range(nproc)]
        for g in sorted(by.values(), key=len, reverse=True):
            min(queues, key=len).extend(g)
    env = code_env()
    t_end = time.time() + budget

    def start(k, todo, n):
        cf = os.path.join(work, 'in-%d-%d' % (k, n))
        of = os.path.join(work, 'out-%d-%d' % (k, n))
        with open(cf, 'w') as f:
            for i in todo:
                f.write(json.dumps([i, cases[i]]) + '\n')
        open(of, 'w').close()
        log = open(os.path.join(work, 'log-%d-%d' % (k, n)), 'w')
        p = subprocess.Popen([PY, '-W', 'ignore', os.path.join(VERIF, 'harness', 'worker.py'), prop, cf, of],
                             env=env, stdout=log, stderr=subprocess.STDOUT, cwd=work, start_new_session=True)
        return dict(p=p, of=of, todo=todo, k=k, n=n, last=time.time(), seen=0, at=0, log=log.name)

    def collect(w):
        with open(w['of'], 'rb') as f:
            f.seek(w['at'])
            new = f.read()
        new = new[:new.rfind(b'\n')+1]          # the worker may be in the middle of a line
        w['at'] += len(new)
        for l in new.splitlines():
            i, trace = json.loads(l)
            results[i] = trace
            w['seen'] += 1
        if new:
            w['last'] = time.time()

    active = [start(k, q, 0) for k, q in enumerate(queues) if q]
    startup_failures = 0
    while active:
        time.sleep(0.05)
        nxt = []
        for w in active:
            rc = w['p'].poll()
            collect(w)
            left = [i for i in w['todo'] if i not in results]
            if rc is None:
                limit = per_case + (40 if w['seen'] == 0 else 0)
                if time.time() - w['last'] > limit or time.time() > t_end:
                    try:
                        os.killpg(w['p'].pid, signal.SIGKILL)
                    except OSError:
                        pass
                    w['p'].wait()
                    collect(w)
                    left = [i for i in w['todo'] if i not in results]
                    if time.time() > t_end:
                        for i in left:
                            results[i] = None      # not run: out of time
                        continue
                    if left:
                        results[left[0]] = [dict(ev='crash', how='timeout')]
                        left = left[1:]
                    if left:
                        nxt.append(start(w['k'], left, w['n'] + 1))
                else:
                    nxt.append(w)
                continue
            if left:
                # died early
                log = open(w['log']).read()[-2000:]
                if rc == 3:
                    raise MachineryError('worker could not start: %s' % log)
                results[left[0]] = [dict(ev='crash', how='exit %s' % rc)]
                sys.stderr.write('worker died (%s) on case %s\n%s\n' % (rc, json.dumps(cases[left[0]])[:300], log))
                left = left[1:]
                if left:
                    nxt.append(start(w['k'], left, w['n'] + 1))
        active = nxt
    out = [results.get(i) for i in range(len(cases))]
    shutil.rmtree(work, True)
    return out


# --------------------------------------------------------------- conformance through TLC
def validate(module, traces, consts=None, timeout=600, heap='3g', nshard=None):
    """Validate recorded traces against spec/<module>.tla.

    The trace specification reads the file named in the environment variable
    TRACE (one event per line, fields 'case' and 'ev' in each), consumes every
    line and prints "@@FAIL {case, l, clauses}" for each event that the
    specification does not allow.  Returns (failures, stats)."""
    nshard = nshard or NCPU
    items = [(i, t) for i, t in enumerate(traces) if t]
    if not items:
        return [], dict(generated=0, distinct=0, events=0, traces=0)
    # balance the shards by size
    items.sort(key=lambda it: -sum(len(json.dumps(e)) for e in it[1]))
    nshard = max(1, min(nshard, len(items)))
    shards = [[] for _ in range(nshard)]
    for n, it in enumerate(items):
        shards[n % nshard].append(it)
    procs = []
    from concurrent.futures import ThreadPoolExecutor

    def attempt(shard, limit):
        f = tempfile.NamedTemporaryFile('w', suffix='.ndjson', dir=scratch(), delete=False)
        n = 0
        for i, t in shard:
            for e in t:
                e = dict(e)
                e['case'] = i
                f.write(json.dumps(e) + '\n')
                n += 1
        f.close()
        cfg = ('SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\n')
        r = tlc(module, cfg, env=dict(TRACE=f.name), timeout=limit, heap=heap)
        os.unlink(f.name)
        return r, n

    def one(shard):
        r, n = attempt(shard, timeout)
        if r.rc == 0:
            return [(r, n, [])]
        if r.rc == 'timeout' or 'Parsing or semantic analysis failed' in r.out:
            raise MachineryError('trace validation with %s ended with %s\n%s' % (module, r.rc, r.out[-4000:]))
        # the specification cannot even evaluate some recorded event (an index out of
        # range, a missing field, ...): find the traces concerned, they are not behaviours
        bad, out, todo = [], [], [shard]
        while todo:
            part = todo.pop()
            r, n = attempt(part, timeout)
            if r.rc == 0:
                out.append((r, n, []))
            elif len(part) == 1:
                bad.append(part[0][0])
                sys.stderr.write('case %s is outside of %s: %s\n' % (part[0][0], module, error_of(r.out)))
                if len(bad) > 6:
                    break
            else:
                h = len(part) // 2
                todo += [part[:h], part[h:]]
        if not bad:
            raise MachineryError('trace validation with %s ended with %s\n%s' % (module, r.rc, r.out[-4000:]))
        return out + [(None, 0, bad)]

    with ThreadPoolExecutor(nshard) as ex:
        done = list(ex.map(one, shards))
    fails, gen, dist, ev = {}, 0, 0, 0
    for r, n, bad in [x for d in done for x in d]:
        for i in bad:
            fails[(i, 0)] = dict(case=i, l=0, clauses=['undefined'])
        if r is None:
            continue
        gen += r.generated
        dist += r.distinct
        ev += n
        for f in r.tagged('FAIL'):
            fails[(f['case'], f['l'])] = f
    return list(fails.values()), dict(generated=gen, distinct=dist, events=ev, traces=len(items))


def error_of(out):
    m = re.search(r'Error: .*(?:\n(?!Error).*){0,6}', out)
    return (m.group(0) if m else out[-600:])[:900]


# --------------------------------------------------------------- known findings
def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


def scaled(v, S=1, tol=1E-7):
    """Real number -> integer v*S if it is one, otherwise the sentinel BAD."""
    x = float(v) * S
    if x != x or abs(x) > 1E9:
        return BAD
    r = round(x)
    return int(r) if abs(x - r) <= tol * max(1.0, abs(x)) * 10 else BAD


BAD = 987654321
