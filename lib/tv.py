"""Machinery shared by all checks: runs TLC on design specifications, generates
behaviours from them, executes the real code on them, and has TLC judge the
recorded traces.  See DESIGN.md."""
import json, math, os, random, re, shutil, signal, subprocess, sys, tempfile, time
import traceback
from concurrent.futures import ThreadPoolExecutor
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, 'specs')
REPO = os.environ.get('VERIF_REPO', '/repo')
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')
CAP = 10**8          # saturation of scaled integers
NANV = 12 * 10**7    # stands for NaN, infinity
UNIT = 10**7         # scaled value of the largest number of a group


class Machinery(Exception):
    """The check itself failed: neither a pass nor a violation."""


class TaskTimeout(BaseException):
    pass


def load_repo():
    """Import pygfunction from the current working tree of the repository."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent-pyc'
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import pygfunction as gt
    assert os.path.abspath(gt.__file__).startswith(os.path.abspath(REPO) + os.sep), gt.__file__
    return gt


# ---------------------------------------------------------------- numbers
def scale_of(*groups, unit=UNIT):
    """Scale factor that maps the largest finite magnitude to `unit`."""
    import numpy as np
    m = 0.
    for g in groups:
        a = np.abs(np.asarray(g, dtype=float).ravel())
        a = a[np.isfinite(a)]
        if a.size:
            m = max(m, float(a.max()))
    return unit / m if m > 0. else 1.


def ints(x, s, cap=CAP, nan=NANV):
    """Nested lists of scaled integers of an array."""
    import numpy as np
    a = np.asarray(x, dtype=float)
    v = np.where(np.isfinite(a), np.clip(np.rint(np.where(np.isfinite(a), a, 0.) * s), -cap, cap), nan)
    return v.astype(int).tolist()


def shaped(x, shape):
    """Array of the expected shape, or an exception (recorded as an error)."""
    import numpy as np
    a = np.asarray(x, dtype=float)
    if a.shape != tuple(shape):
        raise ValueError(f'shape {a.shape} is not {tuple(shape)}')
    return a


def attempt(f, *a, **k):
    """(value, error name) of a call."""
    try:
        return f(*a, **k), ''
    except Exception as e:
        return None, type(e).__name__


# ---------------------------------------------------------------- TLC
_STAT = re.compile(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found')


class Tlc:
    def __init__(self, out, rc, cmd):
        self.out, self.rc, self.cmd = out, rc, cmd
        m = _STAT.findall(out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        mm = re.search(r'The number of states generated: (\d+)', out)
        if mm and not m:
            self.generated = int(mm.group(1)); self.distinct = self.generated
        self.violated = re.findall(r'(?:Invariant|Action property|property) (\w+) (?:is|was) violated', out)
        self.ok = rc == 0

    def strings(self, tag):
        """JSON payloads of printed strings that start with `tag`."""
        r = []
        for line in self.out.splitlines():
            if line.startswith('"' + tag):
                r.append(json.loads(json.loads(line)[len(tag):]))
        return r


def tlc(workdir, module, cfg_text=None, cfg=None, env=None, workers=1, args=(),
        heap='2g', timeout=800):
    """Run TLC on SPECS/module.tla."""
    os.makedirs(workdir, exist_ok=True)
    if cfg_text is not None:
        cfg = os.path.join(workdir, f'{module}_{random.getrandbits(48):x}.cfg')
        with open(cfg, 'w') as f:
            f.write(cfg_text)
    meta = tempfile.mkdtemp(prefix='meta', dir=workdir)
    # short runs: serial collector and quick compilation
    jvm = ['java', '-Xmx' + heap, '-Xss16m', f'-Djava.io.tmpdir={workdir}',
           '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC']
    if workers == 1:
        jvm += ['-XX:TieredStopAtLevel=1'] if 'c2' not in (env or {}) else []
    cmd = jvm + ['-cp', JARS, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE',
                 '-workers', str(workers), '-config', cfg] + list(args) + \
        [os.path.join(SPECS, module + '.tla')]
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery(f'TLC timed out on {module}')
    return Tlc(p.stdout, p.returncode, ' '.join(cmd))


# ---------------------------------------------------------------- tasks
def _alarm(*_):
    raise TaskTimeout()


_FUNCS = None


def _run_task(t):
    key, fname, params, limit = t
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    t0 = time.time()
    events = []
    try:
        _FUNCS[fname](events, **params)
    except (MemoryError, OSError) as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        return key, fname, params, None, f'{type(e).__name__}: {e}', time.time() - t0
    except TaskTimeout:
        events.append({'ev': 'Exc', 'what': 'Timeout'})
    except Exception as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        tb = traceback.extract_tb(e.__traceback__)
        where = ' < '.join(f'{os.path.basename(f.filename)}:{f.name}' for f in reversed(tb[-4:]))
        events.append({'ev': 'Exc', 'what': f'{type(e).__name__}: {e} [{where}]'[:400]})
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return key, fname, params, events, None, time.time() - t0


class Check:
    def __init__(self, pid, tier, seed, level='model_checking', keep=False):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.quick = tier != 'thorough'
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix=f'vf{pid}_')
        self.out = os.path.join(VERIF, 'out')
        os.makedirs(self.out, exist_ok=True)
        self.rng = random.Random(f'{pid}-{seed}')
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.bounds, self.designs = [], {}, []
        self.violations = []      # (key, clause, episode, line)
        self.known = []
        self.assumptions = []
        self.keep = keep
        self.pool = ThreadPoolExecutor(8)
        self.pending = []

    # -- design specifications
    def design(self, module, cfg_text, expect=None, workers=2, label=None,
               simulate=None, heap='3g', timeout=300, tag=None, cover=()):
        """Model check a design specification (in the background).  `expect` is
        None (must hold) or the set of properties one of which must be violated
        (a deliberately wrong design must be rejected)."""
        def go():
            args = ['-deadlock']
            if simulate:
                args += ['-simulate', f'num={simulate[0]}', '-depth', str(simulate[1]),
                         '-seed', str(self.seed)]
            r = tlc(self.dir, module, cfg_text, workers=1 if (simulate or tag) else workers,
                    args=args, heap=heap, timeout=timeout)
            name = label or module
            if expect is None:
                if not r.ok:
                    raise Machinery(f'design {name} is not accepted by TLC:\n' + r.out[-3000:])
            elif not (set(expect) & set(r.violated)):
                raise Machinery(f'wrong design {name} is not rejected by TLC '
                                f'(expected {expect}, got {r.violated}):\n' + r.out[-2000:])
            self.states += r.distinct
            self.transitions += r.generated
            self.designs.append({'spec': name, 'states': r.distinct, 'transitions': r.generated,
                                 'outcome': 'holds' if expect is None else 'rejected: ' + r.violated[0]})
            return r
        f = self.pool.submit(go)
        self.pending.append(f)
        return f

    def behaviours(self, module, cfg_text, tag='BEH', **k):
        """Behaviours printed (as JSON) by a specification while TLC explores it."""
        r = self.design(module, cfg_text, tag=tag, **k).result()
        b = r.strings(tag)
        if not b:
            raise Machinery(f'{module} produced no behaviour\n' + r.out[-2000:])
        return b

    # -- running the real code
    def run(self, funcs, tasks, limit=60., procs=8):
        """Run tasks (key, function name, parameters); returns episodes."""
        global _FUNCS
        _FUNCS = funcs
        keys = [t[0] for t in tasks]
        if len(set(keys)) != len(keys):
            raise Machinery('task keys are not unique')
        todo = [(k, f, p, limit) for k, f, p in tasks]
        eps = []
        ctx = mp.get_context('fork')
        with ctx.Pool(procs) as pool:
            for key, f, p, ev, err, dt in pool.imap(_run_task, todo, chunksize=max(1, min(20, len(todo) // (4 * procs)))):
                if err:
                    raise Machinery(f'task {key}: {err}')
                eps.append({'key': key, 'func': f, 'params': p, 'events': ev, 't': dt})
        return eps

    # -- judging
    def validate(self, module, episodes, cfg_text='SPECIFICATION Spec\n', chunks=8,
                 heap='2g', timeout=800):
        """Have TLC judge recorded episodes against a trace specification."""
        episodes = [e for e in episodes if e['events']]
        if not episodes:
            raise Machinery('no episode to validate')
        n = sum(len(e['events']) for e in episodes)
        order = sorted(episodes, key=lambda e: -len(e['events']))
        bins = [[] for _ in range(min(chunks, len(order)))]
        load = [0] * len(bins)
        for e in order:
            i = load.index(min(load))
            bins[i].append(e); load[i] += len(e['events']) + 1

        def go(b):
            path = tempfile.mktemp(prefix='trace', suffix='.ndjson', dir=self.dir)
            idx = []
            with open(path, 'w') as f:
                for e in b:
                    f.write(json.dumps({'ev': 'Reset', 'ep': e['key']}) + '\n')
                    idx.append((e, -1))
                    for i, x in enumerate(e['events']):
                        f.write(json.dumps(x) + '\n')
                        idx.append((e, i))
            r = tlc(self.dir, module, cfg_text, env={'TRACE': path}, args=['-deadlock'], heap=heap,
                    timeout=timeout)
            v = r.strings('VERDICT ')
            if not r.ok or len(v) != 1 or v[0]['n'] != len(idx):
                if self.keep:
                    shutil.copy(path, os.path.join(self.out, f'{self.pid}-bad-trace.ndjson'))
                raise Machinery(f'trace validation with {module} failed:\n' + r.out[-3000:])
            return r, v[0]['bad'], idx

        for r, bad, idx in self.pool.map(go, bins):
            self.states += r.distinct
            self.transitions += r.generated
            for line, clause in bad:
                e, i = idx[line - 1]
                self.violations.append((e['key'], clause, e, i, module))
        self.traces += len(episodes)
        self.events += n
        for e in episodes[:1] + episodes[len(episodes) // 2:len(episodes) // 2 + 1]:
            s = json.dumps({'key': e['key'], 'func': e['func'], 'params': e['params'],
                            'events': e['events'][:3]})
            self.samples.append(s[:1500])

    # -- outcome
    def finish(self):
        for f in self.pending:
            f.result()
        self.pool.shutdown()
        known = load_findings(self.pid)
        hits, news = {}, []
        for v in self.violations:
            k = next((x for x in known if x['key'] == v[0] and x['clause'] == v[1]), None)
            if k:
                hits[(k['key'], k['clause'])] = k
            else:
                news.append(v)
        for k in hits.values():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        paths = []
        seen = set()
        for n, (key, clause, e, i, module) in enumerate(news):
            if (key, clause) in seen or len(paths) >= 5:
                continue
            seen.add((key, clause))
            p = os.path.join(self.out, f'{self.pid}-{len(paths)}.json')
            with open(p, 'w') as f:
                json.dump({'property': self.pid, 'spec': module, 'clause': clause, 'key': key,
                           'func': e['func'], 'params': e['params'], 'event': i,
                           'failing': e['events'][i] if 0 <= i < len(e['events']) else None,
                           'events': e['events']}, f, indent=1)
            paths.append((p, key, clause, e['events'][i] if 0 <= i < len(e['events']) else None))
        ev = {'property': self.pid, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick', 'seed': self.seed,
              'level': self.level,
              'coverage': {'states': self.states, 'transitions': self.transitions,
                           'traces_validated_against_impl': self.traces,
                           'events_judged': self.events, 'designs': self.designs,
                           'bounds': self.bounds, 'samples': self.samples[:6]},
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(news)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        for p, key, clause, what in paths:
            print(f'VIOLATION property={self.pid} replay={p}')
            print(f'  {clause} in {key}: {json.dumps(what)[:500]}')
        print(f'{self.pid} {self.tier}: {self.traces} traces, {self.events} events, {self.states} states, '
              f'{len(news)} violations, {time.time() - self.t0:.1f} s')
        return 1 if news else 0


def load_findings(pid):
    """Open findings: one JSON object per `open:` line of KNOWN_FINDINGS."""
    r = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('open: '):
                x = json.loads(line[6:])
                if x['property'] == pid:
                    r.append(x)
    return r
