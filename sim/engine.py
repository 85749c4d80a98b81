"""Driver: seeded exploration over worker processes, verdicts, replay, evidence."""
import fcntl
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter

from . import cover, seam
from .session import CallFailed, HarnessError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.json')

_realtime = time.monotonic

ALL = os.environ.get('NIMSIM_ALL')   # collect violations instead of stopping at the first


def h(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


class Result:
    """What one simulated run showed."""

    def __init__(self):
        self.violations = []     # [{'sig','detail'}]
        self.log = []            # event log, compared by the determinism test
        self.states = set()      # abstract states reached
        self.faults = Counter()  # fault kinds that actually fired
        self.simtime = 0.0       # simulated seconds
        self.steps = 0           # simulated operations
        self.nontrivial = True
        self.counts = Counter()  # property-specific counters
        self.key = None

    def violate(self, sig, detail):
        if not any(v['sig'] == sig for v in self.violations):
            self.violations.append({'sig': sig, 'detail': str(detail)[:1500]})
        self.log.append(['VIOLATION', sig])

    def note(self, *ev):
        self.log.append(list(ev))

    def fire(self, fired):
        for k, v in fired.items():
            self.faults[k] += v

    def digest(self):
        return h(self.log)


class StopRun(Exception):
    pass


class Ctx:
    """Hands a property module its scratch space and records its executions."""

    def __init__(self, mod, scratch, known, tier, replay=False):
        self.mod, self.scratch, self.known, self.tier = mod, scratch, known, tier
        self.replay = replay
        self.n = 0
        self.records = []
        self.stop = None

    def fresh(self):
        """A new empty directory of this execution."""
        d = os.path.join(self.scratch, 'x')
        if os.path.lexists(d):
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return d

    def execute(self, case):
        res = Result()
        try:
            self.mod.run(case, self, res)
        except CallFailed:
            pass
        if res.key is None:
            res.key = h(res.log)
        self.n += 1
        self.records.append((case, res))
        if self.stop is not None:
            self.stop(case, res, self)
        return res


def load_known(prop):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data['findings'] if k['property'] == prop]


def run_case(mod, case, tier, scratch, alarm=0):
    """One explicit case, in this process."""
    ctx = Ctx(mod, scratch, [], tier, replay=True)
    if alarm:
        signal.alarm(alarm)
    try:
        return ctx.execute(case)
    finally:
        if alarm:
            signal.alarm(0)


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


def worker(mod, prop, idx, queue_r, out, seedbase, tier, scratch, deadline, known, stopflag):
    signal.signal(signal.SIGALRM, _alarm)
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    cover.start()
    knownsigs = {k['sig'] for k in known if not k.get('fixed')}
    if hasattr(mod, 'setup_worker'):
        mod.setup_worker(scratch, tier)
    limit = getattr(mod, 'CASE_TIMEOUT', 300)
    with open(out, 'w') as f:
        while True:
            if _realtime() > deadline or stopflag[0]:
                f.write(json.dumps({'t': 'deadline' if not stopflag[0] else 'stopped'}) + '\n')
                break
            b = os.read(queue_r, 4)
            if len(b) < 4:
                break
            n = struct.unpack('<I', b)[0]
            seed = seedbase * 1000003 + n
            rng = random.Random(f'{prop}/{seed}')
            ctx = Ctx(mod, scratch, known, tier)
            state = {'case': None, 'before': 0}

            def on_exec(case, res, ctx):
                signal.alarm(limit)
                new = [v for v in res.violations if v['sig'] not in knownsigs]
                if new:
                    raise StopRun()
            ctx.stop = on_exec
            signal.alarm(limit)
            t0 = _realtime()
            err = None
            try:
                mod.explore(rng, ctx)
            except StopRun:
                pass
            except CaseTimeout:
                err = f'timeout: seed {n} gave no result in {limit}s'
            except HarnessError as e:
                err = 'harness: ' + traceback.format_exc()[-3000:]
            except Exception:                    # pylint: disable=broad-except
                err = 'harness: ' + traceback.format_exc()[-3000:]
            finally:
                signal.alarm(0)
            rec = {'t': 'seed', 'n': n, 'seed': seed, 'wall': _realtime() - t0,
                   'err': err, 'execs': []}
            for i, (case, res) in enumerate(ctx.records):
                e = {'key': res.key, 'nt': bool(res.nontrivial),
                     'faults': dict(res.faults), 'sim': res.simtime,
                     'steps': res.steps, 'counts': dict(res.counts),
                     'digest': res.digest(), 'states': sorted(res.states)[:400]}
                if res.violations:
                    e['viol'] = res.violations
                    e['case'] = case
                if i == len(ctx.records) - 1 and n % 37 < 2:
                    e['case'] = case
                    e['log'] = res.log[:40]
                rec['execs'].append(e)
                if not ALL and any(v['sig'] not in knownsigs for v in res.violations):
                    stopflag[0] = 1
            f.write(json.dumps(rec, default=str) + '\n')
            f.flush()
            cover.dump()


def shrink(mod, case, sig, tier, scratch, budget=60.0):
    """Greedy minimisation; every candidate is executed from its explicit case."""
    t0 = _realtime()
    tried = 0

    def fails(c):
        nonlocal tried
        tried += 1
        try:
            r = run_case(mod, c, tier, scratch, getattr(mod, 'CASE_TIMEOUT', 300))
        except (HarnessError, CaseTimeout):
            return False
        except Exception:                        # pylint: disable=broad-except
            return False
        return any(v['sig'] == sig for v in r.violations)

    gen = getattr(mod, 'shrink', None) or generic_shrink
    progress = True
    while progress and _realtime() - t0 < budget:
        progress = False
        for cand in gen(case):
            if _realtime() - t0 > budget:
                break
            if cand != case and fails(cand):
                case = cand
                progress = True
                break
    return case, tried


def generic_shrink(case):
    """Drop chunks, then single elements, of every list named in case['_lists']
    (default 'ops'), then drop faults."""
    names = case.get('_lists', ['ops'])
    for name in names:
        lst = case.get(name)
        if not isinstance(lst, list):
            continue
        n = len(lst)
        size = n // 2
        while size >= 1:
            for start in range(0, n - size + 1, size):
                c = dict(case)
                c[name] = lst[:start] + lst[start + size:]
                yield c
            size //= 2
    if case.get('fault'):
        c = dict(case)
        c['fault'] = None
        yield c


def build_lib(scratch):
    so = os.path.join(scratch, 'libsimio.so')
    subprocess.run(['gcc', '-O2', '-U_FORTIFY_SOURCE', '-w', '-shared', '-fPIC', '-o', so,
                    os.path.join(VERIF, 'sim', 'simio.c'), '-ldl'], check=True)
    return so


def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        try:
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > (2 << 30) and os.access(d, os.W_OK):
                return tempfile.mkdtemp(prefix='nimsim-', dir=d)
        except OSError:
            pass
    return tempfile.mkdtemp(prefix='nimsim-')


def reexec():
    """Start again under the C-library seam with a private scratch area."""
    base = scratch_base()
    so = build_lib(base)
    home = os.path.join(base, 'home')
    os.makedirs(home)
    env = dict(os.environ)
    env.update(LD_PRELOAD=so, NIMSIM_SCRATCH=base, HOME=home,
               PYTHONDONTWRITEBYTECODE='1', TZ='UTC')
    env.setdefault('PYTHONHASHSEED', '0')
    env['PYTHONPATH'] = VERIF + os.pathsep + env.get('PYTHONPATH', '/repo')
    proc = None

    def term(signum, frame):
        if proc:
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(base, ignore_errors=True)
        os._exit(128 + signum)
    signal.signal(signal.SIGTERM, term)
    signal.signal(signal.SIGINT, term)
    try:
        proc = subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'sim.main'] + sys.argv[1:],
                                env=env, cwd=home, start_new_session=True)
        return proc.wait()
    finally:
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except (OSError, AttributeError):
            pass
        shutil.rmtree(base, ignore_errors=True)


def preload(mod):
    """Import the dependencies (not the library) before forking."""
    sys.dont_write_bytecode = True
    names = ['numpy', 'pandas', 'scipy', 'scipy.sparse', 'scipy.io', 'h5py', 'sqlite3', 'cloudpickle',
             'requests', 'sklearn', 'sklearn.preprocessing', 'sklearn.linear_model', 'dateutil',
             'dateutil.parser', 'packaging', 'packaging.version', 'pandas.testing', 'zipfile',
             'tarfile', 'gzip', 'configparser', 'ast', 'csv', 'tempfile', 'difflib',
             'multiprocessing', 'distutils'] + list(getattr(mod, 'PRELOAD', []))
    for n in names:
        try:
            importlib.import_module(n)
        except ImportError:
            pass
    sys.pycache_prefix = os.path.join(os.environ['NIMSIM_SCRATCH'], 'pyc')
    sys.dont_write_bytecode = False
    if getattr(mod, 'IN_PROCESS', False):
        import nimble                             # noqa: F401
        if hasattr(mod, 'preload'):
            mod.preload()
    else:
        # compile the library once so that every simulated start is cheap
        pid = os.fork()
        if pid == 0:
            try:
                import nimble                     # noqa: F401
            except BaseException:                 # pylint: disable=broad-except
                traceback.print_exc()
                os._exit(1)
            os._exit(0)
        if os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]):
            raise HarnessError('the library does not import')


def explore_all(prop, mod, tier, seedbase, known, nseeds, wall, jobs, base):
    r, w = os.pipe()
    fcntl.fcntl(w, 1031, 1 << 20)                 # F_SETPIPE_SZ
    for n in range(nseeds):
        os.write(w, struct.pack('<I', n))
    os.close(w)
    import mmap
    stopflag = mmap.mmap(-1, 1)
    deadline = _realtime() + wall
    pids, outs = [], []
    for i in range(jobs):
        out = os.path.join(base, f'out{i}.jsonl')
        outs.append(out)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                worker(mod, prop, i, r, out, seedbase, tier,
                       os.path.join(base, f'w{i}'), deadline, known, stopflag)
                code = 0
            except BaseException:                 # pylint: disable=broad-except
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids.append(pid)
    os.close(r)
    bad = 0
    for p in pids:
        if os.waitpid(p, 0)[1]:
            bad += 1
    recs, cut = [], 0
    for o in outs:
        if not os.path.exists(o):
            continue
        with open(o) as f:
            for line in f:
                try:
                    d = json.loads(line)
                except ValueError:
                    bad += 1
                    continue
                if d['t'] == 'seed':
                    recs.append(d)
                elif d['t'] == 'deadline':
                    cut += 1
    recs.sort(key=lambda d: d['n'])
    return recs, cut, bad


def evidence(prop, mod, tier, seedbase, recs, wall, violations, extra):
    faults, counts = Counter(), Counter()
    keys, states = set(), set()
    execs = sim = steps = 0
    samples = []
    for d in recs:
        for e in d['execs']:
            execs += 1
            faults.update(e['faults'])
            counts.update(e['counts'])
            sim += e['sim']
            steps += e['steps']
            states.update(e['states'])
            if e['nt']:
                keys.add(e['key'])
            if 'case' in e and 'log' in e and len(samples) < 3:
                samples.append({'seed': d['seed'], 'case': e['case'], 'log': e['log']})
    cov = {'evaluations': execs, 'distinct_nontrivial': len(keys),
           'rule': mod.RULE, 'samples': samples or [{'note': 'no sample drawn'}],
           'seeds': len(recs), 'runs_per_hour': int(execs / max(wall, 1e-6) * 3600),
           'seeds_per_hour': int(len(recs) / max(wall, 1e-6) * 3600),
           'simulated_operations': steps,
           'simulated_seconds': round(sim, 3),
           'faults_injected': dict(sorted(faults.items())),
           'distinct_states': len(states), 'state_measure': getattr(mod, 'STATES', 'event-log digest'),
           'counters': dict(sorted(counts.items())),
           'real_components': mod.REAL, 'stubbed_components': mod.STUBS}
    cov.update(extra)
    doc = {'property': prop, 'tier': tier, 'seed': seedbase, 'level': mod.LEVEL,
           'coverage': cov, 'assumptions': mod.ASSUMPTIONS, 'wall_s': round(wall, 2),
           'violations': violations}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(doc, f, indent=1, default=str)
    return doc


def cmd_check(prop):
    mod = importlib.import_module('props.' + prop.lower())
    tier = os.environ.get('VERIF_TIER', 'quick')
    seedbase = int(os.environ.get('VERIF_SEED', '1') or 1)
    base = os.environ['NIMSIM_SCRATCH']
    budget = dict(mod.BUDGET[tier])
    nseeds = int(os.environ.get('NIMSIM_SEEDS', budget['seeds']))
    wall_cap = float(os.environ.get('NIMSIM_WALL', budget['wall']))
    jobs = int(os.environ.get('NIMSIM_JOBS', 0)) or max(1, len(os.sched_getaffinity(0)))
    print(f'{prop} tier={tier} seed={seedbase} seeds={nseeds} jobs={jobs}', flush=True)
    t0 = _realtime()
    known = load_known(prop)
    preload(mod)
    # known findings: run each witness; a fixed one suppresses nothing
    live = [k for k in known if not k.get('fixed')]
    gone = []
    extra_viol = []
    if live:
        if hasattr(mod, 'setup_worker'):
            os.makedirs(os.path.join(base, 'k'), exist_ok=True)
        for k in live:
            pid_out = os.path.join(base, 'k.json')
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    signal.signal(signal.SIGALRM, _alarm)
                    sc = os.path.join(base, 'k')
                    os.makedirs(sc, exist_ok=True)
                    os.chdir(sc)
                    if hasattr(mod, 'setup_worker'):
                        mod.setup_worker(sc, tier)
                    res = run_case(mod, k['case'], tier, sc, 200)
                    with open(pid_out, 'w') as f:
                        json.dump(res.violations, f)
                    os._exit(0)
                except BaseException:            # pylint: disable=broad-except
                    traceback.print_exc()
                    os._exit(1)
            if os.waitpid(pid, 0)[1]:
                print(f'ERROR: witness of known finding {k["sig"]} did not run')
                return 2
            with open(pid_out) as f:
                viol = json.load(f)
            if any(v['sig'] == k['sig'] for v in viol):
                print(f'KNOWN-FINDING: property={prop} {k["what"]} [{k["sig"]}]', flush=True)
            else:
                gone.append(k['sig'])
                print(f'note: known finding {k["sig"]} no longer shows')
            extra_viol += [(k['case'], v) for v in viol
                           if v['sig'] not in {x['sig'] for x in live}]
    recs, cut, bad = explore_all(prop, mod, tier, seedbase, known, nseeds, wall_cap, jobs, base)
    wall = _realtime() - t0
    knownsigs = {k['sig'] for k in live}
    viols = [(d['seed'], e['case'], v) for d in recs for e in d['execs']
             for v in e.get('viol', []) if v['sig'] not in knownsigs]
    viols = [(0, c, v) for c, v in extra_viol] + viols
    errs = [d for d in recs if d['err']]
    knownhits = Counter(v['sig'] for d in recs for e in d['execs']
                        for v in e.get('viol', []) if v['sig'] in knownsigs)
    evidence(prop, mod, tier, seedbase, recs, wall, len(viols),
             {'seeds_planned': nseeds, 'stopped_by_wall_clock': bool(cut),
              'known_finding_hits': dict(knownhits), 'harness_errors': len(errs),
              'first_seed': seedbase * 1000003})
    if viols and ALL:
        for sig, n in Counter(v['sig'] for _, _, v in viols).most_common():
            print(f'{n} x {sig}:', next(f'seed={s} {v["detail"]}' for s, _, v in viols if v['sig'] == sig))
        return 1
    if viols:
        return report(prop, mod, tier, viols[0], base)
    if errs or bad:
        for d in errs[:3]:
            print(f'ERROR seed={d["seed"]}: {d["err"]}')
        print(f'ERROR: {len(errs)} runs and {bad} workers failed inside the harness')
        return 2
    n = sum(len(d['execs']) for d in recs)
    if n < budget.get('min', 1):
        print(f'ERROR: only {n} executions finished before the time limit')
        return 2
    print(f'{prop} held on {n} executions of {len(recs)} seeds in {wall:.1f}s'
          + (' (stopped by the time limit)' if cut else ''))
    return 0


def report(prop, mod, tier, viol, base):
    seed, case, v = viol
    sig = v['sig']
    print(f'violation found: seed={seed} {sig}\n{v["detail"]}', flush=True)
    out = os.path.join(VERIF, 'replays')
    os.makedirs(out, exist_ok=True)
    path = os.path.join(out, f'{prop}-{h(sig)}.json')
    res = {'property': prop, 'sig': sig, 'detail': v['detail'], 'seed': seed,
           'tier': tier, 'case': case, 'minimised': False}

    def save():
        with open(path, 'w') as f:
            json.dump(res, f, indent=1, default=str)
    save()
    # minimise in a child so that the master stays clean
    tmp = os.path.join(base, 'min.json')
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGALRM, _alarm)
            sc = os.path.join(base, 'shrink')
            os.makedirs(sc, exist_ok=True)
            os.chdir(sc)
            if hasattr(mod, 'setup_worker'):
                mod.setup_worker(sc, tier)
            c, tried = shrink(mod, case, sig, tier, sc,
                              float(os.environ.get('NIMSIM_SHRINK', 45)))
            r = run_case(mod, c, tier, sc, 250)
            d = [x['detail'] for x in r.violations if x['sig'] == sig]
            with open(tmp, 'w') as f:
                json.dump({'case': c, 'tried': tried, 'digest': r.digest(), 'log': r.log,
                           'detail': d[0] if d else None}, f, default=str)
            os._exit(0)
        except BaseException:                     # pylint: disable=broad-except
            traceback.print_exc()
            os._exit(1)
    t0 = _realtime()
    os.waitpid(pid, 0)
    if os.path.exists(tmp):
        with open(tmp) as f:
            m = json.load(f)
        if m['detail'] is not None:
            res.update(case=m['case'], minimised=True, candidates_tried=m['tried'],
                       digest=m['digest'], detail=m['detail'], log=m['log'])
            save()
    # replay in a fresh process
    env = {k: v for k, v in os.environ.items() if k not in ('LD_PRELOAD', 'NIMSIM_SCRATCH')}
    p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'sim.main', '--replay', path],
                       env=env, cwd=VERIF, capture_output=True, text=True)
    exact = p.returncode == 1
    print(f'replay in a fresh process: {"reproduced exactly" if exact else "NOT reproduced"}')
    if not exact:
        print(p.stdout[-1500:], p.stderr[-1500:])
    print(f'minimised: {json.dumps(res["case"], default=str)[:1500]}')
    print(f'VIOLATION property={prop} replay={path}', flush=True)
    return 1


def cmd_replay(path):
    with open(path) as f:
        r = json.load(f)
    mod = importlib.import_module('props.' + r['property'].lower())
    preload(mod)
    sc = os.path.join(os.environ['NIMSIM_SCRATCH'], 'shrink')
    os.makedirs(sc, exist_ok=True)
    os.chdir(sc)
    signal.signal(signal.SIGALRM, _alarm)
    if hasattr(mod, 'setup_worker'):
        mod.setup_worker(sc, r['tier'])
    res = run_case(mod, r['case'], r['tier'], sc, 300)
    for ev in res.log[-60:]:
        print('  ', ev)
    hit = [v for v in res.violations if v['sig'] == r['sig']]
    if hit and r.get('digest') and res.digest() != r['digest']:
        print('same violation, but the event log differs from the recorded one')
        print(f'VIOLATION property={r["property"]} replay={path}')
        return 3
    if hit:
        print(hit[0]['detail'])
        print(f'VIOLATION property={r["property"]} replay={path}')
        return 1
    print('not reproduced; violations:', [v['sig'] for v in res.violations])
    return 0


def cmd_digest(prop, n):
    """Digests of the first n seeds (for the determinism test)."""
    mod = importlib.import_module('props.' + prop.lower())
    tier = os.environ.get('VERIF_TIER', 'quick')
    seedbase = int(os.environ.get('VERIF_SEED', '1') or 1)
    jobs = int(os.environ.get('NIMSIM_JOBS', 0)) or max(1, len(os.sched_getaffinity(0)))
    preload(mod)
    recs, cut, bad = explore_all(prop, mod, tier, seedbase, load_known(prop), n, 3000, jobs,
                                 os.environ['NIMSIM_SCRATCH'])
    for d in recs:
        print(d['n'], d['err'] and d['err'][:100], ' '.join(e['digest'] for e in d['execs']))
    return 0
