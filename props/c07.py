"""C07: an interrupted or failed fetch never leaves bad data to be served."""
import errno
import os

from sim.session import Session
from . import fetch_common as fc

LEVEL = 'fault_enumeration'
BUDGET = {'quick': {'seeds': 110, 'wall': 150, 'min': 60},
          'thorough': {'seeds': 6000, 'wall': 3000, 'min': 150}}
RULE = ('A seed draws 1-2 sources (plain, gzip, zip, tar, tar.gz, damaged; empty to 70 kB members) and a history of fetches, refreshes and new '
        'versions of the source; it runs once without faults to count file operations, then with process death before, after or inside file '
        'operations, disk errors and full disks, short writes, interrupts at lines of the fetching code, and network faults (no connection, error status, body cut off or reset); '
        'afterwards the same and a new session fetch again, first offline, then with a healthy network. Non-trivial: a fault fired.')
STATES = 'per fetch: (source kind, cached before, fault kinds fired, outcome)'
REAL = ['nimble.fetchFiles and all cache and unpacking code', 'requests and urllib3 above the transport adapter', 'zipfile, tarfile, gzip', 'kernel file system']
STUBS = ['HTTP transport (requests.adapters.HTTPAdapter.send)', 'process death, disk errors and short writes at the C library boundary', 'clock, kernel randomness']
ASSUMPTIONS = ['servers announce the length of what they send (a cut body is then noticed by urllib3)',
               'process crash model: data handed to the operating system survives (no power failure)']
ERRNOS = [errno.ENOSPC, errno.EIO]


def gen(rng):
    src = [fc.gen_source(rng, i, ('plain', 'gz', 'zip', 'zip', 'tar', 'targz', 'badzip')) for i in range(rng.choice([1, 1, 2]))]
    ops = []
    for _ in range(rng.randrange(1, 5)):
        r = rng.random()
        i = rng.randrange(len(src))
        if r < 0.25 and ops:
            ops.append(['newversion', i])
        elif r < 0.35 and ops:
            ops.append(['restart'])
        elif r < 0.7:
            ops.append(['fetch', i, False])
        else:
            ops.append(['fetch', i, True])
    if not any(o[0] == 'fetch' for o in ops):
        ops.append(['fetch', 0, False])
    return {'sources': src, 'ops': ops, 'faults': []}


def explore(rng, ctx):
    case = gen(rng)
    base = ctx.execute(case)
    pts = base.points
    if not pts:
        return

    def one(kinds):
        op, n = rng.choice(pts)
        kind = rng.choice(kinds)
        arg = rng.choice(ERRNOS) if kind in ('errno', 'torn_errno', 'sticky') else rng.choice([0, 200, 500, 999]) if kind == 'crash_torn' else 0
        return {'op': op, 'plan': [[rng.randrange(n), kind, arg]]}
    op, n = rng.choice(pts)
    enum = [(k, kind) for k in range(n) for kind in ('crash_before', 'crash_torn')] + [(n - 1, 'crash_after')]
    if ctx.tier == 'quick' and len(enum) > 8:
        enum = rng.sample(enum, 8)
    elif len(enum) > 60:
        enum = rng.sample(enum, 60)
    for k, kind in enum:
        ctx.execute(dict(case, faults=[{'op': op, 'plan': [[k, kind, 500 if kind == 'crash_torn' else 0]]}]))
    for _ in range(6 if ctx.tier == 'quick' else 20):
        ctx.execute(dict(case, faults=[one(['errno', 'torn_errno', 'sticky', 'short', 'crash_before', 'crash_after', 'crash_torn'])
                                       for _ in range(rng.choice([1, 1, 2, 3]))]))
    fetches = [i for i, o in enumerate(case['ops']) if o[0] == 'fetch']
    for _ in range(3 if ctx.tier == 'quick' else 10):
        f = {'req': rng.choice([0, 1, 1, 1]), 'kind': rng.choice(['connect', 'timeout', 'cut', 'cut', 'reset', 'status'])}
        if f['kind'] in ('cut', 'reset'):
            f['at'] = rng.choice([0, 0.3, 0.7, 0.99])
        if f['kind'] == 'status':
            f['status'] = rng.choice([404, 500, 503, 403])
        ctx.execute(dict(case, faults=[{'op': rng.choice(fetches), 'net': [f]}]))
    for _ in range(4 if ctx.tier == 'quick' else 12):
        ctx.execute(dict(case, faults=[{'op': rng.choice(fetches), 'interrupt': rng.randrange(70)}]))


def shrink(case):
    for i in range(len(case['faults'])):
        yield dict(case, faults=case['faults'][:i] + case['faults'][i + 1:])
    n = len(case['ops'])
    for i in range(n):
        if any(f['op'] == i for f in case['faults']):
            continue
        c = dict(case, ops=case['ops'][:i] + case['ops'][i + 1:])
        c['faults'] = [dict(f, op=f['op'] - (f['op'] > i)) for f in case['faults']]
        yield c
    for s, spec in enumerate(case['sources']):
        for j in range(len(spec['members'])):
            if len(spec['members']) > 1:
                m = spec['members'][:j] + spec['members'][j + 1:]
                yield dict(case, sources=case['sources'][:s] + [dict(spec, members=m)] + case['sources'][s + 1:])
            if spec['members'][j][1] > 30:
                m = [list(x) for x in spec['members']]
                m[j][1] = 30
                yield dict(case, sources=case['sources'][:s] + [dict(spec, members=m)] + case['sources'][s + 1:])


def run(case, ctx, res):
    root = ctx.fresh()
    specs = [dict(s) for s in case['sources']]
    served = [[1] for _ in specs]           # versions that a request may have obtained
    cached = [False] * len(specs)
    good = [None] * len(specs)              # files of the last good fetch
    res.points = []
    res.nontrivial = False
    faults = {}
    for f in case['faults']:
        faults.setdefault(f['op'], []).append(f)
    sess, k = None, 0

    def server():
        return {s['url']: s for s in specs}

    def start():
        nonlocal sess, k
        if sess:
            sess.close()
        k += 1
        sess = Session(root, fc.OPS, clock=(1.6e9 + k, 0), rand=k, setup=fc.install)
        r = sess.start(armed=False)
        if not r.ok:
            res.violate('session-does-not-start', r['exc'])
            return False
        return True

    def read(p):
        try:
            with open(p, 'rb') as f:
                return f.read()
        except OSError:
            return None

    def judge(i, paths, where):
        """Is what a fetch returned one complete version?"""
        spec = specs[i]
        if not isinstance(paths, list) or not paths:
            res.violate('no-files-returned', f'{where}: {paths!r}')
            return False
        got = {p: read(p) for p in paths}
        if any(v is None for v in got.values()):
            res.violate('returned-file-missing', f'{where}: {[p for p, v in got.items() if v is None]}')
            return False
        why = []
        for v in served[i]:
            s = dict(spec, version=v)
            exp = fc.expected(s)
            if exp is not None:
                if len(paths) == len(exp) and all(any(p.endswith(os.sep + n.replace('/', os.sep)) and got[p] == d for p in paths) for n, d in exp.items()):
                    return True
            if spec['kind'] != 'plain' and len(paths) == 1 and got[paths[0]] == fc.build(s):
                if paths[0].endswith(spec['url'].rsplit('/', 1)[1]):
                    return 'archive'
            why.append({n: len(d) for n, d in (exp or {}).items()})
        res.violate('bad-data-served', f'{where}: returned {[(os.path.relpath(p, root), len(v)) for p, v in got.items()]}, '
                    f'the source ({spec["kind"]}) provides {why}')
        return False

    def undamaged(i, where):
        """Files of an earlier good fetch hold complete content of one of the versions, if they are there."""
        if good[i] is None:
            return True
        for p in good[i]:
            now = read(p)
            if now is None:
                continue
            ok = False
            for v in served[i]:
                s = dict(specs[i], version=v)
                for n, d in (fc.expected(s) or {}).items():
                    ok = ok or (p.endswith(n) and now == d)
                ok = ok or (now == fc.build(s) and p.endswith(specs[i]['url'].rsplit('/', 1)[1]))
            if not ok:
                res.violate('good-file-damaged', f'{where}: {os.path.relpath(p, root)} now has {len(now)} bytes that are no version of the source')
                return False
        return True

    def fetch(i, overwrite, where, **kw):
        opts = {x: kw.pop(x) for x in ('_plan', '_interrupt') if x in kw}
        r = sess.call('fetch', url=specs[i]['url'], server=server(), overwrite=overwrite, **opts, **kw)
        if r['status'] == 'exc':
            # an interrupt outside of the library's own frames
            return r, {'exc': r['exc'], 'paths': None, 'requests': [], 'netfired': []}
        return r, (r.value or {'exc': None, 'paths': None, 'requests': [], 'netfired': []})

    try:
        if not start():
            return
        for n, op in enumerate(case['ops']):
            where = f'operation {n} {op}'
            if op[0] == 'newversion':
                specs[op[1]]['version'] += 1
                served[op[1]].append(specs[op[1]]['version'])
                continue
            if op[0] == 'restart':
                if not start():
                    return
                continue
            i, overwrite = op[1], op[2]
            fs = faults.get(n, [])
            plan = [p for f in fs for p in f.get('plan', [])]
            net = [x for f in fs for x in f.get('net', [])]
            intr = next(({'where': 'nimble/core/_createHelpers', 'k': f['interrupt']} for f in fs if 'interrupt' in f), None)
            before = {p: read(p) for p in good[i] or []}
            r, v = fetch(i, overwrite, where, _plan=plan, netfaults=net, _interrupt=intr)
            res.steps += 1
            res.fire(r['io']['fired'])
            fired = r['io']['nfired'] + len(v['netfired'])
            for x in v['netfired']:
                res.faults['net-' + x] += 1
            if v['exc'] and v['exc']['type'] == 'SimInterrupt':
                res.faults['interrupt'] += 1
                fired += 1
            if r['io']['events']:
                res.points.append((n, r['io']['events']))
            if fired or r.crashed:
                res.nontrivial = True
            outcome = 'crash' if r.crashed else 'error' if v['exc'] else 'ok'
            if outcome == 'error' and not fired:
                res.violate('fetch-failed-without-fault', f'{where}: {v["exc"]["type"]}: {v["exc"]["msg"]}')
                return
            if outcome == 'ok':
                j = judge(i, v['paths'], where + f' faults {fs}')
                if not j:
                    return
                if j == 'archive' and not fired and fc.expected(specs[i]) is not None:
                    res.violate('not-unpacked', f'{where}: the {specs[i]["kind"]} source was returned packed although nothing failed')
                    return
                good[i] = v['paths']
            else:
                if not undamaged(i, where + f' faults {fs}'):
                    return
                if set(v['netfired']) and not r['io']['nfired']:
                    for p, d in before.items():
                        if read(p) != d:
                            res.violate('network-failure-changed-files', f'{where}: {os.path.relpath(p, root)}')
                            return
            res.note(n, i, overwrite, outcome, v['exc'] and v['exc']['type'], len(v['requests']), r['io']['events'], fired)
            res.states.add(f'{specs[i]["kind"]}/{good[i] is not None}/{sorted(r["io"]["fired"])}{sorted(set(v["netfired"]))}/{overwrite}/{outcome}')
            if r.crashed and not start():
                return
            if outcome != 'ok' or fired:
                # offline: complete data or an error
                if n % 2 and not start():
                    return
                for step in ('offline', 'healthy', 'again'):
                    r, v = fetch(i, False, where, netfaults=[{'req': q, 'kind': 'connect'} for q in range(9)] if step == 'offline' else [])
                    if v['exc']:
                        if step != 'offline':
                            res.violate('cannot-fetch-after-failure', f'{where} faults {fs}, then {step} fetch: {v["exc"]["type"]}: {v["exc"]["msg"]}')
                            return
                        continue
                    j = judge(i, v['paths'], f'{where} faults {fs}, then {step} fetch')
                    if not j:
                        return
                    if j == 'archive' and step == 'again' and fc.expected(specs[i]) is not None:
                        res.violate('not-unpacked', f'{where} faults {fs}: then {step} fetch returns the packed {specs[i]["kind"]} file')
                        return
                    good[i] = v['paths']
    finally:
        if sess:
            sess.close()
