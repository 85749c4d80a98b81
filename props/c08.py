"""C08: fetched files are stored once, stably, and refreshed only on request."""
import os

from sim.session import Session
from . import fetch_common as fc

LEVEL = 'exploration'
BUDGET = {'quick': {'seeds': 700, 'wall': 150, 'min': 60},
          'thorough': {'seeds': 30000, 'wall': 3000, 'min': 200}}
RULE = ('A seed draws 1-5 sources (plain, gzip, zip, tar, tar.gz, damaged archives; some behind redirects, nimble:: and uci:: names) and 4-25 operations: '
        'fetches with and without overwrite, direct loads, new versions of sources, changes of the storage location, session restarts, '
        'unpacked files deleted by the user, and fetches while the network is down. Non-trivial: a source was fetched at least twice.')
STATES = 'per operation: (operation, source kind, cached, stale)'
REAL = ['nimble.fetchFiles, nimble.data from addresses', 'requests and urllib3 above the transport adapter', 'zipfile, tarfile, gzip', 'kernel file system']
STUBS = ['HTTP transport (requests.adapters.HTTPAdapter.send)', 'clock and sleeps', 'process restarts']
ASSUMPTIONS = ['the sources of a run have addresses whose stored files do not coincide, except in the scenarios listed as known findings']


def gen(rng):
    n = rng.choice([1, 2, 3, 5])
    src = [fc.gen_source(rng, i, ('plain', 'plain', 'gz', 'zip', 'zip', 'tar', 'targz', 'badzip', 'badgz')) for i in range(n)]
    for i, s in enumerate(src):
        r = rng.random()
        if r < 0.1:
            s['name'] = f'nimble::Set {i}'
            s['url'] = f'https://www.nimbledata.org/_downloads/h{i}/' + s['url'].rsplit('/', 1)[1]
        elif r < 0.2 and s['kind'] == 'zip':
            s['name'] = f'uci::Set {i}'
            s['url'] = f'https://archive.ics.uci.edu//static/public/{i}/set+{i}.zip'
        elif r < 0.3:
            s['via'] = True
    if n > 1 and rng.random() < 0.4:
        # an address that differs from another one in a single part only
        import urllib.parse as up
        i, j = rng.sample(range(n), 2)
        src[j].pop('name', None)
        if 'name' not in src[i] and src[i]['kind'] in ('plain', 'zip', 'tar'):
            u = up.urlsplit(src[i]['url'])
            base = u.path.rsplit('/', 1)
            part = rng.choice(['port', 'port', 'host', 'sub', 'dir', 'case', 'name', 'escape'])
            host, path = u.netloc, u.path
            if part == 'port':
                host = u.hostname + ':8181'
            elif part == 'host':
                host = 'b.' + u.netloc
            elif part == 'sub':
                path = base[0] + '/sub2/' + base[1]
            elif part == 'dir':
                path = '/other' + base[0] + '/' + base[1]
            elif part == 'case':
                path = base[0] + '/' + base[1].replace('source', 'Source')
            elif part == 'name':
                path = base[0] + '/a' + base[1]
            else:
                path = base[0] + '/' + base[1].replace('source', 'source%20')
            src[j]['kind'] = src[i]['kind']
            src[j]['members'] = [list(m) for m in src[j]['members'][:1 if src[i]['kind'] == 'plain' else 4]]
            src[j]['url'] = up.urlunsplit((u.scheme, host, path, '', ''))
            src[j].pop('via', None)
    ops = []
    for _ in range(rng.randrange(4, 26)):
        i = rng.randrange(n)
        r = rng.random()
        if r < 0.36:
            ops.append(['fetch', i, False])
        elif r < 0.54:
            ops.append(['fetch', i, True])
        elif r < 0.7:
            ops.append(['new', i])
        elif r < 0.8:
            ops.append(['load', i])
        elif r < 0.85:
            ops.append(['restart'])
        elif r < 0.89:
            ops.append(['loc', rng.choice(['store1', 'store2', ''])])
        elif r < 0.93:
            ops.append(['delete', i, rng.randrange(4)])
        else:
            ops.append(['offline', i, rng.random() < 0.3])
    return {'sources': src, 'ops': ops, 'collide': None}


def explore(rng, ctx):
    ctx.execute(gen(rng))


def run(case, ctx, res):
    if case.get('collide'):
        return run_collision(case, ctx, res)
    root = ctx.fresh()
    specs = [dict(s) for s in case['sources']]
    res.nontrivial = False
    stored = {}            # (location, source) -> [version, paths]
    loc = ''
    sess, k = None, 0

    def address(s):
        return s.get('name', s['url'])

    def server():
        out = {}
        page = 'href="ignore"\n'
        for i, s in enumerate(specs):
            if s.get('via'):
                out[s['url']] = {'redirect': f'http://mirror.example/x{i}'}
                out[f'http://mirror.example/x{i}'] = s
            else:
                out[s['url']] = s
            if s.get('name', '').startswith('nimble'):
                page += f'href="#set-{i}"\nhref="{s["url"][len("https://www.nimbledata.org"):]}"\n'
            if s.get('name', '').startswith('uci'):
                out[f'https://archive.ics.uci.edu/datasets?search=set+{i}'] = {'page': f'href="/dataset/{i}/set+{i}"'}
        for i, s in enumerate(specs):
            if s.get('name', '').startswith('nimble'):
                out[f'https://www.nimbledata.org/datasets.html#set-{i}'] = {'page': page + 'href="end"'}
                out['https://www.nimbledata.org/datasets.html'] = {'page': page + 'href="end"'}
        return out

    def start():
        nonlocal sess, k, loc
        if sess:
            sess.close()
        k += 1
        loc = ''
        sess = Session(root, fc.OPS, clock=(1.6e9 + k, 0), rand=k, setup=fc.install)
        r = sess.start(armed=False)
        if not r.ok:
            res.violate('session-does-not-start', r['exc'])
            return False
        return True

    def store():
        return os.path.join(root, loc) if loc else root

    def want(i, version):
        s = dict(specs[i], version=version)
        e = fc.expected(s)
        base = s['url'].rsplit('/', 1)[1]
        return e if e is not None else {base: fc.build(s)}

    try:
        if not start():
            return
        for n, op in enumerate(case['ops']):
            where = f'operation {n} {op}'
            res.steps += 1
            if op[0] == 'new':
                specs[op[1]]['version'] += 1
                continue
            if op[0] == 'restart':
                if not start():
                    return
                continue
            if op[0] == 'loc':
                d = op[1]
                os.makedirs(os.path.join(root, d), exist_ok=True)
                r = sess.call('setloc', _armed=False, location=os.path.join(root, d) if d else root)
                loc = d
                continue
            i = op[1]
            spec = specs[i]
            key = (loc, i)
            if op[0] == 'delete':
                if key in stored and spec['kind'] in ('zip', 'tar', 'targz', 'gz') and len(stored[key][1]) > 0:
                    p = stored[key][1][op[2] % len(stored[key][1])]
                    # only unpacked files: the packed one stays
                    if not p.endswith(spec['url'].rsplit('/', 1)[1]) and os.path.exists(p):
                        os.remove(p)
                continue
            net = [{'req': q, 'kind': 'connect'} for q in range(9)] if op[0] == 'offline' else []
            before = fc.tree(root)
            if op[0] == 'load':
                r = sess.call('load', _armed=False, url=address(spec), server=server())
                if fc.tree(root) != before:
                    res.violate('loading-touched-stored-files', where)
                    return
                m = want(i, spec['version'])
                single = len(m) == 1 and spec['kind'] not in ('badzip', 'badgz')
                if single:
                    data = next(iter(fc.members(dict(spec)).values()))
                    exp = [line.split(',') for line in data.decode().split('\n') if line]
                    got = r.value and [[str(x) for x in row] for row in r.value['values']]
                    if not r.ok or [[str(float(x)) if c else x for c, x in enumerate(row)] for row in exp] != \
                            [[str(float(x)) if c else x for c, x in enumerate(row)] for row in got]:
                        res.violate('load-not-current', f'{where}: {r["exc"] and r["exc"]["msg"]} {str(got)[:200]} instead of {str(exp)[:200]}')
                        return
                elif r.ok:
                    res.violate('load-of-unusable-source', f'{where}: {str(r.value)[:200]}')
                    return
                res.note(n, 'load', i, r['status'])
                continue
            overwrite = op[2]
            r = sess.call('fetch', _armed=False, url=address(spec), server=server(), overwrite=overwrite, netfaults=net)
            v = r.value
            after = fc.tree(root)
            cachedbefore = key in stored
            res.states.add(f'{op[0]}/{spec["kind"]}/{spec.get("name", "")[:4]}/{cachedbefore}/{cachedbefore and stored[key][0] != spec["version"]}/{overwrite}')
            if op[0] == 'offline' and (overwrite or not cachedbefore or spec.get('name')):
                if not v['exc']:
                    if not spec.get('name') or overwrite or not cachedbefore:
                        res.violate('offline-fetch-returned', f'{where}: {v["paths"]}')
                        return
                # a deleted unpacked file may have come back, nothing else
                elif any(after.get(p) != d for p, d in before.items()) or \
                        set(after) - set(before) - {os.path.relpath(p, root) for _, ps in stored.values() for p in ps}:
                    res.violate('failed-fetch-changed-files', f'{where}: {sorted(set(after) ^ set(before))}')
                    return
                res.note(n, 'offline', i)
                continue
            if v['exc']:
                res.violate('fetch-failed', f'{where} [{spec["kind"]} {address(spec)}]: {v["exc"]["type"]}: {v["exc"]["msg"]}')
                return
            if cachedbefore:
                res.nontrivial = True
            paths = v['paths']
            if cachedbefore and not overwrite:
                version = stored[key][0]
                down = [q for q in v['requests'] if q[1].rsplit('/', 1)[1] == spec['url'].rsplit('/', 1)[1] or 'mirror' in q[1]]
                if down:
                    res.violate('downloaded-again', f'{where}: {down}')
                    return
            else:
                version = spec['version']
            exp = want(i, version)
            got = {p: after.get(os.path.relpath(p, root)) for p in paths}
            ok = len(paths) == len(exp) and all(any(p.endswith(os.sep + m) and got[p] == d for p in paths) for m, d in exp.items())
            if not ok:
                res.violate('wrong-files', f'{where} [{spec["kind"]} {address(spec)}]: got {[(os.path.relpath(p, root), d if d is None else (len(d), d[:20])) for p, d in got.items()]}, '
                            f'expected version {version}: {[(m, len(d), d[:20]) for m, d in exp.items()]}')
                return
            if not all(os.path.realpath(p).startswith(os.path.join(os.path.realpath(store()), 'nimbleData') + os.sep) for p in paths):
                res.violate('stored-elsewhere', f'{where}: {paths}')
                return
            if cachedbefore and paths != stored[key][1]:
                res.violate('paths-changed', f'{where}: {stored[key][1]} then {paths}')
                return
            stored[key] = [version, paths]
            # nothing belonging to other sources was touched
            for (l2, j), (ver, ps) in stored.items():
                if (l2, j) == key:
                    continue
                if set(ps) & set(paths):
                    res.violate('sources-share-files', f'{where}: {set(ps) & set(paths)}')
                    return
                for p in ps:
                    q = os.path.relpath(p, root)
                    if before.get(q) != after.get(q):
                        res.violate('other-source-changed', f'{where}: {q}')
                        return
            left = [p for p in after if '/.' in '/' + p and p not in before]
            if left:
                res.violate('temporary-files-left', f'{where}: {left}')
                return
            res.note(n, op[0], i, overwrite, version, len(paths), len(v['requests']))
    finally:
        if sess:
            sess.close()


def run_collision(case, ctx, res):
    """Two sources whose stored files coincide (known findings)."""
    root = ctx.fresh()
    sess = Session(root, fc.OPS, clock=(1.6e9, 0), rand=1, setup=fc.install)
    sess.start(armed=False)
    try:
        server = {s['url']: s for s in case['sources']}
        for s in case['sources']:
            r = sess.call('fetch', _armed=False, url=s['url'], server=server)
            v = r.value
            if v['exc']:
                res.violate(f'collision-{case["collide"]}', f'{s["url"]}: {v["exc"]["type"]}: {v["exc"]["msg"]}')
                return
            exp = fc.expected(s)
            got = {}
            for p in v['paths']:
                with open(p, 'rb') as f:
                    got[p] = f.read()
            if not (len(got) == len(exp) and all(any((p.endswith(m.split('?')[0])) and d == e for p, d in got.items()) for m, e in exp.items())):
                res.violate(f'collision-{case["collide"]}', f'{s["url"]} returned {[(os.path.relpath(p, root), d[:30]) for p, d in got.items()]}')
                return
    finally:
        sess.close()
