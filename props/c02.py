"""C02: settings behave as a layered store over successive and overlapping sessions."""
import os
import sqlite3

from sim.session import Session
from . import settings_common as sc

LEVEL = 'exploration'
BUDGET = {'quick': {'seeds': 700, 'wall': 200, 'min': 200},
          'thorough': {'seeds': 40000, 'wall': 3000, 'min': 200}}
RULE = ('A seed draws a history of 10-45 set/setDefault/save/read/hook/log/start/stop operations by up to three sessions that share one '
        'configuration file, in an order the seed decides; every step is compared with the reference model. Non-trivial: at least one save '
        'changed the file and at least one other session started or read afterwards.')
STATES = 'abstract (file, per-session pending changes) after each operation'
REAL = ['nimble.settings', 'hooks that re-target the logger', 'the logger writing to sqlite', 'configparser', 'kernel file system']
STUBS = ['clock', 'kernel randomness', 'session scheduling (one step at a time, order drawn from the seed)']
ASSUMPTIONS = ['sessions interleave at the granularity of whole calls']


def gen(rng):
    ops, n = [], 0
    nsess = rng.choice([1, 1, 2, 2, 3])
    narrow = rng.random() < 0.5
    pool = [sc.option(rng) for _ in range(3)] if narrow else None
    seen = []

    def opt():
        return rng.choice(pool) if narrow and rng.random() < 0.85 else sc.option(rng)
    for _ in range(rng.randrange(10, 46)):
        n += 1
        w = rng.randrange(nsess)
        r = rng.random()
        if r < 0.34:
            s, o = opt()
            v = sc.value(rng, s, o, n)
            if seen and rng.random() < 0.3:
                old = [x for x in seen if x[:2] == (s, o)]
                if old:
                    v = rng.choice(old)[2]
            seen.append((s, o, v))
            ops.append([w, rng.choice(['set', 'set', 'set', 'setDefault']), s, o, v])
        elif r < 0.42:
            ops.append([w, 'save'])
        elif r < 0.52:
            ops.append([w, 'save', opt()[0]])
        elif r < 0.62:
            ops.append([w, 'save'] + list(opt()))
        elif r < 0.68:
            ops.append([w, 'getsec', opt()[0]])
        elif r < 0.74:
            ops.append([w, 'get'] + list(opt()))
        elif r < 0.78:
            ops.append([w, 'text'])
        elif r < 0.82:
            ops.append([w, 'getall'])
        elif r < 0.87:
            s, o = opt()
            if s != 'logger':
                ops.append([w, 'hook', s, o])
        elif r < 0.91:
            ops.append([w, 'log'])
        elif r < 0.93:
            ops.append([w, 'bad', rng.choice(['option-without-section', 'custom-section', 'get-missing'])])
        else:
            ops.append([w, 'restart'])
    initial = {}
    if rng.random() < 0.6:
        for i in range(rng.randrange(0, 7)):
            s, o = sc.option(rng)
            initial.setdefault(s, {})[o] = sc.value(rng, s, o, f'i{i}')
    return {'ops': ops, 'initial': initial, 'cwdfile': rng.random() < 0.25}


def explore(rng, ctx):
    ctx.execute(gen(rng))


def shrink(case):
    from sim.engine import generic_shrink
    yield from generic_shrink(case)
    if case['initial']:
        yield dict(case, initial={})
    if case['cwdfile']:
        yield dict(case, cwdfile=False)


def rows(path):
    if not os.path.exists(path):
        return 0
    c = sqlite3.connect(path)
    try:
        return c.execute('select count(*) from logger').fetchone()[0]
    except sqlite3.Error:
        return 0
    finally:
        c.close()


def run(case, ctx, res):
    root = ctx.fresh()
    home, cwd = os.path.join(root, 'home'), os.path.join(root, 'cwd')
    os.makedirs(home)
    os.makedirs(cwd)
    path = os.path.join(cwd if case['cwdfile'] else home, '.nimble.ini')
    if case['initial'] or case['cwdfile']:
        with open(path, 'w', encoding='utf-8') as f:
            f.write(sc.render(case['initial'] or {}))
    res.nontrivial = False
    S = {}                     # slot -> model of the session in it
    saved = False

    def readfile(where):
        try:
            return sc.parse(path) or {}
        except Exception as e:
            res.violate('file-unreadable', f'{where}: {type(e).__name__}: {e}')
            return None

    def start(w, where):
        nonlocal saved
        before = readfile(where)
        if before is None:
            return False
        s = Session(root, sc.OPS, home=home, cwd=cwd, clock=(1.6e9, 0), name=f's{w}')
        r = s.start()
        S[w] = m = {'s': s, 'pending': {}, 'foreign': set(), 'hooks': set()}
        if not r.ok:
            res.violate('start-failed', f'{where}: {r["exc"]}')
            return False
        after = readfile(where)
        if after is None:
            return False
        added = {}
        for sec, opts in after.items():
            for o, v in opts.items():
                if before.get(sec, {}).get(o) != v:
                    if before.get(sec, {}).get(o):
                        res.violate('start-changed-saved-value', f'{where}: [{sec}] {o} was {before[sec][o]!r}, now {v!r}')
                        return False
                    added.setdefault(sec, {})[o] = v
        for sec, opts in before.items():
            for o in opts:
                if o not in after.get(sec, {}):
                    res.violate('start-lost-saved-value', f'{where}: [{sec}] {o}')
                    return False
        m['base'] = sc.merged({}, after)
        for w2, m2 in S.items():
            if w2 != w:
                m2['foreign'] |= {(a, b) for a in added for b in added[a]}
        if saved:
            res.nontrivial = True
        return check(w, where + ' (just started)')

    def effective(m):
        return sc.clean(sc.merged(m['base'], m['pending']))

    def check(w, where):
        m = S[w]
        g = m['s'].call('getevery')
        if not g.ok:
            res.violate('get-failed', f'{where}: {g["exc"]}')
            return False
        want = effective(m)
        for got, how in zip(g.value, ('reads', 'reads in its section', 'alone reads')):
            got = sc.clean(got)
            keys = {(a, b) for d in (want, got) for a in d for b in d[a]}
            for a, b in sorted(keys):
                if (a, b) in m['foreign'] and b not in m['pending'].get(a, {}):
                    continue
                if want.get(a, {}).get(b) != got.get(a, {}).get(b):
                    res.violate('session-value-wrong', f'{where}: [{a}] {b} {how} {got.get(a, {}).get(b)!r}, expected {want.get(a, {}).get(b)!r}')
                    return False
        return True

    def allowed_exc(r, names):
        return r['status'] == 'exc' and any(n in r['exc']['mro'] for n in names)

    try:
        for i, op in enumerate(case['ops']):
            w, kind = op[0], op[1]
            where = f'step {i} session {w} {str(op[1:])[:90]}'
            res.steps += 1
            if w not in S and not start(w, where):
                return
            m = S[w]
            s = m['s']
            f0 = readfile(where)
            if f0 is None:
                return
            if kind in ('set', 'setDefault'):
                sec, o, v = op[2:]
                before = effective(m).get(sec, {}).get(o)
                fuzzy = (sec, o) in m['foreign'] and o not in m['pending'].get(sec, {})
                s.call('hookcalls')
                r = s.call(kind, section=sec, option=o, value=v)
                if not r.ok:
                    res.violate('set-failed', f'{where}: {r["exc"]}')
                    return
                calls = s.call('hookcalls').value
                if (sec, o) in m['hooks']:
                    if before != v and not fuzzy and [sec, o, v] not in calls:
                        res.violate('hook-not-told', f'{where}: value changed from {before!r} to {v!r}, hook calls {calls}')
                        return
                    if any(c != [sec, o, v] for c in calls):
                        res.violate('hook-told-wrong', f'{where}: {calls}')
                        return
                elif calls:
                    res.violate('hook-told-wrong', f'{where}: {calls}')
                    return
                if kind == 'set':
                    m['pending'] = sc.merged(m['pending'], {sec: {o: v}})
                    want, sel = f0, {}
                else:
                    sel = {sec: {o: v}}
                    want = sc.merged(f0, sel)
            elif kind == 'save':
                args = dict(zip(('section', 'option'), op[2:]))
                if len(op) == 2:
                    sel = m['pending']
                elif len(op) == 3:
                    sel = {op[2]: m['pending'].get(op[2], {})}
                else:
                    sel = {op[2]: {op[3]: m['pending'][op[2]][op[3]]}} if op[3] in m['pending'].get(op[2], {}) else {}
                r = s.call('save', **args)
                if not r.ok:
                    res.violate('save-failed', f'{where}: {r["exc"]}')
                    return
                want = sc.merged(f0, sel)
            elif kind == 'restart':
                s.call('exit')
                s.close()
                del S[w]
                f = readfile(where)
                if f is None:
                    return
                if sc.clean(f) != sc.clean(f0):
                    res.violate('file-changed-without-save', f'{where}: file {f!r}, before {f0!r}')
                    return
                res.note(i, w, 'restart')
                if not start(w, where):
                    return
                continue
            else:
                sel, want = {}, f0
                if kind == 'text':
                    r = s.call('text')
                    if not r.ok:
                        res.violate('read-failed', f'{where}: {r["exc"]}')
                        return
                elif kind == 'getall':
                    pass
                elif kind == 'getsec':
                    r = s.call('getsec', section=op[2])
                    exp = effective(m).get(op[2])
                    if any(a == op[2] for a, _ in m['foreign']):
                        pass
                    elif exp is None:
                        if not (allowed_exc(r, ['NoSectionError']) or (r.ok and not r.value)):
                            res.violate('get-section-wrong', f'{where}: {r["status"]} {r.value!r}, section is not set')
                            return
                    elif not r.ok or r.value != exp:
                        res.violate('get-section-wrong', f'{where}: {r.value!r} {r["exc"]}, expected {exp!r}')
                        return
                elif kind == 'get':
                    r = s.call('get', section=op[2], option=op[3])
                    exp = effective(m).get(op[2], {}).get(op[3])
                    if (op[2], op[3]) in m['foreign'] and op[3] not in m['pending'].get(op[2], {}):
                        pass
                    elif exp is None:
                        if not allowed_exc(r, ['NoSectionError', 'NoOptionError']):
                            res.violate('get-wrong', f'{where}: {r["status"]} {r.value!r}, option is not set')
                            return
                    elif not r.ok or r.value != exp:
                        res.violate('get-wrong', f'{where}: {r.value!r} {r["exc"]}, expected {exp!r}')
                        return
                elif kind == 'hook':
                    r = s.call('hook', section=op[2], option=op[3])
                    if not r.ok:
                        res.violate('hook-failed', f'{where}: {r["exc"]}')
                        return
                    m['hooks'].add((op[2], op[3]))
                elif kind == 'log':
                    lg = effective(m).get('logger', {})
                    known = {(a, b) for a, b in m['foreign'] if a == 'logger' and b in ('location', 'name')
                             and b not in m['pending'].get(a, {})}
                    db = os.path.join(cwd, lg.get('location', ''), lg.get('name', '') + '.db')
                    n0 = rows(db)
                    r = s.call('logdata')
                    if not r.ok:
                        res.violate('log-failed', f'{where}: {r["exc"]}')
                        return
                    res.note(i, w, 'log', lg.get('name'), rows(db) - n0)
                    if not known and rows(db) != n0 + 1:
                        res.violate('log-not-at-setting', f'{where}: settings say {db}; rows there {n0} -> {rows(db)}')
                        return
                elif kind == 'bad':
                    if op[2] == 'option-without-section':
                        r = s.call('save', option='alpha', section=None) if False else s.call('get', section=None, option='alpha')
                        if r.ok:
                            res.violate('bad-call-accepted', where)
                            return
                    elif op[2] == 'custom-section':
                        r = s.call('set', section='custom', option='x', value='1')
                        if r.ok:
                            res.violate('bad-call-accepted', where)
                            return
                    else:
                        r = s.call('get', section='absent', option='x')
                        if r.ok:
                            res.violate('bad-call-accepted', where)
                            return
            f = readfile(where)
            if f is None:
                return
            if sc.clean(f) != sc.clean(want):
                res.violate('file-not-as-saved', f'{where}: file {sc.clean(f)!r}\nexpected {sc.clean(want)!r}\nbefore {sc.clean(f0)!r}')
                return
            # what was saved moves from the session's changes to its base
            if sel and kind in ('save', 'setDefault'):
                sel = sc.merged({}, sel)
                if sc.clean(f) != sc.clean(f0):
                    saved = True
                m['base'] = sc.merged(m['base'], sel)
                for sec in sel:
                    for o in sel[sec]:
                        m['pending'].get(sec, {}).pop(o, None)
                        m['foreign'].discard((sec, o))
                m['pending'] = sc.clean(m['pending'])
                for w2, m2 in S.items():
                    if w2 != w:
                        m2['foreign'] |= {(a, b) for a in sel for b in sel[a]}
                        if saved:
                            res.nontrivial = True
            if not check(w, where):
                return
            res.note(i, w, kind, sorted((a, b) for a in m['pending'] for b in m['pending'][a]), len(f))
            res.states.add(sc.state_hash(root, f, {k: v['pending'] for k, v in S.items()}))
        for w in list(S):
            if not check(w, 'at the end'):
                return
    finally:
        for m in S.values():
            m['s'].close()
