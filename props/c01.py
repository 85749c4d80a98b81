"""C01: saved settings survive crashes and failed writes.

One run = one history of set/save/restart over simulated sessions, with at
most a few injected faults.  The reference model is two dictionaries: what the
file durably holds and what the session changed.
"""
import errno
import os

from sim.session import Session
from . import settings_common as sc

LEVEL = 'fault_enumeration'
BUDGET = {'quick': {'seeds': 96, 'wall': 200, 'min': 100},
          'thorough': {'seeds': 2500, 'wall': 3000, 'min': 100}}
RULE = ('A seed draws a history of set/setDefault/save/restart on a configuration file; the history is first run without faults to '
        'count the file operations of each save, then re-run with a crash (before/after/in the middle) or a disk error (errno, torn '
        'write, full disk from then on) at chosen operations, all of them for one save of the history. Non-trivial: a save changed the file or a fault fired.')
STATES = 'abstract (file contents, pending changes, session alive) after each operation'
REAL = ['nimble.settings (import-time loading, set/get/saveChanges)', 'configparser', 'CPython file I/O', 'kernel file system']
STUBS = ['process death and disk errors injected at the C library boundary', 'clock', 'kernel randomness']
ASSUMPTIONS = ['process crash model: data handed to the operating system survives the crash (no power failure)',
               'faults hit operations that modify the file system under the simulated home']
ERRNOS = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EACCES]


def gen(rng):
    ops, n = [], 0
    for _ in range(rng.randrange(3, 12)):
        n += 1
        r = rng.random()
        if r < 0.45:
            s, o = sc.option(rng)
            ops.append(['set', s, o, sc.value(rng, s, o, n)])
        elif r < 0.62:
            s, o = sc.option(rng)
            ops.append(['setDefault', s, o, sc.value(rng, s, o, n)])
        elif r < 0.74:
            ops.append(['save'])
        elif r < 0.82:
            ops.append(['save', rng.choice(list(sc.SECTIONS))])
        elif r < 0.9:
            ops.append(['save'] + list(sc.option(rng)))
        else:
            ops.append(['restart'])
    ops.append(['save'])
    initial = None
    if rng.random() < 0.7:
        initial = {}
        for i in range(rng.randrange(0, 7)):
            s, o = sc.option(rng)
            initial.setdefault(s, {})[o] = sc.value(rng, s, o, f'i{i}').replace('%', 'P')
        if rng.random() < 0.3:
            initial.setdefault('big', {})['opt'] = 'w' * rng.choice([5000, 9000, 30000])
    return {'ops': ops, 'initial': initial, 'cwdfile': rng.random() < 0.25, 'faults': []}


def explore(rng, ctx):
    case = gen(rng)
    base = ctx.execute(case)
    points = base.points             # [(op index, number of file operations)]
    if not points:
        return
    def fault(op, k, kind):
        arg = 0
        if kind in ('errno', 'torn_errno', 'sticky'):
            arg = rng.choice(ERRNOS)
        elif kind == 'crash_torn':
            arg = rng.choice([100, 500, 900])
        return {'op': op, 'plan': [[k, kind, arg]]}
    # every operation of one save
    op, n = rng.choice(points)
    enum = [(op, k, kind) for k in range(min(n, 14)) for kind in
            ('crash_before', 'crash_torn', 'errno', 'torn_errno')] + [(op, min(n, 14) - 1, 'crash_after')]
    if ctx.tier == 'quick' and len(enum) > 14:
        enum = rng.sample(enum, 14)
    for op, k, kind in enum:
        ctx.execute(dict(case, faults=[fault(op, k, kind)]))
    # and combinations over the history
    for _ in range(4 if ctx.tier == 'quick' else 12):
        fs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            op, n = rng.choice(points)
            fs.append(fault(op, rng.randrange(n), rng.choice(
                ['crash_before', 'crash_after', 'crash_torn', 'errno', 'torn_errno', 'short', 'sticky'])))
        ctx.execute(dict(case, faults=fs))


def shrink(case):
    from sim.engine import generic_shrink
    for c in generic_shrink({**case, '_lists': ['faults']}):
        c.pop('_lists', None)
        yield c
    n = len(case['ops'])
    for i in range(n):
        if any(f['op'] == i for f in case['faults']):
            continue
        c = dict(case, ops=case['ops'][:i] + case['ops'][i + 1:])
        c['faults'] = [dict(f, op=f['op'] - (f['op'] > i)) for f in case['faults']]
        yield c
    if case['initial']:
        yield dict(case, initial=None)
        for s in case['initial']:
            yield dict(case, initial={k: v for k, v in case['initial'].items() if k != s})
    if case['cwdfile']:
        yield dict(case, cwdfile=False)


def run(case, ctx, res):
    root = ctx.fresh()
    home, cwd = os.path.join(root, 'home'), os.path.join(root, 'cwd')
    os.makedirs(home)
    os.makedirs(cwd)
    path = os.path.join(cwd if case['cwdfile'] else home, '.nimble.ini')
    if case['initial'] is not None or case['cwdfile']:
        with open(path, 'w', encoding='utf-8') as f:
            f.write(sc.render(case['initial'] or {}))
    res.points = []
    res.nontrivial = False
    faults = {}
    for f in case['faults']:
        faults.setdefault(f['op'], []).extend(f['plan'])

    def readfile(where):
        try:
            return sc.parse(path) or {}
        except Exception as e:                  # unreadable for any reason
            with open(path, 'rb') as f:
                raw = f.read()
            res.violate('file-unreadable', f'{where}: {type(e).__name__}: {e}; file holds {raw[:300]!r}')
            return None

    sess = None

    def start(plan=(), where='start'):
        """A new session; the model's file is what loading leaves behind."""
        nonlocal sess
        before = readfile(where)
        if before is None:
            return None
        sess = Session(root, sc.OPS, home=home, cwd=cwd, clock=(1.6e9, 0))
        r = sess.start(plan=plan)
        res.fire(r['io']['fired'])
        res.steps += 1
        res.note('start', r['status'], r['exc'] and r['exc']['type'], r['io']['nfired'])
        after = readfile(where + ' after loading')
        if after is None:
            return None
        # loading may add defaults for options the file does not set, nothing else
        for s, opts in before.items():
            for o, v in opts.items():
                got = after.get(s, {}).get(o)
                if got != v and not (v == '' and s == 'logger'):
                    res.violate('value-lost-at-start', f'{where}: [{s}] {o} was {v!r}, after starting a session {got!r}')
                    return None
        if r['status'] == 'crash':
            sess = None
            return start(where='restart after a crash at start')
        if not r.ok:
            if r['io']['nfired']:
                sess.close()
                return start(where='restart after a failed start')
            res.violate('start-failed', f'{where}: {r["exc"]["type"]}: {r["exc"]["msg"]}')
            return None
        return after

    try:
        durable = start(plan=faults.get(-1, ()))
        if durable is None:
            return
        pending = {}

        def check_session(where):
            """The session reads back its own changes over the file."""
            want = sc.clean(sc.merged(durable, pending))
            g = sess.call('getall')
            if not g.ok:
                res.violate('get-failed', f'{where}: {g["exc"]}')
                return False
            if sc.clean(g.value) != want:
                res.violate('session-values-wrong', f'{where}: settings read {g.value!r}, expected {want!r}')
                return False
            return True

        for i, op in enumerate(case['ops']):
            plan = faults.get(i, [])
            where = f'operation {i} {str(op)[:80]}'
            res.steps += 1
            if op[0] == 'restart':
                r = sess.call('exit')
                sess.close()
                f = readfile(where)
                if f is None:
                    return
                if f != durable:
                    res.violate('file-changed-without-save', f'{where}: file {f!r}, saved {durable!r}')
                    return
                d = start(where=where)
                if d is None:
                    return
                durable, pending = d, {}
                if not check_session(where + ' (new session)'):
                    return
                continue
            if op[0] == 'set':
                r = sess.call('set', section=op[1], option=op[2], value=op[3])
                if not r.ok:
                    res.violate('set-failed', f'{where}: {r["exc"]}')
                    return
                pending = sc.merged(pending, {op[1]: {op[2]: op[3]}})
                f = readfile(where)
                if f is None:
                    return
                if f != durable:
                    res.violate('session-change-in-file', f'{where}: file {f!r}, saved {durable!r}')
                    return
            else:
                if op[0] == 'setDefault':
                    pending = sc.merged(pending, {op[1]: {op[2]: op[3]}})
                    sel = {op[1]: {op[2]: op[3]}}
                    call = lambda **kw: sess.call('setDefault', section=op[1], option=op[2], value=op[3], **kw)
                    retry = lambda **kw: sess.call('save', section=op[1], option=op[2], **kw)
                else:
                    args = dict(zip(('section', 'option'), op[1:]))
                    if len(op) == 1:
                        sel = pending
                    elif len(op) == 2:
                        sel = {op[1]: pending.get(op[1], {})}
                    else:
                        sel = {op[1]: {op[2]: pending[op[1]][op[2]]}} if op[2] in pending.get(op[1], {}) else {}
                    call = lambda **kw: sess.call('save', **args, **kw)
                    retry = call
                target = sc.clean(sc.merged(durable, sel))
                r = call(_plan=plan)
                n = r['io']['events']
                if n:
                    res.points.append((i, n))
                fired = r['io']['nfired']
                res.fire(r['io']['fired'])
                if fired or target != durable:
                    res.nontrivial = True
                f = readfile(where + f' [{r["status"]}]')
                if f is None:
                    return
                f = sc.clean(f)
                old = sc.clean(durable)
                res.note('save', i, r['status'], r['exc'] and r['exc']['type'], n, fired,
                         'new' if f == target else 'old' if f == old else '?')
                if f != old and f != target:
                    res.violate('file-neither-old-nor-new', f'{where} [{r["status"]}, fault {plan}]: file {f!r}\nbefore {old!r}\nafter {target!r}')
                    return
                if r.ok and f != target:
                    res.violate('save-lost-silently', f'{where} [fault {plan}]: returned normally but the file holds {f!r}, not {target!r}')
                    return
                if r["status"] == "exc":
                    if not fired:
                        res.violate('save-failed', f'{where}: {r["exc"]["type"]}: {r["exc"]["msg"]}')
                        return
                    # still in force, and saving again works
                    durable_now = f
                    saved_durable = durable
                    durable = durable_now
                    if not check_session(where + ' after the failed save'):
                        return
                    r2 = retry()
                    f2 = readfile(where + ' saved again')
                    if f2 is None:
                        return
                    f2 = sc.clean(f2)
                    res.note('retry', r2['status'], f2 == target)
                    if not r2.ok or f2 != target:
                        res.violate('failed-save-cannot-be-retried',
                                    f'{where} [fault {plan}, {r["exc"]["type"]}]: saving again: {r2["status"]}; file {f2!r}, expected {target!r}')
                        return
                    durable = f2
                elif r.crashed:
                    d = start(where=where + ' after the crash')
                    if d is None:
                        return
                    durable, pending = d, {}
                    if not check_session(where + ' (session after the crash)'):
                        return
                    continue
                else:
                    durable = f
                for s, opts in sel.items():
                    for o in list(opts):
                        pending.get(s, {}).pop(o, None)
                pending = sc.clean(pending)
            if not check_session(where):
                return
            res.states.add(sc.state_hash(root, durable, pending))
        sess.close()
    finally:
        if sess is not None:
            sess.close()


