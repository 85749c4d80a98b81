"""C03: log entries are durable once the call returns; crashes never damage the log."""
import errno
import os

from sim.session import Session
from . import log_common as lc

LEVEL = 'fault_enumeration'
BUDGET = {'quick': {'seeds': 48, 'wall': 150, 'min': 60},
          'thorough': {'seeds': 4000, 'wall': 3000, 'min': 150}}
RULE = ('A seed draws a history of logging calls (user notes of all content shapes, data loads, preparations, seed changes) over several '
        'sessions ended normally or killed; it runs once without faults to count the file operations of each call, then with process '
        'death (before, after, in the middle of an operation), disk errors, a disk full for a while, and interrupts at lines of the logging code. '
        'Non-trivial: a fault fired or an entry was written after a session ended.')
STATES = 'per call: (status, entries present, interrupted entries present)'
REAL = ['nimble.log and logged operations', 'nimble logger', 'Python sqlite3', 'SQLite library and its file locking', 'kernel file system']
STUBS = ['process death, disk errors and short writes injected at the C library boundary', 'clock', 'kernel randomness']
ASSUMPTIONS = ['process crash model: data handed to the operating system survives (no power failure)', 'SQLite itself is trusted to keep its atomic-commit promise']
ERRNOS = [errno.ENOSPC, errno.EIO, errno.EDQUOT]


def gen(rng):
    ops, n = [], 0
    for _ in range(rng.randrange(3, 11)):
        n += 1
        if rng.random() < 0.2 and n > 1:
            ops.append(['end', rng.choice(['exit', 'kill'])])
        op, args = lc.gen_op(rng, n)
        ops.append([op, args])
    # whatever happened, a later session and its entries come last
    ops += [['end', 'exit'], ['log', {'heading': 'last', 'info': 'lastentry'}]]
    return {'ops': ops, 'faults': []}


def explore(rng, ctx):
    case = gen(rng)
    base = ctx.execute(case)
    pts = base.points
    if not pts:
        return
    def one(kinds):
        op, n, reads = rng.choice(pts)
        kind = rng.choice(kinds)
        arg = rng.choice(ERRNOS) if kind in ('errno', 'torn_errno', 'sticky') else rng.choice([100, 500, 900]) if kind == 'crash_torn' else 0
        return {'op': op, 'plan': [[rng.randrange(n), kind, arg]]}
    # all crash points of one call (sampled in the quick tier)
    op, n, _ = rng.choice(pts)
    enum = [(k, kind) for k in range(n) for kind in ('crash_before', 'crash_torn')] + [(n - 1, 'crash_after')]
    if ctx.tier == 'quick' and len(enum) > 5:
        enum = rng.sample(enum, 5)
    for k, kind in enum:
        ctx.execute(dict(case, faults=[{'op': op, 'plan': [[k, kind, 500 if kind == 'crash_torn' else 0]]}]))
    for _ in range(5 if ctx.tier == 'quick' else 20):
        ctx.execute(dict(case, faults=[one(['errno', 'torn_errno', 'sticky', 'short', 'crash_before', 'crash_after'])
                                       for _ in range(rng.choice([1, 1, 2, 3]))]))
    for _ in range(3 if ctx.tier == 'quick' else 10):
        op = rng.choice([i for i, o in enumerate(case['ops']) if o[0] != 'end'])
        ctx.execute(dict(case, faults=[{'op': op, 'interrupt': rng.randrange(60)}]))


def shrink(case):
    n = len(case['ops'])
    for i in range(len(case['faults'])):
        yield dict(case, faults=case['faults'][:i] + case['faults'][i + 1:])
    for i in range(n):
        if any(f['op'] == i for f in case['faults']):
            continue
        c = dict(case, ops=case['ops'][:i] + case['ops'][i + 1:])
        c['faults'] = [dict(f, op=f['op'] - (f['op'] > i)) for f in case['faults']]
        yield c
    for i in range(n):
        if case['ops'][i][0] not in ('log', 'end'):
            c = dict(case, ops=list(case['ops']))
            c['ops'][i] = ['log', {'heading': 'h', 'info': f'short{i}'}]
            yield c
        elif case['ops'][i][0] == 'log' and len(repr(case['ops'][i][1]['info'])) > 12:
            c = dict(case, ops=list(case['ops']))
            c['ops'][i] = ['log', {'heading': 'h', 'info': f'short{i}'}]
            yield c


def run(case, ctx, res):
    root = ctx.fresh()
    db = os.path.join(root, lc.LOGDIR, lc.LOGDB)
    copies = os.path.join(ctx.scratch, 'copies')
    res.points = []
    res.nontrivial = False
    plans = {}
    for f in case['faults']:
        plans.setdefault(f['op'], []).append(f)
    entries = []          # [expected, session index, 'acked' | 'maybe']
    sess, sidx = None, 0
    numbers = {}          # session index -> number seen in the log
    firstacked = {}       # session index -> order of its first acknowledged entry

    def verify(where):
        rows, bad = lc.read_rows(db, copies)
        if rows is None:
            res.violate('log-damaged', f'{where}: {bad}')
            return None
        # the rows are the acknowledged entries in order, with the
        # interrupted ones present or not, each at its own place
        i = 0
        present = []
        for exp, si, st in entries:
            if i < len(rows) and lc.matches(rows[i], exp):
                num = rows[i][2]
                if numbers.setdefault(si, num) != num:
                    res.violate('session-number-changed', f'{where}: entry {exp} has session number {num}, the session had {numbers[si]}')
                    return None
                present.append(True)
                i += 1
            elif st == 'acked':
                if any(lc.matches(r, exp) for r in rows):
                    res.violate('entry-out-of-order-or-foreign', f'{where}: expected {str(exp)[:120]} as row {i}, rows {[str(r)[:60] for r in rows[:i + 3]]}')
                else:
                    res.violate('acknowledged-entry-lost', f'{where}: {str(exp)[:200]} not in the log ({len(rows)} rows)')
                return None
            else:
                present.append(False)
        if i != len(rows):
            dup = [r for r in rows[i:]]
            res.violate('unexpected-or-duplicate-entry', f'{where}: {[str(r)[:160] for r in dup[:3]]}')
            return None
        ids = [r[0] for r in rows]
        if ids != sorted(set(ids)):
            res.violate('entry-ids-not-increasing', f'{where}: {ids}')
            return None
        # sessions: later loggers have higher numbers
        order = [si for si in dict.fromkeys(si for (e, si, st), p in zip(entries, present) if p)]
        nums = [numbers[si] for si in order]
        if nums != sorted(set(nums)):
            res.violate('session-numbers-not-increasing', f'{where}: sessions {order} have numbers {nums}')
            return None
        return present

    def begin(where):
        nonlocal sess, sidx
        sidx += 1
        sess = Session(root, lc.OPS, clock=(1.6e9 + sidx * 1000, 0), rand=sidx)
        r = sess.start(armed=False)
        if not r.ok:
            res.violate('session-does-not-start', f'{where}: {r["exc"]}')
            return False
        return True

    try:
        for i, op in enumerate(case['ops']):
            where = f'operation {i} {str(op)[:80]}'
            res.steps += 1
            if op[0] == 'end':
                if sess is not None:
                    if op[1] == 'exit':
                        sess.call('exit', _armed=False)
                    sess.close()
                    sess = None
                    if verify(where) is None:
                        return
                continue
            if sess is None and not begin(where):
                return
            fs = plans.get(i, [])
            plan = [p for f in fs for p in f.get('plan', [])]
            intr = next(({'where': 'nimble/core/logger', 'k': f['interrupt']} for f in fs if 'interrupt' in f), None)
            exp = lc.expect(op[0], op[1])
            r = sess.call(op[0], _plan=plan, _interrupt=intr, **op[1])
            fired = r['io']['nfired']
            res.fire(r['io']['fired'])
            if intr and r['exc'] and r['exc']['type'] == 'SimInterrupt':
                fired += 1
                res.faults['interrupt'] += 1
            if r['io']['events']:
                res.points.append((i, r['io']['events'], False))
            if fired:
                res.nontrivial = True
            entries.append((exp, sidx, 'acked' if r.ok else 'maybe'))
            if r['status'] == 'exc' and not fired:
                res.violate('logging-failed', f'{where}: {r["exc"]["type"]}: {r["exc"]["msg"]}')
                return
            if r.crashed:
                sess = None
            present = verify(where + f' [{r["status"]}]' + (f' fault {fs}' if fs else ''))
            if present is None:
                return
            if sidx > 1:
                res.nontrivial = True
            res.note(i, op[0], r['status'], r['exc'] and r['exc']['type'], r['io']['events'], fired, sum(present), present[-1])
            res.states.add(f'{op[0]}/{r["status"]}/{present[-1]}/{len(present) - sum(present)}/{min(sidx, 4)}')
        # after the faults: two more sessions can log at the same time
        if sess is not None:
            other = Session(root, lc.OPS, clock=(1.7e9, 0), rand=99)
            other.start(armed=False)
            sidx += 1
            try:
                r = other.call('log', heading='other', info='from another session')
                if not r.ok:
                    res.violate('other-session-blocked', f'at the end: {r["exc"]["type"]}: {r["exc"]["msg"]}')
                    return
                entries.append((lc.expect('log', {'heading': 'other', 'info': 'from another session'}), sidx, 'acked'))
                if verify('another session at the end') is None:
                    return
            finally:
                other.close()
    finally:
        if sess is not None:
            sess.close()
