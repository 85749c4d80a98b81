"""C05: sessions sharing one log never lose, mix or duplicate entries."""
import os

from sim.session import Session
from . import log_common as lc

LEVEL = 'exploration'
BUDGET = {'quick': {'seeds': 420, 'wall': 150, 'min': 60},
          'thorough': {'seeds': 20000, 'wall': 3000, 'min': 200}}
RULE = ('A seed draws 2-4 sessions with 1-4 logging or log-showing calls each (some starting late), and a schedule: which session performs its '
        'next lock, open, write, truncate, sync or unlink; which sleeping session wakes; when another program takes a read, write or exclusive lock on the '
        'database and for how long; when a session is killed or its call interrupted. The simulated time moves only with the sleeps of waiting sessions. '
        'Non-trivial: at least two sessions had calls under way at once.')
STATES = 'sequence of (session, operation) switches, hashed per run'
REAL = ['nimble.log, logged operations, showLog', 'nimble logger', 'Python sqlite3', 'SQLite library with kernel file locks between real processes']
STUBS = ['scheduling of the sessions at every file operation and lock', 'clock and sleeps', 'a second program holding locks', 'process death']
ASSUMPTIONS = ['all sessions are on one machine with working POSIX locks', "the database's own limit is sqlite's 5 s wait per lock"]
KINDS = ('lock', 'openw', 'write', 'trunc', 'unlink', 'mkdir', 'fsync')
LIMIT = 4.9e9
MAXSTEPS = 60000


def gen_ops(rng, s):
    ops = []
    for i in range(rng.choice([1, 1, 2, 2, 3, 4])):
        marker = f'mk{s}_{i}q'
        r = rng.random()
        if r < 0.1:
            ops.append(['show', {'maximumEntries': rng.choice([1, 3, None])}])
        elif r < 0.25:
            ops.append(['data', {'marker': marker}])
        elif r < 0.35:
            ops.append(['prep', {'marker': marker}])
        else:
            ops.append(['log', {'heading': 'h', 'info': marker + rng.choice(['', '', 'x' * 6000, 'y' * 40000])}])
    return ops


def explore(rng, ctx):
    n = rng.choice([2, 2, 2, 3, 3, 4])
    case = {'sessions': [gen_ops(rng, s) for s in range(n)],
            'old': rng.choice([0, 0, 1, 2]),
            '_lists': []}
    sched = []
    style = rng.choice(['fine', 'bursty', 'mixed'])
    for _ in range(rng.choice([10, 40, 120])):
        m = style if style != 'mixed' else rng.choice(['fine', 'bursty'])
        sched.append([rng.randrange(n), 1 if m == 'fine' else rng.choice([1, 2, 5, 10, 20, 40])])
    case['sched'] = sched
    holds = []
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 1, 2, 3])):
            holds.append([rng.randrange(len(sched) * 2 + 20), rng.choice(['read', 'read', 'write', 'exclusive']),
                          rng.choice([0.01, 0.2, 1, 3, 3, 6, 12, 30])])
    case['holds'] = holds
    kills = []
    if rng.random() < 0.2:
        kills.append([rng.randrange(n), rng.randrange(60)])
    case['kills'] = kills
    case['stall'] = [rng.randrange(n), rng.randrange(60), rng.choice([7, 20])] if rng.random() < 0.25 else None
    ctx.execute(case)


def shrink(case):
    if case['stall']:
        yield dict(case, stall=None)
    for key in ('kills', 'holds'):
        for i in range(len(case[key])):
            yield dict(case, **{key: case[key][:i] + case[key][i + 1:]})
    if case['old']:
        yield dict(case, old=0)
    for s, ops in enumerate(case['sessions']):
        for i in range(len(ops)):
            yield dict(case, sessions=case['sessions'][:s] + [ops[:i] + ops[i + 1:]] + case['sessions'][s + 1:])
    n = len(case['sched'])
    size = n
    while size >= 1:
        for a in range(0, n, size):
            yield dict(case, sched=case['sched'][:a] + case['sched'][a + size:])
        size //= 2
    for i, (w, c) in enumerate(case['sched']):
        if c > 1:
            s = list(case['sched'])
            s[i] = [w, c // 2]
            yield dict(case, sched=s)


def op_hold(nimble, state, path, how):
    import sqlite3
    if not os.path.exists(path):
        return False
    c = sqlite3.connect(path, timeout=0, isolation_level=None)
    try:
        if how == 'read':
            c.execute('begin')
            c.execute('select count(*) from sqlite_master').fetchone()
        else:
            c.execute('begin immediate' if how == 'write' else 'begin exclusive')
    except sqlite3.OperationalError:
        c.close()
        return False
    state['holder'] = c
    return True


def op_release(nimble, state):
    state['holder'].rollback()
    state.pop('holder').close()


OPS = dict(lc.OPS, hold=op_hold, release=op_release)


def run(case, ctx, res):
    root = ctx.fresh()
    db = os.path.join(root, lc.LOGDIR, lc.LOGDB)
    copies = os.path.join(ctx.scratch, 'copies')
    ns = len(case['sessions'])
    res.nontrivial = False
    hist = [[] for _ in range(ns)]         # per session: [expected, status, order]
    old = []
    for i in range(case['old']):
        s = Session(root, lc.OPS, clock=(1.5e9 + i, 0), rand=50 + i)
        s.start(armed=False)
        r = s.call('log', _armed=False, heading='old', info=f'old{i}')
        s.close()
        if not r.ok:
            res.violate('logging-failed', f'earlier session: {r["exc"]}')
            return
        old.append(lc.expect('log', {'heading': 'old', 'info': f'old{i}'}))
    holder = None
    ss = []
    now = 10 ** 12
    try:
        for i in range(ns):
            s = Session(root, lc.OPS, clock=(1.6e9, now / 1e9), tick=1, rand=i + 1, lockstep=True, name=f's{i}')
            s.start(armed=False)
            kind, rep = s.pump()
            while kind != 'done':
                s.go(now)
                kind, rep = s.pump()
            if not rep.ok:
                res.violate('session-does-not-start', f'{rep["exc"]}')
                return
            s.next, s.slept, s.events, s.wake = 0, 0, 0, 0
            ss.append(s)
        if case['holds']:
            holder = Session(root, OPS, clock=(1.6e9, 0), rand=77, name='holder')
            holder.start(armed=False)
        held = None                        # (until, how)
        pending_holds = sorted(case['holds'])
        kills = {w: k for w, k in case['kills']}
        sched = [list(x) for x in case['sched']]
        stall = case['stall']
        stalled = {}                       # session -> until
        step = 0
        order = []
        blocked_time = 0
        while step < MAXSTEPS:
            step += 1
            # another program takes and releases the lock
            if held and now >= held[0]:
                holder.call('release', _armed=False)
                held = None
            if holder and not held and pending_holds and step >= pending_holds[0][0]:
                at, how, dur = pending_holds[0]
                r = holder.call('hold', _armed=False, path=db, how=how)
                if r.value:
                    held = (now + int(dur * 1e9), how)
                    pending_holds.pop(0)
                    res.faults['lock-held-' + how] += 1
                elif step > at + 200:
                    pending_holds.pop(0)
            # sessions that can do something
            can = []
            for i, s in enumerate(ss):
                if not s.alive or stalled.get(i, 0) > now:
                    continue
                if s.state == 'idle' and s.next >= len(case['sessions'][i]):
                    continue
                if s.state == 'asleep' and s.wake > now:
                    continue
                can.append(i)
            waiting = [i for i, s in enumerate(ss) if s.alive and s.state == 'asleep' and s.wake > now]
            if not can:
                times = [ss[i].wake for i in waiting] + [t for i, t in stalled.items() if t > now and ss[i].alive]
                if not times:
                    break
                # nothing but time can pass; a holder's end also counts
                if held:
                    times.append(held[0])
                now = min(t for t in times)
                continue
            # pick by the schedule, afterwards in turn
            while sched and sched[0][1] <= 0:
                sched.pop(0)
            if sched:
                want = sched[0][0]
                sched[0][1] -= 1
                pick = min(can, key=lambda i: (i - want) % ns)
            else:
                pick = can[step % len(can)]
            s = ss[pick]
            if s.state == 'idle':
                op, args = case['sessions'][pick][s.next]
                s.begin(op, _kinds=KINDS, _reads=False, **args)
                s.next += 1
                s.slept = 0
                s.cur = [op, args]
            else:
                if pick in kills and s.events >= kills[pick]:
                    s.crash()
                    res.faults['kill'] += 1
                    kills.pop(pick)
                elif stall and stall[0] == pick and s.events >= stall[1] and pick not in stalled:
                    stalled[pick] = now + stall[2] * 10 ** 9
                    res.faults['stall'] += 1
                    continue
                else:
                    s.go(now)
            kind, rep = s.pump()
            now += 1000
            if sum(1 for x in ss if x.alive and x.state != 'idle') > 1:
                res.nontrivial = True
            if kind == 'yield':
                s.events += 1
                order.append((pick, rep.split()[0]))
            elif kind == 'sleep':
                s.slept += rep
                s.wake = now + rep
                res.counts['lock waits'] += 1
            else:
                op, args = s.cur
                res.steps += 1
                if rep['status'] == 'exc':
                    e = rep['exc']
                    if not (e['type'] == 'OperationalError' and 'locked' in e['msg'] and s.slept >= LIMIT):
                        res.violate('call-failed-without-cause',
                                    f'session {pick} {op}: {e["type"]}: {e["msg"]} after waiting {s.slept / 1e9:.2f} s\n{e["tb"][-700:]}')
                        return
                    res.counts['lock timeouts'] += 1
                if op != 'show':
                    hist[pick].append([lc.expect(op, args), rep['status']])
                res.note(step, pick, op, rep['status'], s.slept)
        else:
            res.violate('no-progress', f'sessions still not done after {MAXSTEPS} steps: '
                        f'{[(i, s.state, s.next) for i, s in enumerate(ss)]}')
            return
        if held:
            holder.call('release', _armed=False)
        res.simtime += (now - 10 ** 12) / 1e9
        sw = tuple(order[i] for i in range(len(order)) if i == 0 or order[i - 1][0] != order[i][0])
        import hashlib
        res.states.add(hashlib.sha256(repr(sw).encode()).hexdigest()[:12])
        # ---- the log afterwards
        check(res, db, copies, hist, old)
        if res.violations:
            return
        # every session, also one whose call failed, goes on logging normally
        for i, s in enumerate(ss):
            if not s.alive:
                continue
            args = {'heading': 'h', 'info': f'afterwards{i}'}
            s.begin('log', _kinds=KINDS, _reads=False, **args)
            kind, rep = s.pump()
            slept = 0
            while kind != 'done':
                if kind == 'sleep':
                    slept += rep
                    now += rep
                s.go(now)
                kind, rep = s.pump()
            if not rep.ok:
                res.violate('session-blocked-afterwards', f'session {i}: {rep["exc"] and rep["exc"]["msg"]} after {slept / 1e9:.2f} s although nobody else is working')
                return
            hist[i].append([lc.expect('log', args), 'ok'])
        check(res, db, copies, hist, old)
    finally:
        for s in ss:
            s.close()
        if holder:
            holder.close()


def check(res, db, copies, hist, old):
    rows, bad = lc.read_rows(db, copies)
    if rows is None:
        res.violate('log-damaged', bad)
        return
    used = set()
    for i, exp in enumerate(old):
        if i >= len(rows) or not lc.matches(rows[i], exp):
            res.violate('earlier-entry-lost', f'{exp}')
            return
        used.add(i)
    owner = {}
    for s, entries in enumerate(hist):
        pos = len(old)
        number = None
        for exp, status in entries:
            found = [i for i, r in enumerate(rows) if lc.matches(r, exp) and i not in used]
            if status == 'exc' and found:
                res.violate('failed-entry-present', f'session {s}: the call for {str(exp)[:80]} failed, but its entry is in the log')
                return
            if status == 'ok' and not found:
                res.violate('acknowledged-entry-lost', f'session {s}: {str(exp)[:80]}; rows {[str(r)[:70] for r in rows]}')
                return
            if len(found) > 1:
                res.violate('entry-duplicated', f'session {s}: {str(exp)[:80]} {len(found)} times')
                return
            if found:
                i = found[0]
                used.add(i)
                if i < pos:
                    res.violate('entries-out-of-order', f'session {s}: {str(exp)[:80]} at row {i}, an earlier one at row {pos - 1}')
                    return
                pos = i + 1
                if number is None:
                    number = rows[i][2]
                elif number != rows[i][2]:
                    res.violate('session-number-changed', f'session {s}: {number} and {rows[i][2]}')
                    return
        if number is not None:
            if number in owner:
                res.violate('session-number-shared', f'sessions {owner[number]} and {s} both logged with number {number}')
                return
            owner[number] = s
    extra = [r for i, r in enumerate(rows) if i not in used]
    if extra:
        res.violate('foreign-entry', f'{[str(r)[:100] for r in extra]}')
        return
    oldnums = [rows[i][2] for i in range(len(old))]
    if oldnums and owner and min(owner) <= max(oldnums):
        res.violate('session-number-shared', f'earlier sessions {oldnums}, now {sorted(owner)}')
