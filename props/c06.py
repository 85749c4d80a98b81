"""C06: showing the log reports exactly the entries asked for."""
import datetime
import errno
import os
import re

from sim.session import Session
from . import log_common as lc

LEVEL = 'exploration'
BUDGET = {'quick': {'seeds': 700, 'wall': 150, 'min': 60},
          'thorough': {'seeds': 9000, 'wall': 3000, 'min': 200}}
RULE = ('A seed draws a history of 1-6 sessions on a simulated clock that advances and jumps by up to months in both directions, logging notes, loads, '
        'preparations, runs, tuning, deep runs, reports and seeds to one or two log files, and 5-12 showLog calls in between with random '
        'limits (sessions range, dates as text of every documented form or datetime objects, text, pattern, maximum, detail), printed or written to files; '
        'some writes meet disk errors. Non-trivial: a query that reported a proper, non-empty part of the entries, or a fault fired.')
STATES = 'per query: (which limits were given, entries selected: none/some/all, output target)'
REAL = ['nimble.showLog, nimble.log and logged operations', 'nimble logger', 'Python sqlite3 and SQLite', 'kernel file system']
STUBS = ['clock (with jumps)', 'process restarts', 'disk errors at the C library boundary']
ASSUMPTIONS = ['the reference model is a filter over the stored rows; texts searched for are compared without regard to (ASCII) case, as the documentation leaves open',
               'preparation entries appear from level 2 on, as the existing tests demand', 'time zone UTC']
LEVELS = {'load': 1, 'tl': 1, 'report': 1, 'prep': 2, 'run': 2, 'deepRun': 3, 'tuning': 2, 'setSeed': 1}
TEXTS = ['50%', 'a_b', 'aXb', '100', 'AbC', 'é', "it's", 'say "hi"', 'back\\slash', 'line\nbreak', 'both \' and "', '[x]', '.*', '%', '_', '?']


def op_run(nimble, state, marker):
    x = nimble.data([[0, 1], [1, 0], [0, 2], [2, 0]], name=marker, useLog=False)
    y = nimble.data([[0], [1], [0], [1]], useLog=False)
    nimble.train('nimble.KNNClassifier', x, y, arguments={'k': 1}, useLog=True)


def op_tune(nimble, state, marker, deep):
    nimble.settings.set('logger', 'enableDeepLogging', 'True' if deep else 'False')
    x = nimble.data([[0, 1], [1, 0], [0, 2], [2, 0], [0, 3], [3, 0]], name=marker, useLog=False)
    y = nimble.data([[0], [1], [0], [1], [0], [1]], useLog=False)
    nimble.train('nimble.KNNClassifier', x, y, arguments={'k': nimble.Tune([1, 2])},
                 tuning=nimble.Tuning(performanceFunction=nimble.calculate.fractionIncorrect, folds=2), useLog=True)


def op_report(nimble, state, marker):
    x = nimble.data([[0, 1], [1, 0]], featureNames=[marker, 'b'], useLog=False)
    x.features.report(useLog=True)


def op_loc(nimble, state, location, name):
    nimble.settings.set('logger', 'location', location)
    nimble.settings.set('logger', 'name', name)


def op_show(nimble, state, startDate=None, endDate=None, searchForText=None, compiled=False, **kw):
    if isinstance(startDate, list):
        startDate = datetime.datetime(*startDate)
    if isinstance(endDate, list):
        endDate = datetime.datetime(*endDate)
    if compiled:
        searchForText = re.compile(searchForText)
    nimble.showLog(startDate=startDate, endDate=endDate, searchForText=searchForText, **kw)


OPS = dict(lc.OPS, run=op_run, tune=op_tune, report=op_report, loc=op_loc, show=op_show)


def gen_date(rng, times):
    t = rng.choice(times) if times else 1.6e9
    t += rng.choice([0, 0, 0, -1, 1, 30, -30, 3600, -86400, 86400])
    d = datetime.datetime.fromtimestamp(int(t), datetime.timezone.utc).replace(tzinfo=None)
    form = rng.randrange(4)
    if form == 3:
        return list(d.timetuple()[:6]) + ([rng.choice([1, 500000])] if rng.random() < 0.2 else [])
    return d.strftime(['%Y-%m-%d', '%Y-%m-%d %H:%M', '%Y-%m-%d %H:%M:%S'][form])


def gen_show(rng, times, n):
    a = {}
    if rng.random() < 0.85:
        a['mostSessionsAgo'] = rng.choice([1, 2, 3, 5, None, None])
    if rng.random() < 0.4:
        a['leastSessionsAgo'] = rng.choice([0, 0, 1, 1, 2, None])
    l, m = a.get('leastSessionsAgo', 0), a.get('mostSessionsAgo', 1)
    if l is not None and m is not None and m < l:
        a['mostSessionsAgo'] = l + 1
    if rng.random() < 0.35:
        a['startDate'] = gen_date(rng, times)
    if rng.random() < 0.35:
        a['endDate'] = gen_date(rng, times)
    if rng.random() < 0.35:
        if rng.random() < 0.35:
            a['searchForText'] = rng.choice(['mk[0-9]+q', 'mk[1-4]q', '^User', 'User - n.te', 'prep|load', 'mk2q.*x', '(?i)ABC', 'a.b'])
            a['regex'] = True
            if rng.random() < 0.2:
                a['compiled'] = True
        else:
            a['searchForText'] = rng.choice(TEXTS + ['mk1q', 'mk2q', 'MK3Q', 'note', 'User', 'load', 'prep', 'KNN', 'User - note'])
    if rng.random() < 0.35:
        a['maximumEntries'] = rng.choice([1, 2, 3, 5, None])
    if rng.random() < 0.6:
        a['levelOfDetail'] = rng.choice([1, 2, 3, 3])
    if rng.random() < 0.4:
        a['saveToFileName'] = rng.choice(['out.txt', 'out.txt', 'other'])
        if rng.random() < 0.5:
            a['append'] = True
    elif rng.random() < 0.1:
        a['append'] = True
    return a


def explore(rng, ctx):
    ops, n, times, t = [], 0, [], 1.6e9 + rng.randrange(10 ** 7)
    for s in range(rng.choice([1, 2, 3, 4, 6])):
        t += rng.choice([1000, 1000, 86400 * 2, 86400 * 40, -86400 * 3, -500])
        ops.append(['session', {'clock': t}])
        if rng.random() < 0.15 and s:
            ops.append(['loc', {'location': rng.choice(['logs-nimble', 'other-logs']), 'name': rng.choice(['log-nimble', 'log2'])}])
        for _ in range(rng.randrange(1, 6)):
            n += 1
            step = rng.choice([0, 1, 59, 3600, 90000])
            t += step
            times.append(t)
            marker = f'mk{n}q'
            r = rng.random()
            if r < 0.5:
                text = marker + ' ' + rng.choice(TEXTS) + rng.choice(['', 'x' * 30, ' abc'])
                info = text if rng.random() < 0.6 else [text, n] if rng.random() < 0.5 else {'k': text, 'n': n}
                ops.append(['log', {'heading': rng.choice(['note', 'note%', 'N_te', 'mark']), 'info': info}, step])
            elif r < 0.62:
                ops.append(['data', {'marker': marker}, step])
            elif r < 0.74:
                ops.append(['prep', {'marker': marker}, step])
            elif r < 0.8:
                ops.append(['seed', {'seed': 1000 + n}, step])
            elif r < 0.87:
                ops.append(['run', {'marker': marker}, step])
            elif r < 0.93:
                ops.append(['report', {'marker': marker}, step])
            else:
                ops.append(['tune', {'marker': marker, 'deep': rng.random() < 0.7}, step])
            while rng.random() < 0.4:
                ops.append(['show', gen_show(rng, times, n), 0])
        t += 100
    for _ in range(rng.randrange(2, 6)):
        ops.append(['show', gen_show(rng, times, n), 0])
    shows = [i for i, o in enumerate(ops) if o[0] == 'show' and 'saveToFileName' in o[1]]
    faults = []
    if shows and rng.random() < 0.25:
        faults.append({'op': rng.choice(shows), 'plan': [[rng.randrange(3), rng.choice(['errno', 'torn_errno', 'sticky']),
                                                           rng.choice([errno.ENOSPC, errno.EIO])]]})
    ctx.execute({'ops': ops, 'faults': faults})


def shrink(case):
    for i in range(len(case['faults'])):
        yield dict(case, faults=[])
    n = len(case['ops'])
    size = n
    while size >= 1:
        for a in range(0, n, size):
            if a == 0 and size < n and case['ops'][0][0] == 'session' and size == 1:
                continue
            c = dict(case, ops=case['ops'][:a] + case['ops'][a + size:])
            if any(a <= f['op'] < a + size for f in case['faults']) or not c['ops'] or c['ops'][0][0] != 'session':
                continue
            c['faults'] = [dict(f, op=f['op'] - (size if f['op'] >= a + size else 0)) for f in case['faults']]
            yield c
        size //= 2
    for i, o in enumerate(case['ops']):
        if o[0] == 'show':
            for k in o[1]:
                a = {x: v for x, v in o[1].items() if x != k}
                yield dict(case, ops=case['ops'][:i] + [['show', a, o[2]]] + case['ops'][i + 1:])


def todate(d):
    if isinstance(d, list):
        return datetime.datetime(*d)
    for f in ('%Y-%m-%d', '%Y-%m-%d %H:%M', '%Y-%m-%d %H:%M:%S'):
        try:
            return datetime.datetime.strptime(d, f)
        except ValueError:
            pass
    raise ValueError(d)


def lower(s):
    return ''.join(chr(ord(c) + 32) if 'A' <= c <= 'Z' else c for c in s)


def strings(x):
    """All texts in a logged value."""
    if isinstance(x, str):
        yield x
    elif isinstance(x, dict):
        for k, v in x.items():
            yield from strings(k)
            yield from strings(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from strings(v)


def select(rows, a):
    """Rows to report, ids undecided by the documentation in the second set."""
    import ast
    unsure = set()
    if not rows:
        return [], unsure
    top = max(r[2] for r in rows)
    least, most = a.get('leastSessionsAgo', 0), a.get('mostSessionsAgo', 1)
    out = []
    for r in rows:
        ago = top - r[2]
        if least is not None and ago < least or most is not None and ago >= most:
            continue
        when = datetime.datetime.strptime(r[1], '%Y-%m-%d %H:%M:%S')
        if a.get('startDate') is not None and when < todate(a['startDate']):
            continue
        if a.get('endDate') is not None and when > todate(a['endDate']):
            continue
        text = a.get('searchForText')
        if text is not None:
            if a.get('regex'):
                if not (re.search(text, r[3]) or re.search(text, r[4])):
                    continue
            else:
                t = lower(text)
                hit = t in lower(r[3]) or t in lower(r[4])
                try:
                    hit = hit or any(t in lower(s) for s in strings(ast.literal_eval(r[4])))
                except (ValueError, SyntaxError):
                    pass
                if not hit:
                    continue
        out.append(r)
    m = a.get('maximumEntries', 100)
    if m is not None:
        out = out[-m:] if m else []
    return out, unsure


HEAD = re.compile(r'^(.*?)\s*(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d)$')
SESS = re.compile(r'^\.? *SESSION (\d+) *\.?$')


def parse(text):
    """[(session, timestamp, body)] as shown."""
    out, cur = [], None
    for line in text.split('\n'):
        m = SESS.match(line.replace('.' * 79, ''))
        if m:
            cur = int(m.group(1))
            continue
        m = HEAD.match(line)
        if m:
            out.append([cur, m.group(2), m.group(1) + '\n'])
        elif out:
            out[-1][2] += line + '\n'
    return out


def run(case, ctx, res):
    root = ctx.fresh()
    copies = os.path.join(ctx.scratch, 'copies')
    loc, name = 'logs-nimble', 'log-nimble'
    sess, k = None, 0
    marks = {}                       # (db, entry id) -> marker
    files = {}
    plans = {f['op']: f['plan'] for f in case['faults']}
    res.nontrivial = False

    def rows():
        rs, bad = lc.read_rows(os.path.join(root, loc, name + '.db'), copies)
        if rs is None:
            res.violate('log-damaged', bad)
        return rs
    try:
        for i, op in enumerate(case['ops']):
            kind, args = op[0], op[1]
            res.steps += 1
            if kind == 'session':
                if sess:
                    sess.close()
                k += 1
                loc, name = 'logs-nimble', 'log-nimble'
                sess = Session(root, OPS, clock=(args['clock'], 0), rand=k)
                r = sess.start(armed=False)
                if not r.ok:
                    res.violate('session-does-not-start', r['exc'])
                    return
                continue
            if kind == 'loc':
                r = sess.call('loc', _armed=False, **args)
                loc, name = args['location'], args['name']
                if not r.ok:
                    res.violate('cannot-change-log', r['exc'])
                    return
                continue
            step = op[2]
            if kind != 'show':
                before = rows()
                if before is None:
                    return
                r = sess.call(kind, _armed=False, _advance=step or None, **args)
                after = rows()
                if after is None:
                    return
                if not r.ok or len(after) <= len(before) or after[:len(before)] != before:
                    res.violate('entry-not-logged', f'operation {i} {op}: {r["exc"]} {len(before)} -> {len(after)} rows')
                    return
                db = (loc, name)
                for row in after[len(before):]:
                    marks[db, row[0]] = args.get('marker') or (f'seed={args["seed"]}' if kind == 'seed' else None)
                    if kind == 'log':
                        marks[db, row[0]] = re.search(r'mk\d+q', str(args['info'])).group()
                    if row[3] in ('deepRun', 'tuning'):
                        marks[db, row[0]] = None
                continue
            # ---- a query
            before = rows()
            if before is None:
                return
            plan = plans.get(i, [])
            where = f'operation {i} showLog({args})'
            r = sess.call('show', _plan=plan, _kinds=('openw', 'write', 'close', 'trunc') if 'saveToFileName' in args else ('rename',),
                          _reads=False, **args)
            res.fire(r['io']['fired'])
            fired = r['io']['nfired']
            after = rows()
            if after is None:
                return
            if after != before:
                res.violate('showing-changed-the-log', f'{where}: {len(before)} -> {len(after)} rows')
                return
            sd, ed = args.get('startDate'), args.get('endDate')
            if sd is not None and ed is not None and todate(sd) > todate(ed):
                if r.ok:
                    res.violate('contradictory-dates-accepted', where)
                    return
                if 'InvalidArgumentValueCombination' not in r['exc']['mro']:
                    res.violate('query-failed', f'{where}: {r["exc"]["type"]}: {r["exc"]["msg"]}')
                    return
                res.note(i, 'refused')
                continue
            fname = args.get('saveToFileName')
            path = fname and os.path.join(root, loc, fname)
            if not r.ok:
                if not fired:
                    res.violate('query-failed', f'{where}: {r["exc"]["type"]}: {r["exc"]["msg"]}')
                    return
                res.nontrivial = True
                files.pop(path, None)
                if os.path.exists(path):
                    with open(path) as f:
                        files[path] = f.read()
                res.note(i, 'failed', r['exc']['type'])
                continue
            if fname:
                if not os.path.exists(path):
                    res.violate('file-not-written', where)
                    return
                with open(path, newline='') as f:
                    content = f.read()
                if r['out']:
                    res.violate('printed-although-written', where)
                    return
                old = files.get(path, '') if args.get('append') else ''
                if not content.startswith(old):
                    res.violate('append-lost-earlier-text', where)
                    return
                text = content[len(old):]
                files[path] = content
            else:
                text = r['out']
            want, _ = select(before, args)
            full = len(want)
            lvl = args.get('levelOfDetail', 2)
            want = [w for w in want if LEVELS.get(w[3], 1) <= lvl]
            shown = parse(text)
            exp = [(w[2], w[1]) for w in want]
            got = [(s, t) for s, t, _ in shown]
            if exp != got:
                res.violate('wrong-entries', f'{where}: expected entries {[(w[2], w[1], w[4][:30]) for w in want]}, shown {[(s, t, b[:30]) for s, t, b in shown]}')
                return
            for w, (s, t, body) in zip(want, shown):
                m = marks.get(((loc, name), w[0]))
                if m and m not in body:
                    res.violate('wrong-entry-content', f'{where}: entry {m} shown as {body[:300]!r}')
                    return
            # the same query printed gives the same text
            if fname:
                a2 = {x: v for x, v in args.items() if x != 'saveToFileName'}
                r2 = sess.call('show', _armed=False, **a2)
                if not r2.ok or r2['out'].strip('\n') != text.strip('\n'):
                    res.violate('file-differs-from-print', f'{where}: file {text[:200]!r}... printed {r2["out"][:200]!r}')
                    return
            if 0 < full < len(before):
                res.nontrivial = True
            res.note(i, len(before), full, len(want), len(text))
            lim = ''.join(c for c, key in zip('lmsexrdM', ('leastSessionsAgo', 'mostSessionsAgo', 'startDate', 'endDate', 'searchForText', 'regex', 'levelOfDetail', 'maximumEntries')) if key in args)
            res.states.add(f'{lim}/{"none" if not full else "all" if full == len(before) else "some"}/{"file" if fname else "print"}{"+" if args.get("append") else ""}')
    finally:
        if sess:
            sess.close()
