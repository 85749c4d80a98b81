"""C16: tuning reports a consistent, truly best result within its limits."""
import itertools
import math
import random
import zlib

from sim import seam
from sim.session import Session, SimInterrupt, interrupted
from . import learn_common as lc

IN_PROCESS = True
LEVEL = 'exploration'
BUDGET = {'quick': {'seeds': 12000, 'wall': 150, 'min': 60},
          'thorough': {'seeds': 150000, 'wall': 3000, 'min': 60}}
RULE = ('A seed draws a Tuning (every selection and validation, limits, order and loops) and 1-3 trainings that use that same Tuning object, each with its '
        'own tunable arguments (lists, ranges, linear and geometric; numbers, text, lists), score landscape (rugged, smooth, flat, with undefined scores) '
        'and optimum direction. The learner takes a drawn virtual time per training while the wall clock jumps; the learner or the performance function '
        'fails or is interrupted at the k-th call, or the library is interrupted at the k-th line. The recorded evaluations, times and trainings decide '
        'what may be reported. Non-trivial: a limit was reached, or a tuning failed and the Tuning was used again.')
STATES = '(selection, validation, landscape, limits reached, outcome)'
REAL = ['Tune, Tuning, every selector and validator', 'nimble.train, trainAndTest, trainAndApply', 'TrainedLearner', 'hyperopt', 'storm_tuner']
STUBS = ['learner and performance function (record every call)', 'monotonic and wall clock', 'interrupts at chosen library lines']
ASSUMPTIONS = ['iterative selection checks its limits between iterations, an iteration may evaluate two neighbours of every tuned argument',
               'undefined scores are only drawn for brute force, consecutive and iterative selection']
TECHNIQUE = 'deterministic simulation on a virtual clock with learner faults, against a reference of the selection and the recorded evaluations'

SELECTIONS = ['brute force', 'consecutive', 'consecutive', 'bayesian', 'iterative', 'iterative', 'storm']
TEXT = ['p', 'q', 'r', 's', 'tt']


# ------------------------------------------------------------- generation
def gen_tune(rng, sel, small):
    numeric = sel == 'iterative' or rng.random() < 0.6
    n = rng.randrange(1, 4 if small else 7)
    if sel == 'iterative':
        n = rng.randrange(1, 9)
    if not numeric:
        kind = rng.choice(['text', 'list', 'mixed'] if sel in ('brute force', 'consecutive') else ['text'])
        if kind == 'text':
            vals = rng.sample(TEXT, min(n, len(TEXT)))
        elif kind == 'list':
            vals = [[i, rng.choice(TEXT)] for i in range(n)]
        else:
            vals = rng.sample([None, 'p', 3, 2.5, [1], -1], min(n, 6))
        if sel in ('brute force', 'consecutive') and rng.random() < 0.15:
            vals = vals + [vals[0]]
        return {'values': vals}
    how = rng.choice(['values', 'values', 'range', 'linear', 'geometric', 'exp', 'tuple'])
    if how in ('values', 'tuple'):
        vals = rng.sample([-4, -2.5, -1, 0, 0.5, 1, 2, 3, 7, 10, 50], n)
        if sel in ('brute force', 'consecutive') and rng.random() < 0.15:
            vals = vals + [vals[-1]]
        return {how: vals}
    if how == 'exp':
        vals = [10.0 ** k for k in range(-2, n - 2)]
        rng.shuffle(vals)
        return {'values': vals}
    if how == 'range':
        step = rng.choice([1, 2, 3, -1, -2])
        start = rng.randrange(-3, 4)
        return {'range': [start, start + step * (n - 1) + (1 if step > 0 else -1) * rng.randrange(1, abs(step) + 1), step]}
    if how == 'linear':
        change = rng.choice([1, 2, 0.5, 0.1, 0.25, -1, -0.5, None])
        start = rng.choice([0, 1, -2, 0.5, None])
        s, c = (0 if start is None else start), (1 if change is None else change)
        end = s + c * (n - 1) + rng.choice([0, 0, 0.4]) * c
        return {'span': [start, end if n > 1 else s, change, rng.choice([None, 'add'])]}
    change = rng.choice([2, 3, 0.5])
    start = rng.choice([1, 2, 16])
    end = start * change ** (n - 1)
    return {'span': [start, end, change, 'multiply']}


def gen_round(rng, sel, val, learner):
    names = rng.sample(['a', 'b', 'c'], rng.choice([1, 1, 2, 2, 3]))
    small = len(names) > 1 or val == 'leave one out'
    r = {'tunes': [[k, gen_tune(rng, sel, small)] for k in names], 'fixed': {}, 'seed': rng.choice([None, rng.randrange(1000)]), 'optimal': rng.choice(['min', 'min', 'max'])}
    for k in 'abc':
        if k not in names and rng.random() < 0.4:
            r['fixed'][k] = rng.choice([1, 'p', [1, 2], 0.5])
    if rng.random() < 0.05:
        r['tunes'] = []
    if sel == 'bayesian':
        r['optimal'] = 'min'
    r['land'] = {'seed': rng.randrange(10 ** 6), 'kind': rng.choice(['rugged', 'rugged', 'convex', 'plateau', 'flat']), 'levels': rng.choice([2, 4, 10, 1000]),
                 'nan': rng.choice([0, 0, 0, 0.3, 0.9]) if sel in ('brute force', 'consecutive', 'iterative') and learner == 'Scored' else 0}
    r['dur'] = {'seed': rng.randrange(10 ** 6), 'max': rng.choice([0, 1, 5, 30]), 'wall': rng.choice([0, 0, 1, 1000000, -1000000])}
    r['how'] = rng.choice(['train', 'train', 'train', 'train', 'trainAndTest', 'trainAndApply'])
    r['fault'] = None
    x = rng.random()
    if x < 0.2:
        r['fault'] = {'k': rng.choice([0, 1, 2, 3, 5, 8, 13, 21]), 'kind': rng.choice(['error', 'interrupt'])}
    elif x < 0.3:
        r['fault'] = {'line': int(10 ** rng.uniform(1, 4.2))}
    return r


def gen(rng):
    sel = rng.choice(SELECTIONS)
    val = 'data' if sel in ('bayesian', 'iterative', 'storm') else rng.choice(['data', 'data', 'cross validation', 'cross validation', 'leave one out', 'leave one group out', 'proportion', 'float'])
    c = {'selection': sel, 'validation': val, 'folds': rng.choice([2, 3, 4]), 'n': rng.randrange(5, 9), 'learner': 'Scored', 'own': rng.random() < 0.5}
    if sel == 'iterative' and rng.random() < 0.5:
        c['learner'] = 'Incr'
    if sel == 'consecutive':
        c['loops'] = rng.choice([1, 1, 2, 3])
        c['order'] = rng.random() < 0.4
    if sel in ('bayesian', 'iterative', 'storm'):
        lim = rng.choice(['max', 'max', 'time', 'both', 'threshold', 'all'])
        c['maxIterations'] = rng.choice([1, 2, 3, 5, 12]) if lim in ('max', 'both', 'all', 'threshold') else None
        c['timeout'] = rng.choice([0.5, 3, 20, 60]) if lim in ('time', 'both', 'all') else None
        c['threshold'] = rng.choice([0.0, 0.2, 0.5, 0.9]) if lim in ('threshold', 'all') else None
        if lim == 'threshold' and sel == 'storm' and rng.random() < 0.5:
            c['initRandom'] = rng.choice([1, 3])
    c['rounds'] = [gen_round(rng, sel, val, c['learner']) for _ in range(rng.choice([1, 2, 2, 3]))]
    for r in c['rounds']:
        if c.get('timeout') is not None and c.get('maxIterations') is None:
            r['dur']['max'] = max(1, r['dur']['max'])
            r['dur']['least'] = c['timeout'] / 12
        if c['own']:                                     # the Tuning has its own performance function
            r['optimal'] = c['rounds'][0]['optimal']
        else:
            r['how'] = 'trainAndTest'
            if r['fault'] and 'line' in r['fault']:      # the function is taken back in a finally block
                r['fault'] = None
            r['tunes'] = r['tunes'] or [['a', {'values': [1, 2, 3]}]]
    return c


def explore(rng, ctx):
    ctx.execute(gen(rng))


def shrink(case):
    from sim.engine import generic_shrink
    yield from generic_shrink(case)


# ------------------------------------------------- the landscape (both sides)
def key(args):
    return repr(sorted((k, lc.canon(v)) for k, v in args.items()))


def landscape(land, args, values):
    """The score of an argument set; values[k] are the ordered choices."""
    r = random.Random(f'{land["seed"]}|{key(args)}')
    if r.random() < land['nan']:
        return float('nan')
    if land['kind'] == 'flat':
        return 0.5
    if land['kind'] == 'rugged':
        return r.randrange(land['levels']) / land['levels']
    opt = random.Random(land['seed'])
    total = 0
    for k in sorted(values):
        v = values[k]
        best = opt.randrange(len(v))
        total += abs(v.index(args[k]) - best) * (1 + opt.randrange(3))
    if land['kind'] == 'plateau':
        total //= 2
    return total / 20


def duration(dur, args, count):
    r = random.Random(f'{dur["seed"]}|{key(args)}|{count}')
    return dur.get('least', 0) + r.choice([0.0, r.random(), r.random()]) * dur['max']


def defaults(args):
    return dict({'a': 0, 'b': 0, 'c': 0}, **args)


def choices(spec):
    """The values the documentation promises for a Tune."""
    if 'values' in spec or 'tuple' in spec:
        return list(spec.get('values', spec.get('tuple')))
    if 'range' in spec:
        return list(range(*spec['range']))
    start, end, change, how = spec['span']
    start = 0 if start is None else start
    change = 1 if change is None else change
    if start == end:
        return [start]
    if how == 'multiply':
        out, v = [], start
        while (v <= end) if change > 1 else (v >= end):
            out.append(v)
            v = v * change
        return out
    n = math.floor((end - start) / change + 1e-9) + 1
    return [start + k * change for k in range(n)]


def close(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or abs(a - b) < 1e-9
    return a == b


# ------------------------------------------------------- inside the session
def setup(nimble, state):
    if 'env' in state:
        return
    env = state['env'] = {'log': [], 'count': 0}

    def event(kind, args, n=0):
        env['log'].append([kind, dict(args), n, seam.now('mono')])

    def work(kind, args, n):
        event(kind, args, n)
        lc.fault.point(kind)
        env['count'] += 1
        d = duration(env['dur'], args, env['count'])
        seam.advance(env['dur']['wall'] * d, d)

    def ids(trainX):
        return [r[0] for r in trainX.copy('python list')]

    class Scored(nimble.CustomLearner):
        """Its predictions are the score of its arguments."""
        learnerType = 'regression'

        def train(self, trainX, trainY, a=0, b=0, c=0):
            work('train', {'a': a, 'b': b, 'c': c}, len(trainX.points))
            self.args, self.ids, self.rows, self.gained = {'a': a, 'b': b, 'c': c}, sum(ids(trainX)), len(trainX.points), 0

        def apply(self, testX):
            if testX[0, 0] == 999:
                return nimble.data([[self.rows], [self.ids], [zlib.crc32(key(self.args).encode()) % 10 ** 6]], useLog=False)
            event('apply', self.args, len(testX.points))
            lc.fault.point('apply')
            seam.advance(0, max(env['dur'].get('least', 0), 0.001))
            s = landscape(env['land'], self.args, env['values'])
            s = -777 if s != s else s - self.gained
            return nimble.data([[s]] * len(testX.points), useLog=False)

    class Incr(Scored):
        """Training it more makes it a little better."""

        def incrementalTrain(self, trainX, trainY, a=0, b=0, c=0):
            work('incr', {'a': a, 'b': b, 'c': c}, len(trainX.points))
            self.args = {'a': a, 'b': b, 'c': c}
            self.gained += env['gain'] * (1 + len(repr(a)) % 3)

    def func(optimal):
        def score(known, predicted):
            lc.fault.point('performance')
            vals = [r[0] for r in predicted.copy('python list')]
            env['log'].append(['perf', {}, len(known.points), seam.now('mono')])
            return float('nan') if -777 in vals else sum(vals) / len(vals)
        score.__name__ = 'score' + optimal
        return nimble.calculate.performanceFunction(optimal)(score)
    state['cls'] = {'Scored': Scored, 'Incr': Incr}
    state['func'] = {o: func(o) for o in ('min', 'max')}


def op_tuning(nimble, state, case):
    setup(nimble, state)
    lc.fault.off()
    n = case['n']
    state['X'] = nimble.data([[2.0 ** i, i] for i in range(n)], useLog=False)
    state['Y'] = nimble.data([[0.0] for i in range(n)], useLog=False)
    kw = {'selection': case['selection'], 'validation': case['validation'] if case['validation'] != 'float' else 0.4}
    if case['own']:
        kw['performanceFunction'] = state['func'][case['rounds'][0]['optimal']]
    for k in ('maxIterations', 'timeout', 'threshold', 'initRandom', 'loops'):
        if k in case:
            kw[k] = case[k]
    if case.get('order'):
        kw['order'] = case['orderList']
    if case['validation'] == 'cross validation':
        kw['folds'] = case['folds']
    elif case['validation'] == 'leave one group out':
        kw['foldFeature'] = nimble.data([[i % case['folds']] for i in range(n)], useLog=False)
    elif case['validation'] == 'data':
        kw['validateX'], kw['validateY'] = nimble.data([[1.0, 1], [2.0, 2]], useLog=False), nimble.data([[0], [0]], useLog=False)
    elif case['validation'] == 'proportion':
        kw['proportion'] = 0.4
    state['VX'], state['VY'] = nimble.data([[1.0, 1], [2.0, 2]], useLog=False), nimble.data([[0], [0]], useLog=False)
    state['tuning'] = nimble.Tuning(**kw)
    state['tls'] = []


def report(t):
    return {'bestArgs': t.bestArguments, 'best': t.bestResult, 'allArgs': t.allArguments, 'all': t.allResults, 'deep': t.deepResults}


def op_round(nimble, state, case, r):
    env = state['env']
    lc.fault.arm(None)
    tunes, used = {}, {}
    for k, spec in r['tunes']:
        if 'range' in spec:
            tunes[k] = nimble.Tune(range(*spec['range']))
        elif 'span' in spec:
            s, e, c, how = spec['span']
            tunes[k] = nimble.Tune(start=s, end=e, change=c, changeType=how)
        elif 'tuple' in spec:
            tunes[k] = nimble.Tune(tuple(spec['tuple']))
        else:
            tunes[k] = nimble.Tune(list(spec['values']))
        used[k] = list(tunes[k])
    env.update(log=[], count=0, land=r['land'], dur=r['dur'], values={k: list(v) for k, v in used.items()},
               gain=0.05 if r['optimal'] == 'min' else -0.05)
    L = state['cls'][case['learner']]
    t = state['tuning']
    args = dict(r['fixed'], **tunes)
    given = dict(args)
    kw = {'tuning': t, 'randomSeed': r['seed'], 'useLog': False}
    f = state['func'][r['optimal']]

    def go():
        if r['how'] == 'train':
            return nimble.train(L, state['X'], state['Y'], args, **kw)
        if r['how'] == 'trainAndTest':
            return nimble.trainAndTest(L, f, state['X'], state['Y'], state['VX'], state['VY'], args, **kw)
        return nimble.trainAndApply(L, state['X'], state['Y'], state['VX'], args, **kw)
    flt = r['fault'] or {}
    if 'k' in flt:
        lc.fault.arm(flt['k'], flt['kind'])
    tl = None
    before = seam.now('mono')
    try:
        if 'line' in flt:
            tl = interrupted(go, {}, {'where': '/nimble/', 'k': flt['line']})[0]
        else:
            tl = go()
        out = 'ok'
    except SimInterrupt:
        out = 'line'
    except (KeyboardInterrupt, lc.Injected) as e:
        out = type(e).__name__
        e.__traceback__ = None
    fired = lc.fault.fired
    lc.fault.off()
    rep = {'out': out, 'fired': fired, 'log': env['log'], 'used': used, 'start': before, 'end': seam.now('mono'),
           'args': given.keys() == args.keys() and all(given[k] is args[k] for k in given) and all(list(tunes[k]) == used[k] for k in tunes)}
    env['log'] = []
    if out == 'ok':
        rep['report'] = report(t)
        if r['how'] == 'train':
            rep['tl'] = look(nimble, state, tl, f)
            state['tls'].append([tl, f, dict(r['land']), env['values'], env['gain']])
        elif r['how'] == 'trainAndTest':
            rep['value'] = tl
        else:
            rep['value'] = [v[0] for v in tl.copy('python list')]
    env['log'] = []
    return rep


def look(nimble, state, tl, f):
    probe = nimble.data([[999, 0]] * 3, useLog=False)
    return {'args': dict(tl.arguments), 'tuning': report(tl.tuning), 'probe': [v[0] for v in tl.apply(probe, useLog=False).copy('python list')],
            'test': tl.test(f, state['VX'], state['VY'], useLog=False)}


def op_look(nimble, state, i):
    lc.fault.off()
    tl, f, land, values, gain = state['tls'][i]
    state['env'].update(land=land, values=values, gain=gain)
    out = look(nimble, state, tl, f)
    state['env']['log'] = []
    return out


OPS = {'tuning': op_tuning, 'round': op_round, 'look': op_look}


# -------------------------------------------------------------- the oracle
def better(optimal, a, b):
    if b != b:
        return a == a
    return a > b if optimal == 'max' else a < b


def evaluations(log, folds):
    """[args, start time, sizes] of each complete validation, in order, and what follows."""
    out, cur = [], None
    rest = []
    for kind, args, n, t in log:
        if kind == 'perf':
            continue
        if cur is None:
            cur = {'args': args, 'start': t, 'applied': 0, 'trained': [], 'same': True}
            out.append(cur)
        cur['same'] = cur['same'] and key(cur['args']) == key(args)
        if kind == 'apply':
            cur['applied'] += 1
        else:
            cur['trained'].append([kind, n])
        if cur['applied'] == folds:
            cur = None
    return out, rest


def consecutive_model(r, values, order, loops, score):
    """Coordinate descent: the argument sets a consecutive selection evaluates."""
    fixed = r['fixed']
    curr = {k: values[k][0] for k in values}
    tried, seq = [], []
    best, bestScore = None, None

    def evaluate(c):
        nonlocal best, bestScore
        if any(c == t for t in tried):
            return
        tried.append(dict(c))
        s = score(defaults(dict(fixed, **c)))
        seq.append(dict(fixed, **c))
        if best is None or better(r['optimal'], s, bestScore):
            best, bestScore = dict(c), s
    evaluate(curr)
    for _ in range(loops):
        for k in order:
            start = dict(best)
            for v in values[k]:
                evaluate(dict(start, **{k: v}))
    return seq


def check_round(case, r, rep, res, what):
    sel, val, opt = case['selection'], case['validation'], r['optimal']
    values = rep['used']
    same = lambda a, b: len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    for k, spec in r['tunes']:
        want = choices(spec)
        if not same(values[k], want):
            res.violate('tune-values', f'Tune({spec}) has values {values[k]}, expected {want}')
            return
    if not rep['args']:
        res.violate('arguments-changed', f'{what}: the argument dictionary or Tune given was changed')
    n = case['n']
    folds = {'data': 1, 'proportion': 1, 'float': 1, 'cross validation': case['folds'], 'leave one out': n,
             'leave one group out': min(case['folds'], n)}[val]

    def score(args):
        return landscape(r['land'], args, values)

    evals, _ = evaluations(rep['log'], folds)
    # ---- what was evaluated
    for e in evals:
        full = e['args']
        for k in 'abc':
            ok = any(full[k] == v and type(full[k]) == type(v) or close(full[k], v) for v in values[k]) if k in values else full[k] == r['fixed'].get(k, 0)
            if not ok:
                res.violate('outside-values', f'{what}: evaluated {k}={full[k]!r}, given {values.get(k, r["fixed"].get(k, 0))!r}')
                return
    if rep['out'] != 'ok':
        return
    report = rep['report']
    # the training of the final learner and its use come last
    final = []
    if evals and r['how'] != 'train' and val == 'data':
        # the learner is used once more: an apply by itself
        final = evals[-1:]
        evals = evals[:-1]
    elif val != 'data':
        if not evals:
            res.violate('no-evaluation', f'{what}: nothing was evaluated')
            return
        final = evals[-1:]
        evals = evals[:-1]
        if final[0]['trained'] != [['train', n]]:
            res.violate('final-training', f'{what}: the returned learner was trained as {final[0]["trained"]}, expected one training with all {n} points')
    for e in evals:
        if e['applied'] != folds or not e['same']:
            res.violate('evaluation-shape', f'{what}: an evaluation used {e["applied"]} of {folds} validation sets')
            return
    inc = case['learner'] == 'Incr'
    allArgs, allRes = report['allArgs'], report['all']
    if len(allArgs) != len(allRes) or not allRes:
        res.violate('reported', f'{what}: reports {len(allRes)} results and {len(allArgs)} argument sets')
        return
    # ---- ranked, aligned with the scores obtained
    for x, y in zip(allRes, allRes[1:]):
        if better(opt, y, x):
            res.violate('order', f'{what}: results are not from best to worst: {allRes}')
            break
    if not inc:
        for a, s in zip(allArgs, allRes):
            want = score(defaults(a))
            if not (close(s, want) or s != s and want != want):
                res.violate('score', f'{what}: reports {s} for {a}, which scored {want}')
                return
    if any(better(opt, s, report['best']) for s in allRes) or not (report['best'] == allRes[0] or allRes[0] != allRes[0]):
        res.violate('best', f'{what}: best result {report["best"]} of {allRes}')
    if not any(key(a) == key(report['bestArgs']) and (s == report['best'] or s != s) for a, s in zip(allArgs, allRes)):
        res.violate('best', f'{what}: best arguments {report["bestArgs"]} with {report["best"]} are not among the results {list(zip(allArgs, allRes))[:5]}')
    got = sorted(key(defaults(a)) for a in allArgs)
    done = sorted(key(e['args']) for e in evals)
    if sel != 'iterative':
        if got != done:
            res.violate('all-reported', f'{what}: evaluated {len(done)} argument sets {done[:6]}, reported {len(got)}: {got[:6]}')
            return
    elif any(g not in done for g in got) or len(got) > len(done):
        res.violate('all-reported', f'{what}: reports argument sets that were not evaluated: {got[:6]}')
        return
    if case['validation'] in ('cross validation', 'leave one out', 'leave one group out'):
        deep = report['deep']
        if deep is None or len(deep) != len(allRes) or any(len(d) != folds for d in deep) or any(not (close(x, s) or x != x and s != s) for d, s in zip(deep, allRes) for x in d):
            res.violate('deep', f'{what}: fold results {deep} do not belong to {allRes}')
    elif report['deep'] is not None:
        res.violate('deep', f'{what}: fold results without folds: {report["deep"]}')
    # ---- the selections
    names = [k for k, _ in r['tunes']]
    combos = [dict(zip(names, c)) for c in itertools.product(*(values[k] for k in names))]
    if sel == 'brute force':
        want = sorted(key(defaults(dict(r['fixed'], **c))) for c in combos)
        if want != done:
            res.violate('brute-force', f'{what}: evaluated {len(done)} of {len(want)} combinations')
    elif sel == 'consecutive':
        order = names
        if case.get('order'):
            order = [k for k in case['orderList'] if k in names]
        want = [key(defaults(c)) for c in consecutive_model(r, {k: values[k] for k in r['argOrder'] if k in names}, order, case['loops'], score)]
        if sorted(want) != done:
            res.violate('consecutive', f'{what}: evaluated {[key(e["args"]) for e in evals]}, expected {want}')
    limits(case, r, rep, evals, values, names, combos, allRes, res, what)
    # ---- the learner
    crc = zlib.crc32(key(defaults(dict(report['bestArgs']))).encode()) % 10 ** 6
    if r['how'] == 'train':
        tl = rep['tl']
        if key(tl['args']) != key(report['bestArgs']) or tl['probe'] != [n, 2.0 ** n - 1, crc]:
            res.violate('learner', f'{what}: best arguments {report["bestArgs"]}, the returned learner reports {tl["args"]} and was trained with points/ids/arguments {tl["probe"]}, expected {[n, 2.0 ** n - 1, crc]}')
        if lc.canon(tl['tuning']) != lc.canon(report):
            res.violate('learner-tuning', f'{what}: the learner reports tuning {tl["tuning"]}, the Tuning {report}')
        if val == 'data' and not (close(tl['test'], report['best']) or tl['test'] != tl['test'] and report['best'] != report['best']):
            res.violate('learner-score', f'{what}: the best result is {report["best"]}, the returned learner scores {tl["test"]}')
    elif not inc:
        want = score(defaults(report['bestArgs']))
        have = rep['value'] if r['how'] == 'trainAndTest' else rep['value'][0]
        if want != want and r['how'] == 'trainAndApply':
            want = -777
        if not (close(have, want) or have != have and want != want):
            res.violate('learner', f'{what}: returned {have}, the best arguments {report["bestArgs"]} score {want}')


def limits(case, r, rep, evals, values, names, combos, allRes, res, what):
    sel, opt = case['selection'], r['optimal']
    if sel not in ('bayesian', 'storm', 'iterative'):
        return
    maxI, timeout, threshold = case['maxIterations'], case['timeout'], case['threshold']
    inc = case['learner'] == 'Incr'
    reached = []
    if maxI is not None and len(allRes) > maxI:
        res.violate('max-iterations', f'{what}: {len(allRes)} results with maxIterations={maxI}')
    if maxI is not None and len(allRes) >= maxI:
        reached.append('iterations')
    t0 = evals[0]['start']
    if timeout is not None:
        late = [e for e in evals[1:] if e['start'] - rep['start'] > timeout + 0.05 and e['start'] - t0 > timeout + 0.05]
        most = 2 * len(names) if sel == 'iterative' else 0
        # an iteration: the neighbours, then the chosen set (first evaluation of it was in time)
        if len(late) > most:
            res.violate('timeout', f'{what}: {len(late)} evaluations started more than {timeout} s after the start, the first {late[0]["start"] - t0:.2f} s after it')
        if rep['end'] - rep['start'] >= timeout - 0.05:
            reached.append('time')

    def hit(s):
        return s == threshold or better(opt, s, threshold)
    if threshold is not None:
        if not inc:
            scores = [landscape(r['land'], e['args'], values) for e in evals]
            if sel == 'iterative':
                # only the recorded results count
                if any(hit(s) for s in allRes):
                    reached.append('threshold')
                first = scores[0]
                if hit(first) and len(evals) > 1:
                    res.violate('threshold', f'{what}: {len(evals)} evaluations although the first scored {first}, threshold {threshold}')
            else:
                k = next((i for i, s in enumerate(scores) if hit(s)), None)
                if k is not None:
                    reached.append('threshold')
                    if len(evals) > k + 1:
                        res.violate('threshold', f'{what}: evaluation {k} scored {scores[k]}, threshold {threshold}, {len(evals) - k - 1} evaluations followed')
        elif any(hit(s) for s in allRes):
            reached.append('threshold')
    if reached:
        res.nontrivial = True
        for x in reached:
            res.counts['limit reached: ' + x] += 1
    res.states.add(f'{sel}/{r["land"]["kind"]}/{",".join(reached)}')
    # ---- and not before
    if sel == 'storm' and not reached and len(allRes) != len(combos):
        res.violate('stopped', f'{what}: stopped after {len(allRes)} of {len(combos)} combinations without reaching a limit')
    if sel == 'storm' and len({key(e['args']) for e in evals}) != len(evals):
        res.violate('storm-repeats', f'{what}: argument sets were evaluated again')
    if sel == 'bayesian' and not reached and names:
        res.violate('stopped', f'{what}: stopped after {len(allRes)} evaluations without reaching a limit')
    if sel != 'iterative':
        return
    grid = {k: sorted(values[k]) for k in names}
    mid = {k: grid[k][len(grid[k]) // 2] for k in names}
    if any(evals[0]['args'][k] != mid[k] for k in names):
        res.violate('iterative-start', f'{what}: started at {evals[0]["args"]}, the middle values are {mid}')
    if inc:
        if not reached and len(allRes) and names:
            res.counts['incremental runs ended without a limit'] += 1
        return
    if len(names) == 1 and not reached:
        k = names[0]
        best = rep['report']['bestArgs'][k]
        i = grid[k].index(best)
        for j in (i - 1, i + 1):
            if 0 <= j < len(grid[k]):
                a = defaults(dict(r['fixed'], **{k: grid[k][j]}))
                if better(opt, landscape(r['land'], a, values), rep['report']['best']):
                    res.violate('iterative-local', f'{what}: ended at {k}={best} ({rep["report"]["best"]}), the neighbouring value {grid[k][j]} is better')
                elif key(a) not in [key(e['args']) for e in evals]:
                    res.violate('iterative-local', f'{what}: ended at {k}={best} without trying the neighbouring value {grid[k][j]}')
    if len(names) == 1:
        # the moves: always to the better improving neighbour
        k = names[0]
        i = len(grid[k]) // 2

        def at(j):
            return landscape(r['land'], defaults(dict(r['fixed'], **{k: grid[k][j]})), values)
        path = [i]
        while True:
            opts = [j for j in (i - 1, i + 1) if 0 <= j < len(grid[k]) and better(opt, at(j), at(i))]
            if not opts:
                break
            if len(opts) == 2 and better(opt, at(opts[1]), at(opts[0])):
                opts = opts[::-1]
            i = opts[0]
            path.append(i)
        want = [grid[k][j] for j in path][:len(allRes)]
        have = sorted((a[k] for a in rep['report']['allArgs']), key=str)
        if sorted(want, key=str) != have:
            res.violate('iterative-path', f'{what}: accepted {have}, expected to move through {want}')


def run(case, ctx, res):
    root = ctx.fresh()
    res.nontrivial = False
    case = dict(case)
    case['rounds'] = [dict(r) for r in case['rounds']]
    for r in case['rounds']:
        # dictionary order of the arguments: fixed ones first
        r['argOrder'] = [k for k, _ in r['tunes']]
    if case.get('order'):
        orders = [[k for k, _ in r['tunes']] for r in case['rounds']]
        case['orderList'] = sorted({k for o in orders for k in o}, reverse=case['n'] % 2 == 0)
        # one Tuning has one order: every training tunes these arguments
        if any(sorted(o) != sorted(case['orderList']) for o in orders):
            case['order'] = False
    sess = Session(root, OPS, clock=(1.6e9, 0), rand=1, fresh=False)
    try:
        r0 = sess.start(armed=False)
        if not r0.ok:
            raise RuntimeError(str(r0['exc']))
        r0 = sess.call('tuning', _armed=False, case=case)
        if not r0.ok:
            res.violate('call-failed', r0.exc)
            return
        seen, failed = [], False
        for n, r in enumerate(case['rounds']):
            reply = sess.call('round', _armed=False, case=case, r=r)
            what = f'round {n} {case["selection"]} with {case["validation"]} validation ({r["how"]})'
            res.steps += 1
            if not reply.ok:
                res.violate('call-failed', f'{what} raised {reply.exc["type"]}: {reply.exc["msg"]}')
                return
            rep = reply.value
            res.simtime += rep['end'] - rep['start']
            flt = r['fault'] or {}
            what += f' -> {rep["out"]}'
            if rep['out'] == 'line':
                res.faults['interrupt at library line'] += 1
            elif rep['fired']:
                res.faults[('learner or performance ' + flt['kind'])] += 1
                if rep['out'] == 'ok':
                    res.violate('swallowed', f'{what}: the failure was not reported')
                    return
            if rep['out'] != 'ok':
                failed = True
            elif failed:
                res.nontrivial = True
            res.note(n, what, [rep['out'], len(rep['log']), lc.canon(rep.get('report')), round(rep['end'], 3)])
            res.counts['evaluations'] += len([1 for e in rep['log'] if e[0] == 'apply'])
            check_round(case, r, rep, res, what)
            res.states.add(f'{case["selection"]}/{case["validation"]}/{rep["out"]}')
            if res.violations:
                return
            # learners returned before keep what they reported
            for i, old in enumerate(seen):
                reply = sess.call('look', _armed=False, i=i)
                if not reply.ok:
                    res.violate('call-failed', f'{what}: using the learner of an earlier tuning raised {reply.exc["type"]}: {reply.exc["msg"]}')
                    return
                if lc.canon(reply.value) != old:
                    res.violate('earlier-learner', f'{what}: the learner of an earlier tuning now reports {lc.canon(reply.value)}, before {old}')
                    return
            if rep.get('tl'):
                seen.append(lc.canon(rep['tl']))
    finally:
        sess.kill()
