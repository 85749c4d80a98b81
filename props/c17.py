"""C17: cross-validation uses every point exactly once and never leaks."""
import random

from sim.session import Session, SimInterrupt, interrupted
from . import learn_common as lc

IN_PROCESS = True
LEVEL = 'fault_enumeration'
BUDGET = {'quick': {'seeds': 9000, 'wall': 150, 'min': 60},
          'thorough': {'seeds': 120000, 'wall': 3000, 'min': 60}}
RULE = ('A seed draws data (type, size, order, names, view, missing values; labels as object, name, index or several), a validation (k-fold with any k, leave '
        'one out, leave one group out with missing groups, hold-out proportion or data), the state of the random stream and 1-5 validations of different '
        'argument sets by the same validator, through nimble.train, trainAndTestOnTrainingData or the validator itself. The learner or performance function '
        'fails or is interrupted at the k-th call, or the library at the k-th line, and the validator is used again. Every row the learner was given is recorded. '
        'Non-trivial: a validation failed and the validator was used again, or folds of different sizes.')
STATES = '(validation, route, type, label form, outcome)'
REAL = ['nimble.core.tune (validators, fold iterators)', 'nimble.train, trainAndTest, trainAndTestOnTrainingData', 'data objects', 'nimble.random']
STUBS = ['learner and performance function (record every row they are given)', 'interrupts at chosen library lines', 'clock']
ASSUMPTIONS = ['the learner reads rows through the documented data interface']

TYPES = ['List', 'Matrix', 'Sparse', 'DataFrame']
KINDS = ['cross validation', 'cross validation', 'leave one out', 'leave one group out', 'leave one group out', 'proportion', 'data']


# ------------------------------------------------------------- generation
def gen(rng):
    n = rng.choice([2, 3, 4, 5, 6, 7, 9, 12, 17])
    c = {'kind': rng.choice(KINDS), 'n': n, 'type': rng.choice(TYPES), 'ytype': rng.choice(TYPES), 'view': rng.random() < 0.2, 'pn': rng.random() < 0.5,
         'fn': rng.random() < 0.6, 'extra': rng.randrange(0, 3), 'order': rng.randrange(10 ** 6), 'y': rng.choice(['object', 'object', 'name', 'index', 'npint', 'two']),
         'route': rng.choice(['direct', 'direct', 'direct', 'train', 'onTraining']), 'stream': rng.choice([None, rng.randrange(2 ** 31)]), 'sort': rng.choice([None, 'point', 'feature']),
         'seed': rng.choice([None, None, rng.randrange(1000)]), 'optimal': rng.choice(['min', 'max'])}
    if c['y'] == 'name' and not c['fn']:
        c['y'] = 'index'
    c['folds'] = rng.choice([1, 2, 2, 3, 4, n, max(1, n - 1)])
    c['folds'] = min(c['folds'], n)
    c['proportion'] = rng.choice([0.2, 0.34, 0.5, 0.8, 0.95])
    if c['kind'] == 'leave one group out':
        g = rng.randrange(1, min(n, 5) + 1)
        c['group'] = [rng.choice([rng.randrange(g), rng.randrange(g), None if rng.random() < 0.3 else 0]) for _ in range(n)]
        c['groupAs'] = rng.choice(['object', 'feature'])
        if c['y'] == 'two' and c['groupAs'] == 'feature':
            c['y'] = 'object'
    if c['route'] != 'direct' and c['y'] == 'two':
        c['y'] = 'object'
    if c['route'] == 'onTraining':
        c['kind'] = 'cross validation'
    steps = []
    for _ in range(rng.choice([1, 2, 2, 3, 5])):
        flt = None
        x = rng.random()
        if x < 0.25:
            flt = {'k': rng.choice([0, 1, 2, 3, 5, 8, 13]), 'kind': rng.choice(['error', 'interrupt'])}
        elif x < 0.4:
            flt = {'line': int(10 ** rng.uniform(1, 4.3))}
        steps.append([rng.randrange(4), flt])
    c['steps'] = steps
    return c


def explore(rng, ctx):
    ctx.execute(gen(rng))


def shrink(case):
    from sim.engine import generic_shrink
    yield from generic_shrink(case)


def label(i):
    return (i * 37 + 11) % 101 / 4


def rows(c):
    """[id, group, extra..., label(s)]; the id identifies the point."""
    r = random.Random(c['order'])
    ids = list(range(1, c['n'] + 1))
    r.shuffle(ids)
    group = c.get('group') or [0] * c['n']
    out = []
    for i, g in zip(ids, group):
        out.append([i, g] + [r.choice([0, 0, 1.5, None]) for _ in range(c['extra'])] + [label(i)])
    return out


# ------------------------------------------------------- inside the session
def setup(nimble, state):
    if 'rec' in state:
        return
    rec = state['rec'] = []

    def ids(obj):
        return [int(v[0]) for v in obj.copy('python list')]

    def names(obj):
        p = obj.points._getNamesNoGeneration()
        return None if p is None else list(p)

    def cells(obj):
        return [[None if v != v else v for v in row] for row in obj.copy('python list')]

    class Recorder(nimble.CustomLearner):
        """Remembers what it was trained with; its prediction depends on all of it."""
        learnerType = 'regression'

        def train(self, trainX, trainY, a=0):
            rec.append(['train', a, cells(trainX), cells(trainY), names(trainX), names(trainY)])
            lc.fault.point('train')
            self.code = sum(v * v for v in ids(trainX)) % 997 + a
            self.width = len(trainY.features)
            lc.fault.point('train-end')

        def apply(self, testX):
            rec.append(['apply', self.code, cells(testX), names(testX)])
            lc.fault.point('apply')
            return nimble.data([[(self.code * i + k) % 89 for k in range(self.width)] for i in ids(testX)], useLog=False)

    def make(optimal):
        def weird(known, predicted):
            a, b = known.copy('python list'), predicted.copy('python list')
            rec.append(['perf', a, b])
            lc.fault.point('performance')
            return measure(a, b)
        return nimble.calculate.performanceFunction(optimal, requires1D=False)(weird)
    state['perf'] = {o: make(o) for o in ('min', 'max')}
    state['learner'] = Recorder


def measure(a, b):
    """Depends on which prediction belongs to which label, not on their order."""
    s = [abs(x - y) for p, q in zip(a, b) for x, y in zip(p, q)]
    return round(sum(s) + 3 * max(s), 6) / len(s)


def op_make(nimble, state, c):
    from nimble.core import tune
    setup(nimble, state)
    lc.fault.off()
    if c['stream'] is not None:
        nimble.random.setSeed(c['stream'], useLog=False)
    data = rows(c)
    fn = ['id', 'group'] + [f'x{i}' for i in range(c['extra'])] + ['label'] if c['fn'] else False
    pn = [f'p{r[0]}' for r in data] if c['pn'] else False
    full = nimble.data([[float('nan') if v is None else v for v in r] for r in data], pointNames=pn, featureNames=fn, returnType=c['type'], useLog=False)
    q = len(data[0]) - 1
    group = full.features.copy(1, useLog=False)
    if c['y'] in ('object', 'two'):
        X = full.features.copy(list(range(q)), useLog=False)
        y = [[r[-1]] if c['y'] == 'object' else [r[-1], r[0] / 2] for r in data]
        Y = nimble.data(y, pointNames=pn, returnType=c['ytype'], useLog=False)
        if c['view']:
            X, Y = lc.within(X), lc.within(Y)
    else:
        X = lc.within(full) if c['view'] else full
        import numpy
        Y = {'name': 'label', 'index': q, 'npint': numpy.int64(q)}[c['y']]
    if c['sort'] and c['type'] == 'Sparse' and not c['view']:
        X._sortInternal(c['sort'])
    state.update(X=X, Y=Y)
    VX, VY = None, None
    if c['kind'] == 'data':
        v = [[100 + i, 0] + [1] * c['extra'] for i in range(3)]
        VX = nimble.data(v, returnType=c['type'], useLog=False)
        VY = nimble.data([[label(r[0])] if c['y'] != 'two' else [label(r[0]), r[0] / 2] for r in v], useLog=False)
    if c['route'] != 'direct':
        kw = {'validation': c['kind'], 'folds': c['folds'], 'proportion': c['proportion'], 'validateX': VX, 'validateY': VY}
        if c['kind'] == 'leave one group out':
            kw['foldFeature'] = ('group' if c['fn'] else 1) if c['groupAs'] == 'feature' else group
        state['tuningArgs'] = kw
        return 'ok'
    f, L, kw = state['perf'][c['optimal']], state['learner'], {'randomSeed': c['seed'], 'useLog': False}
    try:
        if c['kind'] == 'cross validation':
            v = tune.KFold(L, X, Y, f, folds=c['folds'], **kw)
        elif c['kind'] == 'leave one out':
            v = tune.LeaveOneOut(L, X, Y, f, **kw)
        elif c['kind'] == 'leave one group out':
            v = tune.LeaveOneGroupOut(L, X, Y, f, foldFeature=('group' if c['fn'] else 1) if c['groupAs'] == 'feature' else group, **kw)
        elif c['kind'] == 'proportion':
            v = tune.HoldoutProportion(L, X, Y, f, proportion=c['proportion'], **kw)
        else:
            v = tune.HoldoutData(L, X, Y, f, VX, VY, **kw)
    except nimble.exceptions.NimbleException as e:
        return type(e).__name__ + ': ' + str(e)
    state['validator'] = v
    return 'ok'


def op_step(nimble, state, c, args, flt):
    """One validation (or one training that tunes over 'args')."""
    rec = state['rec']
    del rec[:]
    flt = flt or {}
    lc.fault.arm(None)
    if 'k' in flt:
        lc.fault.arm(flt['k'], flt['kind'])
    L, f = state['learner'], state['perf'][c['optimal']]
    holder = {}

    def go():
        if c['route'] == 'direct':
            return state['validator'].validate({'a': args[0]})
        if c['route'] == 'onTraining':
            return nimble.trainAndTestOnTrainingData(L, f, state['X'], state['Y'], crossValidationFolds=c['folds'], arguments={'a': args[0]}, randomSeed=c['seed'], useLog=False)
        t = holder['t'] = nimble.Tuning('brute force', performanceFunction=f, **state['tuningArgs'])
        nimble.train(L, state['X'], state['Y'], {'a': nimble.Tune(args)}, tuning=t, randomSeed=c['seed'], useLog=False)
        return None
    val = None
    try:
        val = interrupted(go, {}, {'where': '/nimble/', 'k': flt['line']})[0] if 'line' in flt else go()
        out = 'ok'
    except SimInterrupt:
        out = 'line'
    except (KeyboardInterrupt, lc.Injected) as e:
        out = type(e).__name__
        e.__traceback__ = None
    except nimble.exceptions.NimbleException as e:
        out = 'refused ' + type(e).__name__ + ': ' + str(e)
        e.__traceback__ = None
    fired = lc.fault.fired
    lc.fault.off()
    rep = {'out': out, 'fired': fired, 'rec': [list(r) for r in rec], 'value': val}
    if out == 'ok' and c['route'] == 'train':
        t = holder['t']
        rep['results'] = list(zip(t.allArguments, t.allResults, t.deepResults or [None] * len(t.allResults)))
    if out == 'ok' and c['route'] == 'direct':
        v = state['validator']
        rep['stored'] = [len(v._results), v._results[-1], list(v._deepResults[-1]) if hasattr(v, '_deepResults') else None]
    return rep


OPS = {'make': op_make, 'step': op_step}


# -------------------------------------------------------------- the oracle
def check_validation(c, seq, args, base, kept, res, what):
    """seq: the calls of one complete validation; returns (score, fold scores, folds)."""
    kind = c['kind']
    folds = {'cross validation': c['folds'], 'leave one out': c['n'], 'proportion': 1, 'data': 1}.get(kind)
    groups = None
    if kind == 'leave one group out':
        groups = {}
        for i in kept:
            groups.setdefault(base[i][1], set()).add(i)
        folds = len(groups)
    cross = kind in ('cross validation', 'leave one out', 'leave one group out')
    per = 3
    if len(seq) != folds * per + (1 if cross else 0) or [r[0] for r in seq[:folds * per]] != ['train', 'apply', 'perf'] * folds or (cross and seq[-1][0] != 'perf'):
        res.violate('calls', f'{what}: calls were {[r[0] for r in seq]}, expected {folds} folds')
        return None
    feat = 1 + (0 if c['y'] in ('object', 'two') else 0)
    tested, scores, layout, pairs = [], [], [], []
    for k in range(folds):
        tr, ap, pf = seq[3 * k:3 * k + 3]
        if tr[1] != args:
            res.violate('arguments', f'{what}: fold {k} was trained with a={tr[1]}, expected {args}')
        train = [int(r[0]) for r in tr[2]]
        test = [int(r[0]) for r in ap[2]]
        if kind == 'data':
            if sorted(train) != sorted(kept) or test != [100, 101, 102]:
                res.violate('holdout-data', f'{what}: trained on {train}, tested on {test}')
                return None
        elif sorted(train + test) != sorted(kept):
            both = sorted(set(train) & set(test))
            res.violate('leak' if both else 'partition', f'{what}: fold {k} trained on {train} and tested on {test} of {sorted(kept)}')
            return None
        for r in tr[2] + (ap[2] if kind != 'data' else []):
            i = int(r[0])
            if len(r) != len(base[i]) - 1 or any(x != y for x, y in zip(r, base[i])):
                res.violate('rows', f'{what}: fold {k} was given point {i} as {r}, it is {base[i][:-1]}')
                return None
        for r, y in zip(tr[2], tr[3]):
            i = int(r[0])
            want = [label(i)] if c['y'] != 'two' else [label(i), i / 2]
            if y != want:
                res.violate('labels', f'{what}: fold {k} trained point {i} with label {y}, its own label is {want}')
                return None
        if len(tr[2]) != len(tr[3]):
            res.violate('labels', f'{what}: fold {k} has {len(tr[2])} points and {len(tr[3])} labels')
            return None
        if c['pn']:
            for nm, got in (('train', zip(tr[4] or [None] * len(train), train)), ('test', zip(ap[3] or [None] * len(test), test) if kind != 'data' else [])):
                for p, i in got:
                    if p != f'p{i}':
                        res.violate('names', f'{what}: fold {k} {nm} point {i} is named {p}')
                        return None
        code = sum(v * v for v in train) % 997 + args
        if ap[1] != code:
            res.violate('learner', f'{what}: fold {k} was predicted by a learner that was not trained in this fold')
        width = 2 if c['y'] == 'two' else 1
        known = [[label(i)] if width == 1 else [label(i), i / 2] for i in test]
        pred = [[(code * i + j) % 89 for j in range(width)] for i in test]
        if sorted(map(str, zip(pf[1], pf[2]))) != sorted(map(str, zip(known, pred))):
            res.violate('scored', f'{what}: fold {k} compared {list(zip(pf[1], pf[2]))[:4]}, expected {list(zip(known, pred))[:4]}')
            return None
        scores.append(measure(known, pred))
        pairs += list(zip(known, pred))
        tested += test
        layout.append(frozenset(test))
    if cross:
        if sorted(tested) != sorted(kept):
            res.violate('tested-once', f'{what}: tested {sorted(tested)} of {sorted(kept)}')
            return None
        sizes = sorted(len(s) for s in layout)
        if kind == 'cross validation' and sizes[-1] - sizes[0] > 1:
            res.violate('fold-sizes', f'{what}: folds of sizes {sizes}')
        if groups is not None and set(layout) != {frozenset(g) for g in groups.values()}:
            res.violate('groups', f'{what}: folds {layout}, groups {groups}')
        fin = seq[-1]
        if sorted(map(str, zip(fin[1], fin[2]))) != sorted(map(str, pairs)):
            res.violate('scored', f'{what}: the overall score compared {list(zip(fin[1], fin[2]))}, the predictions were {pairs}')
            return None
    elif kind == 'proportion' and len(tested) != int(c['proportion'] * c['n']):
        res.violate('proportion', f'{what}: {len(tested)} of {c["n"]} points held out, proportion {c["proportion"]}')
    total = measure([p[0] for p in pairs], [p[1] for p in pairs])
    return total, scores, layout


def near(a, b):
    return abs(a - b) < 1e-6 * max(1, abs(b))


def run(case, ctx, res):
    root = ctx.fresh()
    res.nontrivial = False
    c = case
    base = {r[0]: r for r in rows(c)}
    kept = [i for i in base if c['kind'] != 'leave one group out' or base[i][1] is not None]
    sess = Session(root, OPS, clock=(1.6e9, 0), rand=1, fresh=False)
    try:
        r = sess.start(armed=False)
        if not r.ok:
            raise RuntimeError(str(r['exc']))
        r = sess.call('make', _armed=False, c=c)
        what = f'{c["kind"]} ({c["route"]}, {c["type"]}, labels as {c["y"]})'
        if not r.ok:
            res.violate('call-failed', f'{what}: {r.exc["type"]}: {r.exc["msg"]}')
            return
        impossible = not kept or (c['kind'] == 'proportion' and int(c['proportion'] * c['n']) < 1)
        if r.value != 'ok':
            if not impossible:
                res.violate('refused', f'{what} of {len(kept)} points was refused: {r.value}')
            return
        layout, failed, done, maybe = None, False, 0, 0
        for n, (a, flt) in enumerate(c['steps']):
            args = [a] if c['route'] != 'train' else [a, a + 1, a + 5][:1 + a % 3]
            r = sess.call('step', _armed=False, c=c, args=args, flt=flt)
            res.steps += 1
            w = f'{what} step {n}'
            if not r.ok:
                res.violate('call-failed', f'{w}: {r.exc["type"]}: {r.exc["msg"]}')
                return
            rep = r.value
            res.note(n, rep['out'], [x[:2] for x in rep['rec'][:30]], rep['value'])
            res.states.add(f'{c["kind"]}/{c["route"]}/{c["type"]}/{c["y"]}/{rep["out"][:8]}')
            if rep['out'] == 'line':
                res.faults['interrupt at library line'] += 1
            elif rep['fired']:
                res.faults['learner or performance ' + flt['kind']] += 1
                if rep['out'] == 'ok':
                    res.violate('swallowed', f'{w}: the failure was not reported')
            elif rep['out'] != 'ok':
                if not impossible:
                    res.violate('refused', f'{w} of {len(kept)} points was refused: {rep["out"]}')
                return
            if rep['out'] != 'ok':
                failed = True
                # interrupted before or after its result was recorded
                maybe += rep['out'] == 'line'
                continue
            if failed:
                res.nontrivial = True
            done += 1
            rec = rep['rec']
            if c['route'] == 'direct' and c['kind'] == 'data':
                # the learner is only trained again when the arguments change
                if rec and rec[0][0] == 'apply':
                    continue
            got = []
            if c['route'] == 'direct':
                got = [check_validation(c, rec, args[0], base, kept, res, w)]
                if got[0] and not near(rep['value'], got[0][0]):
                    res.violate('score', f'{w}: the score is {rep["value"]}, the predictions score {got[0][0]}')
                if got[0] and (not done <= rep['stored'][0] <= done + maybe or not near(rep['stored'][1], got[0][0])):
                    res.violate('recorded', f'{w}: {rep["stored"][0]} results were recorded after {done} validations, the last is {rep["stored"][1]}')
                if got[0] and rep['stored'][2] is not None and not (len(rep['stored'][2]) == len(got[0][1]) and all(near(x, y) for x, y in zip(rep['stored'][2], got[0][1]))):
                    res.violate('fold-scores', f'{w}: fold scores {rep["stored"][2]}, the predictions score {got[0][1]}')
            elif c['route'] == 'onTraining':
                # train, apply, perf on all of the data, then the validation, then a training with all of the data
                got = [check_validation(c, rec[3:-1] if rec[-1][0] == 'train' else rec[3:], args[0], base, kept, res, w)]
                if got[0] and not near(rep['value'], got[0][0]):
                    res.violate('score', f'{w}: the score is {rep["value"]}, the predictions score {got[0][0]}')
            else:
                last = rec
                if c['kind'] != 'data':
                    fin, last = rec[-1], rec[:-1]
                    if fin[0] != 'train' or sorted(int(x[0]) for x in fin[2]) != sorted(base):
                        res.violate('final', f'{w}: the learner returned was not trained on all points')
                per = len(last) // len(args)
                for i, one in enumerate(args):
                    got.append(check_validation(c, last[i * per:(i + 1) * per], one, base, kept, res, f'{w} a={one}'))
                    if got[-1] is None:
                        break
                    mine = [x for x in rep['results'] if x[0]['a'] == one]
                    if len(mine) != 1 or not near(mine[0][1], got[-1][0]):
                        res.violate('score', f'{w}: for a={one} reports {mine}, the predictions score {got[-1][0]}')
                    elif mine[0][2] is not None and not all(near(x, y) for x, y in zip(mine[0][2], got[-1][1])):
                        res.violate('fold-scores', f'{w}: fold scores {mine[0][2]}, the predictions score {got[-1][1]}')
                layout = None
            for g in got:
                if g is None:
                    return
                if layout is not None and c['route'] != 'onTraining' and g[2] != layout:
                    res.violate('same-folds', f'{w}: argument sets are compared on different folds: {g[2]} and {layout}')
                layout = g[2]
                if len({len(s) for s in layout}) > 1:
                    res.nontrivial = True
            if res.violations:
                return
    finally:
        sess.kill()
