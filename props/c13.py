"""C13: learning operations never alter their inputs, even when they fail."""
from sim.session import CallFailed, Session, SimInterrupt, interrupted
from . import data_common as dc
from . import learn_common as lc

IN_PROCESS = True
LEVEL = 'fault_enumeration'
BUDGET = {'quick': {'seeds': 5500, 'wall': 150, 'min': 60},
          'thorough': {'seeds': 60000, 'wall': 3000, 'min': 60}}
RULE = ('A seed draws 1-4 learning operations (train, trainAndApply, trainAndTest, cross-validation, every tuning strategy and validation, retraining, '
        'incremental training, apply, test, scores, normalizeData, fillMatching) over List, Matrix, Sparse and DataFrame objects and views of larger '
        'objects, named and unnamed, with arguments including lists, data and nested learners. Each operation succeeds or fails: the k-th call of a '
        'learner or performance function raises or is interrupted, the arguments are refused, or the user interrupts at the k-th library line. All '
        'objects and arguments handed over are compared with snapshots, and after a success the results are modified and the inputs compared again. '
        'Non-trivial: a fault fired.')
STATES = '(operation, learner, data type, view, fault kind, outcome)'
REAL = ['nimble.train, trainAndApply, trainAndTest, trainAndTestOnTrainingData, normalizeData, fillMatching', 'TrainedLearner methods', 'tuning and validation',
        'custom, library and scikit-learn interfaces', 'all data types and views', 'scikit-learn']
STUBS = ['learners and performance functions with fault points', 'interrupts at chosen library lines', 'clock, kernel randomness']
ASSUMPTIONS = ['user-defined learners themselves do not modify what they are given',
               'fillMatching interrupted between two library lines is not judged (only its failing learners and functions)']
PRELOAD = ['sklearn.ensemble', 'sklearn.neighbors', 'sklearn.svm', 'sklearn.naive_bayes', 'sklearn.tree', 'sklearn.decomposition', 'sklearn.impute', 'sklearn.cross_decomposition']

NOCOPY = [('sklearn.LinearRegression', {'copy_X': False}), ('sklearn.Ridge', {'copy_X': False}), ('sklearn.Lasso', {'copy_X': False, 'alpha': 0.1}),
          ('sklearn.PLSRegression', {'copy': False, 'n_components': 1}), ('sklearn.KNeighborsRegressor', {'n_neighbors': 2}),
          ('sklearn.AdaBoostRegressor', {'estimator': {'Init': 'DecisionTreeRegressor', 'max_depth': 1}, 'n_estimators': 2}),
          ('sklearn.Ridge', {'sample_weight': 'list'}), ('Listy', {'weights': [3, 1, 2]})]
SCALERS = [('sklearn.StandardScaler', {'copy': False}), ('sklearn.MinMaxScaler', {'copy': False}), ('sklearn.PCA', {'copy': False}), ('sklearn.Normalizer', {'copy': False}),
           ('sklearn.RobustScaler', {'copy': False}), ('sklearn.StandardScaler', {}), ('sklearn.MaxAbsScaler', {'copy': False}), ('Scaler', {'by': 3}), ('Shrinker', {})]
FILLERS = [('sklearn.SimpleImputer', {}), ('sklearn.SimpleImputer', {'copy': False}), ('nimble.KNNImputation', {'k': 2, 'mode': 'regression'}),
           ('sklearn.KNNImputer', {'n_neighbors': 2}), ('Filler', {}), ('Filler', {'short': 1})]
KINDS = ['train', 'train', 'trainAndApply', 'trainAndTest', 'onTraining', 'retrain', 'incremental', 'tune', 'tune', 'normalize', 'normalize', 'fill', 'fill', 'apply', 'test', 'scores']


def preload():
    import nimble
    nimble.settings.set('logger', 'enabledByDefault', 'False')
    try:
        nimble.learnerNames('sklearn')
    except Exception:                                    # pylint: disable=broad-except
        pass


def gen_op(rng):
    kind = rng.choice(KINDS)
    if kind == 'fill':
        name, args = rng.choice(FILLERS)
        d = lc.dspec(rng, labels='float')
        d.update(nan=True, f=max(2, d['f']))
        return {'op': 'fill', 'learner': name, 'args': dict(args), 'd': d, 'match': rng.choice(['missing', 'missing', 'zero', 'func', 'matrix', 'column']), 'limit': rng.choice([None, None, 'points', 'features']), 'seed': None}
    if kind == 'normalize':
        name, args = rng.choice(SCALERS)
        return {'op': 'normalize', 'learner': name, 'args': dict(args), 'd': lc.dspec(rng, f=3, labels='float'), 'test': rng.random() < 0.7, 'seed': rng.choice([None, 3]), 'y': 'obj'}
    op = lc.gen_op(rng, [kind if kind not in ('apply', 'test', 'scores') else 'train'], seed='maybe')
    op['op'] = kind
    if kind in ('train', 'trainAndApply', 'trainAndTest', 'onTraining', 'retrain', 'apply', 'test') and rng.random() < 0.4:
        name, args = rng.choice(NOCOPY + [('sklearn.StandardScaler', {'copy': False})] * (kind in ('train', 'apply')))
        op.update(learner=name, args=dict(args), clf=False, strategy='default', mode=None, perf='rootMeanSquareError', d=lc.dspec(rng, labels='float'))
    if kind == 'scores':
        op.update(learner=rng.choice(['Majority', 'sklearn.LogisticRegression', 'sklearn.GaussianNB', 'sklearn.RandomForestClassifier']), args={}, clf=True, d=lc.dspec(rng, labels='int'), mode=rng.choice([None, 'bestScore', 'allScores']))
    if kind == 'test':
        op['perf'] = op['perf'] if not op['clf'] else 'fractionIncorrect'
    return op


def gen(rng):
    steps = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        op = gen_op(rng)
        if rng.random() < 0.35:
            op['d']['view'] = True
        fault = None
        r = rng.random()
        if r < 0.25:
            fault = {'k': rng.choice([0, 0, 1, 1, 2, 3, 4, 6, 9]), 'kind': rng.choice(['error', 'error', 'interrupt'])}
        elif r < 0.45 and op['op'] != 'fill':
            fault = {'line': int(10 ** rng.uniform(0.5, 4.2))}
        elif r < 0.52:
            fault = {'bad': rng.choice(['unknown', 'shape'])}
        steps.append([op, fault])
    return {'ops': steps}


def explore(rng, ctx):
    ctx.execute(gen(rng))


def shrink(case):
    from sim.engine import generic_shrink
    yield from generic_shrink(case)
    for i, s in enumerate(case['ops']):
        if s[1]:
            c = dict(case, ops=list(case['ops']))
            c['ops'][i] = [s[0], None]
            yield c


# ------------------------------------------------------- inside the session
def extra(nimble, state):
    L = lc.learners(nimble, state)
    if 'Shrinker' in L:
        return L
    p = lc.fault.point

    class Shrinker(nimble.CustomLearner):
        """Hands back what it was given, or an object it keeps."""
        learnerType = 'transformation'

        def train(self, trainX, trainY=None):
            p('train')
            self.kept = trainX

        def apply(self, testX):
            p('apply')
            return testX if len(testX.points) % 2 else testX.features.copy(range(len(testX.features)), useLog=False)

    class Listy(nimble.CustomLearner):
        learnerType = 'regression'

        def train(self, trainX, trainY, weights=()):
            p('train')
            self.w = sorted(weights)
            p('train-end')

        def apply(self, testX):
            p('apply')
            return nimble.data([[sum(self.w) + i] for i in range(len(testX.points))], useLog=False)

    class Filler(nimble.CustomLearner):
        learnerType = 'transformation'

        def train(self, trainX, trainY=None, short=0):
            p('train')
            self.short = short

        def apply(self, testX):
            p('apply')
            rows = [[5.0 if v != v else v for v in r] for r in testX.copy('python list')]
            p('apply-end')
            if self.short:                               # a result of another shape
                rows = [r[:-1] for r in rows]
            return nimble.data(rows, useLog=False)
    L.update(Shrinker=Shrinker, Listy=Listy, Filler=Filler)
    return L


class Watch:
    """Snapshots of everything handed to the library."""

    def __init__(self):
        self.items = []

    def add(self, name, obj):
        self.items.append([name, obj, self.look(obj)])
        src = getattr(obj, '_source', None)
        if src is not None:
            self.items.append([name + ' (viewed object)', src, self.look(src)])

    def look(self, obj):
        if hasattr(obj, 'points'):
            return dc.snap(obj)
        if isinstance(obj, dict):
            return {str(k): repr(self.look(v)) for k, v in obj.items()}
        if isinstance(obj, (list, tuple)):
            return {'items': [repr(self.look(v)) for v in obj]}
        if type(obj).__name__ == 'Init':
            return {'init': obj.name, 'kw': repr(sorted(obj.kwargs.items()))}
        if type(obj).__name__ == 'Tune':
            return {'tune': repr(list(obj)) if hasattr(obj, '__iter__') else repr(obj)}
        return {'value': repr(obj)}

    def changes(self, skip=()):
        out = []
        for name, obj, before in self.items:
            if name in skip:
                continue
            try:
                now = self.look(obj)
            except Exception as e:                       # pylint: disable=broad-except
                out.append(f'{name} is unusable: {type(e).__name__}: {e}')
                continue
            if now != before:
                ks = dc.differ(before, now)
                out.append(f'{name} changed in {ks[:3]}: ' + '; '.join(f'{str(before.get(k))[:140]} -> {str(now.get(k))[:140]}' for k in ks[:2]))
        return out


def realise(nimble, args, n):
    out = {}
    for k, v in args.items():
        if isinstance(v, dict) and 'Init' in v:
            v = nimble.Init(v['Init'], **{a: b for a, b in v.items() if a != 'Init'})
        elif v == 'list' and k == 'sample_weight':
            v = [1.0 + i % 3 for i in range(n)]
        elif isinstance(v, list):
            v = list(v)
        out[k] = v
    return out


def prepare(nimble, state, op, bad):
    """(call, watch, modified): everything is made and snapshot before any fault can happen."""
    extra(nimble, state)
    w = Watch()
    kind, seed, d = op['op'], op['seed'], op['d']
    L = lc.learner(nimble, state, op['learner'])
    args = realise(nimble, op['args'], d['n'])
    if bad == 'unknown':
        args['nosuchargument'] = 1
    w.add('arguments', args)
    for k, v in args.items():
        if isinstance(v, list) or type(v).__name__ == 'Init':
            w.add('argument ' + k, v)
    td = dict(d, seed=d['seed'] + 1, n=6, f=d['f'] + (1 if bad == 'shape' else 0))
    if kind == 'fill':
        X = lc.make(nimble, d)[0]
        if hasattr(X, '_source'):
            X = lc.make(nimble, dict(d, view=False))[0]  # views cannot be modified
        if op['match'] == 'column':
            X.features.fillMatching(float('nan'), lambda v: True, features=0, useLog=False)
        m = {'missing': nimble.match.missing, 'zero': nimble.match.zero, 'func': lambda v: v == 1.0, 'column': nimble.match.missing}.get(op['match'])
        if op['match'] == 'matrix':
            m = X.matchingElements(lambda v: v != v, useLog=False)
            w.add('matchingElements', m)
        elif op['match'] == 'func':
            f0 = m

            def m(v):
                lc.fault.point('match')
                return f0(v)
        w.add('trainX', X)
        kw = {} if op['limit'] is None else {op['limit']: 0}
        return (lambda: nimble.fillMatching(L, m, X, args, useLog=False, **kw)), w, ['trainX']
    if kind == 'normalize':
        X = lc.make(nimble, d)[0]
        T = lc.make(nimble, td)[0] if op['test'] else None
        X.name = 'first'
        w.add('trainX', X)
        if T is not None:
            w.add('testX', T)
        return (lambda: nimble.normalizeData(L, X, testX=T, arguments=args, randomSeed=seed, useLog=False)), w, []
    X, Y = lc.xy(nimble, d, op.get('y', 'obj'))
    w.add('trainX', X)
    if op.get('y', 'obj') == 'obj':
        w.add('trainY', Y)
    joint = op.get('ty') == 'id' and kind in ('trainAndTest', 'test')
    T, TY = lc.xy(nimble, td, 'id' if joint else 'obj')
    w.add('testX', T)
    if not joint:
        w.add('testY', TY)
    kw = dict(randomSeed=seed, useLog=False)
    fn = lc.perf(nimble, op['perf'])
    if kind == 'train':
        return (lambda: nimble.train(L, X, Y, args, multiClassStrategy=op['strategy'], **kw).apply(T, scoreMode=op['mode'], useLog=False)), w, []
    if kind == 'trainAndApply':
        return (lambda: nimble.trainAndApply(L, X, Y, T, args, scoreMode=op['mode'], multiClassStrategy=op['strategy'], **kw)), w, []
    if kind == 'trainAndTest':
        return (lambda: nimble.trainAndTest(L, fn, X, Y, T, TY, args, **kw)), w, []
    if kind == 'onTraining':
        return (lambda: nimble.trainAndTestOnTrainingData(L, fn, X, Y, crossValidationFolds=op['folds'], arguments=args, **kw)), w, []
    if kind == 'tune':
        full = dict(args)
        for k, v in op['tune'].items():
            v = list(v)
            w.add('values of ' + k, v)
            full[k] = nimble.Tune(v)
        w.add('arguments', full)
        kw2 = {}
        if op['validation'] == 'leave one group out':
            gap = [0, 4, 7][d['seed'] % 3]               # points without a group take no part
            kw2['foldFeature'] = 0 if len(X.features) > 2 else nimble.data([[None if gap and i % gap == 1 else i % 3] for i in range(len(X.points))], pointNames=[f'g{i}' for i in range(len(X.points))], useLog=False)
            if kw2['foldFeature'] != 0:
                w.add('foldFeature', kw2['foldFeature'])
        t = nimble.Tuning(selection=op['selection'], validation=op['validation'], performanceFunction=fn, folds=op['folds'], validateX=T, validateY=TY, proportion=0.3, maxIterations=3, **kw2)
        return (lambda: nimble.train(L, X, Y, full, tuning=t, **kw).apply(T, useLog=False)), w, []
    # the others need a trained learner first
    A, B = lc.make(nimble, dict(d, view=False))
    first = realise(nimble, op['args'], d['n'])
    try:
        tl = nimble.train(L, A, B, first, randomSeed=3, useLog=False)
    except Exception:                                    # pylint: disable=broad-except
        return None, w, []
    if 'sample_weight' in args:
        args.pop('sample_weight')
        w.items = [x for x in w.items if 'argument' not in x[0]]
        w.add('arguments', args)
    if kind == 'retrain':
        return (lambda: tl.retrain(X, Y, args, **kw)), w, []
    if kind == 'incremental':
        return (lambda: tl.incrementalTrain(X, Y, args, **kw)), w, []
    if kind == 'apply':
        return (lambda: tl.apply(T, useLog=False)), w, []
    if kind == 'test':
        return (lambda: tl.test(fn, T, TY, useLog=False)), w, []
    if kind == 'scores':
        return (lambda: tl.getScores(T) if op['mode'] is None else tl.apply(T, scoreMode=op['mode'], useLog=False)), w, []
    raise KeyError(kind)


def spoil(out):
    """Modify a result the caller received."""
    if isinstance(out, (list, tuple)):
        return sum(spoil(o) for o in out)
    if hasattr(out, 'points') and hasattr(out, 'transformElements'):
        try:
            out.transformElements(lambda v: 991, useLog=False)
            out.points.setNames([f'new{i}' for i in range(len(out.points))], useLog=False)
            out.features.setNames([f'mod{i}' for i in range(len(out.features))], useLog=False)
            out.name = 'spoiled'
            return 1
        except TypeError:
            return 0
    return 0


def op_run(nimble, state, spec, fault):
    lc.fault.arm(None)
    fault = fault or {}
    func, w, modified = prepare(nimble, state, spec, fault.get('bad'))
    if func is None:
        return 'skipped', 0, [], 0
    if 'k' in fault:
        lc.fault.arm(fault['k'], fault['kind'])
    val = None
    try:
        if 'line' in fault:
            val, _ = interrupted(func, {}, {'where': '/nimble/', 'k': fault['line']})
        else:
            val = func()
        out = 'ok'
    except SimInterrupt:
        out = 'line'
    except KeyboardInterrupt:
        out = 'interrupt'
    except Exception as e:                               # pylint: disable=broad-except
        out = type(e).__name__ + ': ' + str(e)[:80]
        e.__traceback__ = None
    fired = lc.fault.fired
    lc.fault.off()
    bad = w.changes(modified if out == 'ok' else ())
    spoiled = 0
    if out == 'ok' and not bad:
        w.items = [x for x in w.items if x[0] not in modified]
        spoiled = spoil(val)
        bad = ['modifying the result: ' + b for b in w.changes()]
    return out, fired, bad, spoiled


OPS = {'run': op_run}


# -------------------------------------------------------------- the oracle
def run(case, ctx, res):
    root = ctx.fresh()
    res.nontrivial = False
    sess = Session(root, OPS, clock=(1.6e9, 0), rand=1, fresh=False)
    try:
        r = sess.start(armed=False)
        if not r.ok:
            raise RuntimeError(str(r['exc']))
        for i, (op, fault) in enumerate(case['ops']):
            r = sess.call('run', _armed=False, spec=op, fault=fault)
            if not r.ok:
                res.violate('call-failed', f'{op} {fault}: {r["exc"]}')
                raise CallFailed()
            res.steps += 1
            out, fired, bad, spoiled = r.value
            desc = f'step {i} {op["op"]} {op["learner"]} on {op["d"]["type"]}{" view" if op["d"].get("view") else ""} fault={fault} -> {out}'
            if fired:
                res.faults['user function ' + fault['kind']] += 1
            elif out == 'line':
                res.faults['interrupt at library line'] += 1
            elif out not in ('ok', 'skipped'):
                res.faults['refused or failed'] += 1
            if out not in ('ok', 'skipped'):
                res.nontrivial = True
            if spoiled:
                res.counts['results modified'] += 1
            res.counts[f'{op["op"]} {out if out in ("ok", "skipped") else "failed"}'] += 1
            fk = 'user' if fired else 'line' if out == 'line' else None
            res.states.add(f'{op["op"]}/{op["learner"]}/{op["d"]["type"]}/{op["d"].get("view", False)}/{fk}/{out[:12]}')
            res.note(i, desc, spoiled)
            for b in bad:
                res.violate(op['op'], f'{desc}: {b}')
            if res.violations:
                return
    finally:
        sess.kill()
