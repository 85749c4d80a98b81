"""Shared pieces of the learning simulations: training data and learners made
from small specifications, a fault point inside user-supplied code, and a
canonical (comparable) form of whatever an operation returns."""
import math
import random

from . import data_common as dc

TYPES = ['List', 'Matrix', 'Sparse', 'DataFrame']


class Injected(Exception):
    """Raised from inside a learner, performance function or callback."""


class Fault:
    """Raises at the k-th call of a user-supplied function (k from 0), as an
    ordinary error or as an interrupt."""

    def __init__(self):
        self.k, self.kind, self.calls, self.fired, self.where = None, 'error', 0, 0, []
        self.probe, self.probed = None, []

    def arm(self, k, kind='error'):
        self.k, self.kind, self.calls, self.fired, self.where, self.probed = k, kind, 0, 0, [], []

    def off(self):
        self.k = None

    def point(self, where=''):
        self.calls += 1
        if len(self.where) < 200:
            self.where.append(where)
        if self.k is not None and self.calls - 1 == self.k:
            self.fired += 1
            if self.kind == 'probe':
                try:
                    self.probed.append([where, self.probe()])
                except Exception as e:               # pylint: disable=broad-except
                    self.probed.append([where, type(e).__name__])
                return
            if self.kind == 'interrupt':
                raise KeyboardInterrupt('injected interrupt')
            raise Injected('injected failure in ' + where)


fault = Fault()


# ------------------------------------------------------------------- data
def dspec(rng, types=TYPES, n=None, f=None, labels=None, maxn=24):
    labels = labels or rng.choice(['int', 'int', 'float', 'str'])
    return {'type': rng.choice(types), 'n': n or rng.randrange(8, maxn), 'f': f or rng.randrange(1, 5), 'seed': rng.randrange(10 ** 6),
            'labels': labels, 'classes': rng.choice([2, 3, 3, 4]), 'pn': rng.random() < 0.5, 'fn': rng.random() < 0.5}


def rows(d):
    r = random.Random(d['seed'])
    classes = d['classes']
    x = [[round(r.uniform(-3, 3), 3) if r.random() < 0.8 else r.choice([0.0, 1.0, -2.0]) for _ in range(d['f'])] for _ in range(d['n'])]
    if d.get('nan'):
        for row in x:
            if r.random() < 0.3:
                row[r.randrange(len(row))] = float('nan')
    y = [i % classes for i in range(d['n'])]
    r.shuffle(y)
    if d.get('only'):
        y = [v if v in d['only'] else d['only'][v % len(d['only'])] for v in y]
    if d['labels'] == 'float':
        y = [round(sum(row) * 0.5 + r.uniform(-1, 1), 3) if not any(v != v for v in row) else 1.0 for row in x]
    elif d['labels'] == 'str':
        y = [['red', 'green', 'blue', 'odd'][v] for v in y]
    if d.get('outputs', 1) == 2:
        return x, [[v, round(2.0 - v + row[0], 3)] for v, row in zip(y, x)]
    return x, [[v] for v in y]


def make(nimble, d, part='both'):
    """(X, Y) as nimble objects; part 'joined' puts the labels in the last feature of one object.
    With d['view'] each object is a view of a larger one."""
    if d.get('view'):
        out = make(nimble, dict(d, view=False), part)
        return within(out) if part == 'joined' else tuple(within(o) for o in out)
    x, y = rows(d)
    pn = [f'pt{i}' for i in range(d['n'])] if d['pn'] else False
    fn = [f'ft{i}' for i in range(d['f'])] if d['fn'] else False
    labels = [d.get('label', 'label'), 'label2'][:d.get('outputs', 1)] if d['fn'] else False
    if part == 'joined':
        fn = fn + labels if fn else False
        t = d['type'] if d['labels'] != 'str' or d['type'] != 'Sparse' else 'List'
        return nimble.data([a + b for a, b in zip(x, y)], pointNames=pn, featureNames=fn, returnType=t, useLog=False)
    X = nimble.data(x, pointNames=pn, featureNames=fn, returnType=d['type'], useLog=False)
    t = d['type'] if d['labels'] != 'str' or d['type'] != 'Sparse' else 'List'
    Y = nimble.data(y, pointNames=pn, featureNames=labels, returnType=t, useLog=False)
    return X, Y


def xy(nimble, d, how):
    """(X, Y) where Y is an object ('obj'), or the index or name of a feature of X."""
    if how == 'obj':
        return make(nimble, d)
    return make(nimble, d, 'joined'), d.get('label', 'label') if how == 'name' and d['fn'] else d['f']


def within(obj):
    """The same content as a view of a larger object."""
    big = obj.copy()
    for name in ('before', 'after'):
        extra = obj.points.copy([0], useLog=False)
        if extra.points._getNamesNoGeneration() is not None:
            extra.points.setNames([name], useLog=False)
        big.points.append(extra, useLog=False)
    n = len(big.points)
    big.points.permute([n - 2] + list(range(n - 2)) + [n - 1], useLog=False)
    return big.view(pointStart=1, pointEnd=n - 2)


# --------------------------------------------------------------- learners
def learners(nimble, state):
    """User-defined learners (made once per session)."""
    if 'learners' in state:
        return state['learners']

    def floats(obj):
        return [[float(v) if not isinstance(v, str) else float(len(v)) for v in r] for r in obj.copy('python list')]

    class Noisy(nimble.CustomLearner):
        """Uses the library's random streams while training and applying."""
        learnerType = 'regression'

        def train(self, trainX, trainY, shift=0, draws=2):
            fault.point('train')
            self.w = [nimble.random.pythonRandom.random() for _ in range(draws)] + list(nimble.random.numpyRandom.rand(draws))
            fault.point('train-mid')
            self.base = sum(r[0] for r in floats(trainY)) / len(trainY.points) + shift
            fault.point('train-end')

        def apply(self, testX, scale=1):
            fault.point('apply')
            out = [[self.base * scale + sum(r) * self.w[0] + sum(self.w[1:])] for r in floats(testX)]
            fault.point('apply-end')
            return nimble.data(out, useLog=False)

    class Weighted(nimble.CustomLearner):
        """A deterministic regression with several arguments."""
        learnerType = 'regression'

        def train(self, trainX, trainY, a=1, b=2, c=0):
            fault.point('train')
            self.a, self.b, self.c = a, b, c
            self.mean = sum(r[0] for r in floats(trainY)) / len(trainY.points)
            fault.point('train-end')
            self.xmean = sum(sum(r) for r in floats(trainX)) / len(trainX.points)

        def apply(self, testX, d=0):
            fault.point('apply')
            return nimble.data([[self.mean * self.a + self.b * sum(r) - self.xmean + self.c + d] for r in floats(testX)], useLog=False)

    class Majority(nimble.CustomLearner):
        """A classifier with scores; the label counts may grow."""
        learnerType = 'classification'

        def train(self, trainX, trainY, bias=0):
            fault.point('train')
            self.counts = {}
            self.bias = bias
            self._count(trainY)
            fault.point('train-end')

        def _count(self, trainY):
            for r in trainY.copy('python list'):
                self.counts[r[0]] = self.counts.get(r[0], 0) + 1

        def incrementalTrain(self, trainX, trainY, bias=0):
            fault.point('incremental')
            self.bias = bias
            self._count(trainY)
            fault.point('incremental-end')

        def _pick(self, row):
            order = sorted(self.counts, key=str)
            k = int(abs(sum(row)) * 7 + self.bias) % sum(self.counts.values())
            for lab in order:
                k -= self.counts[lab]
                if k < 0:
                    return lab
            return order[-1]

        def apply(self, testX):
            fault.point('apply')
            return nimble.data([[self._pick(r)] for r in floats(testX)], useLog=False)

        def getScores(self, testX):
            fault.point('scores')
            out = []
            for r in floats(testX):
                best = self._pick(r)
                out.append([float(self.counts[lab]) + (100.0 if lab == best else 0.0) for lab in sorted(self.counts, key=str)])
            return nimble.data(out, useLog=False)

    class Online(nimble.CustomLearner):
        """Learns a running value; training again continues it. Random."""
        learnerType = 'regression'

        def train(self, trainX, trainY, rate=0.5):
            fault.point('train')
            self.value, self.seen = 0.0, 0
            self.incrementalTrain(trainX, trainY, rate)

        def incrementalTrain(self, trainX, trainY, rate=0.5):
            fault.point('incremental')
            m = sum(r[0] for r in floats(trainY)) / len(trainY.points)
            self.value = self.value * (1 - rate) + rate * m + nimble.random.pythonRandom.random() * 0.001
            fault.point('incremental-end')
            self.seen += len(trainX.points)

        def apply(self, testX):
            fault.point('apply')
            return nimble.data([[self.value + self.seen + sum(r)] for r in floats(testX)], useLog=False)

    class Scaler(nimble.CustomLearner):
        """A transformation."""
        learnerType = 'transformation'

        def train(self, trainX, trainY=None, by=2):
            fault.point('train')
            self.by = by

        def apply(self, testX):
            fault.point('apply')
            return nimble.data([[v * self.by if v == v else 0.0 for v in r] for r in floats(testX)], useLog=False)

    class Mystery(nimble.CustomLearner):
        """Does not say what it is; trying it out tells."""
        learnerType = 'undefined'

        def train(self, trainX, trainY, power=1):
            fault.point('train')
            self.x, self.y = floats(trainX), floats(trainY)
            self.power = power

        def apply(self, testX):
            fault.point('apply')
            return nimble.data([self.y[min(range(len(self.x)), key=lambda i: sum(abs(a - b) ** self.power for a, b in zip(self.x[i], r)))] for r in floats(testX)], useLog=False)

    state['learners'] = {'Mystery': Mystery, 'Noisy': Noisy, 'Weighted': Weighted, 'Majority': Majority, 'Online': Online, 'Scaler': Scaler}
    return state['learners']


def learner(nimble, state, name):
    return learners(nimble, state).get(name, name)


def perf(nimble, name):
    """Performance functions: library ones and user-defined ones with a fault point."""
    import nimble.calculate as c
    if name == 'user-min':
        def userMin(known, predicted):
            fault.point('performance')
            a, b = known.copy('python list'), predicted.copy('python list')
            return sum(abs(float(x[0]) - float(y[0])) for x, y in zip(a, b)) / len(a)
        userMin.optimal = 'min'
        userMin.avoidFolds = False
        return c.performanceFunction('min')(userMin)
    if name == 'user-max':
        def userMax(known, predicted):
            fault.point('performance')
            a, b = known.copy('python list'), predicted.copy('python list')
            return sum(1.0 for x, y in zip(a, b) if x[0] == y[0]) / len(a)
        return c.performanceFunction('max')(userMax)
    if name == 'user-undeclared':
        def userUndeclared(known, predicted):
            fault.point('performance')
            a, b = known.copy('python list'), predicted.copy('python list')
            return sum(1.0 for x, y in zip(a, b) if x[0] != y[0]) / len(a)
        userUndeclared.predict = c.fractionIncorrect.predict
        return userUndeclared
    return getattr(c, name)


# -------------------------------------------------------------- canonical
def canon(x):
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, (int, float)):
        return dc.cell(x)
    if isinstance(x, dict):
        return sorted([[str(k), canon(v)] for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if hasattr(x, 'points') and hasattr(x, 'features'):
        s = dc.logical(x)
        s['type'] = x.getTypeString()
        return s
    if hasattr(x, 'tolist'):
        return canon(x.tolist())
    return dc.cell(x) if not callable(x) else getattr(x, '__name__', str(type(x)))


# -------------------------------------------------------------- operations
REGRESSORS = [('Noisy', {}), ('Noisy', {'draws': 3, 'shift': 1}), ('Weighted', {'a': 2}), ('Online', {'rate': 0.25}),
              ('sklearn.RandomForestRegressor', {'n_estimators': 3}), ('sklearn.SGDRegressor', {}), ('nimble.RidgeRegression', {'lamb': 0.5}),
              ('sklearn.DecisionTreeRegressor', {'splitter': 'random'}), ('sklearn.Ridge', {})]
CLASSIFIERS = [('Majority', {}), ('nimble.KNNClassifier', {'k': 3}), ('sklearn.RandomForestClassifier', {'n_estimators': 3}),
               ('sklearn.LogisticRegression', {}), ('sklearn.SGDClassifier', {}), ('sklearn.KNeighborsClassifier', {'n_neighbors': 3}),
               ('sklearn.DecisionTreeClassifier', {'splitter': 'random'}), ('sklearn.SVC', {}), ('sklearn.GaussianNB', {})]
MULTI = [('nimble.MultiOutputRidgeRegression', {'lamb': 0.5}), ('nimble.MultiOutputLinearRegression', {}), ('sklearn.LinearRegression', {}),
         ('sklearn.RandomForestRegressor', {'n_estimators': 2}), ('sklearn.KNeighborsRegressor', {'n_neighbors': 2}), ('Mystery', {})]
TUNABLE = {'nimble.MultiOutputRidgeRegression': {'lamb': [0.1, 1, 5]}, 'sklearn.KNeighborsRegressor': {'n_neighbors': [1, 2]}, 'Mystery': {'power': [1, 2]},
           'Noisy': {'draws': [1, 2, 3], 'shift': [0, 1]}, 'Weighted': {'a': [1, 2, 3], 'b': [0, 1]}, 'Online': {'rate': [0.1, 0.5]},
           'sklearn.RandomForestRegressor': {'n_estimators': [2, 3]}, 'nimble.RidgeRegression': {'lamb': [0, 0.5, 2]},
           'Majority': {'bias': [0, 1, 2]}, 'nimble.KNNClassifier': {'k': [1, 3, 5]}, 'sklearn.RandomForestClassifier': {'n_estimators': [2, 4]},
           'sklearn.KNeighborsClassifier': {'n_neighbors': [1, 2, 3]}}
SEEDED = ['data', 'train', 'trainAndApply', 'trainAndTest', 'onTraining', 'retrain', 'incremental', 'tune', 'normalize']
UNSEEDED = ['permute', 'sample', 'sets', 'detect', 'subseed', 'learnerType']


def gen_op(rng, kinds=None, seed='maybe', types=TYPES):
    kind = rng.choice(kinds or SEEDED + UNSEEDED)
    s = rng.choice([0, 1, 7, 42, 2 ** 32 - 1, rng.randrange(2 ** 32)])
    op = {'op': kind, 'seed': s if seed == 'always' or (seed == 'maybe' and rng.random() < 0.6) else None}
    if kind == 'data':
        op.update(p=rng.randrange(1, 8), f=rng.randrange(1, 6), sparsity=rng.choice([0, 0, 0.3, 0.9]), elem=rng.choice(['int', 'float']), type=rng.choice(types))
        return op
    if kind in ('permute', 'sample', 'sets'):
        op.update(d=dspec(rng, types), axis=rng.choice(['points', 'features']), frac=rng.choice([0.2, 0.5]), how=rng.choice(['copy', 'extract', 'delete', 'retain']))
        op['seed'] = None
        return op
    if kind in ('subseed', 'detect', 'learnerType'):
        op['seed'] = None
        op['fn'] = rng.choice(['user-undeclared', 'user-min', 'fractionIncorrect', 'rSquared'])
        op['learner'] = rng.choice(['nimble.KNNClassifier', 'sklearn.KMeans', 'sklearn.Ridge', 'Majority', 'Weighted', 'Mystery', 'Mystery'])
        return op
    if kind == 'normalize':
        op.update(learner='Scaler' if rng.random() < 0.4 else rng.choice(['sklearn.StandardScaler', 'sklearn.PCA']), args={}, d=dspec(rng, types, f=3), test=rng.random() < 0.5)
        return op
    clf = rng.random() < 0.5
    name, args = rng.choice(CLASSIFIERS if clf else REGRESSORS)
    labels = rng.choice(['int', 'int', 'str'] if name in ('nimble.KNNClassifier', 'sklearn.RandomForestClassifier', 'sklearn.DecisionTreeClassifier', 'sklearn.SVC') else ['int']) if clf else 'float'
    if kind == 'incremental':
        name, args, labels = rng.choice([('Online', {'rate': 0.5}, 'float'), ('Majority', {}, 'int')])
        clf = name == 'Majority'
    op.update(learner=name, args=dict(args), d=dspec(rng, types, labels=labels), clf=clf, strategy='default', mode=None, y=rng.choice(['obj', 'obj', 'id', 'name']), ty=rng.choice(['obj', 'obj', 'id']))
    op['perf'] = rng.choice(['fractionIncorrect', 'user-max', 'user-undeclared'] if clf and labels == 'int' else ['fractionIncorrect', 'fractionCorrect'] if clf else ['rootMeanSquareError', 'meanAbsoluteError', 'user-min'])
    if not clf and kind in ('train', 'trainAndApply', 'trainAndTest', 'onTraining', 'retrain', 'tune') and rng.random() < 0.16:
        op['learner'], args = rng.choice(MULTI)
        op.update(args=dict(args), y='obj', ty='obj', perf='meanFeaturewiseRootMeanSquareError', strategy=None)
        op['d']['outputs'] = 2
        name = op['learner']
    if clf and op['d']['classes'] > 2 and kind in ('train', 'trainAndApply') and rng.random() < 0.35:
        op['strategy'] = rng.choice(['OneVsAll', 'OneVsOne'])
    if clf and kind in ('train', 'trainAndApply') and rng.random() < 0.4:
        op['mode'] = rng.choice(['bestScore', 'allScores'])
    if kind == 'tune':
        if name not in TUNABLE:
            op['learner'] = name = 'Majority' if clf else 'Noisy'
            op['args'] = {}
            op['d']['labels'] = 'int' if clf else 'float'
            op['perf'] = 'fractionIncorrect' if clf else 'rootMeanSquareError'
            op['d'].pop('outputs', None)
            op['strategy'] = 'default'
        choices = TUNABLE[name]
        keys = rng.sample(sorted(choices), rng.randrange(1, len(choices) + 1))
        op['tune'] = {k: choices[k] for k in keys}
        op['args'] = {k: v for k, v in op['args'].items() if k not in keys}
        op['selection'] = rng.choice(['brute force', 'consecutive', 'consecutive', 'iterative', 'bayesian', 'storm'])
        op['validation'] = 'data' if op['selection'] in ('iterative', 'bayesian', 'storm') else rng.choice(['cross validation', 'cross validation', 'leave one out', 'leave one group out', 'data', 'proportion'])
        op['folds'] = rng.choice([2, 3])
    if kind == 'onTraining':
        op['folds'] = rng.choice([None, 2, 3])
    return op


def groups(nimble, op, X):
    """The groups for leave one group out validation: an object, or a feature of X."""
    n = len(X.points)
    if op['seed'] is not None and op['seed'] % 2 and len(X.features) > 1:
        X.features.transform(lambda f: [i % 3 for i in range(n)], features=0, useLog=False)
        return 0
    if op['folds'] == 3:
        return nimble.data([[['north', 'south', 'east'][i * i % 3]] for i in range(n)], useLog=False)
    gap = op['d']['seed'] % 3 == 0                         # points without a group take no part
    return nimble.data([[None if gap and i % 5 == 1 else i % 3] for i in range(n)], useLog=False)


def tuning(nimble, op, X, T, TY, fn, iters):
    kw = {'foldFeature': groups(nimble, op, X)} if op['validation'] == 'leave one group out' else {}
    return nimble.Tuning(selection=op['selection'], validation=op['validation'], performanceFunction=fn, folds=op['folds'], validateX=T, validateY=TY, proportion=0.3,
                         maxIterations=iters, **kw)


def describe_tl(tl, X, mode=None):
    out = {'args': canon(tl.arguments), 'seed': tl.randomSeed, 'applied': canon(tl.apply(X, scoreMode=mode, useLog=False))}
    if tl.tuning is not None:
        t = tl.tuning
        out['tuning'] = canon([t.bestArguments, t.bestResult, t.allArguments, t.allResults, t.deepResults])
    return out


def perform(nimble, state, op, hold=None):
    """Run one operation with the real library; returns its result in canonical
    form.  hold, if given, receives the data objects before they are used."""
    kind, seed = op['op'], op['seed']
    hold = hold if hold is not None else {}
    if kind == 'data':
        return canon(nimble.random.data(op['p'], op['f'], op['sparsity'], elementType=op['elem'], returnType=op['type'], randomSeed=seed, useLog=False))
    if kind in ('permute', 'sample', 'sets'):
        X, _ = make(nimble, op['d'])
        ax = getattr(X, op['axis'])
        if kind == 'permute':
            ax.permute(useLog=False)
            return canon(X)
        if kind == 'sample':
            out = getattr(ax, op['how'])(number=max(1, len(ax) // 2), randomize=True, useLog=False)
            return [canon(X), canon(out)]
        return canon(list(X.trainAndTestSets(op['frac'], useLog=False)))
    if kind == 'subseed':
        return nimble.random.generateSubsidiarySeed()
    if kind == 'detect':
        return nimble.calculate.detectBestResult(perf(nimble, op['fn']))
    if kind == 'learnerType':
        return nimble.learnerType(learner(nimble, state, op['learner']))
    L = learner(nimble, state, op['learner'])
    if kind == 'normalize':
        X, _ = make(nimble, op['d'])
        T, _ = make(nimble, dict(op['d'], seed=op['d']['seed'] + 1))
        hold.update(X=X, T=T)
        return canon(nimble.normalizeData(L, X, testX=T if op['test'] else None, arguments=dict(op['args']), randomSeed=seed, useLog=False))
    X, Y = xy(nimble, op['d'], op['y'])
    T, TY = make(nimble, dict(op['d'], seed=op['d']['seed'] + 1, n=6))
    hold.update(X=X, Y=Y, T=T, TY=TY)
    args = dict(op['args'])
    kw = dict(randomSeed=seed, useLog=False)
    if kind == 'train':
        tl = nimble.train(L, X, Y, args, multiClassStrategy=op['strategy'], **kw)
        hold['tl'] = tl
        return describe_tl(tl, T, op['mode'])
    if kind == 'trainAndApply':
        return canon(nimble.trainAndApply(L, X, Y, T, args, scoreMode=op['mode'], multiClassStrategy=op['strategy'], **kw))
    fn = perf(nimble, op['perf'])
    if kind == 'trainAndTest':
        if op['ty'] == 'id':
            T, TY = xy(nimble, dict(op['d'], seed=op['d']['seed'] + 1, n=6), 'id')
            hold.update(T=T, TY=T)
        return canon(nimble.trainAndTest(L, fn, X, Y, T, TY, args, **kw))
    if kind == 'onTraining':
        return canon(nimble.trainAndTestOnTrainingData(L, fn, X, Y, crossValidationFolds=op['folds'], arguments=args, **kw))
    if kind in ('retrain', 'incremental'):
        tl = nimble.train(L, X, Y, args, randomSeed=seed if seed is not None else 3, useLog=False)
        X2, Y2 = make(nimble, dict(op['d'], seed=op['d']['seed'] + 2))
        if kind == 'retrain':
            tl.retrain(X2, Y2, args, **kw)
        else:
            tl.incrementalTrain(X2, Y2, args, **kw)
        out = describe_tl(tl, T)
        out.pop('seed')
        return out
    if kind == 'tune':
        args.update({k: nimble.Tune(v) for k, v in op['tune'].items()})
        t = tuning(nimble, op, X, T, TY, fn, op.get('iters', 4))
        return describe_tl(nimble.train(L, X, Y, args, tuning=t, **kw), T)
    raise KeyError(kind)
