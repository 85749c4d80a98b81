"""C18: missing or broken optional packages never break what does not need them."""
import contextlib
import importlib
import importlib.abc
import math
import os
import random
import sys

from sim.session import Session
from . import data_common as dc

LEVEL = 'fault_enumeration'
BUDGET = {'quick': {'seeds': 1600, 'wall': 170, 'min': 60},
          'thorough': {'seeds': 40000, 'wall': 3000, 'min': 60}}
RULE = ('A seed draws a set of optional packages and a way for each to fail (not installed, broken with an ImportError, RuntimeError, ValueError, OSError or AttributeError at import, '
        'unsupported version, failing only the first k imports), then a history of 3-14 operations over the whole library, each on data of a drawn type. The same history runs in a session with every '
        'package present and in one whose import system is faulted. Non-trivial: a package that an operation needs and one that another does not need are faulted.')
STATES = '(operation, type, faulted packages it needs with their kind, whether others are faulted, outcome)'
REAL = ['the whole library, imported afresh in each session', 'deferred imports, interface discovery, version checks', 'the optional packages that are not faulted']
STUBS = ['the import system (a finder that decides which imports fail and how)', 'network transport under requests']
ASSUMPTIONS = ['packages that themselves need a faulted one fail with it (pandas and matplotlib need dateutil; sklearn and hyperopt need scipy; sklearn needs cloudpickle)',
               'keras, tensorflow, autoimpute and IPython are absent in every simulated session',
               'a package of unsupported version may be refused by any operation that looks at it, with a package error']

PACKAGES = ['pandas', 'scipy', 'matplotlib', 'cloudpickle', 'requests', 'h5py', 'dateutil', 'sklearn', 'hyperopt', 'storm_tuner']
ABSENT = ['keras', 'tensorflow', 'autoimpute', 'IPython']
BASES = {'pandas': ['dateutil'], 'matplotlib': ['dateutil'], 'sklearn': ['scipy', 'cloudpickle'], 'hyperopt': ['scipy']}
KINDS = ['missing', 'missing', 'importerror', 'runtime', 'value', 'os', 'attribute', 'old', 'flaky']
ERRORS = {'missing': lambda n: ModuleNotFoundError(f"No module named '{n}'", name=n),
          'importerror': lambda n: ImportError(f'DLL load failed while importing {n}: simulated', name=n),
          'flaky': lambda n: ImportError(f'cannot import {n}: simulated stale file handle', name=n),
          'runtime': lambda n: RuntimeError('module compiled against API version 0x10 but this version of numpy is 0xf (simulated)'),
          'value': lambda n: ValueError('numpy.dtype size changed, may indicate binary incompatibility (simulated)'),
          'os': lambda n: OSError(f'lib{n}.so: cannot open shared object file (simulated)'),
          'attribute': lambda n: AttributeError("module 'numpy' has no attribute 'bool8' (simulated)")}
TYPES = ['List', 'Matrix', 'Sparse', 'DataFrame']
TYPENEEDS = {'List': set(), 'Matrix': set(), 'Sparse': {'scipy'}, 'DataFrame': {'pandas'}}
PRELOAD = ['scipy.stats', 'scipy.linalg', 'scipy.sparse.linalg', 'matplotlib', 'matplotlib.pyplot', 'hyperopt', 'storm_tuner', 'sklearn.utils', 'sklearn.ensemble']


# ------------------------------------------------------- the import seam
class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, faults):
        self.faults = {}             # package -> [kind, remaining failures or None]
        self.stash = {}
        self.fired = {}
        todo = {name: ['missing', None] for name in ABSENT}
        for name, (kind, k) in faults.items():
            if kind == 'old':
                mod = importlib.import_module(name)
                if hasattr(mod, '__version__'):
                    mod.__version__ = '0.0.1'
                self.fired['import-old'] = self.fired.get('import-old', 0) + 1
            else:
                todo[name] = [kind, k if kind == 'flaky' else None]
        for name in PACKAGES:
            if name not in todo and any(b in todo for b in BASES.get(name, ())):
                todo[name] = ['flaky', 0]
        self.faults.update(todo)
        for name in todo:
            self.stash[name] = {m: sys.modules.pop(m) for m in list(sys.modules) if m == name or m.startswith(name + '.')}
        sys.meta_path.insert(0, self)

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.', 1)[0]
        f = self.faults.get(top)
        if f is None:
            return None
        for base in BASES.get(top, ()):
            importlib.import_module(base)
        if f[1] is not None:
            if f[1] <= 0:
                # the package can be imported from now on
                del self.faults[top]
                return importlib.machinery.ModuleSpec(fullname, Restored(self.stash[top], fullname))
            f[1] -= 1
        if top not in ABSENT:
            self.fired['import-' + f[0]] = self.fired.get('import-' + f[0], 0) + 1
        raise ERRORS[f[0]](top)


class Restored(importlib.abc.Loader):
    """Brings a package back, all of its modules at once."""
    def __init__(self, modules, name):
        self.modules, self.name = modules, name
        self.spec = getattr(modules[name], '__spec__', None)

    def create_module(self, spec):
        return self.modules[self.name]

    def exec_module(self, module):
        module.__spec__ = self.spec
        sys.modules.update(self.modules)


def begin(faults):
    def run(state):
        serve()
        state['finder'] = Finder(faults)
    return run


# ----------------------------------------------------------------- the menu
class T:
    """What an operation works with."""
    def __init__(self, nimble, state, p, t):
        self.nimble, self.state, self.p, self.t = nimble, state, p, t
        self.rng = random.Random(p)
        self.watch = []
        self.files = []

    def obj(self, t=None, rows=5, cols=3, names=True, kind='num', watch=True):
        r = self.rng
        def v():
            if kind == 'pos':
                return r.choice([1, 2, 3.5, 4, 7, 0.25])
            if kind == 'int':
                return r.randrange(4)
            if kind == 'text':
                return r.choice(['a', 'b', 'cc', '7'])
            if kind == 'nan':
                return r.choice([0, 1, 2.5, None, -3])
            return r.choice([0, 0, 1, 2.5, -3, 7])
        raw = [[v() for _ in range(cols)] for _ in range(rows)]
        o = self.nimble.data(raw, pointNames=[f'p{i}' for i in range(rows)] if names else False, featureNames=[f'f{i}' for i in range(cols)] if names else False,
                             returnType=t or self.t, name='input', useLog=False)
        if watch:
            self.see(o)
        return o

    def see(self, o):
        self.watch.append((o, dc.snap(o)))
        return o

    def path(self, ext):
        return os.path.join(self.state['dir'], f'f{self.p}{ext}')

    def file(self, ext, data, watch=True):
        p = self.path(ext)
        with open(p, 'wb') as f:
            f.write(data)
        if watch:
            self.files.append((p, data))
        return p

    def broken(self):
        out = []
        for o, s in self.watch:
            now = dc.snap(o)
            d = dc.differ(s, now)
            if d:
                out.append(f'object: {dc.show(s, d)} became {dc.show(now, d)}')
        for p, data in self.files:
            try:
                with open(p, 'rb') as f:
                    got = f.read()
            except OSError as e:
                got = repr(e)
            if got != data:
                out.append(f'file {os.path.basename(p)} changed: {got[:80]!r}')
        return out


def canon(v):
    if hasattr(v, 'points') and hasattr(v, 'features'):
        s = dc.logical(v)
        return ['obj', s['shape'], s['rows'], s['pn'], s['fn']]
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, dict):
        return {str(k): canon(x) for k, x in v.items()}
    if isinstance(v, (str, bool)) or v is None:
        return v
    if hasattr(v, 'tolist'):
        return canon(v.tolist())
    if isinstance(v, type):
        return v.__name__
    if isinstance(v, (int, float)):
        return dc.cell(v)
    return repr(v)


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        return a == b or (math.isinf(a) and math.isinf(b)) or abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return same(list(a), list(b))
    return a == b


MENU = {}


def op(*needs, typed=True, types=TYPES):
    def deco(f):
        MENU[f.__name__] = (set(needs), f, typed, types)
        return f
    return deco


@op()
def create(t):
    return t.obj(kind='nan')


@op(types=['List', 'Matrix', 'DataFrame'])
def createText(t):
    return t.nimble.data([['a', 'b'], ['c', 'd']], returnType=t.t, featureNames=['x', 'y'], useLog=False)


@op(typed=False)
def createDefault(t):
    k = t.p % 5
    raw = [[1, 2, 3], [4, 0, 6]]
    if k == 1:
        raw = {'a': [1, 2], 'b': [0, 5]}
    elif k == 2:
        raw = range(4)
    elif k == 3:
        raw = [{'a': 1, 'b': 2}, {'a': 0, 'b': 5}]
    elif k == 4:
        import numpy
        raw = numpy.array([[1.0, 2], [3, 4]])
    return t.nimble.data(raw, useLog=False)


@op()
def createGenerator(t):
    return t.nimble.data((i * 2 for i in range(5)), returnType=t.t, useLog=False)


@op(typed=False)
def createGeneratorDefault(t):
    return t.nimble.data((i * 2 for i in range(5)), useLog=False)


CSV = [b'a,b,c\n1,2,3\n4,5.5,6\n', b'\n\nid,x,y\np1,0,1\np2,3,\np3,,2\n', b'name,flag\nbob,True\nann,False\n', b'1,2\n3,4\n', b'x;y\n1;2\n', b'k\nv,1\nw,2\n']


@op('pandas', typed=False)
def createStructured(t):
    import numpy
    a = numpy.array([('a', 1, 2.5), ('b', t.p, 4.)], dtype=[('x', object), ('y', int), ('z', float)])
    return t.nimble.data(a, returnType=[None, 'List', 'Matrix'][t.p % 3], useLog=False)


@op(typed=True)
def createStructuredNumeric(t):
    import numpy
    a = numpy.array([(1, 2.5), (t.p, 4.)], dtype=[('y', int), ('z', float)])
    return t.nimble.data(a, returnType=t.t, useLog=False)


@op()
def createFromObjects(t):
    a = t.obj(t='List', rows=2)
    b = t.obj(t='Matrix', rows=2)
    return [t.nimble.data([a, b], returnType=t.t, useLog=False), t.nimble.data(a, returnType=t.t, useLog=False)]


@op()
def createKeeping(t):
    raw = [[1, 2, 3], [4, 5, 6], [7, 8, 0]]
    return t.nimble.data(raw, returnType=t.t, featureNames=['a', 'b', 'c'], keepFeatures=['c', 'a'], keepPoints=[2, 0], useLog=False)


@op(types=['List', 'Matrix', 'DataFrame'])
def createConverting(t):
    raw = [['1', 'x', '2.5'], ['4', 'y', '6']]
    ct = [{0: int, 2: float}, [int, str, float], {0: float}, {'c': float, 'a': int}][t.p % 4]
    return t.nimble.data(raw, returnType=t.t, featureNames=['a', 'b', 'c'], convertToType=ct, useLog=False)


@op()
def createTensor(t):
    o = t.nimble.data([[[1, 2], [3, 4]], [[5, 6], [7, 0]]], returnType=t.t, useLog=False)
    return [o, list(o.dimensions), str(o)]


@op()
def loadCsv(t):
    i = t.p % 2 if t.t == 'Sparse' else t.p % 4
    p = t.file('.csv', CSV[i])
    return t.nimble.data(p, returnType=t.t, treatAsMissing=[''], useLog=False)


@op(typed=False)
def loadCsvDefault(t):
    p = t.file('.csv', CSV[t.p % 4])
    return t.nimble.data(p, treatAsMissing=[''], useLog=False)


@op(typed=False)
def loadCsvMixedTypes(t):
    p = t.file('.csv', b'a,b,c\n1,True,x\n0,False,y\n3,True,\n')
    return t.nimble.data(p, returnType='Matrix', convertToType={'a': float} if t.p % 2 else None, useLog=False)


@op()
def saveCsv(t):
    o = t.obj(kind='nan')
    p = t.file('.csv', b'old contents', watch=False)
    o.save(p)
    with open(p, 'rb') as f:
        return f.read().decode()


@op()
def toText(t):
    return [str(t.obj(kind='nan')), t.obj().toString()]


@op()
def copies(t):
    o = t.obj()
    return [o.copy('python list'), o.copy('numpy array'), o.copy('list of dict'), o.copy('dict of list'), o.copy('List'), o.copy('Matrix'), o.T, o.view()]


@op('pandas', typed=True)
def toPandas(t):
    o = t.obj()
    return o.copy('pandas dataframe').values


@op('scipy')
def toScipy(t):
    o = t.obj()
    return o.copy(['scipy csr', 'scipy csc', 'scipy coo'][t.p % 3]).toarray()


@op('pandas')
def toDataFrame(t):
    return t.obj().copy('DataFrame')


@op('scipy')
def toSparse(t):
    return t.obj().copy('Sparse')


@op()
def structure(t):
    o = t.obj(kind='int', watch=False)
    o.points.sort('f0')
    o.features.append(t.obj(rows=5, cols=1, names=False))
    x = o.points.extract(lambda pt: pt[0] > 1)
    o.features.permute(list(range(len(o.features)))[::-1])
    return [o, x, o.points.copy(0), o.features.copy(0)]


@op()
def joined(t):
    a = t.obj(kind='int', rows=3)
    b = t.obj(kind='pos', rows=4, watch=False)
    b.features.setNames(['x0', 'x1', 'x2'])
    t.see(b)
    c = a.copy()
    c.merge(b, point='union', feature='union')
    return c


@op()
def selected(t):
    o = t.obj(kind='nan')
    return [o.points.copy('f0 == 0'), o.features.copy(t.nimble.match.anyMissing), o.points.count('f1 > 0'), o[0, :], o[:, 'f1'], o.points.matching('f0 != 1')]


@op()
def filled(t):
    o = t.obj(kind='nan', watch=False)
    o.features.fillMatching(t.nimble.fill.mean if t.p % 2 else 0, t.nimble.match.missing)
    return o


@op()
def statistics(t):
    o = t.obj(kind='nan' if t.p % 2 else 'num')
    return [o.features.statistics(s) for s in ('max', 'min', 'mean', 'median', 'std', 'unique count', 'proportion missing', 'proportion zero')]


@op()
def statistics2(t):
    c = t.nimble.calculate
    o = t.obj().features.copy(0)
    return [c.mean(o), c.median(o), c.mode(o), c.sum(o), c.variance(o), c.quartiles(o), c.medianAbsoluteDeviation(o), c.uniqueCount(o), c.count(o)]


@op()
def similarities(t):
    return [t.obj().features.similarities('correlation'), t.obj().points.similarities('covariance')]


@op()
def arithmetic(t):
    a, b = t.obj(kind='pos', names=False), t.obj(kind='pos', names=False)
    return [a + b, a - 1, 2 * a, a / b, a ** 2, abs(a), a == b, a @ b.T, -a]


@op()
def grouped(t):
    o = t.obj(kind='int')
    return [o.groupByFeature('f0', countUniqueValueOnly=True), o.countUniqueFeatureValues('f1') if hasattr(o, 'countUniqueFeatureValues') else None, o.features.unique(), o.points.unique()]


@op()
def transformed(t):
    o = t.obj(kind='pos', watch=False)
    o.transformElements(lambda v: v + 1)
    o.points.transform(lambda pt: [v * 2 for v in pt])
    return [o, o.calculateOnElements(lambda v: v - 1), o.features.calculate(lambda ft: max(ft)), o.points.calculate(lambda pt: sum(pt))]


@op()
def normalized(t):
    o = t.obj(kind='pos', watch=False)
    o.features.normalize(t.nimble.calculate.meanNormalize if t.p % 2 else t.nimble.calculate.range0to1Normalize)
    return o


@op()
def encoded(t):
    o = t.obj(kind='int', watch=False)
    o.replaceFeatureWithBinaryFeatures('f0')
    return o


@op(types=['List', 'Matrix', 'DataFrame'])
def toIntegers(t):
    o = t.nimble.data([['a', 1], ['b', 2], ['a', 0]], featureNames=['x', 'y'], returnType=t.t, useLog=False)
    o.transformFeatureToIntegers('x')
    return o


@op()
def reports(t):
    o = t.obj(kind='nan')
    return [o.features.report(), o.report(), o.features.report(extraStatisticFunctions=[t.nimble.calculate.mode])]


@op()
def split(t):
    o = t.obj(kind='pos', rows=8)
    tr, te = o.trainAndTestSets(0.25)
    return [tr, te]


@op()
def duplicated(t):
    o = t.obj(kind='int')
    return [t.nimble.ones(2, 3, returnType=t.t), t.nimble.zeros(3, 2, returnType=t.t), t.nimble.identity(3, returnType=t.t), o.points.repeat(2, True)]


@op()
def randomData(t):
    return [t.nimble.random.data(4, 3, 0.5, returnType=t.t, useLog=False), t.nimble.random.data(3, 3, 0, elementType='int', returnType=t.t, useLog=False)]


@op('scipy')
def inverse(t):
    o = t.nimble.data([[2, 1], [1, 3 + t.p % 4]], returnType=t.t, useLog=False)
    t.see(o)
    return [t.nimble.calculate.inverse(o)]


@op('scipy')
def inverseMethod(t):
    o = t.see(t.nimble.data([[2, 1], [1, 3 + t.p % 4]], returnType=t.t, useLog=False))
    return o.inverse(pseudoInverse=bool(t.p % 2))


@op('scipy')
def pseudoInverse(t):
    return t.nimble.calculate.pseudoInverse(t.obj(kind='pos'))


@op('scipy')
def solve(t):
    a = t.see(t.nimble.data([[2, 1], [1, 3]], returnType=t.t, useLog=False))
    b = t.see(t.nimble.data([[1], [t.p]], returnType=t.t, useLog=False))
    return t.nimble.calculate.solve(a, b) if t.p % 2 else t.nimble.calculate.leastSquaresSolution(a, b)


@op('scipy')
def residuals(t):
    a = t.obj(kind='pos', rows=6, cols=2, names=False)
    b = t.obj(kind='pos', rows=6, cols=1, names=False)
    return t.nimble.calculate.residuals(b, a)


@op('scipy')
def confidence(t):
    o = t.obj(rows=30, cols=1, kind='pos', names=False)
    return t.nimble.calculate.confidenceIntervalHelper([1.0, 2.0, 4.0], None, 0.95) if hasattr(t.nimble.calculate, 'confidenceIntervalHelper') else \
        t.nimble.calculate.rootMeanSquareErrorConfidenceInterval(o, t.obj(rows=30, cols=1, kind='pos', names=False))


@op('scipy', typed=False)
def loadMtx(t):
    p = t.file('.mtx', b'%%MatrixMarket matrix coordinate real general\n2 3 2\n1 1 4\n2 3 1.5\n')
    return t.nimble.data(p, returnType=[None, 'List', 'Matrix', 'Sparse'][t.p % 4], useLog=False)


@op('scipy', typed=True)
def saveMtx(t):
    o = t.obj()
    p = t.file('.mtx', b'old contents')
    o.save(p)
    t.files.clear()
    return t.nimble.data(p, returnType='Matrix', useLog=False)


@op('cloudpickle')
def savePickle(t):
    o = t.obj(kind='nan')
    p = t.file('.pickle', b'old contents')
    o.save(p)
    t.files.clear()
    return t.nimble.data(p, useLog=False)


@op('h5py')
def saveHdf(t):
    o = t.obj()
    p = t.file(['.hdf5', '.h5'][t.p % 2], b'old contents')
    o.save(p, includeNames=False)
    t.files.clear()
    return len(open(p, 'rb').read()) > 100


@op('h5py', typed=False)
def loadHdf(t):
    p = t.file('.hdf5', HDF[t.p % len(HDF)])
    return t.nimble.data(p, returnType=[None, 'List', 'Matrix'][t.p % 3], useLog=False)


@op('requests', typed=False)
def fetchUrl(t):
    t.nimble.settings.set('fetch', 'location', t.state['dir'])
    return t.nimble.data(f'http://sim.test/d{t.p}.csv', returnType='Matrix', useLog=False)


@op('requests', typed=False)
def fetchRemote(t):
    t.nimble.settings.set('fetch', 'location', t.state['dir'])
    p = t.nimble.fetchFiles(f'http://sim.test/e{t.p}.csv')
    return open(p[0], 'rb').read().decode()


@op('dateutil', types=['List', 'Matrix', 'DataFrame'])
def dates(t):
    import datetime
    return t.nimble.data([['2020-01-0%d' % (1 + t.p % 8), 1], ['March 3 2021', 2]], returnType=t.t, featureNames=['when', 'n'], convertToType={'when': datetime.datetime}, useLog=False)


@op(types=['List', 'Matrix', 'DataFrame'])
def realDates(t):
    import datetime
    o = t.nimble.data([[datetime.datetime(2020, 1, 1 + t.p % 8), 1], [datetime.datetime(2021, 3, 3), 2]], returnType=t.t, featureNames=['when', 'n'], useLog=False)
    o.points.sort('when', reverse=True)
    return [[str(v) for v in r] for r in o.copy('python list')]


def labelled(t, n=12):
    x = t.nimble.data([[i % 4, (i * 7) % 5] for i in range(n)], returnType=t.t, useLog=False)
    y = t.nimble.data([[(i % 4 > 1) * 1] for i in range(n)], returnType=t.t, useLog=False)
    return t.see(x), t.see(y)


@op()
def trainNimble(t):
    x, y = labelled(t)
    name = ['nimble.KNNClassifier', 'nimble.RidgeRegression', 'Nimble.KNNClassifier', 'nimble.MultiOutputRidgeRegression'][t.p % 4]
    args = [{'k': 3}, {'lamb': 1}, {'k': 1}, {}][t.p % 4]
    tl = t.nimble.train(name, x, y, arguments=args, useLog=False)
    return [tl.apply(x, useLog=False), tl.test(t.nimble.calculate.rootMeanSquareError, x, y, useLog=False)]


@op()
def trainTuned(t):
    x, y = labelled(t)
    tuning = t.nimble.Tuning(['consecutive', 'brute force', 'consecutive'][t.p % 3], validation=[0.3, 'cross validation', 'leave one out'][t.p // 3 % 3], folds=3,
                             performanceFunction=t.nimble.calculate.fractionIncorrect)
    tl = t.nimble.train('nimble.KNNClassifier', x, y, k=t.nimble.Tune([1, 3, 5]), tuning=tuning, useLog=False)
    return [tl.arguments, tl.apply(x, useLog=False)]


@op()
def trainCustom(t):
    class Mine(t.nimble.CustomLearner):
        learnerType = 'regression'

        def train(self, trainX, trainY, a=1):
            self.m = sum(v[0] for v in trainY.copy('python list')) + a

        def apply(self, testX):
            return t.nimble.data([[self.m] for _ in range(len(testX.points))], useLog=False)
    x, y = labelled(t)
    return [t.nimble.trainAndApply(Mine, x, y, x, a=t.p, useLog=False), t.nimble.trainAndTest(Mine, t.nimble.calculate.meanAbsoluteError, x, y, x, y, useLog=False)]


@op('sklearn')
def trainSklearn(t):
    x, y = labelled(t)
    name = ['sklearn.LinearRegression', 'sklearn.Ridge', 'skl.LogisticRegression', 'scikitlearn.KNeighborsClassifier'][t.p % 4]
    return t.nimble.train(name, x, y, useLog=False).apply(x, useLog=False)


@op('sklearn')
def trainMultiOutput(t):
    x, _ = labelled(t)
    return t.nimble.trainAndApply('nimble.MultiOutputLinearRegression', x, x, x, useLog=False)


@op('sklearn', types=['List', 'Matrix', 'DataFrame'])
def normalizeSklearn(t):
    x, _ = labelled(t)
    return t.nimble.normalizeData('sklearn.StandardScaler', x, useLog=False)


@op('hyperopt')
def tuneBayesian(t):
    x, y = labelled(t)
    tl = t.nimble.train('nimble.KNNClassifier', x, y, k=t.nimble.Tune([1, 3]), tuning=t.nimble.Tuning('bayesian', 'data', validateX=x, validateY=y, performanceFunction=t.nimble.calculate.fractionIncorrect, maxIterations=3), useLog=False)
    return tl.apply(x, useLog=False).points.count(lambda p: True)


@op('storm_tuner')
def tuneStorm(t):
    x, y = labelled(t)
    tl = t.nimble.train('nimble.KNNClassifier', x, y, k=t.nimble.Tune([1, 3]), tuning=t.nimble.Tuning('storm', 'data', validateX=x, validateY=y, performanceFunction=t.nimble.calculate.fractionIncorrect, maxIterations=3), useLog=False)
    return tl.apply(x, useLog=False).points.count(lambda p: True)


@op(typed=False)
def learnerListNimble(t):
    return [sorted(t.nimble.learnerNames('nimble')), t.nimble.learnerParameters('nimble.KNNClassifier'), t.nimble.learnerType('nimble.KNNClassifier'), t.nimble.learnerParameterDefaults('nimble.RidgeRegression')]


@op('sklearn', typed=False)
def learnerListSklearn(t):
    return ['LinearRegression' in t.nimble.learnerNames('sklearn'), t.nimble.learnerParameters('sklearn.Ridge'), t.nimble.learnerType('sklearn.Ridge')]


@op(typed=False)
def learnerListAll(t):
    return [n for n in t.nimble.learnerNames() if n.startswith('nimble.')]


@op('keras', typed=False)
def useKeras(t):
    return t.nimble.learnerParameters('keras.Sequential') if t.p % 2 else t.nimble.train('keras.Sequential', t.obj(t='Matrix'), 0, useLog=False)


@op('autoimpute', typed=False)
def useAutoimpute(t):
    return t.nimble.learnerNames('autoimpute') if t.p % 2 else t.nimble.train('autoimpute.SingleImputer', t.obj(t='Matrix'), useLog=False)


@op(typed=False)
def unknownPackage(t):
    try:
        t.nimble.learnerNames('nosuchpackage')
    except t.nimble.exceptions.InvalidArgumentValue as e:
        return str(e)


@op('cloudpickle')
def saveLearner(t):
    x, y = labelled(t)
    tl = t.nimble.train('nimble.KNNClassifier', x, y, k=1, useLog=False)
    p = t.file('.pickle', b'old contents')
    tl.save(p)
    t.files.clear()
    return t.nimble.loadTrainedLearner(p, useLog=False).apply(x, useLog=False)


@op('matplotlib')
def plotHeatMap(t):
    p = t.file('.png', b'old contents')
    t.obj(kind='pos').plotHeatMap(outPath=p, show=False)
    t.files.clear()
    return open(p, 'rb').read()[:4] == b'\x89PNG'


@op('matplotlib')
def plotDistribution(t):
    p = t.path('.png')
    t.obj(kind='pos').plotFeatureDistribution('f0', outPath=p, show=False)
    return os.path.exists(p)


@op('matplotlib', 'scipy')
def plotMeans(t):
    p = t.path('.png')
    o = t.obj(kind='pos', rows=6)
    o.features.plotMeans(outPath=p, show=False)
    return os.path.exists(p)


@op()
def logged(t):
    t.nimble.log('note', {'p': t.p})
    o = t.obj()
    o.points.sort('f0', useLog=True)
    out = t.path('.log')
    t.nimble.showLog(levelOfDetail=3, saveToFileName=out)
    return open(out).read().count('note')


@op(typed=False)
def options(t):
    s = t.nimble.settings
    s.set('fetch', 'location', '/x/%d' % t.p)
    return [s.get('fetch', 'location'), s.get('logger', 'name') if s.get('logger') else None]


@op()
def equality(t):
    o = t.obj(kind=['nan', 'num'][t.p % 2])
    return [o.isIdentical(o.copy()), t.p % 2 == 0 or o.isApproximatelyEqual(o.copy()), o.containsZero(), o.hashCode() if t.p % 2 else None]


@op()
def iterated(t):
    o = t.obj()
    return [list(o.iterateElements()), [canon(p) for p in o.points], [len(f) for f in o.features]]


@op(typed=False)
def assign(t):
    o = t.obj(t='Matrix', watch=False)
    o.replaceRectangle(5, 0, 0, 1, 1)
    o.points.setNames(['q%d' % i for i in range(5)])
    o.name = 'n'
    return [o, o.name]


HDF = []


def hdfs():
    if not HDF:
        import io
        import h5py
        import numpy
        for i in range(2):
            b = io.BytesIO()
            with h5py.File(b, 'w') as f:
                f.create_dataset('d', data=numpy.arange(6.0).reshape(2, 3) + i)
            HDF.append(b.getvalue())


# ---------------------------------------------------------------- operations
def serve():
    """A transport that answers every request."""
    import io
    import requests
    import urllib3

    def send(self, request, **kw):
        body = io.BytesIO(b'a,b\n1,2\n3,4\n' if request.method == 'GET' else b'')
        raw = urllib3.response.HTTPResponse(body=body, headers={'Content-Type': 'application/octet-stream', 'Content-Length': '12'}, status=200, preload_content=False, request_method=request.method)
        return self.build_response(request, raw)
    requests.adapters.HTTPAdapter.send = send


def op_run(nimble, state, name, p, t):
    f = MENU[name][1]
    w = T(nimble, state, p, t)
    nimble.random.setSeed(p, useLog=False)
    out = {'status': 'ok', 'value': None, 'exc': None}
    try:
        with contextlib.redirect_stdout(sys.stdout):
            out['value'] = canon(f(w))
    except Exception as e:                       # pylint: disable=broad-except
        import traceback
        out['status'] = 'exc'
        out['exc'] = [type(e).__name__, [c.__name__ for c in type(e).__mro__], str(e)[:600], ''.join(traceback.format_exception(e))[-1500:]]
        out['altered'] = w.broken()
    out['fired'] = dict(state['finder'].fired)
    out['left'] = {k: list(v) for k, v in state['finder'].faults.items()}
    return out


def op_show(nimble, state):
    """The table of available packages, as name -> Yes/No."""
    sys.stdout.seek(0)
    sys.stdout.truncate()
    try:
        nimble.showAvailablePackages()
    except Exception as e:                       # pylint: disable=broad-except
        return {'error': repr(e)[:500]}
    text = sys.stdout.getvalue()
    out = {}
    for line in text.splitlines():
        w = line.split()
        if len(w) > 1 and w[1] in ('Yes', 'No'):
            out[w[0]] = w[1]
    return out


def op_retry(nimble, state, name):
    """Use up the failures of a package."""
    for _ in range(20):
        if name not in state['finder'].faults:
            return True
        try:
            importlib.import_module(name)
        except Exception:                        # pylint: disable=broad-except
            pass
    return name not in state['finder'].faults


OPS = {'run': op_run, 'show': op_show, 'retry': op_retry}


# ------------------------------------------------------------- generation
def gen(rng):
    faults = {}
    n = rng.choice([1, 1, 1, 2, 2, 3, 4, 6, 10])
    pool = PACKAGES + ['pandas', 'scipy', 'sklearn']
    kind = rng.choice(KINDS) if rng.random() < 0.4 else None
    while len(faults) < n:
        faults[rng.choice(pool)] = [kind or rng.choice(KINDS), rng.randrange(1, 4)]
        # it does not tell its version
        if 'storm_tuner' in faults and faults['storm_tuner'][0] == 'old':
            faults['storm_tuner'][0] = 'missing'
    steps = []
    relevant = [m for m in MENU if MENU[m][0] & set(faults)]
    for _ in range(rng.randrange(3, 15)):
        name = rng.choice(relevant) if relevant and rng.random() < 0.35 else rng.choice(list(MENU))
        t = rng.choice(MENU[name][3]) if MENU[name][2] else None
        steps.append([name, rng.randrange(24), t])
    return {'faults': faults, 'steps': steps, 'show': rng.random() < 0.25}


def explore(rng, ctx):
    ctx.execute(gen(rng))


def shrink(case):
    for i in range(len(case['steps'])):
        yield dict(case, steps=case['steps'][:i] + case['steps'][i + 1:])
    for k in case['faults']:
        if len(case['faults']) > 1:
            yield dict(case, faults={a: b for a, b in case['faults'].items() if a != k})
    for k, v in case['faults'].items():
        if v[0] != 'missing':
            yield dict(case, faults=dict(case['faults'], **{k: ['missing', 1]}))
    if case['show']:
        yield dict(case, show=False)


def setup_worker(scratch, tier):
    hdfs()


def effective(faults):
    """package -> kind, with the packages that need a faulted one."""
    out = {n: k[0] for n, k in faults.items()}
    for n in PACKAGES:
        kinds = [faults[b][0] for b in BASES.get(n, ()) if b in faults and faults[b][0] != 'old']
        hard = [k for k in kinds if k != 'flaky']
        if hard and out.get(n) in (None, 'flaky', 'old'):
            out[n] = hard[0]
        elif kinds:
            out.setdefault(n, 'flaky')
    return out


def session(root, name, faults):
    d = os.path.join(root, name)
    os.makedirs(d)

    def setup(nimble, state):
        state['dir'] = d
    return Session(root, OPS, home=d, cwd=d, clock=(1.7e9, 100.0), setup=setup, before=begin(faults), name=name)


def run(case, ctx, res):
    hdfs()
    root = ctx.fresh()
    faults = case['faults']
    eff = effective(faults)
    base = session(root, 'a', {})
    r = base.start(armed=False)
    if not r.ok:
        from sim.session import HarnessError
        raise HarnessError(f'library does not import: {r.exc}')
    ref = []
    flaky = [n for n, k in eff.items() if k == 'flaky']
    for name, p, t in case['steps'] * (2 if flaky else 1):
        ref.append(base.call('run', name=name, p=p, t=t, _armed=False).value)
    base.close()
    s = session(root, 'b', faults)
    r = s.start(armed=False)
    res.steps += 1
    if not r.ok:
        res.violate('import', f'with {faults} the library does not import: {r.exc["type"]}: {r.exc["msg"]}\n{r.exc["tb"][-900:]}')
        s.close()
        return
    needed = unneeded = False
    fired = {}

    def step(i, final):
        nonlocal needed, unneeded
        name, p, t = case['steps'][i]
        needs = set(MENU[name][0])
        if MENU[name][2]:
            needs |= TYPENEEDS[t]
        absent = needs & set(ABSENT)
        want = ref[i + (len(case['steps']) if final else 0)]
        r = s.call('run', name=name, p=p, t=t, _armed=False)
        got = r.value
        fired.update(got['fired'])
        bad = {n: eff[n] for n in needs if n in eff and not (final and eff[n] == 'flaky')}
        others = bool(set(eff) - set(bad))
        if bad:
            needed = True
        elif eff:
            unneeded = True
        what = f'{name}({t}, {p}) needing {sorted(needs)} with {faults}'
        res.steps += 1
        res.states.add(repr((name, t, sorted(bad.items()), others, got['status'])))
        res.note(i, name, got['status'], got['exc'][0] if got['exc'] else None, repr(got['value'])[:200])
        isPackage = got['status'] == 'exc' and 'PackageException' in got['exc'][1]
        if got['status'] == 'exc' and got['altered']:
            res.violate(f'{name}: inputs altered', f'{what}: {got["exc"][:3]}: {got["altered"]}')
        if absent:
            if not isPackage or not any(n in got['exc'][2] for n in list(absent) + [k for k in eff if eff[k] == 'old']):
                res.violate(f'{name}: no package error', f'{what}: {got}')
            return
        if want['status'] != 'ok':
            from sim.session import HarnessError
            raise HarnessError(f'{name} {t} {p} fails with every package present: {want["exc"]}')
        old = [n for n, k in eff.items() if k == 'old']
        if isPackage:
            named = [n for n in list(bad) + old if n in got['exc'][2] or {'dateutil': 'python-dateutil', 'sklearn': 'scikit-learn'}.get(n, n) in got['exc'][2]]
            if not (bad or old):
                res.violate(f'{name}: package error', f'{what}: {got["exc"]}')
            elif not named and not (bad and 'PackageException' == got['exc'][0] and namedAnyway(bad, got['exc'][2])):
                res.violate(f'{name}: package not named', f'{what}: {got["exc"]}')
            return
        if got['status'] == 'exc':
            res.violate(f'{name}: other error', f'{what}: {got["exc"]}')
            return
        hard = [n for n, k in bad.items() if k != 'flaky']
        if hard:
            res.violate(f'{name}: no package error', f'{what}: gave {str(got["value"])[:300]}')
            return
        if not same(want['value'], got['value']):
            res.violate(f'{name}: result', f'{what}: {str(got["value"])[:500]} instead of {str(want["value"])[:500]}')

    for i in range(len(case['steps'])):
        step(i, False)
    if flaky and not res.violations:
        for n in flaky:
            s.call('retry', name=n, _armed=False)
        for i in range(len(case['steps'])):
            step(i, True)
    if case['show'] and not res.violations:
        got = s.call('show', _armed=False).value
        want = {n: 'Yes' for n in PACKAGES}
        want.update({n: 'No' for n in ABSENT if n != 'IPython'})
        want.update({n: 'No' for n, k in eff.items() if k != 'flaky'})
        want.pop('tensorflow')
        keys = [k for k in want if k != 'storm_tuner' or eff.get(k) != 'old']
        if any(got.get(k) != want[k] for k in keys):
            res.violate('showAvailablePackages', f'{faults}: {got} instead of {want}')
    s.close()
    res.fire(fired)
    res.nontrivial = needed and unneeded


def namedAnyway(bad, text):
    return 'package' in text and any(n in text for n in bad)
