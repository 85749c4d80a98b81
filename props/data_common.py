"""Shared pieces of the data simulations: objects from specs, and snapshots of
everything a user can observe about an object."""
import datetime
import math

TYPES = ['List', 'Matrix', 'Sparse', 'DataFrame']
WORDS = ['red', 'a b', 'x,y', 'q"r', "it's", '"quoted"', 'é☃', ' lead', 'trail ', '#tag', 'semi;colon', 'tab\tx', 'zz', 'w1', 'p/q', 'A', 'b-c', 'two\nlines']


def spec(rng, types=TYPES, kinds=('int', 'float', 'nan', 'text', 'mixed', 'bool'), maxp=8, maxf=5, minp=1, minf=1, plain=False):
    """A random object specification (json)."""
    kind = rng.choice(kinds)
    t = rng.choice([x for x in types if x != 'Sparse' or kind in ('int', 'float', 'nan')])
    p, f = rng.randrange(minp, maxp + 1), rng.randrange(minf, maxf + 1)
    colkind = [kind if kind != 'mixed' else rng.choice(['int', 'float', 'text', 'nan']) for _ in range(f)]

    def value(k):
        if k == 'int':
            return rng.choice([0, 0, 1, 2, -3, 7, 10, 12345, 2 ** 31, -1])
        if k == 'float':
            return rng.choice([0.0, 0.5, -2.25, 1.0, 3.75, 1e-7, 1e22, 0.1, 1 / 3, -1e-300, 123456789.123456, rng.uniform(-100, 100), rng.gauss(0, 1e6)])
        if k == 'nan':
            return rng.choice(['nan', 0.0, 1.5, 2.0, 'nan', -7.25])
        if k == 'text':
            return rng.choice(['a', 'b', 'cc', 'dd e'] if plain else WORDS)
        return rng.random() < 0.5
    rows = [[value(k) for k in colkind] for _ in range(p)]
    return {'type': t, 'rows': rows, 'kinds': colkind, 'pn': names(rng, p, 'p', plain), 'fn': names(rng, f, 'f', plain), 'view': None}


def tensor(rng, s, kinds=('int', 'float')):
    """The specification with points of two dimensions each."""
    a, b = rng.randrange(1, 4), rng.randrange(1, 4)
    kind = rng.choice(kinds)
    rows = [[rng.choice([0, 1, 2, -3, 7] if kind == 'int' else [0.0, 0.5, -2.25, 3.75]) for _ in range(a * b)] for _ in s['rows']]
    # sparse objects of more than two dimensions cannot be iterated with this scipy
    return dict(s, dims=[a, b], rows=rows, kinds=[kind] * (a * b), fn=None, view=None, type=rng.choice(['List', 'Matrix', 'DataFrame', 'Matrix', 'Sparse']))


def names(rng, n, tag, plain=False):
    r = rng.random()
    if r < 0.3:
        return None
    if plain or r < 0.65:
        order = list(range(n))
        rng.shuffle(order)
        return [f'{tag}{i}' for i in order]
    ws = ['n ', 'a,b', 'q"', "'", 'é', '#', '/', 'x;', '-', '10', ' ', 'é"', ',']
    out = [rng.choice(ws) + tag + str(i) for i in range(n)]
    rng.shuffle(out)
    return out


def values(s):
    nan = float('nan')
    return [[nan if v == 'nan' and k != 'text' else v for v, k in zip(r, s['kinds'])] for r in s['rows']]


def build(nimble, s):
    if s.get('dims'):
        obj = nimble.data([[r[i * s['dims'][1]:(i + 1) * s['dims'][1]] for i in range(s['dims'][0])] for r in values(s)],
                          pointNames=list(s['pn']) if s['pn'] else False, returnType=s['type'], name=s.get('name'), useLog=False)
    else:
        obj = nimble.data(values(s), pointNames=list(s['pn']) if s['pn'] else False, featureNames=list(s['fn']) if s['fn'] else False,
                          returnType=s['type'], rowsArePoints=True, name=s.get('name'), useLog=False)
    if s['view']:
        a, b, c, d = s['view']
        obj = obj.view(pointStart=a, pointEnd=b, featureStart=c, featureEnd=d)
    return obj


def cell(v):
    """A comparable form of a value, telling apart what a user can tell apart."""
    if v is None:
        return None
    if isinstance(v, str):
        return str(v)
    if isinstance(v, (datetime.datetime, datetime.date)):
        return ('date', str(v))
    try:
        f = float(v)
        if math.isnan(f):
            return 'NaN:'
        if f == int(f) if not math.isinf(f) else False:
            return int(f)
        return f
    except (TypeError, ValueError, OverflowError):
        return repr(v)


def logical(obj):
    """(shape, dims, values, names): what makes two objects equal."""
    pn, fn = obj.points._getNamesNoGeneration(), obj.features._getNamesNoGeneration()
    p, f = len(obj.points), len(obj.features)
    dims = list(obj.dimensions)
    if p and f:
        # flattened storage of tensors is read element by element
        import numpy
        raw = obj._data
        kind = obj.getTypeString()
        if kind == 'List':
            rows = [[obj._data[i][j] for j in range(f)] for i in range(p)]
        elif kind == 'Sparse':
            view = hasattr(obj, '_source')
            raw = obj._source._data if view else raw
            d = raw.toarray() if raw.dtype != object else None
            if d is None:
                d = numpy.zeros(raw.shape, dtype=object)
                for i, j, v in zip(raw.row, raw.col, raw.data):
                    d[i, j] = v
            if view:
                d = d[obj._pStart:obj._pEnd, obj._fStart:obj._fEnd]
            rows = d.tolist()
        elif kind == 'DataFrame':
            rows = [list(r) for r in raw.itertuples(index=False, name=None)]
        else:
            rows = raw.tolist()
        rows = [[cell(v) for v in r] for r in rows]
    else:
        rows = []
    return {'shape': [p, f], 'dims': dims, 'rows': rows, 'pn': list(pn) if pn is not None else None, 'fn': list(fn) if fn is not None else None}


def snap(obj):
    """Everything observable about an object."""
    s = logical(obj)
    s['type'] = obj.getTypeString()
    s['view'] = type(obj).__name__
    s['name'] = obj.name
    s['paths'] = [obj.absolutePath, obj.relativePath]
    kind = s['type']
    raw = obj._data
    if kind == 'DataFrame':
        s['labels'] = [str(x) for x in raw.columns], [str(x) for x in raw.index]
        s['dtypes'] = [str(x) for x in raw.dtypes]
    elif kind in ('Matrix', 'Sparse'):
        s['dtypes'] = [str(raw.dtype)]
    else:
        s['dtypes'] = [[type(raw[i][j]).__name__ for j in range(s['shape'][1])] for i in range(min(50, s['shape'][0]))]
    # the public lookups agree
    s['lookup'] = [[obj.points.getIndex(n) for n in s['pn'] if n is not None] if s['pn'] else None,
                   [obj.features.getIndex(n) for n in s['fn'] if n is not None] if s['fn'] else None]
    return s


def differ(a, b):
    """The keys in which two snapshots differ."""
    return [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]


def show(d, keys):
    return {k: str(d.get(k))[:300] for k in keys}
