"""C15: an in-place data operation either completes or leaves the data unchanged."""
import math

from sim.session import Session
from . import data_common as dc

IN_PROCESS = True
LEVEL = 'fault_enumeration'
BUDGET = {'quick': {'seeds': 6000, 'wall': 150, 'min': 60},
          'thorough': {'seeds': 80000, 'wall': 3000, 'min': 60}}
RULE = ('A seed draws one table (numbers, missing values, text, mixed; with and without names) held as List, Matrix, DataFrame and Sparse, and 2-6 '
        'operations on it: transforming, filling, normalizing, sorting, extracting, deleting, retaining, splitting, inserting, merging, replacing, '
        'reshaping, renaming and the read-only calculations. Each operation is first run with a fault on every type - the user function raises, is '
        'interrupted or returns something not allowed at its k-th call, for several k, or the arguments are refused - and the object (and every other '
        'object taking part) is compared with its snapshot; then it runs without a fault and the four results are compared with each other and with the '
        'faults that did not fire. Non-trivial: a fault fired after at least one successful call.')
STATES = '(operation, data type, fault kind, calls before the fault, outcome)'
REAL = ['nimble data objects: List, Matrix, DataFrame, Sparse and their axes']
STUBS = ['user functions with fault points', 'clock, kernel randomness']
ASSUMPTIONS = ['interrupts between two library lines (outside the user function) are not injected',
               'Sparse takes part only where all values are numbers and there are two dimensions']


class Injected(Exception):
    pass


class Fault:
    k = kind = probe = None
    calls = fired = 0

    def arm(self, k, kind):
        self.k, self.kind, self.calls, self.fired = k, kind, 0, 0

    def call(self, value):
        self.calls += 1
        if self.k is not None and self.calls - 1 == self.k:
            self.fired += 1
            if self.kind == 'interrupt':
                raise KeyboardInterrupt('injected')
            if self.kind == 'error':
                raise Injected('injected')
            if self.kind == 'probe':
                self.probe()
                return value
            return object()
        return value


F = Fault()


def preload():
    import nimble
    nimble.settings.set('logger', 'enabledByDefault', 'False')


# ------------------------------------------------------------- generation
AX = ['points', 'features']
SIMPLE = ['elements', 'elements', 'elements3', 'dict', 'transform', 'transform', 'transformLim', 'fill', 'fillFunc', 'normalize', 'normalizeBoth', 'sortKey', 'sortCmp', 'sortIds',
          'extract', 'delete', 'retain', 'parse', 'replaceRect', 'insert', 'append', 'merge', 'setNames', 'setNamesOld', 'permute', 'transpose', 'flatten', 'integers', 'binary', 'replace',
          'collapse', 'calcElements', 'matchElements', 'countElements', 'calculate', 'matching', 'mapReduce', 'count', 'copyFunc', 'group', 'statistics', 'similar', 'sets', 'iterate', 'setitem', 'setitem', 'arith', 'arith', 'read', 'read', 'calcLim', 'repeat', 'unique', 'expand', 'expand']
REFUSE = {'sortIds': 'mixed ids', 'insert': 'shape', 'append': 'names', 'merge': 'conflict', 'setNames': 'duplicates', 'permute': 'short', 'replaceRect': 'outside', 'replace': 'shape',
          'setNamesOld': 'duplicates', 'fill': 'nosuch', 'transformLim': 'nosuch', 'extract': 'nosuch', 'delete': 'nosuch', 'retain': 'nosuch', 'parse': 'names', 'flatten': 'order', 'integers': 'nosuch', 'binary': 'nosuch', 'collapse': 'nosuch', 'expand': 'nosuch', 'setitem': 'nosuch', 'arith': 'shape'}


def gen(rng):
    kinds = rng.choice([('int',), ('float',), ('int', 'float', 'nan'), ('text',), ('mixed',), ('int', 'float'), ('nan',)])
    s = dc.spec(rng, types=['List'], kinds=kinds, maxp=7, maxf=5, minp=2, minf=2, plain=True)
    if rng.random() < 0.1:
        s = dict(dc.tensor(rng, s), type='List')
    ops = []
    for _ in range(rng.randrange(2, 7)):
        name = rng.choice(SIMPLE)
        op = {'op': name, 'axis': rng.choice(AX), 'i': rng.randrange(100), 'j': rng.randrange(100), 'v': rng.choice([0, 1, 2, -3, 0.5]), 'w': rng.randrange(6),
              'seed': rng.randrange(1000)}
        ks = sorted({rng.choice([0, 1, 2, 3, 5, 8, 13, 21]) for _ in range(rng.choice([1, 2, 2, 3]))})
        op['faults'] = [[k, rng.choice(['error', 'error', 'interrupt', 'value'])] for k in ks]
        op['refuse'] = name in REFUSE and rng.random() < 0.5
        ops.append(op)
    return {'spec': s, 'ops': ops}


def explore(rng, ctx):
    ctx.execute(gen(rng))


def shrink(case):
    from sim.engine import generic_shrink
    yield from generic_shrink(case)
    for i, o in enumerate(case['ops']):
        if len(o['faults']) > 1 or (o['faults'] and o['refuse']):
            for f in o['faults'] + [None]:
                c = dict(case, ops=list(case['ops']))
                c['ops'][i] = dict(o, faults=[f] if f else [])
                yield c
    s = case['spec']
    for i in range(len(s['rows'])):
        if len(s['rows']) > 2:
            yield dict(case, spec=dict(s, rows=s['rows'][:i] + s['rows'][i + 1:], pn=s['pn'][:i] + s['pn'][i + 1:] if s['pn'] else None))


# ------------------------------------------------------- inside the session
def num(v):
    """A number for any cell."""
    if isinstance(v, str):
        return float(len(v))
    v = float(v)
    return 0.0 if math.isnan(v) or math.isinf(v) else v


def total(vec):
    return sum(num(v) for v in vec)


def safe(v):
    return v == v and not isinstance(v, str) and abs(v) < 1e6


def operation(nimble, obj, op, refuse, numeric):
    """(call, other objects taking part); results are compared across types."""
    name, ax = op['op'], op['axis']
    A = getattr(obj, ax)
    O = obj.features if ax == 'points' else obj.points
    n, m = len(A), len(O)
    P, Q = len(obj.points), len(obj.features)
    i, j, v, w = op['i'] % max(1, n), op['j'] % max(1, n), op['v'], op['w']
    kw = {'useLog': op.get('useLog', False)}
    t = obj.getTypeString()
    call = F.call

    def like(rows, **k):
        return nimble.data(rows, returnType=t, useLog=False, **k)
    if name == 'elements':
        if w == 0:
            return (lambda: obj.transformElements(lambda e: call(e * 2 if safe(e) else e), **kw)), []
        if w == 1:
            return (lambda: obj.transformElements(lambda e: call(v if safe(e) and e > 0 else e), points=[op['i'] % P], **kw)), []
        if w == 2:
            return (lambda: obj.transformElements(lambda e: call('t' if isinstance(e, str) else v if e != e else e), features=[op['j'] % Q, 0], **kw)), []
        if w == 3:
            return (lambda: obj.transformElements(lambda e: call(None if not safe(e) else e + 1), skipNoneReturnValues=True, **kw)), []
        if w == 4:
            return (lambda: obj.transformElements(lambda e: call(e if not safe(e) else e + 0.5), preserveZeros=True, **kw)), []
        return (lambda: obj.transformElements(lambda e: call(num(e) + 1), **kw)), []
    if name == 'elements3':
        return (lambda: obj.transformElements(lambda e, a, b: call(num(e) + a * 10 + b if (a + b) % 2 else num(e)), preserveZeros=w == 1, **kw)), []
    if name == 'dict':
        return (lambda: obj.transformElements({1: v, 2: 5, 'a': 'z', 0: 0}, **kw)), []
    if name in ('transform', 'transformLim'):
        lim = {}
        if name == 'transformLim':
            lim = {ax: 'nosuch' if refuse else [j, i] if w % 2 else [i, j]}
            if not refuse and i == j:
                lim = {ax: i}
        if w == 0:
            f = lambda vec: call([num(e) + 1 for e in vec])
        elif w == 1:
            f = lambda vec: call([e for e in vec][::-1])
        elif w == 2:
            f = lambda vec: call([num(e) * 0.5 + (0 if k else total(vec)) for k, e in enumerate(vec)])
        elif w == 3:
            f = lambda vec: call([v] * len(vec))
        elif w == 4:
            f = lambda vec: call([e if isinstance(e, str) else 9.5 if e != e else e for e in vec])
        else:
            f = lambda vec: call(vec)
        return (lambda: A.transform(f, **lim, **kw)), []
    if name in ('fill', 'fillFunc'):
        lim = {} if w % 3 else {ax: 'nosuch' if refuse else [max(i, j), min(i, j)] if i != j else i}
        if refuse:
            lim = {ax: 'nosuch'}
        if name == 'fill':
            match = (lambda e: call(e != e)) if w < 3 else (lambda e: call(e == 1 or e == 2))
            fill = v if w != 4 else nimble.fill.mode
            return (lambda: A.fillMatching(fill, match, **lim, **kw)), []
        if w < 3:
            m = obj.matchingElements(lambda e: e != e or e == 1, useLog=False)
            return (lambda: A.fillMatching(lambda vec, mm: call([v if x else e for e, x in zip(vec, mm)]), m, **lim, **kw)), [m]
        return (lambda: A.fillMatching(lambda vec, mm: call([v if e != e else e for e in vec]), nimble.match.missing, **lim, **kw)), []
    if name == 'normalize':
        lim = {} if w % 2 else {'features': [op['i'] % Q]}
        return (lambda: obj.features.normalize(lambda ft: call([num(e) - total(ft) / len(ft) for e in ft]), **lim, **kw)), []
    if name == 'normalizeBoth':
        other = obj.copy()
        other.name = 'other'

        def both(a, b):
            c = total(a)
            one, two = [num(e) - c for e in a], [num(e) + c for e in b]
            if w % 2:
                return call(one), two
            return one, call(two)
        return (lambda: obj.features.normalize(both, applyResultTo=other, **kw)), [other]
    if name == 'sortKey':
        return (lambda: A.sort(by=lambda vec: call(total(vec)), reverse=w % 2 == 1, **kw)), []
    if name == 'sortCmp':
        return (lambda: A.sort(by=lambda a, b: call((total(a) > total(b)) - (total(a) < total(b))), **kw)), []
    if name == 'sortIds':
        a, b = op['i'] % m, op['j'] % m
        ids = [a, b]
        if refuse:
            ids = ['nosuch', a] if w % 2 else [b, a, 999]
        return (lambda: A.sort(by=ids, **kw)), []
    if name in ('extract', 'delete', 'retain', 'copyFunc'):
        f = getattr(A, 'copy' if name == 'copyFunc' else name)
        if refuse:
            return (lambda: f([i, 'nosuch'], **kw)), []
        return (lambda: f(lambda vec: call(total(vec) > v), **kw)), []
    if name == 'parse':
        if numeric:
            return None, []                              # makes object data, which Sparse does not support
        names = ['dup', 'dup'] if refuse else ['x1', 'x2']
        return (lambda: obj.features.splitByParsing(op['i'] % Q, lambda e: call([num(e), len(e)] if isinstance(e, str) else [num(e), 4]), names, **kw)), []
    if name == 'replaceRect':
        a, b = op['i'] % P, op['j'] % Q
        if w % 2 and not refuse:
            return (lambda: obj.replaceRectangle(v, a, b, **({'pointEnd': P - 1, 'featureEnd': b}), **kw)), []
        rect = like([[7, 8], [9, 10]]) if not refuse else like([[7] * (Q + 1)])
        if not refuse and (P < 2 or Q < 2):
            rect = like([[7]])
        return (lambda: obj.replaceRectangle(rect, 0, 0 if not refuse else 1, **kw)), [rect]
    if name in ('insert', 'append'):
        shape = [[v] * Q, [1] * Q] if ax == 'points' else [[v] for _ in range(P)]
        if refuse and w % 2:
            shape = [r + [5] for r in shape] if ax == 'points' else shape + [[1]]
        other = like(shape)
        names = clean(O._getNamesNoGeneration())
        if refuse and not w % 2:
            if names is None:
                O2 = clean(A._getNamesNoGeneration())
                if O2 is None:
                    return None, []
                otherA = getattr(other, ax)
                otherA.setNames([O2[0]] + [f'q{k}' for k in range(len(otherA) - 1)], useLog=False)
            else:
                getattr(other, 'features' if ax == 'points' else 'points').setNames([f'other{k}' for k in range(m)], useLog=False)
        f = (lambda: A.append(other, **kw)) if name == 'append' else (lambda: A.insert(i, other, **kw))
        return f, [other]
    if name == 'merge':
        other = obj.copy()
        other.name = 'right'
        if refuse:
            if clean(obj.points._getNamesNoGeneration()) is None or clean(obj.features._getNamesNoGeneration()) is None:
                return (lambda: obj.merge(other, point='nosuch')), [other]
            other.transformElements(lambda e: 77, useLog=False)
            return (lambda: obj.merge(other, point='union', feature='union', **kw)), [other]
        if clean(obj.points._getNamesNoGeneration()) is None or clean(obj.features._getNamesNoGeneration()) is None:
            return None, []
        other.features.setNames([f'm{k}' for k in range(Q)], useLog=False)
        return (lambda: obj.merge(other, point=['strict', 'union', 'intersection'][w % 3], feature=['union', 'left'][w % 2], **kw)), [other]
    if name == 'setNames':
        names = [f'{ax[0]}n{k}' for k in range(n)]
        if refuse:
            names = ['same'] * n if w % 2 else names + ['more']
        return (lambda: A.setNames(names, **kw)), []
    if name == 'setNamesOld':
        if clean(A._getNamesNoGeneration()) is None or any(x is None for x in clean(A._getNamesNoGeneration())):
            return None, []
        if refuse:
            return (lambda: A.setNames(A.getNames()[j], oldIdentifiers=i, **kw) if i != j else A.setNames(['a', 'b'], oldIdentifiers=[i, 'nosuch'], **kw)), []
        return (lambda: A.setNames([f'renamed{op["seed"]}'], oldIdentifiers=[i], **kw)), []
    if name == 'permute':
        order = list(range(n))[::-1]
        if refuse:
            order = order[:-1] if w % 2 else [0] * n
        return (lambda: A.permute(order, **kw)), []
    if name == 'transpose':
        return (lambda: obj.transpose(**kw)), []
    if name == 'flatten':
        if refuse:
            return (lambda: obj.flatten('nosuch', **kw)), []
        return (lambda: (obj.flatten(['point', 'feature'][w % 2], **kw), obj.unflatten((P, Q), ['point', 'feature'][w % 2], **kw))), []
    if name == 'integers':
        return (lambda: obj.transformFeatureToIntegers('nosuch' if refuse else op['i'] % Q, **kw)), []
    if name == 'binary':
        return (lambda: obj.replaceFeatureWithBinaryFeatures('nosuch' if refuse else op['i'] % Q, **kw)), []
    if name == 'replace':
        data = like([[3] * (m + (1 if refuse else 0))]) if ax == 'points' else like([[3] for _ in range(m + (1 if refuse else 0))])
        return (lambda: A.replace(data, i, **kw)), [data]
    if name == 'expand':
        if Q < 2:
            return None, []
        a, b = op['i'] % Q, op['j'] % Q
        if a == b:
            b = (a + 1) % Q
        vals = [b] if w % 2 else [b, next((x for x in range(Q) if x not in (a, b)), b)][:2 if Q > 2 else 1]
        return (lambda: obj.points.combineByExpandingFeatures(a, ['nosuch'] if refuse else vals, **kw)), []
    if name == 'setitem':
        a, b = op['i'] % P, op['j'] % Q

        def put():
            obj[a, 'nosuch' if refuse else b] = [0, v, 2.5, 7, -1, 0][w]
        return put, []
    if name == 'arith':
        if any(isinstance(e, str) for row in obj.copy('pythonlist') for e in row):
            return None, []
        if refuse:
            op = dict(op, seed=op['seed'] // 2 * 2)
        c = [2, 0.5, 3, -1, 4, 2][w] if op['seed'] % 2 else like([[[2, 3, 4][(x + y) % 3] for y in range(Q)] for x in range(P + refuse)])
        sym = ['+=', '-=', '*=', '//=', '/=', '*='][op['seed'] // 2 % 6]
        if op['seed'] % 2 == 0:
            sym = '*=' if sym in ('//=', '/=') else sym
            if not refuse:
                c.points.setNames(clean(obj.points._getNamesNoGeneration()), useLog=False)
            c.features.setNames(clean(obj.features._getNamesNoGeneration()), useLog=False)

        def compute():
            ns = {'o': obj, 'c': c}
            exec('o ' + sym + ' c', ns)                  # pylint: disable=exec-used
            if ns['o'] is not obj:
                raise AssertionError('in-place arithmetic made another object')
        return compute, [c] if op['seed'] % 2 == 0 else []
    if name == 'collapse':
        if Q < 2 or clean(obj.features._getNamesNoGeneration()) is None or numeric:
            return None, []                              # names become values: not for Sparse
        ids = [0, 1] if not refuse else [0, 'nosuch']
        return (lambda: obj.points.splitByCollapsingFeatures(ids, 'fname', 'fvalue', **kw)), []
    # ------------------------------------------------ operations that return something new
    if name == 'calcElements':
        return (lambda: obj.calculateOnElements(lambda e: call(num(e) + v), preserveZeros=w == 0, **kw)), []
    if name == 'matchElements':
        return (lambda: obj.matchingElements(lambda e: call(safe(e) and e > v), **kw)), []
    if name == 'countElements':
        return (lambda: obj.countElements(lambda e: call(safe(e) and e > v))), []
    if name == 'calculate':
        return (lambda: A.calculate(lambda vec: call([total(vec), len(vec)] if w % 2 else total(vec)), **kw)), []
    if name == 'matching':
        return (lambda: A.matching(lambda vec: call(total(vec) > v), **kw)), []
    if name == 'calcLim':
        lim = {'points': [op['i'] % P]} if w % 2 else {'features': [op['j'] % Q]}
        return (lambda: obj.calculateOnElements(lambda e, a, b: call(num(e) + a - b), **lim, **kw)), []
    if name == 'read':
        a, b = op['i'] % P, op['j'] % Q
        return (lambda: [obj[a, b], obj[a, :].copy('pythonlist'), obj[:, b].copy('pythonlist'), [list(p) for p in obj.points], [list(f) for f in obj.features],
                         list(obj.iterateElements(order=['point', 'feature'][w % 2], only=(lambda e: e != 0) if w < 4 else None)),
                         obj.points.copy(a, useLog=False).copy('pythonlist'), obj.features.view(b, b).copy('pythonlist')][:8 if w != 5 else 2]), []
    if name == 'repeat':
        return (lambda: A.repeat(2, w % 2 == 1, useLog=False)), []
    if name == 'unique':
        return (lambda: A.unique()), []
    if name == 'mapReduce':
        return (lambda: obj.points.mapReduce(lambda pt: call([(int(total(pt)) % 3, total(pt))]), lambda k, vs: call((k, sum(vs))), **kw)), []
    if name == 'count':
        return (lambda: A.count(lambda vec: call(total(vec) > v))), []
    if name == 'group':
        return (lambda: obj.groupByFeature(op['i'] % Q, **kw)), []
    if name == 'statistics':
        return (lambda: getattr(A, ['max', 'mean', 'median', 'min', 'uniqueCount', 'proportionMissing', 'sum', 'quartiles'][op['seed'] % 8])()), []
    if name == 'similar':
        return (lambda: A.similarities(['dot product', 'covariance'][w % 2])), []
    if name == 'sets':
        return (lambda: obj.trainAndTestSets(0.4, randomOrder=False, **kw)), []
    if name == 'iterate':
        return (lambda: [list(obj.iterateElements()), obj.isIdentical(obj.copy()), obj.countUniqueElements(), obj.toString(), obj.hashCode() == obj.hashCode()][2:3]), []
    raise KeyError(name)


INPLACE = set(SIMPLE) - {'read', 'calcLim', 'repeat', 'unique', 'calcElements', 'matchElements', 'countElements', 'calculate', 'matching', 'mapReduce', 'count', 'copyFunc', 'group', 'statistics', 'similar', 'sets', 'iterate'}
# operations without a user function, whose results may be ordered differently by type
UNCOMPARED = {'expand', 'unique', 'binary', 'merge', 'group', 'statistics', 'similar', 'sets', 'iterate'}
# in-place operations that also work on another object
ALSO = {'normalizeBoth'}


def look(obj):
    s = dc.snap(obj)
    s.pop('dtypes', None)
    s['pn'], s['fn'] = clean(s['pn']), clean(s['fn'])
    s['lookup'] = [x or None for x in s['lookup']]
    return s


def value(x):
    if hasattr(x, 'points') and hasattr(x, 'features'):
        s = dc.logical(x)
        s['pn'], s['fn'] = clean(s['pn']), clean(s['fn'])
        return s
    if isinstance(x, dict):
        return sorted(([str(dc.cell(k)), value(v)] for k, v in x.items()), key=lambda r: r[0])
    if isinstance(x, (list, tuple)):
        return [value(v) for v in x]
    if hasattr(x, 'tolist') and not isinstance(x, (int, float, str)):
        return value(x.tolist())
    return dc.cell(x) if x is not None else None


def clean(names):
    """No names at all and no named member are the same thing."""
    return None if names is None or all(n is None for n in names) else names


def prepare(nimble, obj, op, refuse, numeric):
    try:
        return operation(nimble, obj, op, refuse, numeric)
    except nimble.exceptions.ImproperObjectAction:
        if len(obj.dimensions) == 2:
            raise
        return None, []                                  # not with more than two dimensions


def attempt(func):
    try:
        return 'ok', func()
    except KeyboardInterrupt:
        return 'interrupt', None
    except Injected:
        return 'error', None
    except Exception as e:                               # pylint: disable=broad-except
        out = 'exc ' + type(e).__name__ + ': ' + str(e)[:120]
        e.__traceback__ = None
        return out, None


def op_make(nimble, state, spec):
    state['objs'] = {}
    types = ['List', 'Matrix', 'DataFrame']
    if not spec.get('dims') and all(k not in ('text', 'mixed') for k in spec['kinds']) and not any(isinstance(v, str) and v != 'nan' for r in spec['rows'] for v in r):
        types.append('Sparse')
    for t in types:
        o = dc.build(nimble, dict(spec, type=t))
        o.name = 'base'
        state['objs'][t] = o
    return {t: value(o) for t, o in state['objs'].items()}


def op_step(nimble, state, todo):
    """Faulty runs on every type, then the clean run on every type."""
    op = todo
    out = {'faulty': [], 'clean': {}}
    F.arm(None, None)
    dead = []
    for t, obj in state['objs'].items():
        if not (len(obj.points) and len(obj.features)):
            return out
        view = obj.view()
        runs = [(k, kind, False) for k, kind in op['faults']]
        if op['refuse']:
            runs = [(None, 'refused', True)]
        for k, kind, refuse in runs:
            F.arm(None, None)
            func, others = prepare(nimble, obj, op, refuse, 'Sparse' in state['objs'])
            if func is None:
                continue
            before, obefore, vbefore = look(obj), [look(o) for o in others], value(view)
            twin = obj.copy()
            F.arm(k, kind)
            res, _ = attempt(func)
            fired, calls = F.fired, F.calls
            F.arm(None, None)
            bad = []
            completed = False
            if res == 'ok':
                completed = True
            elif look(obj) != before:
                d = dc.differ(before, look(obj))
                bad.append(f'the object changed in {d[:3]}: {dc.show(before, d[:2])} -> {dc.show(look(obj), d[:2])}')
            elif value(view) != vbefore:
                bad.append(f'a view of the object changed: {vbefore["rows"]} -> {value(view)["rows"]}')
            for o, b in zip(others, obefore):
                if (not completed or op['op'] not in ALSO) and look(o) != b:
                    d = dc.differ(b, look(o))
                    bad.append(f'another object taking part changed in {d[:3]}: {dc.show(b, d[:2])} -> {dc.show(look(o), d[:2])}')
            if completed and op['op'] in INPLACE:
                # continue from the state before, the completed result being judged below
                done = value(obj)
                twin.name = 'base'
                state['objs'][t] = obj = twin
                view = obj.view()
                out['faulty'].append([t, k, kind, res, fired, calls, bad, done])
            else:
                out['faulty'].append([t, k, kind, res, fired, calls, bad, None])
    if op['refuse']:
        return out
    for t, obj in state['objs'].items():
        func, others = prepare(nimble, obj, op, False, 'Sparse' in state['objs'])
        if func is None:
            return out
        before, obefore = look(obj), [look(o) for o in others]
        res, val = attempt(func)
        bad = []
        after = look(obj)
        if res == 'ok' and op['op'] not in INPLACE and after != before:
            bad.append(f'the object was modified in {dc.differ(before, after)[:3]}: {dc.show(before, dc.differ(before, after)[:2])} -> {dc.show(after, dc.differ(before, after)[:2])}')
        if res != 'ok' and after != before:
            d = dc.differ(before, after)
            bad.append(f'raised {res} but changed in {d[:3]}: {dc.show(before, d[:2])} -> {dc.show(after, d[:2])}')
        for o, b in zip(others, obefore):
            if (res != 'ok' or op['op'] not in ALSO) and look(o) != b:
                d = dc.differ(b, look(o))
                bad.append(f'another object taking part changed in {d[:3]}: {dc.show(b, d[:2])} -> {dc.show(look(o), d[:2])}')
        if after['name'] != before['name']:
            bad.append(f'the name changed from {before["name"]} to {after["name"]}')
        extra = [value(o) for o in others] if op['op'] in ALSO else None
        out['clean'][t] = [res, value(obj), value(val) if res == 'ok' else None, extra, bad, after['lookup']]
        if not (len(obj.points) and len(obj.features)):
            dead.append(t)
    return out


OPS = {'make': op_make, 'step': op_step}


# -------------------------------------------------------------- the oracle
def same(a, b):
    """Equal up to float rounding."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))
    return a == b


def run(case, ctx, res):
    root = ctx.fresh()
    res.nontrivial = False
    sess = Session(root, OPS, clock=(1.6e9, 0), rand=1, fresh=False)
    try:
        r = sess.start(armed=False)
        if not r.ok:
            raise RuntimeError(str(r['exc']))
        r = sess.call('make', _armed=False, spec=case['spec'])
        if not r.ok:
            res.violate('call-failed', f'make: {r["exc"]}')
            return
        objs = r.value
        for i, op in enumerate(case['ops']):
            r = sess.call('step', _armed=False, todo=op)
            if not r.ok:
                res.violate('call-failed', f'{op}: {r["exc"]}')
                return
            out = r.value
            head = f'step {i} {op["op"]} on {op["axis"]} (form {op["w"]}, {op["i"]}, {op["j"]}, {op["v"]})'
            done = {}
            for t, k, kind, o, fired, calls, bad, fin in out['faulty']:
                res.steps += 1
                if kind == 'refused':
                    if o != 'ok':
                        res.faults['refused arguments'] += 1
                elif fired:
                    res.faults['user function ' + kind] += 1
                    if k:
                        res.nontrivial = True
                res.states.add(f'{op["op"]}/{op["w"]}/{t}/{kind}/{min(k, 3) if k else k}/{o[:12]}')
                desc = f'{head} of a {t}, {kind} at call {k} -> {o} after {calls} calls'
                res.note(desc)
                for b in bad:
                    res.violate('partial-' + op['op'], f'{desc}: {b}')
                if fin is not None and not fired:
                    done[t, k] = (fin, desc)
            clean = out['clean']
            if clean:
                first = next(iter(clean))
                apart = False                            # the types now hold different data
                for t, (o, obj, val, extra, bad, lookup) in clean.items():
                    res.steps += 1
                    for b in bad:
                        res.violate('clean-' + op['op'], f'{head} of a {t} -> {o}: {b}')
                    ref = clean[first]
                    if op['op'] in UNCOMPARED:
                        apart = apart or o != ref[0] or not same(obj, ref[1])
                    elif o != ref[0] and (o == 'ok') != (ref[0] == 'ok'):
                        res.violate('types-' + op['op'], f'{head}: {first} gives {ref[0]}, {t} gives {o}')
                    elif not same(obj, ref[1]):
                        d = dc.differ(ref[1], obj)
                        res.violate('types-' + op['op'], f'{head}: the object differs between {first} and {t} in {d}: {dc.show(ref[1], d)} and {dc.show(obj, d)}')
                    elif not same(val, ref[2]):
                        res.violate('types-' + op['op'], f'{head}: the result differs between {first} and {t}: {str(ref[2])[:300]} and {str(val)[:300]}')
                    elif not same(extra, ref[3]):
                        res.violate('types-' + op['op'], f'{head}: the other object differs between {first} and {t}: {str(ref[3])[:300]} and {str(extra)[:300]}')
                    for (t2, k), (fin, desc) in done.items():
                        if t2 == t and o == 'ok' and not same(fin, obj):
                            d = dc.differ(obj, fin)
                            res.violate('completed-' + op['op'], f'{desc}: it completed, but differs in {d} from a run without a fault: {dc.show(fin, d)} and {dc.show(obj, d)}')
                    res.note(t, o, obj, val)
                if apart:
                    return
            if res.violations:
                return
    finally:
        sess.kill()
