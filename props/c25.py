"""C25: reading data never changes what later operations do."""
import copy
import io
import os
import pickle

from sim.session import Session, SimInterrupt, interrupted
from . import c15
from . import data_common as dc

IN_PROCESS = True
LEVEL = 'fault_enumeration'
BUDGET = {'quick': {'seeds': 12000, 'wall': 120, 'min': 60},
          'thorough': {'seeds': 150000, 'wall': 3000, 'min': 60}}
RULE = ('A seed draws one table of one data type, twice, and 2-8 operations from the menu of C15 and more (changes and calculations, some of them '
        'refused). One twin only gets these operations; before each of them the other is also read 0-4 times: names, values, views, copies, printing, '
        'comparing, hashing, iterating (given up half-way), statistics, matching, saving, training, and using it as the argument of operations on other '
        'objects. A reading may have a fault: its function raises or is interrupted at the k-th call, it is refused, or an interrupt comes at the k-th '
        'library line. Every operation must have the same outcome, result and effect on both twins. Non-trivial: a reading was cut short.')
STATES = '(reading, fault, following operation, data type, outcome)'
REAL = ['nimble data objects, their axes, views, conversion, printing and saving', 'nimble.train with a library learner']
STUBS = ['user functions with fault points', 'interrupts at chosen library lines', 'disk, clock, kernel randomness']
ASSUMPTIONS = ['results are compared up to having no names or only empty names, which cannot be told apart by values']

READS = ['names', 'names', 'name', 'lookup', 'view', 'viewUse', 'viewUse', 'convert', 'copy', 'text', 'hash', 'identical', 'approx', 'slice', 'points', 'features', 'elements', 'save', 'stats', 'similar',
         'count', 'unique', 'matching', 'calculate', 'calcElements', 'group', 'sets', 'mapReduce', 'arith', 'transposed', 'compare', 'train', 'load', 'merged', 'appended', 'report', 'pickle', 'membership', 'stretch', 'axisCopy',
         'query', 'shape', 'solve', 'unknown']
MORE = ['sample', 'shuffle', 'fillNames', 'mergeOn', 'names0', 'print', 'roundtrip', 'byQuery', 'sliceOut', 'scale', 'convertOut', 'rep', 'sortName', 'view',
        'unary', 'unary', 'binop', 'binop', 'identicalTo', 'joined', 'joined', 'setsLabels', 'plain', 'fits', 'pairs', 'partNames', 'ofView', 'ofView']


def preload():
    import nimble
    nimble.settings.set('logger', 'enabledByDefault', 'False')


def gen(rng):
    kinds = rng.choice([('int',), ('float',), ('int', 'float', 'nan'), ('text',), ('mixed',), ('int', 'float'), ('nan',)])
    s = dc.spec(rng, kinds=kinds, maxp=7, maxf=5, minp=2, minf=2, plain=True)
    if any(k in ('text', 'mixed') for k in s['kinds']) and s['type'] == 'Sparse':
        s['type'] = 'List'
    if rng.random() < 0.1:
        s = dc.tensor(rng, s)
    ops = []
    for _ in range(rng.randrange(2, 9)):
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            fault = None
            r = rng.random()
            if r < 0.15:
                fault = {'k': rng.choice([0, 1, 2, 3, 5, 8]), 'kind': rng.choice(['error', 'interrupt'])}
            elif r < 0.4:
                fault = {'line': int(10 ** rng.uniform(0, 3.2))}
            ops.append(['read', rng.choice(READS), rng.choice(c15.AX), rng.randrange(100), rng.randrange(100), rng.randrange(6), fault])
        name = rng.choice(c15.SIMPLE + MORE * 2)
        ops.append(['do', {'op': name, 'axis': rng.choice(c15.AX), 'i': rng.randrange(100), 'j': rng.randrange(100), 'v': rng.choice([0, 1, 2, -3, 0.5]), 'w': rng.randrange(6), 'seed': rng.randrange(1000)},
                    name in c15.REFUSE and rng.random() < 0.15])
    return {'spec': s, 'ops': ops}


def explore(rng, ctx):
    ctx.execute(gen(rng))


def shrink(case):
    from sim.engine import generic_shrink
    yield from generic_shrink(case)
    for i, s in enumerate(case['ops']):
        if s[0] == 'read' and s[6]:
            c = dict(case, ops=list(case['ops']))
            c['ops'][i] = s[:6] + [None]
            yield c


# ------------------------------------------------------- inside the session
def reading(nimble, obj, what, ax, i, j, w, root):                                     # pylint: disable=too-many-return-statements
    call = c15.F.call
    A = getattr(obj, ax)
    P, Q = len(obj.points), len(obj.features)
    n = len(A)
    p, q = i % P, j % Q
    total, num, safe = c15.total, c15.num, c15.safe
    if what == 'names':
        return lambda: [A.getNames(), obj.points.getNames() if w % 2 else None]
    if what == 'name':
        return lambda: [A.getName(i % n), A.getNames()[0]]
    if what == 'lookup':
        return lambda: [A.hasName('p1'), A.getIndex(i % n), A.getIndices([A.getName(0)]) if A.getName(0) else 0, A.getIndex('f1' if w % 2 else 'nosuch')]
    if what == 'view':
        return lambda: [obj.view(), obj.pointView(p), obj.featureView(q), obj.view(p, P - 1, q, Q - 1)]
    if what == 'viewUse':
        def use():
            v = [obj.view(), obj.pointView(p), obj.featureView(q), obj.view(p, P - 1, q, Q - 1), A.view(0, i % n), obj.view(pointStart=p)][w]
            return [v.points.getNames(), v.features.getNames(), str(v), v.copy(), v.copy('pythonlist'), v.isIdentical(v), list(v), v.T, v.points.count(lambda r: call(True)),
                    v.features.unique(), v.hashCode()]
        return use
    if what == 'convert':
        return lambda: [obj.copy(t) for t in (['pythonlist', 'numpyarray'], ['List', 'Matrix'], ['DataFrame'], ['pandas dataframe'], ['dict of list'], ['list of dict'])[w]]
    if what == 'copy':
        return lambda: [copy.copy(obj), copy.deepcopy(obj), obj.copy()][w % 3]
    if what == 'text':
        return lambda: [str(obj), repr(obj), obj.toString(maxWidth=20), obj.toString(points=[0]), obj.show('t') or 1, obj.toString(includePointNames=False, includeFeatureNames=False)][w]
    if what == 'hash':
        return lambda: [obj.hashCode()]
    if what == 'identical':
        return lambda: [obj.isIdentical(obj.copy()), obj.isIdentical(obj.T), obj == obj.copy() if w else None]
    if what == 'approx':
        return lambda: [obj.isApproximatelyEqual(obj.copy())]
    if what == 'slice':
        return lambda: [obj[p, q], obj[p, :], obj[:, q], obj[[p, 0] if p else [0], :], obj[p:, :q], obj.points[p], obj.features[[q]], obj[p, 'nosuch'] if w == 5 else None]
    if what in ('points', 'features'):
        def loop():
            it = iter(getattr(obj, what))
            out = [list(next(it))]
            if w % 2:
                out += [list(x) for x in it]
            if w == 4:
                it.nosuch
            return out
        return loop
    if what == 'elements':
        def loop2():
            it = obj.iterateElements(order=['point', 'feature'][w % 2], only=(lambda e: call(e != 0)) if w < 4 else None)
            return [next(it)] + (list(it) if w % 3 else [])
        return loop2
    if what == 'save':
        return lambda: obj.save(os.path.join(root, ['a.csv', 'a.pickle', 'a.csv', 'nosuch/a.csv', 'a.mtx', 'a.nosuch'][w]))
    if what == 'stats':
        names = ['max', 'mean', 'median', 'min', 'uniqueCount', 'proportionMissing', 'proportionZero', 'standardDeviation', 'sum', 'variance', 'quartiles', 'mode']
        return lambda: getattr(A, names[i % 12])(*([q] if w == 5 and ax == 'points' and i % 12 < 10 else []))
    if what == 'similar':
        return lambda: A.similarities(['dot product', 'covariance', 'correlation'][w % 3])
    if what == 'count':
        return lambda: [obj.countElements(lambda e: call(safe(e))), A.count(lambda v: call(total(v) > 1)), obj.countUniqueElements()][w % 3]
    if what == 'unique':
        return lambda: A.unique()
    if what == 'matching':
        return lambda: [obj.matchingElements(lambda e: call(safe(e) and e > 1), useLog=False), A.matching(lambda v: call(total(v) > 0), useLog=False)][w % 2]
    if what == 'calculate':
        return lambda: A.calculate(lambda v: call(total(v)), useLog=False)
    if what == 'calcElements':
        return lambda: obj.calculateOnElements(lambda e: call(num(e) + 1), useLog=False, preserveZeros=w == 1)
    if what == 'group':
        return lambda: obj.groupByFeature(q, useLog=False)
    if what == 'sets':
        return lambda: obj.trainAndTestSets(0.4, labels=q if w % 2 else None, randomOrder=w > 2, useLog=False)
    if what == 'mapReduce':
        return lambda: obj.points.mapReduce(lambda pt: call([(int(total(pt)) % 3, total(pt))]), lambda k, vs: call((k, sum(vs))), useLog=False)
    if what == 'arith':
        return lambda: [obj + 1, 2 - obj, obj * obj, obj @ obj.T, -obj, obj / 2, abs(obj), obj ** 2, obj // 3, obj % 2][w:w + 4]
    if what == 'transposed':
        return lambda: [obj.T, obj.T.points.getNames()]
    if what == 'compare':
        return lambda: [obj > 1, obj == obj, obj != 0, (obj >= 0) & (obj <= 2)][w % 4]
    if what == 'train':
        def train():
            labels = nimble.data([[k % 2] for k in range(P)], useLog=False)
            tl = nimble.train('nimble.KNNClassifier', obj, labels if w % 2 else q, k=1, useLog=False)
            return tl.apply(obj, useLog=False)
        return train
    if what == 'load':
        return lambda: nimble.data(obj, returnType=['List', 'Matrix', 'DataFrame', None][w % 4], useLog=False)
    if what in ('merged', 'appended'):
        other = obj.copy()
        if what == 'merged':
            other.features.setNames([f'm{k}' for k in range(Q)], useLog=False)
            return lambda: other.merge(obj, point='union', feature='union', onFeature=0 if w % 2 else None, useLog=False)
        other.features.setNames([f'm{k}' for k in range(Q)] if w % 2 else None, useLog=False)
        other.points.setNames(None, useLog=False)
        return lambda: getattr(other, ax).append(obj, useLog=False)
    if what == 'report':
        return lambda: [obj.report(useLog=False), obj.features.report(useLog=False)][w % 2]
    if what == 'pickle':
        return lambda: pickle.loads(pickle.dumps(obj))
    if what == 'membership':
        return lambda: [1 in obj, len(obj), bool(obj), obj.shape, obj.dimensions]
    if what == 'stretch':
        return lambda: [obj + obj.pointView(p).stretch, obj.featureView(q).stretch * obj]
    if what == 'axisCopy':
        return lambda: [A.copy(i % n, useLog=False), A.copy(lambda v: call(total(v) > 0), useLog=False), A.copy(start=0, end=i % n, useLog=False), A.copy(number=1, useLog=False), A.repeat(2, False, useLog=False), A.copy('nosuch', useLog=False)][w]
    if what == 'query':
        return lambda: [A.matching('is missing', useLog=False), obj.countElements('>1'), obj.points.copy(f'{obj.features.getName(q)} > 0') if obj.features.getName(q) else None]
    if what == 'shape':
        return lambda: [obj.getTypeString(), obj.name, obj.absolutePath, obj.isIdentical(3), obj.flatten is None]
    if what == 'solve':
        return lambda: [obj.inverse() if P == Q else nimble.calculate.pseudoInverse(obj)]
    return lambda: [obj.view(0, 999), A.getName(999), obj.copy('nosuch'), obj.nosuch][w % 4:]


def more(nimble, obj, op, root):
    name, ax, w = op['op'], op['axis'], op['w']
    A = getattr(obj, ax)
    n = len(A)
    i = op['i'] % n
    P, Q = len(obj.points), len(obj.features)
    q = op['j'] % Q
    kw = {'useLog': False}
    if name == 'sample':
        return lambda: getattr(A, ['extract', 'retain', 'delete'][w % 3])(number=1, randomize=w > 2, **kw)
    if name == 'shuffle':
        return lambda: A.permute(**kw)
    if name == 'fillNames':
        f = [nimble.match.missing, nimble.match.zero, 1][w % 3]
        fill = [nimble.fill.mean, nimble.fill.mode, 5, nimble.fill.median, nimble.fill.forwardFill, nimble.fill.backwardFill, nimble.fill.interpolate][op['j'] % 7]
        return lambda: A.fillMatching(fill, f, **kw)
    if name == 'mergeOn':
        other = nimble.data([[1, 2], [2, 3], [0, 5]], featureNames=['k', 'z'] if w % 2 else False, useLog=False)
        if w % 2 and obj.features.hasName('f0'):
            return lambda: obj.merge(other, point=['union', 'intersection', 'left'][w % 3], feature='union', onFeature=None, **kw)
        return lambda: obj.merge(other, point=['union', 'intersection', 'left'][w % 3], feature='union', onFeature=0, **kw)
    if name == 'names0':
        return lambda: A.setNames(None, **kw) if w % 2 else A.setNames([None if k % 2 else f'part{k}' for k in range(n)], **kw)
    if name == 'print':
        return lambda: [str(obj), repr(obj), obj.toString()]
    if name == 'roundtrip':
        def trip():
            where = os.path.join(root, 'x.csv' if w % 2 else 'x.pickle')
            obj.save(where, **({'includeNames': w == 1} if w % 2 else {}))
            if w % 2:
                with io.open(where, encoding='utf-8') as f:
                    return f.read()
            return nimble.data(where, useLog=False)
        return trip
    if name == 'byQuery':
        return lambda: A.extract('is nonZero' if w % 2 else 'is nonMissing', **kw)
    if name == 'sliceOut':
        return lambda: [obj[op['i'] % P, :], obj[:, q], obj.view(), A.copy([0, i] if i else 0, useLog=False)]
    if name == 'scale':
        return lambda: obj.features.normalize([nimble.calculate.meanNormalize, nimble.calculate.zScoreNormalize, nimble.calculate.minMaxNormalize][w % 3], **kw)
    if name == 'convertOut':
        t = ['pythonlist', 'numpyarray', 'dict of list', 'list of dict', 'pandas dataframe', 'List'][w]
        out = lambda: obj.copy(t)
        return (lambda: [str(out()), str(out().columns), str(out().index)]) if w == 4 else (lambda: obj.copy(t) if w != 2 or obj.features.hasName('f0') else None)
    if name == 'rep':
        return lambda: [obj.report(useLog=False), obj.features.report(useLog=False)][w % 2]
    if name == 'unary':
        return lambda: [lambda: abs(obj), lambda: -obj, lambda: +obj, lambda: obj.T, lambda: ~(obj == 1), lambda: obj ** 2][w]()
    if name in ('binop', 'identicalTo', 'joined', 'setsLabels', 'fits', 'pairs'):
        rows = [[(x + 2 * y + op['i']) % 4 for y in range(Q)] for x in range(P)]
        j = op['j']
        other = nimble.data(rows, pointNames=[f'p{k}' for k in range(P)] if j % 3 == 1 else [f'q{k}' for k in range(P)] if j % 3 == 2 else False,
                            featureNames=[f'f{k}' for k in range(Q)] if j % 5 == 1 else [f'g{k}' for k in range(Q)] if j % 5 == 2 else False, returnType=['List', 'Matrix', 'DataFrame', obj.getTypeString()][j % 4], useLog=False)
    if name == 'binop':
        return lambda: [lambda: obj + other, lambda: other - obj, lambda: obj * other, lambda: obj @ other.T, lambda: other.T @ obj, lambda: obj >= other][w]()
    if name == 'identicalTo':
        same = nimble.data(obj.copy('pythonlist'), returnType=obj.getTypeString(), useLog=False)
        return lambda: [obj.isIdentical(same), same.isIdentical(obj), obj.isIdentical(other), obj == same, other == obj]
    if name == 'joined':
        if w < 2:
            return lambda: A.append(other, **kw)
        if w < 4:
            return lambda: A.insert(i, other.points.copy(0, useLog=False) if ax == 'points' else other.features.copy(0, useLog=False), **kw)
        return lambda: obj.merge(other, point=['union', 'intersection'][w % 2], feature=['union', 'intersection', 'left'][op['i'] % 3], onFeature=None if op['i'] % 4 else 0, **kw)
    if name == 'setsLabels':
        labels = other.features.copy([0, op['i'] % Q] if op['i'] % Q else 0, useLog=False)
        return lambda: obj.trainAndTestSets(0.4, labels=[labels, q, [q], None, labels, labels][w], randomOrder=w > 3, **kw)
    if name == 'plain':
        return lambda: [lambda: obj.points.mapReduce(lambda p: [(len(p), 1)], lambda k, v: (k, sum(v)), **kw), lambda: nimble.data(obj, returnType='List', useLog=False), lambda: obj.copy().points.getNames(),
                        lambda: obj.features.similarities('correlation'), lambda: A.statistics('mean') if ax == 'features' else A.mean(), lambda: obj.report(useLog=False).T][w]()
    if name == 'fits':
        def fits():
            tl = nimble.train('nimble.KNNClassifier', other, [q, other.features.copy(0, useLog=False)][w % 2], k=1, useLog=False)
            return tl.apply(obj if w % 2 else obj.features.copy([k for k in range(Q) if k != q], useLog=False), useLog=False)
        return fits
    if name == 'pairs':
        return lambda: [lambda: other.points.append(obj, **kw) or other, lambda: other.features.append(obj, **kw) or other, lambda: other.merge(obj, point='union', feature='union', **kw) or other,
                        lambda: nimble.data([obj.points[0], obj.points[P - 1]], useLog=False), lambda: other.replaceRectangle(obj, 0, 0, **kw) or other, lambda: A.replace(other, **kw)][w]()
    if name == 'partNames':
        return lambda: A.setNames(f'only{i}', oldIdentifiers=i, **kw)
    if name == 'ofView':
        v = [obj.view(), obj.pointView(op['i'] % P), obj.featureView(q), obj.view(0, op['i'] % P, 0, q)][op['j'] % 4]
        return lambda: [lambda: v.copy(), lambda: [str(v)], lambda: v.T, lambda: v + 1, lambda: [list(v.points.getNames()), list(v.features.getNames())], lambda: str(v.copy('pandas dataframe'))][w]()
    if name == 'sortName':
        return lambda: A.sort(**kw)
    return lambda: [obj.view(), obj.pointView(op['i'] % P), obj.featureView(q)]


def op_make(nimble, state, spec, root):
    state['root'] = root
    state['A'], state['B'] = dc.build(nimble, spec), dc.build(nimble, spec)
    state['kinds'] = spec['kinds']
    for o in (state['A'], state['B']):
        o.name = 'base'


def attempt(func):
    try:
        return c15.attempt(func)
    except SimInterrupt:
        return 'siminterrupt', None


def fine(obj):
    return len(obj.points) > 0 and len(obj.features) > 0


def op_read(nimble, state, what, axis, i, j, w, fault):
    B = state['B']
    if not fine(B):
        return None
    c15.F.arm(None, None)
    try:
        func = reading(nimble, B, what, axis, i, j, w, state['root'])
    except Exception as e:                               # pylint: disable=broad-except
        return 'setup ' + type(e).__name__, 0
    if fault and 'k' in fault:
        c15.F.arm(fault['k'], fault['kind'])
    run_ = func
    if fault and 'line' in fault:
        run_ = lambda: interrupted(func, {}, {'where': '/nimble/', 'k': fault['line']})[0]
    res, val = attempt(run_)
    if res == 'ok' and what == 'text':
        pass
    fired = c15.F.fired or res == 'siminterrupt'
    c15.F.arm(None, None)
    return res, fired


def op_do(nimble, state, todo, refuse):
    out = []
    if not fine(state['A']) or not fine(state['B']):
        return None
    streams = nimble.random.pythonRandom.getstate(), nimble.random.numpyRandom.get_state()
    numeric = state['A'].getTypeString() == 'Sparse'
    for key in 'AB':
        obj = state[key]
        nimble.random.pythonRandom.setstate(streams[0])
        nimble.random.numpyRandom.set_state(streams[1])
        c15.F.arm(None, None)
        try:
            func = more(nimble, obj, todo, state['root']) if todo['op'] in MORE else c15.prepare(nimble, obj, todo, refuse, numeric)[0]
        except Exception as e:                           # pylint: disable=broad-except
            out.append(['setup ' + type(e).__name__ + str(e), None, None])
            continue
        if func is None:
            out.append(None)
            continue
        res, val = attempt(func)
        out.append([res, c15.value(val) if res == 'ok' else None, c15.value(obj)])
    return out


def op_end(nimble, state):
    return [c15.look(state[k]) if fine(state[k]) else None for k in 'AB']


OPS = {'make': op_make, 'read': op_read, 'do': op_do, 'end': op_end}


def kind_(outcome):
    """Messages may mention what they like."""
    return outcome.split(':')[0]


def run(case, ctx, res):
    root = ctx.fresh()
    res.nontrivial = False
    sess = Session(root, OPS, clock=(1.6e9, 0), rand=1, fresh=False)
    try:
        r = sess.start(armed=False)
        if not r.ok:
            raise RuntimeError(str(r['exc']))
        r = sess.call('make', _armed=False, spec=case['spec'], root=root)
        if not r.ok:
            res.violate('call-failed', f'make: {r["exc"]}')
            return
        reads = []
        t = case['spec']['type']
        for i, s in enumerate(case['ops']):
            if s[0] == 'read':
                _, what, ax, a, b, w, fault = s
                r = sess.call('read', _armed=False, what=what, axis=ax, i=a, j=b, w=w, fault=fault)
                if not r.ok:
                    res.violate('call-failed', f'{s}: {r["exc"]}')
                    return
                if r.value:
                    out, fired = r.value
                    reads.append(f'{what} {ax} {a},{b},{w} {fault or ""} -> {out[:40]}')
                    last = f'{what}/{"line" if fault and "line" in fault else fault["kind"] if fault else None}'
                    if fired:
                        res.faults['interrupt at a library line' if 'line' in fault else 'user function ' + fault['kind']] += 1
                        res.nontrivial = True
                    elif out != 'ok':
                        res.faults['refused reading'] += 1
                    res.steps += 1
                    res.states.add(f'{last}/{t}/{out[:8]}')
                    res.note(reads[-1])
                continue
            r = sess.call('do', _armed=False, todo=s[1], refuse=s[2])
            if not r.ok:
                res.violate('call-failed', f'{s}: {r["exc"]}')
                return
            if r.value is None:
                break
            a, b = r.value
            o = s[1]
            head = f'step {i} {o["op"]} on {o["axis"]} (form {o["w"]}, {o["i"]}, {o["j"]}, {o["v"]}{" refused" if s[2] else ""}) of a {t} after {"; ".join(reads[-6:])}'
            res.steps += 1
            res.note(head, a)
            res.states.add(f'{o["op"]}/{o["w"]}/{t}/{a and a[0][:12]}')
            if a == b or a and b and a[0] != 'ok' and kind_(a[0]) == kind_(b[0]) and a[1:] == b[1:]:
                continue
            if a is None or b is None:
                res.violate('applicable', f'{head}: {a} unread, {b} read')
            elif kind_(a[0]) != kind_(b[0]):
                res.violate('outcome-' + o['op'], f'{head}: gives {a[0]} on data that was not read, {b[0]} on data that was read')
            elif a[1] != b[1]:
                res.violate('result-' + o['op'], f'{head}: returns {str(a[1])[:250]} on data that was not read, {str(b[1])[:250]} on data that was read')
            else:
                d = dc.differ(a[2], b[2])
                res.violate('effect-' + o['op'], f'{head}: leaves {d} as {dc.show(a[2], d)} on data that was not read, {dc.show(b[2], d)} on data that was read')
            return
        r = sess.call('end', _armed=False)
        if not r.ok:
            res.violate('call-failed', f'end: {r["exc"]}')
            return
        a, b = r.value
        if a != b:
            d = dc.differ(a, b)
            res.violate('end', f'at the end after {"; ".join(reads[-6:])}: {d} is {dc.show(a, d)} on data that was not read, {dc.show(b, d)} on data that was read')
    finally:
        sess.kill()
