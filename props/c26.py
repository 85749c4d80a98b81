"""C26: data objects are independent of each other and of the raw data around them."""
import copy
import os
import pickle

from sim.session import Session, SimInterrupt, interrupted
from . import c15
from . import data_common as dc

IN_PROCESS = True
LEVEL = 'fault_enumeration'
BUDGET = {'quick': {'seeds': 12000, 'wall': 120, 'min': 60},
          'thorough': {'seeds': 150000, 'wall': 3000, 'min': 60}}
RULE = ('A seed draws a first table and 4-14 steps on a growing population of data objects, views and raw data (lists, arrays, frames, sparse matrices, '
        'dictionaries): making one from another in some forty ways (copies, conversions, slices, calculations, groups, splits, loading from and exporting to raw data, '
        'saving and loading), using one as the argument of an operation on another, and changing one (every in-place operation of C15, element assignment '
        'and renaming; for raw data assignment in place). A step may have a fault: the user function raises or is interrupted at its k-th call, the arguments '
        'are refused, or an interrupt comes at the k-th library line. After every step every member of the population that the step was not to change must '
        'be exactly what it was; views are judged until what they look at changes. Non-trivial: a change while another member derived from the same data exists.')
STATES = '(how made, how changed, data types, fault, outcome)'
REAL = ['nimble data objects, views, conversion, creation, saving and loading']
STUBS = ['user functions with fault points', 'interrupts at chosen library lines', 'disk, clock, kernel randomness']
ASSUMPTIONS = ['copyData is left at its default', 'a view is compared only while the object it looks at is not changed']

DERIVE = ['copy', 'copy', 'shallow', 'deep', 'convert', 'convert', 'raw', 'raw', 'raw', 'reload', 'reload', 'reload', 'slice', 'slice', 'axisCopy', 'axisCopy', 'extract', 'transposed', 'arith', 'arith', 'repeat', 'identity',
          'calculate', 'group', 'sets', 'unique', 'pickle', 'file', 'view', 'view', 'view', 'views', 'names', 'stats', 'mapReduce', 'matching', 'rename', 'fromRows', 'similar', 'iterate', 'stretch', 'flat', 'dims', 'nested']
COMBINE = ['append', 'insert', 'merge', 'replaceRect', 'replace', 'normalizeBoth', 'fillMask', 'inplaceArith', 'combineArith', 'setNamesFrom', 'refer']
RAW = ['pythonlist', 'numpyarray', 'numpymatrix', 'scipycsr', 'scipycsc', 'scipycoo', 'dict of list', 'list of dict', 'pandas dataframe']


def preload():
    import nimble
    nimble.settings.set('logger', 'enabledByDefault', 'False')


def gen(rng):
    kinds = rng.choice([('int',), ('float',), ('int', 'float', 'nan'), ('text',), ('mixed',), ('int', 'float'), ('nan',)])
    s = dc.spec(rng, kinds=kinds, maxp=6, maxf=5, minp=2, minf=2, plain=True)
    if any(k in ('text', 'mixed') for k in s['kinds']) and s['type'] == 'Sparse':
        s['type'] = 'Matrix'
    if rng.random() < 0.15:
        # more than two dimensions
        s = dc.tensor(rng, s)
    ops = []
    for n in range(rng.randrange(4, 15)):
        who, other = rng.randrange(100), rng.randrange(100)
        par = {'axis': rng.choice(c15.AX), 'i': rng.randrange(100), 'j': rng.randrange(100), 'v': rng.choice([0, 1, 2, -3, 0.5]), 'w': rng.randrange(6), 'seed': rng.randrange(1000)}
        fault = None
        r = rng.random()
        if r < 0.12:
            fault = {'k': rng.choice([0, 1, 2, 3, 5]), 'kind': rng.choice(['error', 'interrupt'])}
        elif r < 0.27:
            fault = {'line': int(10 ** rng.uniform(0, 3))}
        r = rng.random()
        if r < 0.45 or n == 0:
            ops.append(['derive', who, rng.choice(DERIVE), par, fault])
        elif r < 0.6:
            ops.append(['combine', who, rng.choice(COMBINE), par, fault, other])
        else:
            name = rng.choice(sorted(c15.INPLACE))
            ops.append(['change', who, name, par, fault, name in c15.REFUSE and rng.random() < 0.1])
    return {'spec': s, 'ops': ops}


def explore(rng, ctx):
    ctx.execute(gen(rng))


def shrink(case):
    from sim.engine import generic_shrink
    yield from generic_shrink(case)
    for i, s in enumerate(case['ops']):
        if s[4]:
            c = dict(case, ops=list(case['ops']))
            c['ops'][i] = s[:4] + [None] + s[5:]
            yield c


# ------------------------------------------------------- inside the session
def isdata(x):
    return hasattr(x, 'points') and hasattr(x, 'features')


def seen(x):
    """What can be observed of a member."""
    if isdata(x):
        out = c15.look(x)
        out.pop('labels', None)
        return out
    return raw(x)


def raw(x):
    import numpy
    import pandas
    import scipy.sparse
    if isinstance(x, pandas.DataFrame):
        return ['frame', [str(c) for c in x.columns], [str(c) for c in x.index], [[dc.cell(v) for v in r] for r in x.itertuples(index=False, name=None)]]
    if scipy.sparse.issparse(x):
        if x.format == 'coo':
            where = list(zip(x.row.tolist(), x.col.tolist()))
        else:
            major = [n for n in range(len(x.indptr) - 1) for _ in range(x.indptr[n + 1] - x.indptr[n])]
            where = list(zip(major, x.indices.tolist()))
        return ['sparse', list(x.shape), sorted([list(w), dc.cell(v)] for w, v in zip(where, x.data.tolist()) if not (isinstance(v, (int, float)) and v == 0))]
    if isinstance(x, numpy.ndarray):
        return ['array', list(x.shape), [dc.cell(v) for v in x.ravel().tolist()]]
    if isinstance(x, dict):
        return ['dict', [[str(dc.cell(k)), raw(v)] for k, v in x.items()]]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [raw(v) for v in x]
    return dc.cell(x) if x is not None else None


def spoil(x, w):
    """Change raw data in place."""
    import numpy
    import pandas
    import scipy.sparse
    if isinstance(x, pandas.DataFrame):
        if w == 0:
            x.iloc[0, 0] = 99
        elif w == 1:
            x.columns = [f'z{i}' for i in range(x.shape[1])]
        elif w == 2:
            x.index = [f'z{i}' for i in range(x.shape[0])]
        elif w == 3:
            x.drop(columns=[x.columns[0]], inplace=True)
        elif w == 4:
            x.sort_index(ascending=False, inplace=True)
        else:
            x.iloc[:, :] = 7
    elif scipy.sparse.issparse(x):
        x.data[:] = 99
        if w % 2 and x.format == 'coo' and len(x.row):
            x.row[:] = x.row[::-1].copy()
    elif isinstance(x, numpy.ndarray):
        if w % 2:
            x[(0,) * x.ndim] = 99
        else:
            x[...] = 99
    elif isinstance(x, dict):
        k = sorted(x, key=str)[0]
        if isinstance(x[k], list):
            x[k][0] = 99
        if w % 2:
            x['added'] = 1
        elif not isinstance(x[k], list):
            x[k] = 99
    elif isinstance(x, list):
        if x and isinstance(x[0], (list, dict)):
            spoil(x[0], w)
            if w % 3 == 0:
                x.append(x[0])
        elif x:
            x[0] = 'spoiled' if isinstance(x[0], str) or x[0] is None else 99
            if w % 2:
                x.append(x[0])


class World:
    def __init__(self, root):
        self.members, self.root = [], root

    def add(self, thing, how, parent=None, source=None):
        """source: the member looked at by a view."""
        if isdata(thing) and not (len(thing.points) and len(thing.features)):
            return
        if any(m['thing'] is thing for m in self.members):
            return
        self.members.append({'thing': thing, 'how': how, 'seen': seen(thing), 'family': parent['family'] if parent else len(self.members), 'source': source})

    def forget(self, gone):
        """Members and everything that looks at them."""
        gone = list(gone)
        for m in self.members:
            if m['source'] is not None and any(m['source'] is g for g in gone):
                gone.append(m)
        self.members = [m for m in self.members if not any(m is g for g in gone)]

    def lookers(self, m):
        out = [m]
        for x in self.members:
            if x['source'] is not None and any(x['source'] is o for o in out):
                out.append(x)
        return out[1:]


def op_make(nimble, state, spec, root):
    w = state['world'] = World(root)
    w.add(dc.build(nimble, dict(spec, name='first')), 'made')


def derive(nimble, world, m, how, p):
    """(call, function giving the members made from its result, whether m itself changes)"""
    obj = m['thing']
    ax, i, j, w, v = p['axis'], p['i'], p['j'], p['w'], p['v']
    call = c15.F.call
    if not isdata(obj):
        # raw data becomes an object
        if isinstance(obj, list) and obj and not isinstance(obj[0], (list, dict)):
            return (lambda: [nimble.data([list(range(len(obj)))], featureNames=obj if all(isinstance(x, str) for x in obj) else False, useLog=False)]), False
        t = ['List', 'Matrix', 'DataFrame', 'Sparse', None, None][w]
        return (lambda: [nimble.data(obj, returnType=t, useLog=False, **({'pointNames': False, 'featureNames': False} if i % 3 == 0 and not isinstance(obj, (dict,)) else {}))]), False
    A = getattr(obj, ax)
    n = len(A)
    P, Q = len(obj.points), len(obj.features)
    a, b, q = i % n, j % n, j % Q
    kw = {'useLog': False}
    total, num = c15.total, c15.num
    table = {
        'copy': lambda: [obj.copy()], 'shallow': lambda: [copy.copy(obj)], 'deep': lambda: [copy.deepcopy(obj)],
        'convert': lambda: [obj.copy(['List', 'Matrix', 'DataFrame', 'Sparse', obj.getTypeString(), 'List'][w])],
        'raw': lambda: [obj.copy(RAW[i % len(RAW)], **({'rowsArePoints': False} if w == 5 else {}))],
        'reload': lambda: [nimble.data(obj.copy(RAW[i % len(RAW)]) if w % 2 else obj, returnType=['List', 'Matrix', 'DataFrame', 'Sparse', None][j % 5], useLog=False)],
        'slice': lambda: [[obj[:, :]], [obj[i % P, :]], [obj[:, q]], [obj[[i % P], [q]]], [obj[0:i % P, :]], [obj.points[:], obj.features[:]]][w],
        'axisCopy': lambda: [[A.copy([a, b] if a != b else a, **kw)], [A.copy(lambda x: call(True), **kw)], [A.copy(start=0, end=n - 1, **kw)], [A.copy(number=n, **kw)], [A.copy(list(range(n)), **kw)], [A.copy(list(range(n))[::-1], **kw)]][w],
        'extract': lambda: [A.extract([a], **kw) if w < 3 else A.extract(lambda x: call(total(x) > v), **kw)],
        'transposed': lambda: [obj.T], 'arith': lambda: [[lambda: obj + 0, lambda: obj * 1, lambda: +obj, lambda: abs(obj), lambda: -obj, lambda: obj == obj][w]()],
        'repeat': lambda: [A.repeat(1 + w % 2, i % 2 == 0, **kw)],
        'identity': lambda: [obj.calculateOnElements(lambda e: call(e), useLog=False)],
        'calculate': lambda: [A.calculate((lambda x: call(list(x))) if w % 2 else (lambda x: call(x)), **kw)],
        'group': lambda: list(obj.groupByFeature(q, **kw).values())[:3], 'unique': lambda: [A.unique()],
        'sets': lambda: list(obj.trainAndTestSets([0, 0.5, 0.9][w % 3], labels=q if i % 2 else None, randomOrder=w > 2, **kw)),
        'pickle': lambda: [pickle.loads(pickle.dumps(obj))], 'names': lambda: [A.getNames()], 'stats': lambda: [A.sum() if w % 2 else A.max()],
        'mapReduce': lambda: [obj.points.mapReduce(lambda pt: call([(int(total(pt)) % 3, total(pt))]), lambda k, vs: call((k, sum(vs))), **kw)],
        'matching': lambda: [obj.matchingElements(lambda e: call(e == v), useLog=False), A.matching(lambda x: call(total(x) > v), useLog=False)],
        'nested': lambda: [obj.points[i % P]] if w % 2 else [next(iter(A))],
        'similar': lambda: [A.similarities('dot product')], 'dims': lambda: [list(obj.dimensions)] if w else [obj.dimensions],
        'fromRows': lambda: [nimble.data([obj.points[k] if w % 2 else obj.pointView(k) for k in range(P)], useLog=False)],
        'flat': lambda: [c for c in [obj.copy()] if c.flatten(['point', 'feature'][w % 2], **kw) is None],
        'stretch': lambda: [obj + obj.pointView(i % P).stretch, obj.pointView(0).stretch + obj],
    }
    if how == 'file':
        def trip():
            where = os.path.join(world.root, ['a.pickle', 'a.csv', 'a.mtx'][w % 3])
            obj.save(where)
            return [nimble.data(where, useLog=False)]
        return trip, False
    if how == 'rename':
        names = [f'{ax[0]}r{k}' for k in range(n)]
        if w % 2:
            names = {x: k for k, x in enumerate(names)}

        def rename():
            A.setNames(names, **kw)
            return [names]
        return rename, True
    if how in ('view', 'views', 'iterate'):
        if how == 'view':
            return (lambda: [[obj.view()], [obj.pointView(i % P)], [obj.featureView(q)], [obj.view(0, i % P, 0, q)], [obj.view(i % P, P - 1, q, Q - 1)], [obj.view(pointStart=0)]][w]), False
        if how == 'views':
            return (lambda: [obj.points.view(0, i % P) if w % 2 else obj.features.view(0, q)] if hasattr(obj.points, 'view') else [obj.view()]), False
        return (lambda: list(A)[:2]), False
    return table[how], how == 'extract'


def combine(nimble, m, other, how, p):
    """(call, members that may change)"""
    obj, arg = m['thing'], other['thing']
    ax, i, j, w, v = p['axis'], p['i'], p['j'], p['w'], p['v']
    A = getattr(obj, ax)
    kw = {'useLog': False}
    both = isdata(arg)
    if how == 'append':
        return lambda: A.append(arg, **kw)
    if how == 'insert':
        return lambda: A.insert(i % len(A), arg, **kw)
    if how == 'merge':
        return lambda: obj.merge(arg, point=['union', 'intersection', 'left', 'strict'][w % 4], feature=['union', 'intersection', 'left'][j % 3], onFeature=[None, 0][i % 2] if w != 3 else None, **kw)
    if how == 'replaceRect':
        return lambda: obj.replaceRectangle(arg, 0, 0, **kw)
    if how == 'replace':
        return lambda: A.replace(arg, None if w % 2 else list(range(len(getattr(arg, ax)) if both else 1))[::-1 if w > 2 else 1], **kw)
    if how == 'normalizeBoth':
        return lambda: obj.features.normalize(lambda a, b: (c15.F.call([c15.num(x) + 1 for x in a]), [c15.num(x) + 2 for x in b]), applyResultTo=arg, **kw)
    if how == 'fillMask':
        return lambda: A.fillMatching(v, arg, **kw)
    if how == 'inplaceArith':
        def compute():
            ns = {'o': obj, 'c': arg}
            exec(['o += c', 'o *= c', 'o -= c', 'o @= c', 'o /= c', 'o //= c'][w], ns)               # pylint: disable=exec-used
            return ns['o']
        return compute
    if how == 'combineArith':
        return lambda: [lambda: obj + arg, lambda: obj * arg, lambda: arg - obj, lambda: obj @ arg, lambda: obj == arg, lambda: obj.pointView(0).stretch * arg][w]()
    if how == 'setNamesFrom':
        return lambda: A.setNames(getattr(arg, ax).getNames() if both else arg, **kw)
    return lambda: obj.trainAndTestSets(0.4, labels=arg, randomOrder=False, **kw)


def attempt(func, fault):
    c15.F.arm(None, None)
    if fault and 'k' in fault:
        c15.F.arm(fault['k'], fault['kind'])
    try:
        if fault and 'line' in fault:
            out = c15.attempt(lambda: interrupted(func, {}, {'where': '/nimble/', 'k': fault['line']})[0])
        else:
            out = c15.attempt(func)
    except SimInterrupt:
        out = 'siminterrupt', None
    fired = c15.F.fired or out[0] == 'siminterrupt'
    c15.F.arm(None, None)
    return out[0], out[1], bool(fired)


def given(val):
    if isinstance(val, (int, float, str, list, tuple, dict)) or isdata(val):
        try:
            return c15.value(val)
        except Exception as e:                           # pylint: disable=broad-except
            return 'unusable ' + type(e).__name__
    return type(val).__name__


def near(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(near(a[k], b[k]) for k in a)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))
    return a == b


def alone(nimble, kind, how, p, todo, obj, arg):
    streams = nimble.random.pythonRandom.getstate(), nimble.random.numpyRandom.get_state()
    try:
        try:
            twin = obj.copy()
            if kind == 'combine':
                func = combine(nimble, {'thing': twin}, {'thing': arg.copy() if isdata(arg) else copy.deepcopy(arg)}, how, p)
            else:
                func = c15.operation(nimble, twin, dict(p, op=how), todo[5], obj.getTypeString() == 'Sparse')[0]
        except Exception:                                # pylint: disable=broad-except
            return None                                  # cannot be copied
        res, val, _ = attempt(func, None)
        return res, [c15.value(twin), given(val)] if res == 'ok' else None
    finally:
        nimble.random.pythonRandom.setstate(streams[0])
        nimble.random.numpyRandom.set_state(streams[1])


def op_step(nimble, state, todo):
    world = state['world']
    kind, who, how, p, fault = todo[:5]
    if not world.members:
        return None
    m = world.members[who % len(world.members)]
    obj = m['thing']
    changed = []
    new = []
    shared = any(x is not m and x['family'] == m['family'] for x in world.members)
    other = None
    try:
        if kind == 'derive':
            func, alters = derive(nimble, world, m, how, p)
            if alters:
                changed = [m]
        elif not isdata(obj):
            if kind == 'combine':
                return None
            func = lambda: spoil(obj, p['w'])
            fault = None
            how = 'spoil'
            changed = [m]
        elif kind == 'combine':
            other = world.members[todo[5] % len(world.members)]
            func = combine(nimble, m, other, how, p)
            changed = [m] if how not in ('combineArith', 'refer') else []
            if how == 'normalizeBoth':
                changed.append(other)
        else:
            numeric = obj.getTypeString() == 'Sparse'
            func, _ = c15.operation(nimble, obj, dict(p, op=how), todo[5], numeric)
            if func is None:
                return None
            changed = [m]
    except Exception as e:                               # pylint: disable=broad-except
        changed, func = [], None
        res, val, fired = 'setup ' + type(e).__name__, None, False
    bad = []
    twin = None
    if func is not None:
        if kind in ('change', 'combine') and isdata(obj) and not fault and not hasattr(obj, '_source') and not (other and how == 'normalizeBoth' and (other is m or hasattr(other['thing'], '_source'))):
            # the same on copies nothing else is made from
            twin = alone(nimble, kind, how, p, todo, obj, other and other['thing'])
        res, val, fired = attempt(func, fault)
        if twin and ((twin[0] == 'ok') != (res == 'ok') or twin[1] is not None and not near(twin[1], [c15.value(obj), given(val)])):
            now = [c15.value(obj), given(val)]
            at = 1 if twin[1] and near(twin[1][0], now[0]) else 0
            bad.append(['differs', f'not the same {"result" if at else "effect"} as on independent copies, {twin[0]} {str(twin[1] and twin[1][at])[:300]}: {str(now[at])[:300]}'])
    if res == 'ok' and kind == 'derive' and isdata(obj):
        for x in (val if isinstance(val, (list, tuple)) else [val]):
            if isdata(x) and any(y['thing'] is x for y in world.members):
                bad.append(['not-new', 'gave an object that was there before'])
    if res == 'ok':
        if kind == 'derive':
            new = [x for x in val if isdata(x) or isinstance(x, (list, dict)) or hasattr(x, 'dtype') and hasattr(x, 'shape') and x.shape or hasattr(x, 'iloc')]
        elif kind == 'combine' and how in ('combineArith', 'refer', 'inplaceArith'):
            new = [x for x in (val if isinstance(val, (list, tuple)) else [val]) if isdata(x)]
    isview = isdata(obj) and hasattr(obj, '_source')
    free = [] if isview else list(changed)
    gone = []
    for c in free:
        gone += world.lookers(c)
    for x in world.members:
        if any(x is g for g in free + gone):
            continue
        try:
            now = seen(x['thing'])
        except Exception as e:                           # pylint: disable=broad-except
            now = {'unusable': f'{type(e).__name__}: {e}'} if isinstance(x['seen'], dict) else ['unusable', type(e).__name__]
        if now != x['seen']:
            if isinstance(now, dict):
                d = dc.differ(x['seen'], now)
                text = f'{d}: {dc.show(x["seen"], d[:2])} -> {dc.show(now, d[:2])}'
            else:
                text = f'{str(x["seen"])[:200]} -> {str(now)[:200]}'
            same = 'itself' if x is m else 'its argument' if x is other else 'another'
            bad.append([f'{same}-{x["how"]}', f'{same} ({type(x["thing"]).__name__} made by {x["how"]}) changed in {text}'])
    # members whose own change is in doubt, and what looks at them, leave
    drop = []
    for c in free:
        if res not in ('ok',):
            drop.append(c)
        elif isdata(c['thing']) and not (len(c['thing'].points) and len(c['thing'].features)):
            drop.append(c)
        else:
            c['seen'] = seen(c['thing'])
    for c in free:
        drop += world.lookers(c)
    world.forget(drop)
    if any(m is x for x in world.members) or not free:
        for x in new[:3]:
            src = m if isdata(x) and hasattr(x, '_source') else None
            world.add(x, f'{how} of a {m["how"]}'[:60] if not m['how'].count(' of ') else how + ' of more', m, src)
    else:
        for x in new[:3]:
            if not (isdata(x) and hasattr(x, '_source')):
                world.add(x, how, m)
    while len(world.members) > 9:
        world.forget([world.members[1]])
    if not any(isdata(x['thing']) for x in world.members):
        world.members = []
    return [res[:60], fired, bad, type(obj).__name__, m['how'], how, shared and bool(free), len(world.members), isview]


OPS = {'make': op_make, 'step': op_step}


def run(case, ctx, res):
    root = ctx.fresh()
    res.nontrivial = False
    sess = Session(root, OPS, clock=(1.6e9, 0), rand=1, fresh=False)
    try:
        r = sess.start(armed=False)
        if not r.ok:
            raise RuntimeError(str(r['exc']))
        r = sess.call('make', _armed=False, spec=case['spec'], root=root)
        if not r.ok:
            res.violate('call-failed', f'make: {r["exc"]}')
            return
        for i, s in enumerate(case['ops']):
            r = sess.call('step', _armed=False, todo=s)
            if not r.ok:
                res.violate('call-failed', f'{s}: {r["exc"]}')
                return
            if r.value is None:
                continue
            out, fired, bad, typ, made, how, shared, n, isview = r.value
            fault = s[4]
            res.steps += 1
            if fired:
                res.faults['interrupt at a library line' if 'line' in fault else 'user function ' + fault['kind']] += 1
            elif out != 'ok':
                res.faults['refused operation'] += 1
            if shared:
                res.nontrivial = True
            head = f'step {i} {s[0]} {how} {s[3]} fault={fault} on a {typ} (made by {made}) -> {out}'
            res.states.add(f'{s[0]}/{how}/{typ}/{made}/{fired}/{out[:12]}')
            res.note(head, n)
            for sig, text in bad:
                res.violate(f'{how}-{sig}'[:60], f'{head}: {text}')
            if res.violations:
                return
    finally:
        sess.kill()
