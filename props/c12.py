"""C12: the same seed gives the same result in every process and history."""
import copy
import os

from sim import twin
from . import data_common as dc
from . import learn_common as lc

LEVEL = 'exploration'
BUDGET = {'quick': {'seeds': 3500, 'wall': 160, 'min': 40},
          'thorough': {'seeds': 40000, 'wall': 3000, 'min': 40}}
RULE = ('A seed draws 3-8 operations (learning, tuning, sampling, and data operations that group, merge, count or reorder) and runs them in three '
        'separately started processes that differ in hash randomisation, clock, kernel randomness, memory use, directory and in what they did before. '
        'Either each operation has its own seed and the processes issue them in different orders, or the library seed is set first and the order is the '
        'same. Results must be equal. Non-trivial: at least two operations gave a result.')
STATES = '(operation, learner or data operation, seeded, outcome)'
REAL = ['three real interpreters with different hash seeds', 'nimble.random', 'learning, tuning and data operations', 'scikit-learn, hyperopt, storm_tuner, pandas']
STUBS = ['clock', 'kernel randomness', 'earlier history of the process', 'user-defined learners']
ASSUMPTIONS = ['error messages are compared by type only']
HASHSEEDS = [0, 1, 4242]
CASE_TIMEOUT = 400

DATA_OPS = ['groupBy', 'merge', 'unionF', 'unionP', 'unique', 'countUnique', 'binary', 'toInt', 'mode', 'fill', 'mapReduce', 'show', 'report', 'statistics',
            'listOfDicts', 'dictOfLists', 'confusion', 'expand', 'collapse', 'sort', 'splitParse', 'copies', 'nimbleRepr', 'dtypes']


def preload():
    twin.start(HASHSEEDS, 'props.c12')


def setup_twin(nimble):
    nimble.settings.set('logger', 'enabledByDefault', 'False')
    nimble.learnerNames('sklearn')


IN_PROCESS = True


def gen_data_op(rng):
    kinds = ('text', 'text', 'mixed', 'int', 'bool')
    kind = rng.choice(DATA_OPS)
    s = dc.spec(rng, kinds=kinds, maxp=10, maxf=4, minp=2, minf=2, plain=rng.random() < 0.5)
    n, f = len(s['rows']), len(s['kinds'])
    s['fn'] = s['fn'] or [f'f{i}' for i in range(f)]
    t = copy.deepcopy(s)
    if kind == 'unionF':                                  # the same points in another order, other features
        s['pn'] = s['pn'] or [f'p{i}' for i in range(n)]
        order = rng.sample(range(n), n)
        t.update(pn=[s['pn'][i] for i in order], rows=[t['rows'][i] for i in order], fn=[x + '2' for x in t['fn']])
    elif kind in ('unionP', 'merge'):                     # the same features in another order, other points
        order = rng.sample(range(f), f)
        t.update(fn=[s['fn'][j] for j in order], kinds=[s['kinds'][j] for j in order], rows=[[row[j] for j in order] for row in t['rows']])
        t['pn'] = [f'other{i}' for i in range(n)] if s['pn'] else None
        if kind == 'merge':
            for x, off in ((s, 0), (t, rng.choice([0, 2]))):      # an identifier feature with unique values
                x['rows'] = [[f'id{i + off}'] + row for i, row in enumerate(x['rows'])]
                x['kinds'] = ['text'] + x['kinds']
            s['fn'] = ['id'] + s['fn']
            t['fn'] = ['id'] + [c + 'b' for c in t['fn']]
            t['rows'] = rng.sample(t['rows'], n)
            for x in (s, t):
                x['type'] = 'List' if x['type'] == 'Sparse' else x['type']
    if rng.random() < 0.1:
        t = dc.spec(rng, kinds=kinds, maxp=10, maxf=4, minp=2, minf=2)
    return {'op': 'd:' + kind, 's': s, 't': t, 'seed': None, 'arg': rng.randrange(1000)}


def gen(rng):
    mode = rng.choice(['seeded', 'seeded', 'library'])
    ops = []
    for _ in range(rng.randrange(3, 9)):
        if rng.random() < 0.45:
            ops.append(gen_data_op(rng))
        elif mode == 'seeded':
            ops.append(lc.gen_op(rng, kinds=lc.SEEDED, seed='always'))
        else:
            ops.append(lc.gen_op(rng))
    for op in ops:
        if op['op'] in ('train', 'trainAndApply') and op['clf'] and rng.random() < 0.4:      # strategies over text labels
            op.update(learner=rng.choice(['nimble.KNNClassifier', 'sklearn.RandomForestClassifier', 'sklearn.DecisionTreeClassifier']), args={},
                      strategy=rng.choice(['OneVsAll', 'OneVsOne']), mode=rng.choice([None, None, 'bestScore', 'allScores']))
            op['d'].update(labels='str', classes=rng.choice([3, 4]))
    universes = []
    for u in range(3):
        order = list(range(len(ops)))
        if mode == 'seeded' and u:
            rng.shuffle(order)
        pre = [lc.gen_op(rng) if rng.random() < 0.7 else gen_data_op(rng) for _ in range(rng.choice([0, 0, 1, 3]) if u else 0)]
        universes.append({'order': order, 'pre': pre, 'clock': rng.choice([1.6e9, 1.7e9, 1.2e9, 86400.5]), 'rand': rng.randrange(1, 10 ** 6), 'junk': rng.randrange(10 ** 6),
                          'dir': rng.choice(['a', 'work dir', 'x' * 40]), 'inside': mode == 'library' and rng.random() < 0.3})
    return {'mode': mode, 'lib': rng.randrange(2 ** 32), 'ops': ops, 'universes': universes}


def explore(rng, ctx):
    ctx.execute(gen(rng))


def shrink(case):
    n = len(case['ops'])
    for i in range(n):
        c = copy.deepcopy(case)
        del c['ops'][i]
        for u in c['universes']:
            u['order'] = [k - (k > i) for k in u['order'] if k != i]
        yield c
    for u in range(len(case['universes'])):
        if case['universes'][u]['pre']:
            c = copy.deepcopy(case)
            c['universes'][u]['pre'] = []
            yield c
            for k in range(len(case['universes'][u]['pre'])):
                c = copy.deepcopy(case)
                del c['universes'][u]['pre'][k]
                yield c
        if case['universes'][u]['order'] != sorted(case['universes'][u]['order']):
            c = copy.deepcopy(case)
            c['universes'][u]['order'].sort()
            yield c


# ------------------------------------------------------- inside a process
def data_op(nimble, op):
    kind = op['op'][2:]
    A, B = dc.build(nimble, op['s']), dc.build(nimble, op['t'])
    a = op['arg']
    f0 = A.features.getNames()[a % len(A.features)]
    kw = {'useLog': False}
    if kind == 'groupBy':
        out = A.groupByFeature(f0 if a % 3 else [f0, 0], **kw)
        return [[str(k), lc.canon(v)] for k, v in out.items()]
    if kind == 'merge':
        A.merge(B, point=['union', 'intersection', 'left'][a % 3], feature=['union', 'intersection', 'left'][a // 3 % 3],
                onFeature=None if a % 7 == 0 else 'id', force=True, **kw)
        return lc.canon(A)
    if kind == 'unionF':
        A.features.append(B, **kw) if a % 2 else B.features.insert(0, A, **kw)
        return [lc.canon(A), lc.canon(B)]
    if kind == 'unionP':
        A.points.append(B, **kw) if a % 2 else A.points.insert(0, B, **kw)
        return lc.canon(A)
    if kind == 'unique':
        return [lc.canon(A.points.unique()), lc.canon(A.features.unique())]
    if kind == 'countUnique':
        return [[str(k), v] for k, v in A.countUniqueElements().items()]
    if kind == 'binary':
        out = A.replaceFeatureWithBinaryFeatures(f0, **kw)
        return [lc.canon(A), lc.canon(out)]
    if kind == 'toInt':
        out = A.transformFeatureToIntegers(f0, **kw)
        return [lc.canon(A), [[str(k), str(v)] for k, v in out.items()]]
    if kind == 'mode':
        return [lc.canon(nimble.calculate.mode(A.features[0])), lc.canon(A.features.calculate(nimble.calculate.mode, **kw))]
    if kind == 'fill':
        A.features.fillMatching(nimble.fill.mode if a % 2 else nimble.fill.forwardFill, [0, 'a', 'b'], **kw)
        return lc.canon(A)
    if kind == 'mapReduce':
        return lc.canon(A.points.mapReduce(lambda p: [(str(p[0]), 1), (str(p[-1]), 2)], lambda k, vs: (k, sum(vs)), **kw))
    if kind == 'show':
        return [str(A), repr(B), A.toString()]
    if kind == 'report':
        return [lc.canon(A.report(**kw)), lc.canon(A.features.report(**kw))]
    if kind == 'statistics':
        return [lc.canon(A.features.statistics(['mean', 'mode', 'uniqueCount', 'max'][a % 4])), lc.canon(nimble.calculate.uniqueCount(A.features[0]))]
    if kind == 'listOfDicts':
        rows = [dict(sorted(zip(op['s']['fn'], r), key=lambda kv: hashorder(kv[0], i * a))) for i, r in enumerate(dc.values(op['s']))]
        return lc.canon(nimble.data(rows, returnType=['List', 'DataFrame', None][a % 3], **kw))
    if kind == 'dictOfLists':
        return lc.canon(nimble.data({k: [r[j] for r in dc.values(op['s'])] for j, k in enumerate(op['s']['fn'])}, returnType=['List', 'DataFrame', None][a % 3], **kw))
    if kind == 'confusion':
        y = nimble.data([[[3, 1, 7, 0][(i * 7 + a) % 4]] for i in range(9)], returnType='List', **kw)
        z = nimble.data([[[3, 1, 7, 0][(i * 5 + a // 3) % 4]] for i in range(9)], returnType='List', **kw)
        return lc.canon(nimble.calculate.confusionMatrix(y, z, labels=None))
    if kind == 'expand':
        names = ['x', 'y', 'long name', 'b']
        obj = nimble.data([[f'k{i // 4}', names[(i + a) % 4], i] for i in range(8)], featureNames=['id', 'what', 'val'], returnType=['List', 'DataFrame'][a % 2], **kw)
        obj.points.combineByExpandingFeatures('what', 'val', **kw)
        return lc.canon(obj)
    if kind == 'collapse':
        A.points.splitByCollapsingFeatures(A.features.getNames()[:2], 'names', 'values', **kw)
        return lc.canon(A)
    if kind == 'sort':
        A.points.sort(f0, reverse=bool(a % 2), **kw) if a % 3 else A.features.sort(**kw)
        return lc.canon(A)
    if kind == 'splitParse':
        A.features.splitByParsing(f0, lambda v: [str(v)[:1], str(v)[1:]], ['head', 'tail'], **kw)
        return lc.canon(A)
    if kind == 'copies':
        return [str(A.copy(to=t)) for t in ('pythonlist', 'dictoflist', 'listofdict')]
    if kind == 'nimbleRepr':
        return [str(x) for x in A.features.getNames()] + [str(A.points), str(A.features)]
    if kind == 'dtypes':
        return dc.snap(A)['dtypes']
    raise KeyError(kind)


def hashorder(name, k):
    import hashlib
    return hashlib.sha1(f'{name}{k}'.encode()).hexdigest()


def one(nimble, state, op):
    try:
        val = data_op(nimble, op) if op['op'].startswith('d:') else lc.perform(nimble, state, op)
        return ['ok', val]
    except Exception as e:                               # pylint: disable=broad-except
        return ['exc', type(e).__name__]


def universe(nimble, lib, ops, order, pre, inside):
    state = {}
    for op in pre:
        one(nimble, state, op)
    out = [None] * len(ops)
    if lib is not None:
        if inside:                                       # the same, in a section started after other draws
            nimble.random.setSeed(lib + 1, useLog=False)
            with nimble.random.alternateControl(lib, useLog=False):
                for k in order:
                    out[k] = one(nimble, state, ops[k])
            return out
        nimble.random.setSeed(lib, useLog=False)
    for k in order:
        out[k] = one(nimble, state, ops[k])
    return out


# -------------------------------------------------------------- the oracle
def run(case, ctx, res):
    root = ctx.fresh()
    res.nontrivial = False
    lib = case['lib'] if case['mode'] == 'library' else None
    got = []
    for k, u in enumerate(case['universes']):
        got.append(twin.call(HASHSEEDS[k], 'universe', root=os.path.join(root, u['dir'] + str(k)), clock=u['clock'], rand=u['rand'], junk=u['junk'],
                             args={'lib': lib, 'ops': case['ops'], 'order': u['order'], 'pre': u['pre'], 'inside': u['inside']}))
        res.steps += len(u['pre']) + len(u['order'])
    base = got[0]
    res.nontrivial = sum(r[0] == 'ok' for r in base) >= 2
    for i, op in enumerate(case['ops']):
        name = f'{op["op"]}/{op.get("learner") or ""}/{op["seed"] is not None}'
        res.states.add(f'{name}/{op.get("selection")}/{op.get("strategy")}/{op.get("mode")}/{base[i][0]}')
        res.counts['operations compared'] += 1
        res.counts['raised' if base[i][0] == 'exc' else 'gave a result'] += 1
        for k in (1, 2):
            if got[k][i] != base[i]:
                a, b = repr(base[i]), repr(got[k][i])
                j = next((n for n in range(min(len(a), len(b))) if a[n] != b[n]), min(len(a), len(b)))
                res.violate('differs:' + op['op'].split(':')[0], f'operation {i} {describe(op)} gave ...{a[max(0, j - 60):j + 80]}... in process 0 and ...{b[max(0, j - 60):j + 80]}... in '
                            f'process {k} (hash seed {HASHSEEDS[k]}, {len(case["universes"][k]["pre"])} operations before, order {case["universes"][k]["order"]})')
                res.note('differs', i, k)
                return
    for k, u in enumerate(case['universes'][1:], 1):
        res.faults['another hash seed'] += 1
        if u['pre']:
            res.faults['other history before'] += 1
        if u['order'] != sorted(u['order']):
            res.faults['other order'] += 1
        if u['clock'] != case['universes'][0]['clock']:
            res.faults['other clock'] += 1
    res.note(base)


def describe(op):
    return {k: v for k, v in op.items() if k not in ('s', 't', 'd')}
