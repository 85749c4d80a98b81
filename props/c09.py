"""C09: saving data or learners fails loudly or round-trips, and never alters the object."""
import errno
import os

from sim.session import Session
from . import data_common as dc

IN_PROCESS = True
LEVEL = 'fault_enumeration'
BUDGET = {'quick': {'seeds': 3000, 'wall': 150, 'min': 50},
          'thorough': {'seeds': 60000, 'wall': 3000, 'min': 200}}
RULE = ('A seed draws a data object (type, values, names with special characters, view, tensor) or a trained learner, and a format; it is saved once '
        'without faults (counting file operations) and loaded back, and then saved with every disk error, full disk or partial write at sampled file '
        'operations, and interrupted at sampled lines; refused saves (unknown formats, empty objects, tensors) are drawn too. Non-trivial: a fault fired '
        'or a file was loaded back.')
STATES = '(what, type, format, names, fault kinds, outcome)'
REAL = ['Base.save, TrainedLearner.save, nimble.data, nimble.loadTrainedLearner', 'pandas, numpy, scipy.io, h5py, cloudpickle writers', 'kernel file system']
STUBS = ['disk errors, short and partial writes at the C library boundary', 'interrupts at chosen lines of the library']
ASSUMPTIONS = ['csv files are loaded with the separator and the presence of names stated, as a user does for a known file',
               'text that itself reads as a number or a missing value is not drawn for csv (the format cannot tell them apart)',
               'file formats that hold only floating point numbers (mtx) are compared by value']
ERRNOS = [errno.ENOSPC, errno.EIO, errno.EDQUOT]
LEARNERS = ['nimble.KNNClassifier', 'nimble.RidgeRegression', 'sklearn.LinearRegression', 'sklearn.KNeighborsClassifier', 'custom']


def gen(rng):
    if rng.random() < 0.15:
        return {'what': 'learner', 'learner': rng.choice(LEARNERS), 'ext': rng.choice(['', '.pickle', '.nimbl']), 'seed': rng.randrange(99), 'fault': None}
    fmt = rng.choice(['csv', 'csv', 'mtx', 'hdf5', 'h5', 'pickle', 'p', 'pkl'])
    s = dc.spec(rng, maxp=rng.choice([3, 8, 13]))
    if fmt in ('hdf5', 'h5', 'pickle') and s['kinds'][0] in ('int', 'float') and len(set(s['kinds'])) == 1 and rng.random() < 0.4:
        n = rng.choice([2, 3])
        k = rng.choice([1, 2, 3])
        base = [v for r in s['rows'] for v in r] * 6
        s['rows'] = [[base[(i * 5 + j) % len(base)] for j in range(n * k)] for i in range(len(s['rows']))]
        s['kinds'] = [s['kinds'][0]] * (n * k)
        s['dims'] = [n, k]
        s['fn'] = None
    p, f = len(s['rows']), len(s['kinds'])
    if rng.random() < 0.35 and not s.get('dims'):
        a, c = rng.randrange(p), rng.randrange(f)
        s['view'] = [a, rng.randrange(a, p), c, rng.randrange(c, f)]
    r = rng.random()
    case = {'what': 'data', 'spec': s, 'fmt': fmt, 'names': rng.random() < 0.8, 'how': rng.choice(['ext', 'arg', 'both']), 'fault': None,
            'existing': rng.random() < 0.3}
    if r < 0.06:
        case['fmt'] = rng.choice(['xlsx', 'txt', 'json'])
    return case


def explore(rng, ctx):
    case = gen(rng)
    base = ctx.execute(case)
    n = base.events
    if not n:
        return
    ks = list(range(n)) if n <= 6 else sorted(rng.sample(range(n), 6))
    kinds = ['errno', 'torn_errno', 'sticky', 'short']
    for k in ks if ctx.tier == 'thorough' else ks[:4]:
        kind = rng.choice(kinds)
        ctx.execute(dict(case, fault={'plan': [[k, kind, rng.choice(ERRNOS) if kind != 'short' else 0]]}))
    for _ in range(2 if ctx.tier == 'quick' else 8):
        ctx.execute(dict(case, fault={'interrupt': rng.randrange(rng.choice([20, 60, 200]))}))


def shrink(case):
    if case['what'] != 'data':
        return
    s = case['spec']
    for i in range(len(s['rows'])):
        if len(s['rows']) > 1 and not s['view']:
            t = dict(s, rows=s['rows'][:i] + s['rows'][i + 1:])
            if s['pn']:
                t['pn'] = s['pn'][:i] + s['pn'][i + 1:]
            yield dict(case, spec=t)
    for i in range(len(s['kinds'])):
        if len(s['kinds']) > 1 and not s['view'] and not s.get('dims'):
            t = dict(s, rows=[r[:i] + r[i + 1:] for r in s['rows']], kinds=s['kinds'][:i] + s['kinds'][i + 1:])
            if s['fn']:
                t['fn'] = s['fn'][:i] + s['fn'][i + 1:]
            yield dict(case, spec=t)
    for k in ('pn', 'fn', 'view'):
        if s[k]:
            yield dict(case, spec=dict(s, **{k: None}))
    for i, r in enumerate(s['rows']):
        for j, v in enumerate(r):
            simple = {'text': 'a', 'bool': True}.get(s['kinds'][j], 1)
            if v != simple:
                rows = [list(x) for x in s['rows']]
                rows[i][j] = simple
                yield dict(case, spec=dict(s, rows=rows))
    if case['existing']:
        yield dict(case, existing=False)


# ---------------------------------------------------------------- in session
def trained(nimble, case):
    import random
    r = random.Random(case['seed'])
    x = nimble.data([[r.random(), r.random() * 3, r.choice([0, 1, 2])] for _ in range(14)], useLog=False)
    y = nimble.data([[i % 3] for i in range(14)], useLog=False)
    test = nimble.data([[r.random(), r.random() * 3, 1] for _ in range(5)], useLog=False)
    name = case['learner']
    kw = {}
    if name == 'custom':
        name = custom(nimble)
    elif 'KNN' in name:
        kw = {'k': 3}
    elif 'Ridge' in name:
        kw = {'lamb': 0.5}
    elif 'KNeighbors' in name:
        kw = {'n_neighbors': 2}
    return nimble.train(name, x, y, arguments=kw, useLog=False), test


def custom(nimble):
    class Mean(nimble.CustomLearner):
        """A learner defined by the user."""
        learnerType = 'regression'

        def train(self, trainX, trainY, shift=1):
            self.value = sum(trainY.copy('python list')[i][0] for i in range(len(trainY.points))) + shift

        def apply(self, testX):
            return nimble.data([[self.value + i] for i in range(len(testX.points))], useLog=False)
    return Mean


def lsnap(tl, test):
    out = {'args': repr(sorted((k, repr(v)) for k, v in tl.arguments.items())), 'name': tl.learnerName, 'type': str(tl.learnerType), 'seed': repr(tl.randomSeed)}
    out['apply'] = dc.logical(tl.apply(test, useLog=False))['rows']
    return out


def op_make(nimble, state, case):
    if case['what'] == 'learner':
        state['obj'], state['test'] = trained(nimble, case)
        state['ref'] = lsnap(state['obj'], state['test'])
    else:
        state['obj'] = dc.build(nimble, case['spec'])
        state['ref'] = dc.snap(state['obj'])
        state['base'] = state['obj'] if not case['spec']['view'] else state['obj']._source
        state['bref'] = dc.snap(state['base'])


def op_save(nimble, state, path, **kw):
    state['obj'].save(path, **kw)


def op_state(nimble, state, case):
    if case['what'] == 'learner':
        now = lsnap(state['obj'], state['test'])
        return dc.differ(state['ref'], now), dc.show(now, dc.differ(state['ref'], now)), state['ref']
    now = dc.snap(state['obj'])
    diff = dc.differ(state['ref'], now)
    bnow = dc.snap(state['base'])
    diff2 = ['source-' + d for d in dc.differ(state['bref'], bnow)]
    return diff + diff2, dc.show(now, diff), state['ref']


def op_load(nimble, state, case, path, **kw):
    if case['what'] == 'learner':
        tl = nimble.loadTrainedLearner(path, useLog=False)
        return lsnap(tl, state['test'])
    obj = nimble.data(path, useLog=False, **kw)
    return dc.snap(obj)


OPS = {'make': op_make, 'save': op_save, 'state': op_state, 'load': op_load}


def expected(case, ref, fmt, given):
    """The logical content the file has to load back as."""
    exp = dict(ref)
    if fmt in ('pickle', 'p', 'pkl') or case['what'] == 'learner':
        return exp
    if not case['names']:
        exp['pn'] = exp['fn'] = None
    if fmt in ('hdf5', 'h5'):
        exp['fn'] = None
    return exp


def run(case, ctx, res):
    root = ctx.fresh()
    res.events = 0
    res.nontrivial = False
    sess = Session(root, OPS, clock=(1.6e9, 0), rand=1, fresh=False)
    fault = case['fault'] or {}
    try:
        r = sess.start(armed=False)
        if not r.ok:
            raise RuntimeError(str(r['exc']))
        r = sess.call('make', case=case, _armed=False)
        if not r.ok:
            res.violate('call-failed', r['exc'])
            return
        kw, fmt = {}, None
        if case['what'] == 'learner':
            path = os.path.join(root, 'learner' + case['ext'])
            fmt = 'pickle'
            real = path if case['ext'] else path + '.pickle'
        else:
            fmt = case['fmt']
            path = os.path.join(root, 'out' + ('.' + fmt if case['how'] != 'arg' else ''))
            if case['how'] != 'ext':
                kw['fileFormat'] = fmt
            kw['includeNames'] = case['names']
            real = path
            if case['existing']:
                with open(path, 'w') as f:
                    f.write('earlier content that is longer than nothing\n' * 30)
        intr = {'where': '/nimble/core/', 'k': fault['interrupt']} if 'interrupt' in fault else None
        r = sess.call('save', path=path, _plan=fault.get('plan', []), _interrupt=intr, **kw)
        res.events = r['io']['events']
        res.fire(r['io']['fired'])
        res.steps += 1
        interrupted = bool(r['exc'] and r['exc']['type'] == 'SimInterrupt')
        fired = r['io']['nfired'] + interrupted
        if interrupted:
            res.faults['interrupt'] += 1
        d = sess.call('state', case=case, _armed=False)
        where = f'{case["what"]} {fmt} fault {fault}: save gave {r["exc"]["type"] + ": " + r["exc"]["msg"] if r["exc"] else "no error"}'
        if not d.ok:
            res.violate('unusable-after-save', where + f'; then the object fails with {d["exc"]["type"]}: {d["exc"]["msg"]}')
            return
        diff, now, ref = d.value
        if diff:
            res.violate('object-altered', where + f'; changed {diff}: {now}, was {dc.show(ref, diff)}')
            return
        s = case.get('spec') or {}
        tag = f'{case["what"]}/{s.get("type")}/{bool(s.get("view"))}/{fmt}/{bool(s.get("pn"))}{bool(s.get("fn"))}{bool(s.get("dims"))}/{sorted(r["io"]["fired"])}{interrupted}/'
        loadkw = {}
        if case['what'] == 'data' and fmt == 'csv':
            loadkw = {'pointNames': bool(case['names'] and s['pn']), 'featureNames': bool(case['names'] and s['fn']), 'inputSeparator': ','}
        if case['what'] == 'data' and fmt not in ('pickle', 'p', 'pkl'):
            loadkw['returnType'] = s['type']
        outcome = 'ok' if r.ok else 'error'
        res.states.add(tag + outcome)
        res.note(tag, outcome, r['exc'] and r['exc']['type'], res.events, fired)
        res.nontrivial = bool(fired) or r.ok

        def reload(real, where):
            loaded = sess.call('load', case=case, path=real, _armed=False, **loadkw)
            if not loaded.ok:
                res.violate('saved-file-does-not-load', where + f'; loading gives {loaded["exc"]["type"]}: {loaded["exc"]["msg"]}')
                return False
            exp = expected(case, ref, fmt, loaded.value)
            keys = ['args', 'name', 'type', 'apply'] if case['what'] == 'learner' else ['shape', 'dims', 'rows', 'pn', 'fn']
            bad = [k for k in keys if exp[k] != loaded.value[k]]
            if bad:
                res.violate('round-trip', where + f'; loads as {dc.show(loaded.value, bad)}, saved {dc.show(exp, bad)}')
                return False
            return True
        if r.ok:
            if case['what'] == 'data' and fmt not in ('csv', 'mtx', 'hdf5', 'h5', 'pickle', 'p', 'pkl'):
                res.violate('unknown-format-accepted', where)
                return
            if not reload(real, where):
                return
        if fired:
            # the object can still be saved, once the disk is healthy again
            path2 = os.path.join(root, 'again' + os.path.basename(path)[3 if case['what'] == 'data' else 7:])
            r2 = sess.call('save', path=path2, _armed=False, **kw)
            if r2.ok:
                reload(path2 if case['what'] == 'data' or case['ext'] else path2 + '.pickle', where + '; then a second save')
            res.note('again', r2.ok)
    finally:
        sess.close()
