"""C14: a trained learner changes only by a successful retrain, and only then."""
from sim.session import CallFailed, Session, SimInterrupt, interrupted
from . import learn_common as lc

IN_PROCESS = True
LEVEL = 'fault_enumeration'
BUDGET = {'quick': {'seeds': 2600, 'wall': 150, 'min': 60},
          'thorough': {'seeds': 30000, 'wall': 3000, 'min': 60}}
RULE = ('A seed draws 1-3 trained learners (library, user-defined and scikit-learn; one-vs-all and one-vs-one; tuned) and 4-12 steps on them: apply, '
        'test, scores, attributes and other queries, with and without call-time arguments, copies (shallow, saved and loaded), changes to the data '
        'and argument objects used before, and retraining or incremental training that succeeds, is refused, fails or is interrupted at the k-th learner '
        'call, or is interrupted at the k-th library line. After every step every learner is compared with its expected behaviour; after a successful '
        'retraining that is a freshly trained learner, after incremental training the learner code run without the library. Non-trivial: a failed retrain.')
STATES = '(learner, strategy, step, fault kind, outcome)'
REAL = ['TrainedLearner and TrainedLearners', 'nimble.train, tuning', 'custom, library and scikit-learn interfaces', 'scikit-learn', 'save and load of learners']
STUBS = ['learners with fault points', 'interrupts at chosen library lines', 'disk, clock, kernel randomness']
ASSUMPTIONS = ['a learner whose own incrementalTrain fails half-way may have changed itself (its predictions are then not judged)',
               'shallow copies share the trained model, so they are not judged after incremental training of another one']
PRELOAD = ['sklearn.ensemble', 'sklearn.neighbors', 'sklearn.svm', 'sklearn.naive_bayes', 'sklearn.tree', 'sklearn.decomposition']

LEARNERS = lc.REGRESSORS + lc.CLASSIFIERS + [('Online', {'rate': 0.5}), ('Majority', {'bias': 1}), ('Majority', {}), ('sklearn.SGDRegressor', {'shuffle': False}), ('Picky', {'level': 1}), ('Both', {'power': 2}), ('Both', {})]
NEWARGS = {'Noisy': [{'shift': 2}, {'draws': 1}], 'Weighted': [{'a': 3}, {'b': 0, 'c': 1}], 'Online': [{'rate': 0.75}], 'Majority': [{'bias': 4}],
           'sklearn.RandomForestRegressor': [{'n_estimators': 2}, {'max_depth': 2}], 'nimble.RidgeRegression': [{'lamb': 3}], 'sklearn.SGDRegressor': [{'alpha': 0.01}],
           'sklearn.DecisionTreeRegressor': [{'max_depth': 1}], 'sklearn.Ridge': [{'alpha': 5}], 'nimble.KNNClassifier': [{'k': 1}, {'k': 5}],
           'sklearn.RandomForestClassifier': [{'n_estimators': 2}, {'max_depth': 1}], 'sklearn.LogisticRegression': [{'C': 0.1}], 'sklearn.SGDClassifier': [{'alpha': 0.01}],
           'sklearn.KNeighborsClassifier': [{'n_neighbors': 1}, {'weights': 'distance'}], 'sklearn.DecisionTreeClassifier': [{'max_depth': 1}], 'sklearn.SVC': [{'C': 5}],
           'sklearn.GaussianNB': [{'var_smoothing': 0.1}], 'Picky': [{'level': 2}], 'Both': [{'power': 3}, {'power': -1, 'plus': 2}]}
BADARGS = {'sklearn.KNeighborsClassifier': {'n_neighbors': -1}, 'sklearn.RandomForestClassifier': {'n_estimators': -2}, 'sklearn.Ridge': {'alpha': -1},
           'sklearn.DecisionTreeClassifier': {'max_depth': -4}, 'sklearn.SVC': {'C': -1}, 'nimble.RidgeRegression': {'lamb': 'x'}}
CALLTIME = {'Weighted': {'d': 9}, 'Noisy': {'scale': 4}, 'Both': {'power': 7}}
INCREMENTAL = ['Online', 'Majority', 'sklearn.GaussianNB', 'sklearn.SGDRegressor', 'Picky']
YHOW = ['obj', 'obj', 'obj', 'id', 'name']
QUERIES = ['apply', 'apply', 'applyArg', 'test', 'testId', 'scores', 'best', 'all', 'attributes', 'repr', 'arguments', 'onTest']


def preload():
    import nimble
    nimble.settings.set('logger', 'enabledByDefault', 'False')
    try:
        nimble.learnerNames('sklearn')
    except Exception:                                    # pylint: disable=broad-except
        pass


def gen_data(rng, name):
    clf = name == 'Majority' or any(name == n for n, _ in lc.CLASSIFIERS)
    labels = 'int' if clf else 'float'
    if name in ('nimble.KNNClassifier', 'sklearn.RandomForestClassifier', 'sklearn.DecisionTreeClassifier', 'sklearn.SVC') and rng.random() < 0.4:
        labels = 'str'
    # sparse text is not supported
    return dict(lc.dspec(rng, lc.TYPES if labels != 'str' else ['List', 'Matrix', 'DataFrame'], labels=labels), y=rng.choice(YHOW)), clf


def gen(rng):
    made, steps = [], []
    for i in range(rng.choice([1, 2, 2, 3])):
        if made and rng.random() < 0.4:
            src = rng.choice(made)
            steps.append(['train', i, dict(src)])          # the very same arguments and data again
            made.append(dict(src, id=i))
            continue
        name, args = rng.choice(LEARNERS)
        d, clf = gen_data(rng, name)
        s = {'learner': name, 'args': dict(args), 'd': d, 'clf': clf, 'seed': rng.randrange(1000), 'strategy': 'default', 'id': i}
        if clf and d['classes'] > 2 and rng.random() < (0.5 if name in INCREMENTAL else 0.35):
            s['strategy'] = rng.choice(['OneVsAll', 'OneVsOne'])
        elif name in lc.TUNABLE and rng.random() < 0.3:
            k = rng.choice(sorted(lc.TUNABLE[name]))
            s['tune'] = {k: lc.TUNABLE[name][k]}
            s['args'].pop(k, None)
        made.append(s)
        steps.append(['train', i, s])
    ids = {s['id']: s for s in made}
    for _ in range(rng.randrange(4, 13)):
        i = rng.choice(sorted(ids))
        s = ids[i]
        r = rng.random()
        if r < 0.25:
            steps.append(['query', i, rng.choice(QUERIES)])
            if steps[-1][2] in ('apply', 'applyArg') and rng.random() < 0.5:
                steps.append(['mutate', i, 'result'])
        elif r < 0.38:
            new = max(ids) + 1
            how = rng.choice(['shallow', 'saved'])
            ids[new] = dict(s, id=new)
            steps.append(['copy', i, new, how])
        elif r < 0.48:
            steps.append(['mutate', i, rng.choice(['X', 'Y', 'args', 'reported', 'retrainX', 'retrainArgs', 'result'])])
        else:
            name = s['learner']
            inc = name in INCREMENTAL and rng.random() < 0.5
            d = dict(s['d'], seed=rng.randrange(10 ** 6), n=rng.randrange(8, 24), y=rng.choice(YHOW))
            if rng.random() < 0.4:
                d['label'] = rng.choice(['target', 'answer'])
            args = dict(rng.choice(NEWARGS[name])) if rng.random() < 0.6 else {}
            if inc and name.startswith('sklearn'):
                args = {}
            if inc and rng.random() < 0.3:
                d['classes'] = rng.choice([3, 4, 5]) if d['labels'] == 'int' else d['classes']
            if inc and s['strategy'] != 'default' and rng.random() < 0.5:
                d['only'] = rng.sample(range(d['classes']), rng.randrange(1, d['classes']))
            if inc:
                args.pop('scale', None)
                args.pop('d', None)
            fault = None
            r = rng.random()
            if r < 0.2:
                fault = {'k': rng.choice([0, 0, 1, 1, 2, 3]), 'kind': rng.choice(['error', 'interrupt'])}
            elif r < 0.5:
                fault = {'line': int(10 ** rng.uniform(0.3, 3.6))}
            elif r < 0.6:
                fault = {'bad': rng.choice(['args', 'unknown', 'length', 'nolabels'])}
                if fault['bad'] == 'args':
                    if name not in BADARGS or inc:
                        fault['bad'] = 'unknown'
                    else:
                        args.update(BADARGS[name])
                if fault['bad'] == 'unknown':
                    args['nosuchargument'] = 1
            steps.append(['incr' if inc else 'retrain', i, d, args, rng.randrange(1000), fault, rng.random() < 0.3])
    return {'ops': steps, 'probe': rng.randrange(10 ** 6)}


def explore(rng, ctx):
    ctx.execute(gen(rng))


def shrink(case):
    from sim.engine import generic_shrink
    yield from generic_shrink(case)
    for i, s in enumerate(case['ops']):
        if s[0] in ('retrain', 'incr') and s[5]:
            c = dict(case, ops=list(case['ops']))
            c['ops'][i] = s[:5] + [None] + s[6:]
            yield c


# ------------------------------------------------------- inside the session
def picky(nimble, state):
    """A learner that keeps what it is given and checks it at the end of training."""
    if 'Picky' in lc.learners(nimble, state):
        return

    class Picky(nimble.CustomLearner):
        learnerType = 'regression'

        def train(self, trainX, trainY, level=0):
            self.level = level
            lc.fault.point('train')
            self.total = sum(sum(r) for r in trainX.copy('python list')) + len(trainY.points)
            lc.fault.point('train-mid')
            self.out = nimble.data([[self.total + level]], useLog=False)
            lc.fault.point('train-end')

        def incrementalTrain(self, trainX, trainY, level=0):
            lc.fault.point('incremental')
            self.level = level
            self.total += sum(sum(r) for r in trainX.copy('python list'))
            self.out = nimble.data([[self.total + level]], useLog=False)
            lc.fault.point('incremental-end')

        def apply(self, testX):
            lc.fault.point('apply')
            if len(testX.points) == 1:
                return self.out                      # its own object
            return nimble.data([[self.total + self.level + sum(r)] for r in testX.copy('python list')], useLog=False)
    lc.learners(nimble, state)['Picky'] = Picky

    class Both(nimble.CustomLearner):
        learnerType = 'regression'

        def train(self, trainX, trainY, power=1, plus=0):
            lc.fault.point('train')
            self.total = len(trainX.points) * power + plus + sum(len(r) for r in trainY.copy("python list"))
            lc.fault.point('train-end')

        def apply(self, testX, power=1, more=0):
            lc.fault.point('apply')
            return nimble.data([[self.total + more + power * 1000 + r[0]] for r in testX.copy('python list')], useLog=False)
    lc.learners(nimble, state)['Both'] = Both


def learner(nimble, state, name):
    picky(nimble, state)
    return lc.learner(nimble, state, name)


def probe_data(nimble, state, spec, n=5):
    d = dict(spec['d'], seed=state['probe'], n=n, labels='int' if spec['d']['labels'] == 'str' else spec['d']['labels'], pn=False)
    return lc.make(nimble, d)[0]


def behaviour(nimble, state, tl, spec, scores=True):
    """Everything the learner answers, on data nobody else holds."""
    out = {'args': lc.canon(tl.arguments)}
    for n in (5, 1):
        X = probe_data(nimble, state, spec, n)
        out[f'applied{n}'] = lc.canon(tl.apply(X, useLog=False))
    if scores and spec['clf'] and spec['learner'] != 'sklearn.SVC':
        for mode in ('bestScore', 'allScores'):
            try:
                out[mode] = lc.canon(tl.apply(probe_data(nimble, state, spec), scoreMode=mode, useLog=False))
            except Exception as e:                       # pylint: disable=broad-except
                out[mode] = type(e).__name__
    return out


def spoil(X, Y, bad):
    if bad == 'length':
        Y = Y.points.copy(range(len(Y.points) - 2), useLog=False)
    if bad == 'nolabels':
        Y = None
    return X, Y


def split(nimble, d, bad):
    """The same training data, with the labels always in an object of their own."""
    if d.get('y', 'obj') == 'obj' or bad:
        return spoil(*lc.make(nimble, d), bad)
    both = lc.make(nimble, d, 'joined')
    return both.features.copy(list(range(d['f'])), useLog=False), both.features.copy(d['f'], useLog=False)


def fresh(nimble, state, spec, d, args, seed, bad):
    X, Y = split(nimble, d, bad)
    return nimble.train(learner(nimble, state, spec['learner']), X, Y, dict(args), multiClassStrategy=spec['strategy'], randomSeed=seed, useLog=False)


def op_train(nimble, state, i, spec, probe):
    state['probe'] = probe
    lc.fault.off()
    X, Y = lc.xy(nimble, spec['d'], spec['d'].get('y', 'obj'))
    args = dict(spec['args'])
    # the same objects are used again by another training from the same specification
    for other in state.setdefault('held', {}).values():
        if other['spec']['d'] == spec['d'] and other['spec']['args'] == spec['args'] and not other.get('mutated'):
            X, Y, args = other['X'], other['Y'], other['args']
            break
    kw = {}
    full = args
    if spec.get('tune'):
        full = dict(args, **{k: nimble.Tune(v) for k, v in spec['tune'].items()})
        kw = {'tuning': nimble.Tuning(performanceFunction=lc.perf(nimble, 'fractionIncorrect' if spec['clf'] else 'rootMeanSquareError'), folds=2)}
    tl = nimble.train(learner(nimble, state, spec['learner']), X, Y, full, multiClassStrategy=spec['strategy'], randomSeed=spec['seed'], useLog=False, **kw)
    state.setdefault('tls', {})[i] = tl
    state['held'][i] = {'X': X, 'Y': Y, 'args': args, 'spec': spec}
    return lc.canon(tl.arguments), dict(tl.arguments)


def op_behaviour(nimble, state, i, spec):
    return behaviour(nimble, state, state['tls'][i], spec)


def op_query(nimble, state, i, spec, what):
    lc.fault.off()
    tl = state['tls'][i]
    X = probe_data(nimble, state, spec, 1 if spec['learner'] == 'Picky' and what.startswith('apply') else 5)
    out = None
    try:
        if what == 'apply':
            out = tl.apply(X, useLog=False)
        elif what == 'applyArg':
            out = tl.apply(X, CALLTIME.get(spec['learner']), useLog=False)
        elif what in ('test', 'testId', 'onTest'):
            T, TY = lc.xy(nimble, dict(spec['d'], seed=5, n=6), 'id' if what == 'testId' else 'obj')
            out = tl.test(lc.perf(nimble, 'fractionIncorrect' if spec['clf'] else 'rootMeanSquareError'), T, TY, useLog=False)
        elif what == 'scores':
            out = tl.getScores(X)
        elif what in ('best', 'all'):
            out = tl.apply(X, scoreMode=what + 'Scores'[:5 if what == 'best' else 6], useLog=False)
        elif what == 'attributes':
            att = tl.getAttributes()
            for k in list(att):
                att[k] = None                            # the caller's copy
        elif what == 'repr':
            out = repr(tl) + str(tl)
        elif what == 'arguments':
            out = [tl.arguments, tl.learnerType, tl.randomSeed, tl.tuning]
    except Exception as e:                               # pylint: disable=broad-except
        out = type(e).__name__
    state['result'] = out
    return lc.canon(out) if what not in ('repr', 'arguments') else None


def op_copy(nimble, state, i, new, how):
    import copy
    tl = state['tls'][i]
    if how == 'shallow':
        out = copy.copy(tl)
    elif how == 'deep':
        out = copy.deepcopy(tl)
    else:
        name = f'tl{i}_{new}.pickle'
        tl.save(name)
        out = nimble.loadTrainedLearner(name)
    state['tls'][new] = out
    state['held'][new] = state['held'][i]


def op_mutate(nimble, state, i, what):
    """Change objects the caller owns."""
    lc.fault.off()
    held = state['held'][i]
    if what in ('X', 'Y', 'retrainX'):
        obj = held.get(what)
        held['mutated'] = True
        if obj is None or isinstance(obj, (str, int)):
            return 'nothing'
        if what == 'Y' and held['spec']['d']['labels'] == 'str':
            obj.points.permute(list(range(len(obj.points)))[::-1], useLog=False)
        else:
            obj.transformElements(lambda v: 0 if not isinstance(v, str) else v, useLog=False)
            if len(obj.points) > 3:
                obj.points.delete([0, 1], useLog=False)
    elif what in ('args', 'retrainArgs'):
        held['mutated'] = True
        a = held.get(what)
        if a is None:
            return 'nothing'
        for k in list(a):
            a[k] = 77
        a['extra'] = 1
    elif what == 'reported':
        a = state['tls'][i].arguments
        for k in list(a):
            a[k] = 77
        a['extra'] = 1
    elif what == 'result':
        r = state.get('result')
        if r is not None and hasattr(r, 'transformElements'):
            r.transformElements(lambda v: 55, useLog=False)
            return 'done'
        return 'nothing'
    return 'done'


def op_fit(nimble, state, i, spec, kind, d, args, seed, flt, viaKw):
    """retrain or incrementalTrain, with a fault."""
    lc.fault.arm(None)
    tl = state['tls'][i]
    X, Y = lc.xy(nimble, d, d['y'] if flt is None or flt.get('bad') is None else 'obj')
    flt = flt or {}
    X, Y = spoil(X, Y, flt.get('bad'))
    held = args = dict(args)
    kw = {'randomSeed': seed, 'useLog': False}
    if viaKw:
        kw.update(args)
        held = args = None
    state['held'][i] = dict(state['held'][i], retrainX=X, retrainArgs=held)
    if 'k' in flt:
        lc.fault.arm(flt['k'], flt['kind'])
    func = tl.retrain if kind == 'retrain' else tl.incrementalTrain
    try:
        if 'line' in flt:
            interrupted(lambda: func(X, Y, args, **kw), {}, {'where': '/nimble/', 'k': flt['line']})
        else:
            func(X, Y, args, **kw)
        out = 'ok'
    except SimInterrupt:
        out = 'line'
    except KeyboardInterrupt:
        out = 'interrupt'
    except Exception as e:                               # pylint: disable=broad-except
        out = type(e).__name__ + ': ' + str(e)[:100]
        e.__traceback__ = None
    fired = lc.fault.fired
    lc.fault.off()
    return out, fired


def op_fresh(nimble, state, spec, d, args, seed, bad=None):
    lc.fault.off()
    tl = fresh(nimble, state, spec, d, args, seed, bad)
    return behaviour(nimble, state, tl, spec), dict(tl.arguments)


def op_lineage(nimble, state, spec, lineage):
    """The learner code alone, fed the same trainings: predictions on the probe."""
    lc.fault.off()
    sets = {n: probe_data(nimble, state, spec, n) for n in (5, 1)}
    steps = [(kind, *spoil(*lc.make(nimble, d), bad), args, seed) for kind, d, args, seed, bad in lineage]
    if spec['strategy'] == 'default':
        return single(nimble, state, spec['learner'], steps, sets)
    # one binary learner per label or pair of labels, then the most wins; a tie is not judged
    labels = sorted({v for [v] in steps[0][2].copy('python list')})
    votes = {f'applied{n}': [{} for _ in X.points] for n, X in sets.items()}

    def count(out, name=None):
        for k, values in out.items():
            for row, v in zip(votes[k], values):
                if name is None:
                    row[v] = row.get(v, 0) + 1
                else:
                    row[name] = row.get(name, 0) + v
    if spec['strategy'] == 'OneVsAll':
        for lab in labels:
            part = [(kind, X, nimble.data([[int(v == lab)] for [v] in Y.copy('python list')], useLog=False), args, seed) for kind, X, Y, args, seed in steps]
            count(single(nimble, state, spec['learner'], part, sets), lab)
    else:
        for n, a in enumerate(labels):
            for b in labels[n + 1:]:
                part = []
                for kind, X, Y, args, seed in steps:
                    keep = [i for i, [v] in enumerate(Y.copy('python list')) if v in (a, b)]
                    if keep:
                        part.append((kind, X.points.copy(keep, useLog=False), Y.points.copy(keep, useLog=False), args, seed))
                count(single(nimble, state, spec['learner'], part, sets))
    out = {}
    for k, rows in votes.items():
        out[k] = []
        for row in rows:
            best = [v for v in row if row[v] == max(row.values())]
            out[k].append(best[0] if len(best) == 1 else None)
    return out


def single(nimble, state, name, steps, sets):
    import inspect
    out = {}
    if not name.startswith('sklearn'):
        inst = learner(nimble, state, name)()
        for kind, X, Y, args, seed in steps:
            func = inst.train if kind == 'train' else inst.incrementalTrain
            ok = inspect.signature(func).parameters
            with nimble.random.alternateControl(seed, useLog=False):
                func(X, Y, **{k: v for k, v in args.items() if k in ok})
        for n, X in sets.items():
            out[f'applied{n}'] = [r[0] for r in lc.canon(inst.apply(X))['rows']]
        return out
    import sklearn.linear_model
    import sklearn.naive_bayes
    cls = {'sklearn.GaussianNB': sklearn.naive_bayes.GaussianNB, 'sklearn.SGDRegressor': sklearn.linear_model.SGDRegressor}[name]
    est = None
    for kind, X, Y, args, seed in steps:
        x, y = X.copy('numpy array'), [v for [v] in Y.copy('python list')]
        if kind == 'train':
            if 'SGD' in name:
                args = dict(args, random_state=seed)
            est = cls(**args).fit(x, y)
        else:
            est.partial_fit(x, y)
    for n, X in sets.items():
        out[f'applied{n}'] = [lc.canon(v) for v in est.predict(X.copy('numpy array')).tolist()]
    return out


OPS = {'train': op_train, 'behaviour': op_behaviour, 'query': op_query, 'copy': op_copy, 'mutate': op_mutate, 'fit': op_fit, 'fresh': op_fresh, 'lineage': op_lineage}


# -------------------------------------------------------------- the oracle
def diff(a, b):
    k = [x for x in sorted(set(a) | set(b)) if a.get(x) != b.get(x)]
    return '; '.join(f'{x}: {str(a.get(x))[:160]} != {str(b.get(x))[:160]}' for x in k[:2])


def close(a, b):
    """Predictions equal up to rounding."""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x != y and y is not None:
            if not all(isinstance(v, (int, float)) for v in (x, y)) or abs(x - y) > 1e-7 * max(1, abs(x), abs(y)):
                return False
    return True


def run(case, ctx, res):
    root = ctx.fresh()
    res.nontrivial = False
    sess = Session(root, OPS, clock=(1.6e9, 0), rand=1, fresh=False)
    specs, want, lineage, args, groups = {}, {}, {}, {}, {}
    try:
        r = sess.start(armed=False)
        if not r.ok:
            raise RuntimeError(str(r['exc']))

        def call(name, **kw):
            r = sess.call(name, _armed=False, **kw)
            if not r.ok:
                res.violate('call-failed', f'{name} {kw}: {r["exc"]}')
                raise CallFailed()
            res.steps += 1
            return r.value

        def attempt(name, what, **kw):
            r = sess.call(name, _armed=False, **kw)
            if not r.ok:
                res.violate('call-failed', f'{what} raised {r["exc"]["type"]}: {r["exc"]["msg"]}')
                return None
            res.steps += 1
            return r.value
        for n, step in enumerate(case['ops']):
            kind, i = step[0], step[1]
            if kind == 'train':
                spec = step[2]
                r = sess.call('train', _armed=False, i=i, spec=spec, probe=case['probe'])
                if not r.ok:                             # e.g. sparse data for a learner that needs dense data
                    res.counts['training refused'] += 1
                    res.note(n, 'refused', r.exc['type'])
                    continue
                got = r.value
                specs[i], args[i], groups[i] = spec, got[1], {i}
                f = attempt('fresh', f'step {n}: training {spec["learner"]} with {args[i]}', spec=spec, d=spec['d'], args=args[i], seed=spec['seed'])
                if f is None:
                    return
                want[i] = f[0]
                lineage[i] = [['train', spec['d'], args[i], spec['seed'], None]]
                if spec.get('tune'):
                    # tuning may leave another random seed; the learner is its own reference
                    want[i] = call('behaviour', i=i, spec=spec)
                    lineage[i] = None
                desc = f'step {n} train {spec["learner"]} {spec["strategy"]}'
                out = 'ok'
            elif i not in specs:
                continue
            elif kind == 'query':
                call('query', i=i, spec=specs[i], what=step[2])
                desc = f'step {n} {step[2]} of learner {i} ({specs[i]["learner"]})'
                out = 'ok'
            elif kind == 'copy':
                if attempt('copy', f'step {n}: {step[3]} copy of learner {i}', i=i, new=step[2], how=step[3]) is None and res.violations:
                    return
                j = step[2]
                specs[j], want[j], lineage[j], args[j] = specs[i], want[i], lineage[i], args[i]
                groups[j] = groups[i] if step[3] == 'shallow' else set()
                groups[j].add(j)
                desc = f'step {n} {step[3]} copy of learner {i} ({specs[i]["learner"]} {specs[i]["strategy"]})'
                out = 'ok'
            elif kind == 'mutate':
                out = call('mutate', i=i, what=step[2])
                desc = f'step {n} changing {step[2]} of learner {i} ({specs[i]["learner"]})'
            else:
                d, new, seed, flt, viaKw = step[2:]
                out, fired = call('fit', i=i, spec=specs[i], kind=kind, d=d, args=new, seed=seed, flt=flt, viaKw=viaKw)
                desc = f'step {n} {kind} of learner {i} ({specs[i]["learner"]} {specs[i]["strategy"]}) with {new} fault={flt} -> {out}'
                merged = dict(args[i], **new)
                if out == 'line':
                    res.faults['interrupt at library line'] += 1
                elif fired:
                    res.faults['learner ' + flt['kind']] += 1
                elif out != 'ok':
                    res.faults['refused retraining'] += 1
                if out != 'ok':
                    res.nontrivial = True
                if out == 'ok' and flt and 'k' in flt and fired:
                    res.violate('swallowed', f'{desc}: the failure was not reported')
                done = out == 'ok'
                if kind == 'retrain' and (done or out == 'line'):
                    f = attempt('fresh', f'{desc}: training anew in the same way', spec=specs[i], d=d, args=merged, seed=seed, bad=(flt or {}).get('bad'))
                    if f is None:
                        return
                    if out == 'line' and want[i] != f[0]:
                        got = call('behaviour', i=i, spec=specs[i])
                        done = got == f[0]
                    if done:
                        want[i], args[i], lineage[i] = f[0], merged, [['train', d, merged, seed, (flt or {}).get('bad')]]
                        groups[i].discard(i)
                        groups[i] = {i}
                elif kind == 'incr':
                    for j in sorted(groups[i] - {i}):        # these share the model
                        for m in (specs, want, lineage, args):
                            m.pop(j, None)
                    groups[i] = {i}
                    got = attempt('behaviour', f'{desc}: using the learner afterwards', i=i, spec=specs[i])
                    if got is None:
                        return
                    wargs = lc.canon(merged)
                    if done:
                        if got['args'] != wargs:
                            res.violate('incremental-args', f'{desc}: reports arguments {got["args"]}, expected {wargs}')
                        args[i] = merged
                        if lineage[i] is not None:
                            lineage[i] = lineage[i] + [['incr', d, merged, seed, (flt or {}).get('bad')]]
                            ref = call('lineage', spec=specs[i], lineage=lineage[i])
                            for k, v in ref.items():
                                have = [row[0] for row in got[k]['rows']]
                                if not close(have, v):
                                    res.violate('incremental-result', f'{desc}: predicts {have}, but the learner trained in the same steps predicts {v}')
                    else:
                        if out != 'line' and got['args'] != want[i]['args']:
                            res.violate('failed-args', f'{desc}: reports arguments {got["args"]} instead of {want[i]["args"]}')
                        if got['args'] not in (want[i]['args'], wargs):
                            res.violate('failed-args', f'{desc}: reports arguments {got["args"]}')
                        # the learner's own code fails before it does anything
                        early = fired and flt.get('k') == 0 and not specs[i]['learner'].startswith('sklearn') and specs[i]['strategy'] == 'default'
                        refused = not fired and out != 'line' or early
                        if refused:
                            if got != want[i]:
                                res.violate('refused-changed', f'{desc}: the learner changed: {diff(want[i], got)}')
                        else:
                            lineage[i] = None
                        if got['args'] == wargs:
                            args[i] = merged
                    want[i] = got
            res.states.add(f'{specs[i]["learner"]}/{specs[i]["strategy"]}/{kind}/{str(out)[:9]}')
            res.note(n, desc)
            for j in sorted(specs):
                got = attempt('behaviour', f'{desc}: using learner {j} afterwards', i=j, spec=specs[j])
                if got is None:
                    return
                res.note(j, got)
                if got != want[j]:
                    sig = kind if j == i else 'other-' + kind
                    res.violate(sig, f'{desc}: learner {j} does not behave as expected: {diff(want[j], got)}')
            if res.violations:
                return
    finally:
        sess.kill()
