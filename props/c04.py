"""C04: one log entry per user-visible operation, none when logging is off."""
import ast
import os
import random
import sqlite3

from sim.session import Session, SimInterrupt, interrupted
from . import c15
from . import c20
from . import c25
from . import c26
from . import data_common as dc
from . import learn_common as lc

IN_PROCESS = True
LEVEL = 'fault_enumeration'
BUDGET = {'quick': {'seeds': 7000, 'wall': 120, 'min': 60},
          'thorough': {'seeds': 150000, 'wall': 3000, 'min': 60}}
RULE = ('A seed draws settings, a table and 4-12 steps: loading (lists, arrays, csv, pickles, chosen points and features, random data), every data operation '
        'that can be logged, training, applying, testing, tuning, cross-validation, retraining, normalizing, filling, loading a learner, reports, seeds, user '
        'notes, operations that are never logged and changes to the settings. Each logs by argument, by setting or not at all, and may meet a fault: the '
        'user function or learner raises, is interrupted, or itself uses the library (adding notes, loading data, training, failing) at its k-th call, '
        'arguments are refused, or an interrupt comes at the k-th library line. Every step runs twice, once with logging off: the entries found in the log '
        'database must be those expected of both, and the outcomes the same. Non-trivial: a fault fired and a later step was logged.')
STATES = '(operation, useLog, settings, fault kind, outcome, entries added)'
REAL = ['nimble data, learning, tuning, random and logging code', 'sqlite database on disk', 'scikit-learn']
STUBS = ['user functions and learners with fault points', 'interrupts at chosen library lines', 'clock, kernel randomness']
ASSUMPTIONS = ['a tuning that completed before its call failed may have been recorded', 'an interrupt may come after the entry of the interrupted call was stored',
               'a train call inside a learner that a logged learning call is using belongs to that call (no entry of its own)']
PRELOAD = ['sklearn.ensemble', 'sklearn.neighbors', 'sklearn.svm', 'sklearn.naive_bayes', 'sklearn.tree', 'sklearn.decomposition', 'matplotlib.pyplot']

# the loggable call made by each data operation of the C15 menu ({} is the axis); None: not loggable
FUNC = {'elements': 'transformElements', 'elements3': 'transformElements', 'dict': 'transformElements', 'transform': '{}.transform', 'transformLim': '{}.transform',
        'fill': '{}.fillMatching', 'fillFunc': '{}.fillMatching', 'normalize': 'features.normalize', 'normalizeBoth': 'features.normalize', 'sortKey': '{}.sort',
        'sortCmp': '{}.sort', 'sortIds': '{}.sort', 'extract': '{}.extract', 'delete': '{}.delete', 'retain': '{}.retain', 'parse': 'features.splitByParsing',
        'replaceRect': 'replaceRectangle', 'insert': '{}.insert', 'append': '{}.append', 'merge': 'merge', 'setNames': '{}.setNames', 'setNamesOld': '{}.setNames',
        'permute': '{}.permute', 'transpose': 'transpose', 'flatten': ['flatten', 'unflatten'], 'integers': 'transformFeatureToIntegers',
        'binary': 'replaceFeatureWithBinaryFeatures', 'replace': '{}.replace', 'expand': 'points.combineByExpandingFeatures', 'setitem': None, 'arith': None,
        'collapse': 'points.splitByCollapsingFeatures', 'calcElements': 'calculateOnElements', 'calcLim': 'calculateOnElements', 'matchElements': 'matchingElements',
        'countElements': None, 'calculate': '{}.calculate', 'matching': '{}.matching', 'unique': None, 'mapReduce': 'points.mapReduce', 'count': None,
        'group': 'groupByFeature', 'statistics': None, 'similar': None, 'sets': 'trainAndTestSets', 'iterate': None}
EXTRA = ['copyAxis', 'copyAxis', 'repeat', 'sample', 'shuffle', 'merge2', 'sets2', 'group2', 'fillNames', 'reorder', 'reorder', 'limited', 'limited', 'mergeNames', 'distances', 'matchNamed', 'replaceRaw']
CREATE = ['list', 'array', 'csv', 'keepPoints', 'keepFeatures', 'pickle', 'random', 'seed', 'control', 'controlRaises', 'badSeed', 'badControl', 'bad', 'missing', 'string', 'convert', 'keepAll', 'keepAll']
QUIET = ['copy', 'view', 'compare', 'slice', 'save', 'text', 'ones', 'identity', 'calculate', 'linalg', 'showLog', 'names', 'subseed', 'types', 'badLog', 'math', 'power', 'matchCount', 'features', 'stretch',
         'describe', 'learnerInfo', 'sameSettings', 'plot', 'plot', 'countLimited', 'inspect', 'logical', 'named', 'turned', 'byGroup', 'allStretch', 'outerStretch']
LEARN = ['train', 'train', 'trainAndApply', 'trainAndTest', 'onTraining', 'retrain', 'incremental', 'tune', 'tune', 'tuneTest', 'normalize', 'apply', 'test', 'fill', 'loadTL', 'loadTLname', 'scores', 'saveTL']
TRACKED = {'train', 'trainAndApply', 'trainAndTest', 'onTraining', 'tune', 'tuneTest', 'normalize', 'apply', 'test', 'fill'}
INNER = ['note', 'offData', 'onData', 'offSort', 'onSort', 'trains', 'fails', 'applies', 'failsData']


def preload():
    import nimble
    nimble.settings.set('logger', 'enabledByDefault', 'False')
    try:
        nimble.learnerNames('sklearn')
    except Exception:                                    # pylint: disable=broad-except
        pass


# ------------------------------------------------------------- generation
def gen_fault(rng):
    r = rng.random()
    if r < 0.4:
        return None
    k = rng.choice([0, 0, 1, 2, 3, 5, 8])
    if r < 0.56:
        return {'k': k, 'kind': rng.choice(['error', 'error', 'interrupt'])}
    if r < 0.84:
        return {'k': rng.choice([0, 0, 1, 2, 3]), 'kind': 'probe', 'inner': [rng.choice(INNER) for _ in range(rng.choice([1, 2, 2, 3]))]}
    return {'line': int(10 ** rng.uniform(0.2, 3.6))}


def gen(rng):
    kinds = rng.choice([('int',), ('float',), ('int', 'float', 'nan'), ('text',), ('mixed',), ('int', 'float'), ('nan',)])
    s = dc.spec(rng, kinds=kinds, maxp=7, maxf=5, minp=2, minf=2, plain=True)
    s['name'] = 'base'
    if any(k in ('text', 'mixed') for k in s['kinds']) and s['type'] == 'Sparse':
        s['type'] = 'List'
    steps = []
    for _ in range(rng.randrange(4, 13)):
        r = rng.random()
        log = rng.choice([None, None, None, True, True, False])
        if r < 0.14:
            steps.append(['set', rng.choice(['enabledByDefault', 'enabledByDefault', 'enableDeepLogging']), rng.choice(['True', 'False', 'true', 'false', 'TRUE'])])
        elif r < 0.19:
            steps.append(['note', f'note {len(steps)}'])
        elif r < 0.52:
            name = rng.choice(sorted(FUNC))
            op = {'op': name, 'axis': rng.choice(c15.AX), 'i': rng.randrange(100), 'j': rng.randrange(100), 'v': rng.choice([0, 1, 2, -3, 0.5]), 'w': rng.randrange(6), 'seed': rng.randrange(1000)}
            f = gen_fault(rng)
            steps.append(['data', op, log, f, name in c15.REFUSE and f is None and rng.random() < 0.3])
        elif r < 0.58:
            op = {'op': rng.choice(EXTRA), 'axis': rng.choice(c15.AX), 'i': rng.randrange(100), 'j': rng.randrange(100), 'w': rng.randrange(6), 'seed': rng.randrange(1000)}
            f = gen_fault(rng)
            steps.append(['extra', op, log, f if f and 'line' in f else None])
        elif r < 0.68:
            f = gen_fault(rng)
            steps.append(['create', rng.choice(CREATE), log, f if f and 'line' in f else None, rng.randrange(1000)])
        elif r < 0.76:
            steps.append(['quiet', rng.choice(QUIET), rng.randrange(1000)])
        elif r < 0.79:
            f = gen_fault(rng)
            steps.append(['report', rng.choice(['summary', 'feature', 'dtypes']), log, f if f and 'line' in f else None])
        else:
            kind = rng.choice(LEARN)
            base = {'tuneTest': 'tune', 'apply': 'train', 'test': 'trainAndTest', 'loadTL': 'train', 'loadTLname': 'train', 'scores': 'train', 'fill': 'normalize', 'saveTL': 'train'}.get(kind, kind)
            op = lc.gen_op(rng, [base])
            op['kind'] = kind
            if op['seed'] is None:
                op['seed'] = rng.randrange(1000)
            if kind == 'fill':
                op['learner'] = rng.choice(['sklearn.SimpleImputer', 'nimble.KNNImputation', 'Scaler'])
                op['d'] = lc.dspec(rng, labels='float', f=3)
                op['d']['nan'] = True
            op['iters'] = 3
            steps.append(['learn', op, log, gen_fault(rng), rng.choice([None, None, None, None, 'args', 'length', 'data'])])
    return {'spec': s, 'on': rng.choice(['True', 'True', 'False']), 'deep': rng.choice(['True', 'False', 'False']), 'ops': steps}


def unlogged(rng):
    """A history of another check, all of whose calls ask not to be logged."""
    which = rng.choice(['c20', 'c20', 'c25', 'c26'])
    case = {'c20': c20, 'c25': c25, 'c26': c26}[which].gen(rng)
    ops = []
    for o in case['ops']:
        o = list(o)
        if which != 'c25':
            o[4] = None
        elif o[0] == 'read':
            o[6] = None
        ops.append(o)
    return {'off': which, 'spec': case['spec'], 'ops': ops}


def explore(rng, ctx):
    ctx.execute(unlogged(rng) if rng.random() < 0.3 else gen(rng))


def shrink(case):
    from sim.engine import generic_shrink
    yield from generic_shrink(case)
    for i, s in enumerate(case['ops']):
        if 'off' not in case and s[0] in ('data', 'extra', 'create', 'learn', 'report') and s[3]:
            c = dict(case, ops=list(case['ops']))
            c['ops'][i] = s[:3] + [None] + s[4:]
            yield c
            if 'inner' in s[3] and len(s[3]['inner']) > 1:
                for one in s[3]['inner']:
                    c = dict(case, ops=list(case['ops']))
                    c['ops'][i] = s[:3] + [dict(s[3], inner=[one])] + s[4:]
                    yield c


# ------------------------------------------------------- inside the session
def rows_since(state):
    """The entries added since the last look."""
    path = state['db']
    if not os.path.exists(path):
        return []
    c = sqlite3.connect(path)
    try:
        if c.execute("select name from sqlite_master where name='logger'").fetchone() is None:
            return []
        rows = c.execute('select entry, logType, logInfo from logger where entry > ? order by entry', (state['seen'],)).fetchall()
    finally:
        c.close()
    if rows:
        state['seen'] = rows[-1][0]
    out = []
    for _, typ, info in rows:
        func = name = None
        try:
            d = ast.literal_eval(info)
        except (ValueError, SyntaxError):
            d = info
        if isinstance(d, dict):
            func = d.get('function') or d.get('action') or d.get('reportType')
            name = d.get('identifier') or d.get('trainData') or d.get('testData')
            if typ in ('tuning', 'tl'):
                func = d.get('learnerName')
        out.append([typ, func, name])
    return out


def op_make(nimble, state, spec, root, on, deep):
    where = os.path.join(root, 'logs')
    os.makedirs(where, exist_ok=True)
    nimble.settings.set('logger', 'location', where)
    nimble.settings.set('logger', 'name', 'simlog')
    nimble.settings.set('logger', 'enabledByDefault', on)
    nimble.settings.set('logger', 'enableDeepLogging', deep)
    state['root'] = root
    state['db'] = os.path.join(where, 'simlog.db')
    state['seen'] = 0
    state['spec'] = spec
    state['n'] = 0
    rebuild(nimble, state)
    lc.learners(nimble, state)
    data = nimble.data([[1, 2], [2, 4], [3, 6]], useLog=False)
    state['small'] = data, nimble.data([[0], [1], [1]], useLog=False)
    state['tl'] = nimble.train('nimble.KNNClassifier', *state['small'], k=1, useLog=False)
    nimble.log('ready', 'x')
    return rows_since(state)


def rebuild(nimble, state):
    state['A'] = dc.build(nimble, state['spec'])
    state['B'] = dc.build(nimble, state['spec'])


def op_offMake(nimble, state, which, spec, root):
    where = os.path.join(root, 'logs')
    os.makedirs(where, exist_ok=True)
    nimble.settings.set('logger', 'location', where)
    nimble.settings.set('logger', 'name', 'simlog')
    nimble.settings.set('logger', 'enabledByDefault', 'True')
    state['db'] = os.path.join(where, 'simlog.db')
    state['seen'] = 0
    state['off'] = {}
    module = {'c20': c20, 'c25': c25, 'c26': c26}[which]
    state['module'] = module
    module.op_make(nimble, state['off'], spec, root)
    first = rows_since(state)
    nimble.log('ready', 'x')
    return first, [x[0] for x in rows_since(state)]


def op_offStep(nimble, state, todo):
    module, inner_ = state['module'], state['off']
    rows_since(state)
    if module is not c25:
        out = module.op_step(nimble, inner_, todo)
        how = [todo[0], todo[2], todo[3]['axis'], None if out is None else out[0]]
    elif todo[0] == 'read':
        out = module.op_read(nimble, inner_, *todo[1:])
        how = ['read', todo[1], todo[2], None if out is None else out[0]]
    else:
        out = module.op_do(nimble, inner_, todo[1], todo[2])
        how = ['do', todo[1]['op'], todo[1]['axis'], None if not out or out[0] is None else out[0][0]]
    return how, rows_since(state)


def op_set(nimble, state, option, to):
    nimble.settings.set('logger', option, to)
    return rows_since(state)


def op_note(nimble, state, heading):
    nimble.log(heading, 'info')
    return rows_since(state)


def inner(nimble, state, actions, done):
    """What a user function does with the library; done receives the entries it must add."""
    X, Y = state['small']
    for a in actions:
        state['n'] += 1
        mark = f'inner{state["n"]}'
        if a == 'note':
            nimble.log(mark, 'from inside')
            done.append(['User - ' + mark, None, None])
        elif a == 'offData':
            nimble.data([[1, 2], [3, 4]], name=mark, useLog=False)
        elif a == 'onData':
            nimble.data([[1, 2], [3, 4]], name=mark, useLog=True)
            done.append(['load', None, mark])
        elif a in ('offSort', 'onSort'):
            o = nimble.data([[3, 2], [1, 4]], name=mark, useLog=False)
            o.points.sort(by=0, useLog=a == 'onSort')
            if a == 'onSort':
                done.append(['prep', 'points.sort', mark])
        elif a == 'trains':
            for _ in range(2):
                nimble.train('nimble.KNNClassifier', X, Y, k=1)
                done.append('train')
        elif a == 'applies':
            state['tl'].apply(X, useLog=False)
            nimble.trainAndApply('nimble.KNNClassifier', X, Y, X, k=1, useLog=False)
        elif a == 'fails':
            try:
                nimble.train('nimble.KNNClassifier', X, Y, k=1, nosuch=3)
            except Exception:                            # pylint: disable=broad-except
                pass
        elif a == 'failsData':
            try:
                X.points.sort(by='nosuch', useLog=True)
            except Exception:                            # pylint: disable=broad-except
                pass


def attempt(func):
    try:
        return 'ok', func()
    except KeyboardInterrupt:
        return 'interrupt', None
    except SimInterrupt:
        return 'siminterrupt', None
    except (lc.Injected, c15.Injected):
        return 'error', None
    except Exception as e:                               # pylint: disable=broad-except
        out = 'exc ' + type(e).__name__ + ': ' + str(e)[:160]
        e.__traceback__ = None
        return out, None


EXCLUDE = ['logger/session_logger.py', '_learnHelpers.py', 'random/randomness.py', 'core/logger/__init__.py', '_dataHelpers.py', 'nimble/_utility.py']


def measured(nimble, state, func, fault, canon):
    """Run one user call and report everything the oracle needs."""
    done = []
    kind = fault.get('kind') if fault else None
    rows_since(state)
    for f in (c15.F, lc.fault):
        f.arm(None, None)
        if fault and 'k' in fault:
            f.arm(fault['k'], kind)
            f.probe = lambda: inner(nimble, state, fault['inner'], done)
    if fault and 'line' in fault:
        res, val = attempt(lambda: interrupted(func, {}, {'where': '/nimble/', 'k': fault['line'], 'exclude': EXCLUDE})[0])
    else:
        res, val = attempt(func)
    fired = c15.F.fired + lc.fault.fired
    for f in (c15.F, lc.fault):
        f.arm(None, None)
        f.probe = None
    rows = rows_since(state)
    return {'res': res, 'value': canon(val) if res == 'ok' else None, 'rows': rows, 'inner': done, 'fired': fired}


def both(nimble, state, make, fault, canon, log):
    """The same call with logging off and as asked; returns both reports."""
    out = {}
    streams = nimble.random.pythonRandom.getstate(), nimble.random.numpyRandom.get_state()
    for which, use in (('B', False), ('A', log)):
        if which == 'B' and fault and 'line' in fault:
            continue
        nimble.random.pythonRandom.setstate(streams[0])
        nimble.random.numpyRandom.set_state(streams[1])
        func, want = make(state[which], use)
        if func is None:
            return None
        out[which] = measured(nimble, state, func, fault, canon)
        if callable(want):
            want = want() if out[which]['res'] == 'ok' else []
        out[which]['want'] = want
    return out


def op_data(nimble, state, todo, log, fault, refuse):
    numeric = all(k in ('int', 'float', 'nan') for k in state['spec']['kinds'])
    if not len(state['A'].points) or not len(state['A'].features):
        rebuild(nimble, state)

    def make(obj, use):
        func, _ = c15.operation(nimble, obj, dict(todo, useLog=use), refuse, numeric and obj.getTypeString() == 'Sparse')
        f = FUNC[todo['op']]
        want = [f] if isinstance(f, str) else f or []
        return func, [['prep', w.format(todo['axis']), obj.name] for w in want]
    out = both(nimble, state, make, fault, c15.value, log)
    return finish(nimble, state, out, fault)


def finish(nimble, state, out, fault):
    if out is None:
        return None
    a, b = state['A'], state['B']
    if 'B' in out and out['A']['res'].startswith('ok') and out['B']['res'] == 'ok':
        out['same'] = c15.look(a) == c15.look(b)
    if fault and 'line' in fault or a.shape != b.shape:
        rebuild(nimble, state)
    return out


def op_extra(nimble, state, todo, log, fault):
    if not len(state['A'].points) or not len(state['A'].features):
        rebuild(nimble, state)
    name, ax, w = todo['op'], todo['axis'], todo['w']

    def make(obj, use):
        A = getattr(obj, ax)
        n = len(A)
        kw = {'useLog': use}
        i = todo['i'] % n
        if name == 'copyAxis':
            f = [lambda: A.copy(i, **kw), lambda: A.copy([0, i] if i else [0], **kw), lambda: A.copy(start=0, end=i, **kw), lambda: A.copy(number=1, **kw),
                 lambda: A.copy(lambda v: True, **kw), lambda: A.copy(number=1, randomize=True, **kw)][w]
            return f, [['prep', ax + '.copy', obj.name]]
        if name == 'repeat':
            return (lambda: A.repeat(2, w % 2 == 0, **kw)), [['prep', ax + '.repeat', obj.name]]
        if name == 'sample':
            f = ['extract', 'retain', 'delete'][w % 3]
            return (lambda: getattr(A, f)(number=1, randomize=w > 2, **kw)), [['prep', f'{ax}.{f}', obj.name]]
        off = 'features' if ax == 'points' else 'points'
        if name == 'reorder':
            # the data to insert has the names of this one in another order
            m = len(getattr(obj, off))
            names = [f'{off[0]}n{k}' for k in range(m)]
            getattr(obj, off).setNames(names, useLog=False)
            other = obj.copy()
            getattr(other, ax).setNames(None, useLog=False)
            getattr(other, off).permute(list(range(m))[::-1] if w % 2 else random.Random(todo['seed']).sample(range(m), m), useLog=False)
            other.name = 'other'
            f = [lambda: A.append(other, **kw), lambda: A.insert(i, other, **kw), lambda: A.replace(other, list(range(n)), **kw)][w % 3]
            return f, [['prep', ax + '.' + ['append', 'insert', 'replace'][w % 3], obj.name]]
        if name == 'limited':
            # a function that sees only some of the other axis
            m = len(getattr(obj, off))
            lim = [todo['j'] % m] if w < 3 else sorted({0, todo['j'] % m}, reverse=True)
            f = ['copy', 'extract', 'delete', 'retain'][todo['seed'] % 4]
            lim = {off: lim}
            if w % 3 == 2:
                lim = {off: [getattr(obj, off).getName(k) if getattr(obj, off).getName(k) is not None else k for k in lim[off]]}
            return (lambda: getattr(A, f)(lambda v: len(v) % 2 == w % 2 or True, **lim, **kw)), [['prep', f'{ax}.{f}', obj.name]]
        if name == 'mergeNames':
            obj.points.setNames([f'pn{k}' for k in range(len(obj.points))], useLog=False)
            obj.features.setNames([f'fn{k}' for k in range(len(obj.features))], useLog=False)
            other = obj.copy()
            other.points.permute(list(range(len(obj.points)))[::-1], useLog=False)
            how = ['union', 'intersection', 'left'][w % 3]
            return (lambda: obj.merge(other, point=how, feature=['union', 'intersection', 'left'][todo['j'] % 3], **kw)), [['prep', 'merge', obj.name]]
        if name == 'matchNamed':
            m = nimble.match
            return (lambda: A.matching([m.anyMissing, m.allZero, m.anyNumeric, m.allNonMissing, m.anyZero, m.allPositive][w], **kw)), [['prep', ax + '.matching', obj.name]]
        if name == 'replaceRaw':
            m = len(getattr(obj, off))
            new = f'{ax[0]}new'
            given = {ax[:-1] + 'Names': [new]} if w % 2 else {}
            raw = [1] * m if w < 4 or ax == 'points' else [[1]] * m
            f = lambda: A.replace(raw if w < 4 or ax == 'features' else [raw], [i], **given, **kw)
            return f, [['prep', ax + '.replace', obj.name]]
        if name == 'distances':
            return (lambda: A.calculate([len, max, lambda v: 1, lambda v: [1, 2]][w % 4], **kw)), [['prep', ax + '.calculate', obj.name]]
        if name == 'shuffle':
            return (lambda: A.permute(**kw)), [['prep', ax + '.permute', obj.name]]
        if name == 'merge2':
            other = nimble.data([[1, 2], [2, 3]], useLog=False)
            return (lambda: obj.merge(other, point=['union', 'intersection'][w % 2], feature='union', onFeature=0, **kw)), [['prep', 'merge', obj.name]]
        if name == 'sets2':
            return (lambda: obj.trainAndTestSets(0.3, labels=0 if w % 2 else None, **kw)), [['prep', 'trainAndTestSets', obj.name]]
        if name == 'group2':
            j = todo['j'] % len(obj.features)
            k = todo['i'] % len(obj.features)
            by = [j, k] if j != k else j
            calc = [None, 'mean', 'count', None, 'max', None][w]
            return (lambda: obj.groupByFeature(by, calculate=calc, countUniqueValueOnly=w == 3, **kw)), [['prep', 'groupByFeature', obj.name]]
        f = [nimble.match.missing, nimble.match.zero, 1][w % 3]
        fill = [nimble.fill.mean, nimble.fill.mode, 5, nimble.fill.constant, nimble.fill.forwardFill, nimble.fill.interpolate][todo['j'] % 6]
        if fill is nimble.fill.constant:
            fill = 0
        return (lambda: A.fillMatching(fill, f, **kw)), [['prep', ax + '.fillMatching', obj.name]]
    return finish(nimble, state, both(nimble, state, make, fault, c15.value, log), fault)


def op_report(nimble, state, which, log, fault):
    if not len(state['A'].points) or not len(state['A'].features):
        rebuild(nimble, state)

    def make(obj, use):
        if which == 'summary':
            return (lambda: str(obj.report(useLog=use))), [['report', 'summary', None]]
        if which == 'dtypes':
            return (lambda: str(obj.features.report(dtypes=True, useLog=use))), [['report', 'feature', None]]
        return (lambda: str(obj.features.report(useLog=use))), [['report', 'feature', None]]
    return finish(nimble, state, both(nimble, state, make, fault, lambda v: v, log), fault)


def op_create(nimble, state, kind, log, fault, seed):
    state['n'] += 1
    mark = f'made{state["n"]}'
    r = random.Random(seed)
    rows = [[r.randrange(-2, 5) for _ in range(3)] for _ in range(4)]
    path = os.path.join(state['root'], 'in.csv')
    with open(path, 'w') as f:
        f.write('a,b,c\n' + ''.join(','.join(map(str, x)) + '\n' for x in rows))
    pick = os.path.join(state['root'], 'in.pickle')
    nimble.data(rows, useLog=False).save(pick)
    t = r.choice(lc.TYPES)

    def make(_, use):
        kw = dict(name=mark, useLog=use, returnType=t)
        load = [['load', None, mark]]
        if kind == 'list':
            return (lambda: nimble.data(rows, **kw)), load
        if kind == 'array':
            import numpy as np
            return (lambda: nimble.data(np.array(rows), pointNames=['w', 'x', 'y', 'z'], **kw)), load
        if kind == 'csv':
            return (lambda: nimble.data(path, **kw)), load
        if kind == 'keepPoints':
            return (lambda: nimble.data(path if seed % 2 else rows, keepPoints=[2, 0], **kw)), load
        if kind == 'keepFeatures':
            return (lambda: nimble.data(path if seed % 2 else rows, keepFeatures=[1, 0] if seed % 3 else ['b', 'a'] if seed % 2 else [2], **kw)), load
        if kind == 'keepAll':
            own = random.Random(seed)
            order = own.sample(range(4), 4 if seed % 2 else 2)
            fts = own.sample(range(3), 3 if seed % 3 else 2)
            src = [path, rows][seed // 2 % 2]
            kw2 = dict(kw, keepPoints=order if seed % 4 else None, keepFeatures=fts if seed % 5 else None)
            kw2 = {k: v for k, v in kw2.items() if v is not None}
            if seed % 3 != 1:
                kw2['pointNames'] = ['w', 'x', 'y', 'z'] if seed % 2 else {'w': 0, 'x': 1, 'y': 2, 'z': 3}
            if src is rows:
                kw2['featureNames'] = ['p', 'q', 'r']
            return (lambda: nimble.data(src, **kw2)), load
        if kind == 'pickle':
            # the object keeps the name it was saved with
            return (lambda: nimble.data(pick, useLog=use)), [['load', None, '*']]
        if kind == 'string':
            return (lambda: nimble.data(rows, featureNames=['p', 'q', 'r'], convertToType={'p': str} if t != 'Sparse' else None, **kw)), load
        if kind == 'convert':
            return (lambda: nimble.data(rows, treatAsMissing=[1], replaceMissingWith=9, **kw)), load
        if kind == 'missing':
            return (lambda: nimble.data(os.path.join(state['root'], 'nosuch.csv'), **kw)), load
        if kind == 'bad':
            return (lambda: nimble.data([[1, 2], [3, 4]], pointNames=['a', 'a'], **kw)), load
        if kind == 'random':
            return (lambda: nimble.random.data(3, 2, 0.4, name=mark, randomSeed=seed if seed % 2 else None, returnType=t, useLog=use)), load
        if kind == 'seed':
            return (lambda: nimble.random.setSeed(seed, useLog=use)), [['setSeed', 'random.setSeed', None]]
        if kind == 'badSeed':
            return (lambda: nimble.random.setSeed(['x', -1, 2 ** 40][seed % 3], useLog=use)), [['setSeed', 'random.setSeed', None]]
        pair = [['setSeed', 'entered random.alternateControl', None], ['setSeed', 'exited random.alternateControl', None]]
        if kind == 'control':
            def control():
                with nimble.random.alternateControl(seed, useLog=use):
                    return nimble.random.pythonRandom.random()
            return control, pair
        if kind == 'controlRaises':
            def raising():
                try:
                    with nimble.random.alternateControl(seed, useLog=use):
                        raise ZeroDivisionError
                except ZeroDivisionError:
                    return 'left'
            return raising, pair

        def bad():
            with nimble.random.alternateControl(['x', -1, 2 ** 40][seed % 3], useLog=use):
                return 1
        return bad, pair
    return finish(nimble, state, both(nimble, state, make, fault, c15.value, log), fault)


def op_quiet(nimble, state, kind, seed):
    """Operations that are never logged."""
    if not len(state['A'].points) or not len(state['A'].features):
        rebuild(nimble, state)
    obj = state['A']
    num = nimble.data([[1.0, 2, 0], [3, 4, 1], [0, 6, 7]], featureNames=['a', 'b', 'c'], returnType=lc.TYPES[seed % 4], useLog=False)
    X, Y = state['small']
    calc = nimble.calculate

    def act():
        if kind == 'copy':
            return obj.copy(['pythonlist', 'numpyarray', 'List', 'Matrix', 'DataFrame'][seed % 5]) is None
        if kind == 'view':
            return [obj.view().shape, obj.view(0, 0).shape, obj.pointView(0).shape, obj.featureView(0).shape]
        if kind == 'compare':
            return [obj.isIdentical(obj.copy()), num.isApproximatelyEqual(num.copy())]
        if kind == 'slice':
            return [obj[0, :].shape, obj[:, 0].shape, obj.points[0].shape, obj.features[[0]].shape, obj[0, 0] is None]
        if kind == 'save':
            return num.save(os.path.join(state['root'], 'out.csv' if seed % 2 else 'out.pickle'))
        if kind == 'text':
            len(repr(state['B']))
            return [len(str(obj)) > 0, len(repr(obj)) > 0, len(obj.toString()) > 0, obj.show('t') is None]
        if kind == 'ones':
            return [nimble.ones(2, 3).shape, nimble.zeros(2, 2, returnType=lc.TYPES[seed % 4]).shape]
        if kind == 'identity':
            return nimble.identity(3, returnType=lc.TYPES[seed % 4]).shape
        if kind == 'calculate':
            f = ['mean', 'median', 'mode', 'maximum', 'minimum', 'standardDeviation', 'proportionZero', 'quartiles', 'uniqueCount', 'residuals', 'sum', 'variance'][seed % 12]
            if f == 'residuals':
                return calc.residuals(num.features.copy([0], useLog=False), num.features.copy([1], useLog=False)).shape
            v = getattr(calc, f)(num.featureView('a'))
            return repr(v)
        if kind == 'linalg':
            f = ['inverse', 'pseudoInverse', 'leastSquaresSolution', 'solve'][seed % 4]
            if f in ('inverse', 'pseudoInverse'):
                return getattr(calc, f)(num).shape
            return getattr(calc, f)(num, nimble.data([[1], [2], [3]], useLog=False)).shape
        if kind == 'showLog':
            return nimble.showLog(saveToFileName=os.path.join(state['root'], 'shown.txt'))
        if kind == 'names':
            state['B'].points.getNames()  # may create the names; the twins have to keep the same history
            return [obj.points.getNames() is None, obj.features.hasName('a'), num.features.getIndex('b'), num.features.getIndices(['a', 'c'])]
        if kind == 'subseed':
            return nimble.random.generateSubsidiarySeed() is None
        if kind == 'types':
            return [obj.getTypeString(), obj.shape, num.hashCode()] and None
        if kind == 'badLog':
            try:
                nimble.log('x' * 51 if seed % 2 else 5, 'info' if seed % 3 else {1, 2})
            except Exception:                            # pylint: disable=broad-except
                pass
            return None
        if kind == 'math':
            return [(num + 1).shape, (num - num).shape, (num * 2).shape, (num @ num).shape, (-num).shape, abs(num).shape]
        if kind == 'power':
            return [(num ** 2).shape, num.T.shape, num.inverse().shape]
        if kind == 'matchCount':
            return [num.countElements('>1'), num.points.count(lambda p: True), num.features.count('a > 1') if False else 0, num.countUniqueElements() is None]
        if kind == 'features':
            return [num.features.mean().shape, num.points.sum().shape, num.features.similarities('correlation').shape, num.features.statistics('max').shape, num.features.unique().shape]
        if kind == 'stretch':
            return (num + num.pointView(0).stretch).shape
        if kind == 'describe':
            return [len(nimble.learnerNames('nimble')) > 1, nimble.learnerType('nimble.KNNClassifier')]
        if kind == 'learnerInfo':
            return [nimble.learnerParameters('nimble.KNNClassifier'), nimble.learnerParameterDefaults('nimble.KNNClassifier'),
                    state['tl'].getAttributes() is None, state['tl'].getScores(X).shape, repr(state['tl']) == '']
        if kind in ('logical', 'named', 'turned', 'byGroup', 'allStretch', 'outerStretch'):
            o = nimble.data([[1.0, 2, 0], [3, 4, 1], [1, 6, 7]], featureNames=['a', 'b', 'c'] if seed % 2 else None, pointNames=['x', 'y', 'z'] if seed % 3 else None,
                            returnType=lc.TYPES[seed % 4], useLog=False)
            b = nimble.data([[1, 0, 0], [0, 1, 1], [1, 1, 1]], featureNames=['a', 'b', 'c'] if seed % 2 else None, returnType=lc.TYPES[seed // 3 % 4], useLog=False)
            B = b.matchingElements('>0', useLog=False)
            if kind == 'logical':
                return [(B & b).shape, (b | B).shape, (B ^ b).shape, (~b).shape, (~B).shape, o.matchingElements('>1', useLog=False).shape]
            if kind == 'named':
                return [lambda: (o.matrixPower(3)).shape, lambda: (2 ** o).shape, lambda: (o @ b).shape, lambda: o.matrixMultiply(b).shape, lambda: o.matrixPower(0).shape, lambda: o.matrixPower(-1).shape,
                        lambda: (10 - o).shape, lambda: (o // 2 % 2).shape, lambda: abs(-o).shape][seed % 9]()
            if kind == 'turned':
                return [type(o.copy(t, rowsArePoints=False)).__name__ for t in lc.TYPES + ['pythonlist', 'numpyarray', 'listofdict', 'dictoflist'][:2]]
            if kind == 'byGroup':
                return [len(getattr(o.features, f)(groupByFeature=0)) for f in ('mean', 'median', 'maximum', 'sum') if hasattr(o.features, f)] + [len(o.features.statistics('mean', groupByFeature=0))]
            if kind == 'allStretch':
                return [(o + o.pointView(0).stretch).shape, (o.points[0].stretch * o).shape, (o / o.features[0].stretch).shape]
            return [(o.points[0].stretch + o.features[1].stretch).shape, (o.features[1].stretch - o.points[0].stretch).shape]
        if kind == 'countLimited':
            return [num.points.count(lambda p: p[0] > 1, features=['a', 'c']), num.features.count(lambda f: f[0] > 0, points=[0, 2]), num.points.count('a > 1')]
        if kind == 'inspect':
            return [len(nimble.core.data.available), num.features.median().shape, num.points.proportionMissing().shape, num.points.uniqueCount().shape]
        if kind == 'plot':
            out = os.path.join(state['root'], 'plot.png')
            where = dict(outPath=out, show=False)
            small = nimble.data([[1.0, 2, 0, 1], [3, 4, 1, 0], [1, 6, 7, 0], [3, 5, 1, 1]], featureNames=['a', 'b', 'c', 'd'], returnType=lc.TYPES[seed % 4], useLog=False)
            [lambda: small.plotHeatMap(**where), lambda: small.plotFeatureDistribution('b', **where), lambda: small.plotFeatureAgainstFeature('b', 'c', **where),
             lambda: small.plotFeatureAgainstFeatureRollingAverage('b', 'c', 2, **where), lambda: small.plotFeatureGroupMeans('b', 'a', **where),
             lambda: small.plotFeatureGroupStatistics(nimble.calculate.count, 'b', 'a', **where),
             lambda: small.plotFeatureGroupStatistics(nimble.calculate.mean, 'b', 'a', 'd', **where), lambda: small.plotFeatureAgainstFeature('b', 'c', groupByFeature='a', **where),
             lambda: small.features.plot(**where), lambda: small.points.plot([0, 1], **where), lambda: small.features.plotMeans(**where), lambda: small.points.plotMeans(**where),
             lambda: small.features.plotStatistics(nimble.calculate.maximum, **where), lambda: small.points.plotStatistics(nimble.calculate.minimum, **where),
             lambda: small.plotFeatureGroupMeans('b', 'a', 'd', **where)][seed % 15]()
            state['plots'] = 1 + state.get('plots', 0)
            import matplotlib.pyplot as plt
            plt.close('all')
            return None
        v = nimble.settings.get('logger', 'enabledByDefault')
        nimble.settings.set('logger', 'enabledByDefault', v)
        return None
    rep = measured(nimble, state, act, None, lambda v: None)
    return {'A': dict(rep, want=[])}


def described(v):
    if isinstance(v, tuple) and len(v) == 4 and v[0] == 'TL':
        try:
            return lc.describe_tl(*v[1:])
        except Exception as e:                           # pylint: disable=broad-except
            return type(e).__name__
    return lc.canon(v)


def op_learn(nimble, state, todo, log, fault, refuse):
    kind, seed = todo['kind'], todo['seed']
    L = lc.learner(nimble, state, todo['learner'])
    state['n'] += 1
    deep = nimble.settings.get('logger', 'enableDeepLogging').lower() == 'true'

    def make(_, use):
        d = todo['d']
        args = dict(todo['args'])
        if refuse == 'args':
            args['nosuchargument'] = 1
        kw = dict(randomSeed=seed, useLog=use)
        if kind in ('normalize', 'fill'):
            X, _ = lc.make(nimble, d)
            X.name = 'trainObj'
            if refuse == 'data':
                X = [[1, 2]]
            if kind == 'fill':
                return (lambda: (nimble.fillMatching(L, nimble.match.missing if seed % 2 else X.matchingElements(nimble.match.missing, useLog=False), X, arguments=args, useLog=use), X)), [['run', 'fillMatching', 'trainObj']]
            T, _ = lc.make(nimble, dict(d, seed=d['seed'] + 1))
            return (lambda: nimble.normalizeData(L, X, testX=T if todo['test'] else None, arguments=args, **kw)), [['run', 'normalizeData', 'trainObj']]
        X, Y = lc.xy(nimble, d, todo['y'])
        X.name = 'trainObj'
        T, TY = lc.xy(nimble, dict(d, seed=d['seed'] + 1, n=6), todo['ty'] if kind in ('trainAndTest', 'test') else 'obj')
        T.name = 'testObj'
        if refuse == 'length':
            Y = lc.make(nimble, dict(d, n=d['n'] + 1))[1] if todo['y'] == 'obj' else 999
        elif refuse == 'data':
            X = 'nodata'
        ms = dict(multiClassStrategy=todo['strategy'])
        if kind == 'train':
            return (lambda: ('TL', nimble.train(L, X, Y, args, **ms, **kw), T, todo['mode'])), [['run', 'train', 'trainObj']]
        if kind == 'trainAndApply':
            return (lambda: nimble.trainAndApply(L, X, Y, T if seed % 4 else None, args, scoreMode=todo['mode'], **ms, **kw)), [['run', 'trainAndApply', 'trainObj']]
        if kind in ('trainAndTest', 'tuneTest', 'onTraining', 'tune', 'test'):
            fn = lc.perf(nimble, todo['perf'])
        if kind == 'trainAndTest':
            return (lambda: nimble.trainAndTest(L, fn, X, Y, T, TY, args, **kw)), [['run', 'trainAndTest', 'trainObj']]
        if kind == 'onTraining':
            want = [['run', 'trainAndTestOnTrainingData', 'trainObj']]
            if todo['folds']:
                # cross-validation is recorded like a tuning
                want = (([['deepRun', '*', '*']] * todo['folds']) if deep else []) + [['tuning', '*', None]] + want
            return (lambda: nimble.trainAndTestOnTrainingData(L, fn, X, Y, crossValidationFolds=todo['folds'], arguments=args, **kw)), want
        if kind in ('tune', 'tuneTest'):
            args.update({k: nimble.Tune(v) for k, v in todo['tune'].items()})
            tuning = lc.tuning(nimble, todo, X, T, TY, fn, todo['iters'])

            def want():
                out = []
                if deep and todo['validation'] == 'data':
                    out.append('trials')                 # whether these are recorded is not specified
                elif deep:
                    n = len(tuning.allResults)
                    if todo['validation'] in ('cross validation', 'leave one out', 'leave one group out'):
                        n = sum(len(r) for r in tuning.deepResults)
                    out = [['deepRun', '*', '*']] * n
                return out + [['tuning', '*', None], ['run', 'train' if kind == 'tune' else 'trainAndTest', 'trainObj']]
            if kind == 'tune':
                return (lambda: ('TL', nimble.train(L, X, Y, args, tuning=tuning, **kw), T, None)), want
            return (lambda: [nimble.trainAndTest(L, fn, X, Y, T, TY, args, tuning=tuning, **kw), tuning.bestArguments]), want
        tl = nimble.train(L, *(lc.make(nimble, d) if refuse in ('length', 'data') else (X, Y)), dict(todo['args']), randomSeed=seed, useLog=False,
                          **(ms if kind in ('apply', 'scores', 'saveTL', 'loadTL') else {}))
        one = lambda f: [['run', f'{tl.logID}.{f}', '*']]
        if kind == 'apply':
            return (lambda: tl.apply(X if refuse == 'data' else T, {'nosuchargument': 1} if refuse == 'args' else None, todo['mode'], useLog=use)), one('apply')
        if kind == 'test':
            if refuse == 'length':
                return (lambda: tl.test(fn, T, Y if todo['y'] == 'obj' else 999, useLog=use)), one('test')
            return (lambda: tl.test(fn, X if refuse == 'data' else T, TY, {'nosuchargument': 1} if refuse == 'args' else None, useLog=use)), one('test')
        X2, Y2 = lc.xy(nimble, dict(d, seed=d['seed'] + 2), todo['y'])
        X2.name = 'trainObj'
        if refuse == 'length':
            Y2 = lc.make(nimble, dict(d, n=d['n'] + 1))[1]
        if kind == 'retrain':
            return (lambda: ('TL', tl.retrain(X if refuse == 'data' else X2, Y2, args, **kw) or tl, T, None)), one('retrain')
        if kind == 'incremental':
            return (lambda: ('TL', tl.incrementalTrain(X if refuse == 'data' else X2, Y2, args, **kw) or tl, T, None)), one('incrementalTrain')
        if kind == 'scores':
            return (lambda: tl.getScores(T) if todo['clf'] else tl.getAttributes() and None), []
        path = os.path.join(state['root'], 'learner.pickle')
        if kind == 'saveTL':
            return (lambda: tl.save(path)), []
        if kind == 'loadTL':
            savable = state['tl']
            savable.save(path)
            if refuse:
                with open(path, 'wb') as f:
                    f.write(b'junk')
            return (lambda: nimble.loadTrainedLearner(path, useLog=use).apply(state['small'][0], useLog=False)), [['tl', '*', '*']]
        return (lambda: nimble.loadTrainedLearner('nosuch.learner' if seed % 2 else os.path.join(state['root'], 'none.pickle'), useLog=use)), [['tl', '*', '*']]
    try:
        out = both(nimble, state, make, fault, described, log)
    except Exception as e:                               # pylint: disable=broad-except
        return {'setup': f'{type(e).__name__}: {e}'}
    if out is not None and 'B' in out:
        out['same'] = True
    return out


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith('op_')}


# -------------------------------------------------------------- the oracle
def fits(row, want):
    return len(row) == len(want) and all(w == '*' or r == w for r, w in zip(row, want))


def match(rows, wants):
    """Rows in order match the wants in order; returns (missing, extra)."""
    rows = list(rows)
    missing = []
    for w in wants:
        i = next((i for i, r in enumerate(rows) if fits(r, w)), None)
        if i is None:
            missing.append(w)
        else:
            del rows[i]
    return missing, rows


def judge(res, head, rep, enabled, default, line, tracked):
    rows = rep['rows']
    inside = []
    for w in rep['inner']:
        if w != 'train':
            inside.append(w)
        elif not tracked and default:
            inside.append(['run', 'train', '*'])
    ok = rep['res'] == 'ok'
    own = [w for w in rep['want'] if w != 'trials'] if enabled and ok else []
    trials = 'trials' in rep['want']
    missing, extra = match(rows, inside + own)
    if line and not ok:
        # interrupted: possibly after some or all of its entries had been stored
        own = ('tuning', 'deepRun')
        extra = [r for r in extra if r[0] not in own]
        if len(extra) > (2 if 'control' in head else 1) or not enabled and extra:
            res.violate('interrupted-entries', f'{head} -> {rep["res"]}: added {extra}')
        return
    if trials and enabled:
        extra = [r for r in extra if r[0] != 'deepRun']
    if not ok:
        # validations and tuning that completed before the failure have been recorded
        if enabled:
            extra = [r for r in extra if r[0] not in ('deepRun', 'tuning')]
        if 'controlRaises' in head:
            extra = []
    if missing:
        res.violate('missing-entry', f'{head} -> {rep["res"]}: no entry {missing} in {rows}')
    if extra:
        what = 'failed-call-entry' if not ok else 'logged-when-off' if not enabled else 'extra-entry'
        res.violate(what, f'{head} -> {rep["res"]}: unexpected {extra}; expected only {inside + own}')
    if not (missing or extra) and ok and enabled and own:
        last = rows[-1]
        if not fits(last, own[-1]):
            res.violate('entry-order', f'{head}: the last entry is {last}, expected {own[-1]}')


def runUnlogged(case, ctx, res):
    root = ctx.fresh()
    res.nontrivial = False
    sess = Session(root, OPS, clock=(1.6e9, 0), rand=1, fresh=False)
    try:
        r = sess.start(armed=False)
        if not r.ok:
            raise RuntimeError(str(r['exc']))
        r = sess.call('offMake', _armed=False, which=case['off'], spec=case['spec'], root=root)
        if not r.ok:
            return
        if r.value[0] or r.value[1] != ['User - ready']:
            res.violate('logged-when-off', f'making data with useLog=False, then one note, added {r.value}')
            return
        for i, s in enumerate(case['ops']):
            r = sess.call('offStep', _armed=False, todo=s)
            if not r.ok:
                return
            (kind, name, axis, out), rows = r.value
            res.steps += 1
            res.states.add(f'off/{kind}/{name}/{axis}/{str(out)[:12]}')
            res.note(i, kind, name, out, len(rows))
            if rows:
                res.violate(f'off-{kind}-{name}'[:60], f'step {i} {kind} {name} {axis} (useLog=False where there is such an argument, default True) -> {out}: unexpected {rows}')
                return
    finally:
        sess.kill()


def run(case, ctx, res):
    if 'off' in case:
        runUnlogged(case, ctx, res)
        return
    root = ctx.fresh()
    res.nontrivial = False
    sess = Session(root, OPS, clock=(1.6e9, 0), rand=1, fresh=False)
    default = case['on'].lower() == 'true'
    faulted = False
    try:
        r = sess.start(armed=False)
        if not r.ok:
            raise RuntimeError(str(r['exc']))
        r = sess.call('make', _armed=False, spec=case['spec'], root=root, on=case['on'], deep=case['deep'])
        if not r.ok:
            res.violate('call-failed', f'make: {r["exc"]}')
            return
        if [x[0] for x in r.value] != ['User - ready']:
            res.violate('extra-entry', f'setting up with useLog=False and one note gave {r.value}')
            return
        for i, s in enumerate(case['ops']):
            kind = s[0]
            res.steps += 1
            if kind == 'set':
                r = sess.call('set', _armed=False, option=s[1], to=s[2])
                if not r.ok:
                    res.violate('call-failed', f'{s}: {r["exc"]}')
                    return
                if s[1] == 'enabledByDefault':
                    default = s[2].lower() == 'true'
                if r.value:
                    res.violate('extra-entry', f'step {i} {s}: added {r.value}')
                continue
            if kind == 'note':
                r = sess.call('note', _armed=False, heading=s[1])
                if not r.ok or [x[0] for x in r.value] != ['User - ' + s[1]]:
                    res.violate('missing-entry', f'step {i} {s}: {r.value if r.ok else r["exc"]}')
                continue
            log, fault = (s[2], s[3]) if kind != 'quiet' else (None, None)
            args = {'data': lambda: dict(todo=s[1], log=s[2], fault=s[3], refuse=s[4]), 'extra': lambda: dict(todo=s[1], log=s[2], fault=s[3]),
                    'create': lambda: dict(kind=s[1], log=s[2], fault=s[3], seed=s[4]), 'quiet': lambda: dict(kind=s[1], seed=s[2]),
                    'report': lambda: dict(which=s[1], log=s[2], fault=s[3]), 'learn': lambda: dict(todo=s[1], log=s[2], fault=s[3], refuse=s[4])}[kind]()
            r = sess.call(kind, _armed=False, **args)
            if not r.ok:
                res.violate('call-failed', f'{s}: {r["exc"]}')
                return
            out = r.value
            name = s[1]['kind'] if kind == 'learn' else s[1]['op'] if isinstance(s[1], dict) else s[1]
            if out is None:
                continue
            if 'setup' in out:
                res.note('setup', out['setup'])
                continue
            line = bool(fault and 'line' in fault)
            enabled = default if log is None else log
            what = 'line' if line else fault['kind'] if fault else 'refused' if kind in ('data', 'learn') and s[4] else 'none'
            tracked = kind == 'learn' and name in TRACKED
            for which in ('B', 'A'):
                if which not in out:
                    continue
                rep = out[which]
                use = False if which == 'B' else log
                head = f'step {i} {kind} {name} (useLog={use}, default {default}, fault {fault if fault else what})'
                judge(res, head, rep, enabled if which == 'A' else False, default, line, tracked)
                if rep['fired'] or rep['res'] == 'siminterrupt' or what == 'refused' and rep['res'] != 'ok':
                    res.faults[{'line': 'interrupt at a library line', 'probe': 'library used inside a callback', 'error': 'callback raises', 'interrupt': 'callback interrupted',
                                'refused': 'refused arguments'}[what]] += 1
                    faulted = True
                elif faulted and enabled and rep['res'] == 'ok' and rep['rows']:
                    res.nontrivial = True
                res.states.add(f'{name}/{use}/{default}/{what}/{rep["res"][:12]}/{min(3, len(rep["rows"]))}')
                res.note(head, rep['res'].replace(root, '<root>'), len(rep['rows']))
            if 'B' in out:
                a, b = out['A'], out['B']
                if a['res'] != b['res']:
                    res.violate('outcome-differs', f'step {i} {kind} {name}: with useLog={log} (default {default}) it gives {a["res"]}, with useLog=False {b["res"]}')
                elif a['value'] != b['value'] or out.get('same') is False:
                    res.violate('result-differs', f'step {i} {kind} {name}: the result with useLog={log} (default {default}) is not the one with useLog=False: {str(a["value"])[:200]} and {str(b["value"])[:200]}')
            if res.violations:
                return
    finally:
        sess.kill()
