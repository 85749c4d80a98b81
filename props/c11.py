"""C11: library-internal randomness never disturbs the user's random stream."""
import hashlib
import pickle
import random

import numpy

from sim.session import CallFailed, Session
from . import learn_common as lc

IN_PROCESS = True
LEVEL = 'fault_enumeration'
BUDGET = {'quick': {'seeds': 6000, 'wall': 150, 'min': 60},
          'thorough': {'seeds': 60000, 'wall': 3000, 'min': 60}}
RULE = ('A seed draws a history of 4-14 steps: setting the seed (valid, invalid), drawing from both generators, entering seeded random sections '
        '(nested), leaving them (normally, by an exception, by dropping them), and library operations with or without a seed, which succeed or fail: '
        'the k-th call of a learner or performance function raises or is interrupted or tries to set the seed, or the library is interrupted at its '
        'k-th line. Two reference generators follow every step. Non-trivial: a fault fired or a seeded operation ran inside a section.')
STATES = '(operation, learner, seeded, section depth, fault kind, outcome)'
REAL = ['nimble.random', 'nimble.train/trainAndApply/trainAndTest/normalizeData/tuning/retrain/incrementalTrain', 'data shuffling and sampling', 'scikit-learn']
STUBS = ['learners and performance functions with fault points', 'interrupts at chosen library lines', 'kernel randomness and clock']
ASSUMPTIONS = ['an interrupt inside the few lines of nimble.random that save and restore the generators is not injected',
               'sections are left in the opposite order of entering them']
BAD = [-1, 2 ** 32, 2 ** 40, 'abc', 1.5, b'xy', [3, 'x'], {}]
PRELOAD = ['sklearn.ensemble', 'sklearn.neighbors', 'sklearn.svm', 'sklearn.naive_bayes', 'sklearn.tree', 'sklearn.decomposition']


def preload():
    import nimble
    nimble.settings.set('logger', 'enabledByDefault', 'False')
    try:
        nimble.learnerNames('sklearn')
    except Exception:                                    # pylint: disable=broad-except
        pass


def gen(rng):
    steps, depth = [], 0
    for _ in range(rng.randrange(4, 15)):
        r = rng.random()
        if r < 0.16:
            steps.append(['set', rng.choice([0, 1, 42, 2 ** 32 - 1, rng.randrange(2 ** 32)])])
        elif r < 0.22:
            steps.append(['set', rng.choice(BAD)])
        elif r < 0.36:
            steps.append(['draw', rng.choice(['py', 'np', 'both']), rng.randrange(1, 5)])
        elif r < 0.48 and depth < 3:
            depth += 1
            steps.append(['enter', rng.choice([0, 7, rng.randrange(2 ** 32), rng.choice(BAD[:4])])])
            if not isinstance(steps[-1][1], int) or not 0 <= steps[-1][1] < 2 ** 32:
                depth -= 1
        elif r < 0.58 and depth:
            depth -= 1
            steps.append(['exit', rng.choice(['ok', 'ok', 'raise', 'interrupt', 'drop'])])
        else:
            op = lc.gen_op(rng, seed='maybe')
            steps.append(['op', op, gen_fault(rng) if rng.random() < 0.6 else None])
    return {'ops': steps}


def gen_fault(rng):
    r = rng.random()
    if r < 0.35:
        return {'k': rng.choice([0, 0, 1, 1, 2, 3, 5, 8]), 'kind': 'error'}
    if r < 0.55:
        return {'k': rng.choice([0, 0, 1, 1, 2, 3, 5, 8]), 'kind': 'interrupt'}
    if r < 0.7:
        return {'k': rng.choice([0, 1, 2, 4]), 'kind': 'probe'}
    return {'line': int(10 ** rng.uniform(0.3, 4.2))}


def explore(rng, ctx):
    ctx.execute(gen(rng))


def shrink(case):
    from sim.engine import generic_shrink
    yield from generic_shrink(case)
    for i, s in enumerate(case['ops']):
        if s[0] == 'op' and s[2]:
            c = dict(case, ops=list(case['ops']))
            c['ops'][i] = ['op', s[1], None]
            yield c


# ------------------------------------------------------- inside the session
def states(nimble):
    return (nimble.random.pythonRandom.getstate(), nimble.random.numpyRandom.get_state())


def setstates(nimble, st):
    nimble.random.pythonRandom.setstate(st[0])
    nimble.random.numpyRandom.set_state(st[1])


def op_get(nimble, state):
    return states(nimble)


def op_set(nimble, state, seed):
    try:
        nimble.random.setSeed(seed, useLog=False)
        out = 'ok'
    except Exception as e:                               # pylint: disable=broad-except
        out = type(e).__name__
    return out, states(nimble)


def op_draw(nimble, state, which, n):
    out = []
    if which != 'np':
        out += [nimble.random.pythonRandom.random() for _ in range(n)]
    if which != 'py':
        out += [float(v) for v in nimble.random.numpyRandom.rand(n)]
    if n % 2:                                            # each generator keeps the second value of a pair
        out += [nimble.random.pythonRandom.gauss(0, 1)] if which != 'np' else []
        out += [float(nimble.random.numpyRandom.standard_normal())] if which != 'py' else []
    return out, states(nimble)


class Left(Exception):
    pass


def op_enter(nimble, state, seed):
    cm = nimble.random.alternateControl(seed, useLog=False)
    try:
        cm.__enter__()
    except Exception as e:                               # pylint: disable=broad-except
        return type(e).__name__, states(nimble)
    state.setdefault('stack', []).append(cm)
    return 'ok', states(nimble)


def op_exit(nimble, state, how):
    cm = state['stack'].pop()
    out = 'ok'
    if how == 'drop':
        del cm
    elif how == 'ok':
        cm.__exit__(None, None, None)
    else:
        exc = Left('leaving') if how == 'raise' else KeyboardInterrupt()
        try:
            if cm.__exit__(type(exc), exc, None):
                out = 'swallowed'
        except BaseException as e:                       # pylint: disable=broad-except
            out = 'ok' if e is exc else type(e).__name__
    return out, states(nimble)


def op_run(nimble, state, spec, fault, line):
    """Run an operation; the caller may interrupt it."""
    lc.fault.arm(None)
    if fault and 'k' in fault:
        lc.fault.arm(fault['k'], fault['kind'])
        lc.fault.probe = lambda: nimble.random.setSeed(99, useLog=False)
    state['probed'] = lc.fault.probed
    intr = {'where': '/nimble/', 'k': line, 'exclude': ['/random/randomness.py']} if line is not None else None
    from sim.session import interrupted, SimInterrupt
    try:
        if intr:
            val, _ = interrupted(lambda: lc.perform(nimble, state, spec), {}, intr)
        else:
            val = lc.perform(nimble, state, spec)
        out = 'ok'
    except SimInterrupt:
        out, val = 'line', None
    except KeyboardInterrupt:
        out, val = 'interrupt', None
    except Exception as e:                               # pylint: disable=broad-except
        out, val = 'exc', [type(e).__name__, str(e)[:200]]
        e.__traceback__ = None
    fired = lc.fault.fired
    lc.fault.off()
    return out, val, fired, list(lc.fault.probed), states(nimble)


def op_again(nimble, state, spec, st):
    """The same operation from the given generator states."""
    setstates(nimble, st)
    return op_run(nimble, state, spec, None, None)


OPS = {'get': op_get, 'set': op_set, 'draw': op_draw, 'enter': op_enter, 'exit': op_exit, 'run': op_run, 'again': op_again}


# -------------------------------------------------------------- the oracle
def dig(st):
    return hashlib.sha1(pickle.dumps((st[0], st[1][0], bytes(st[1][1]), st[1][2:]))).hexdigest()[:12]


def reference(seed):
    p, n = random.Random(), numpy.random.RandomState()
    p.seed(seed)
    n.seed(seed)
    return p, n


def of(st):
    p, n = random.Random(), numpy.random.RandomState()
    p.setstate(st[0])
    n.set_state(st[1])
    return p, n


def refstates(ref):
    return ref[0].getstate(), ref[1].get_state()


def run(case, ctx, res):
    root = ctx.fresh()
    res.nontrivial = False
    sess = Session(root, OPS, clock=(1.6e9, 0), rand=1, fresh=False)
    try:
        r = sess.start(armed=False)
        if not r.ok:
            raise RuntimeError(str(r['exc']))

        def call(name, **kw):
            r = sess.call(name, _armed=False, **kw)
            if not r.ok:
                res.violate('call-failed', f'{name}: {r["exc"]}')
                raise CallFailed()
            res.steps += 1
            return r.value
        ref = of(call('get'))
        stack = []
        for i, step in enumerate(case['ops']):
            kind = step[0]
            where = f'step {i} {kind} (section depth {len(stack)})'
            if kind == 'set':
                seed = step[1]
                if stack:
                    out, st = call('set', seed=seed)
                    if out == 'ok':
                        res.violate('set-in-section', f'{where}: setSeed({seed!r}) was accepted inside a seeded section')
                    check(res, ref, st, 'section-disturbed', f'{where}: a refused setSeed({seed!r}) changed the state')
                else:
                    try:
                        new = reference(seed)
                    except (ValueError, TypeError):
                        new = None
                    out, st = call('set', seed=seed)
                    if new is not None:
                        if out != 'ok':
                            res.violate('set-refused', f'{where}: setSeed({seed!r}) raised {out} outside any seeded section')
                        ref = new
                        check(res, ref, st, 'set-state', f'{where}: setSeed({seed!r}) did not restart both generators from that seed')
                    elif out != 'ok':
                        check(res, ref, st, 'set-failed', f'{where}: setSeed({seed!r}) raised {out} but changed the state')
                res.note(i, kind, repr(seed), out, dig(st))
            elif kind == 'draw':
                val, st = call('draw', which=step[1], n=step[2])
                want = []
                if step[1] != 'np':
                    want += [ref[0].random() for _ in range(step[2])]
                if step[1] != 'py':
                    want += [float(v) for v in ref[1].rand(step[2])]
                if step[2] % 2:
                    want += [ref[0].gauss(0, 1)] if step[1] != 'np' else []
                    want += [float(ref[1].standard_normal())] if step[1] != 'py' else []
                if val != want:
                    res.violate('draw', f'{where}: drew {val[:3]}, expected {want[:3]}')
                check(res, ref, st, 'draw', f'{where}: state differs after drawing')
                res.note(i, kind, val)
            elif kind == 'enter':
                try:
                    new = reference(step[1])
                except (ValueError, TypeError):
                    new = None
                out, st = call('enter', seed=step[1])
                if out == 'ok':
                    stack.append(ref)
                    ref = new if new is not None else of(st)
                    check(res, ref, st, 'section-state', f'{where}: the section does not start from seed {step[1]!r}')
                else:
                    if new is not None:
                        res.violate('section-refused', f'{where}: alternateControl({step[1]!r}) raised {out}')
                    check(res, ref, st, 'section-failed', f'{where}: alternateControl({step[1]!r}) raised {out} but changed the state')
                res.note(i, kind, out, dig(st))
            elif kind == 'exit':
                if not stack:
                    continue
                ref = stack.pop()
                out, st = call('exit', how=step[1])
                if out != 'ok':
                    res.violate('section-exit', f'{where} by {step[1]}: {out}')
                check(res, ref, st, 'section-exit', f'{where} by {step[1]}: the state before the section was not restored')
                if step[1] != 'ok':
                    res.faults['section ' + step[1]] += 1
                    res.nontrivial = True
                res.note(i, kind, step[1], dig(st))
            else:
                op, fault = step[1], step[2] or {}
                before = refstates(ref)
                out, val, fired, probed, st = call('run', spec=op, fault=fault, line=fault.get('line'))
                seeded = op['seed'] is not None
                desc = f'{where} {op["op"]} {op.get("learner", "")} seed={op["seed"]} fault={fault or None} -> {out} {val if out == "exc" else ""}'
                if fired:
                    res.faults['user function ' + fault['kind']] += 1
                if out == 'line':
                    res.faults['interrupt at library line'] += 1
                for place, what in probed:
                    if place.split('-')[0] in ('train', 'incremental') and what != 'RuntimeError':
                        res.violate('set-in-operation', f'{desc}: setSeed inside {place} of a learner gave {what}')
                disturbed = fired and fault['kind'] == 'probe' and probed and probed[0][1] != 'RuntimeError'
                if seeded and not disturbed:
                    check(res, ref, st, 'disturbed', f'{desc}: the random state was changed')
                elif seeded:
                    pass
                elif out in ('ok', 'exc') and not fired:
                    out2, val2, _, _, st2 = call('again', spec=op, st=before)
                    if [out, val] != [out2, val2]:
                        res.violate('not-determined', f'{desc}: repeated from the same random state gave another result: {differ(val, val2)}')
                    if dig(st) != dig(st2):
                        res.violate('not-determined', f'{desc}: repeated from the same random state left another state')
                    ref = of(st2)
                if not seeded or disturbed:
                    ref = of(call('get'))
                if fired or out == 'line' or (seeded and stack):
                    res.nontrivial = True
                fk = fault.get('kind') or ('line' if 'line' in fault else None)
                res.states.add(f'{op["op"]}/{op.get("learner")}/{seeded}/{len(stack)}/{fk if fired or out == "line" else None}/{out}')
                res.note(i, op['op'], out, val, dig(st))
            if res.violations:
                return
        while stack:
            ref = stack.pop()
            out, st = call('exit', how='ok')
            check(res, ref, st, 'section-exit', 'at the end: the state before the section was not restored')
    finally:
        sess.kill()


def differ(a, b):
    a, b = repr(a), repr(b)
    k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return f'...{a[max(0, k - 20):k + 40]}... and ...{b[max(0, k - 20):k + 40]}...'


def check(res, ref, st, sig, text):
    if dig(refstates(ref)) != dig(st):
        res.violate(sig, text)
