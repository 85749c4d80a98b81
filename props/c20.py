"""C20: names follow their points and features."""
import copy
import math
import os
import pickle
import random

from sim.session import Session, SimInterrupt, interrupted
from . import c15
from . import data_common as dc

IN_PROCESS = True
LEVEL = 'exploration'
BUDGET = {'quick': {'seeds': 9000, 'wall': 120, 'min': 60},
          'thorough': {'seeds': 150000, 'wall': 3000, 'min': 60}}
RULE = ('A seed draws one table with full, partial or no names in one data type and a history of 4-16 operations on a growing population made from it: '
        'reordering, sorting, extracting, retaining, deleting, copying, slicing, views, inserting, appending, replacing, repeating, transposing, '
        'flattening, grouping, splitting, merging, naming, converting, saving and loading. Operations may be refused, their functions may fail or be '
        'interrupted at the k-th call, and those that only derive may be interrupted at the k-th library line. A reference model of named rows and columns '
        'performs every operation too; after each one every member must have the values and names of its model, unique names, and lookups by name and '
        'by index that agree. Non-trivial: an operation failed or was refused and the history went on with the same object.')
STATES = '(operation, axis, data type, names of both axes none/some/all, fault, outcome)'
REAL = ['nimble data objects, their axes and views, merging, conversion, creation, saving and loading']
STUBS = ['user functions with fault points', 'interrupts at chosen library lines', 'disk, clock, kernel randomness']
ASSUMPTIONS = ['two-dimensional data', 'merge keys are not missing', 'points that compare equal in a sort may come in any order']
NOTE = 'the reference model is written from the documentation, without nimble code'

TYPES = ['List', 'Matrix', 'DataFrame', 'Sparse']
CHANGE = ['permute', 'permute', 'shuffle', 'sortFunc', 'sortCmp', 'sortIds', 'sortNames', 'extract', 'extract', 'delete', 'retain', 'insert', 'insert', 'append', 'append', 'transpose', 'setNames', 'setNames', 'rename', 'rename',
          'clearNames', 'replace', 'replace', 'flat', 'transform', 'elements', 'merge', 'merge', 'merge', 'mergeOn', 'mergeOn', 'strict', 'strict', 'collapse', 'expand', 'setitem', 'split', 'binary', 'integers', 'rect', 'fill', 'inplace', 'normalize']
DERIVE = ['copy', 'copyIds', 'copyIds', 'copyFunc', 'T', 'view', 'view', 'axisView', 'slice', 'slice', 'convert', 'convert', 'rawOut', 'rawOut', 'file', 'pickle', 'fromRaw', 'fromRows', 'repeat', 'repeat', 'group', 'sets', 'unique', 'calc', 'stats', 'matching', 'iterate', 'scalar',
          'calcElements', 'pair', 'query']


def preload():
    import nimble
    nimble.settings.set('logger', 'enabledByDefault', 'False')


def gen(rng):
    text = rng.random() < 0.2
    t = rng.choice(TYPES[:3] if text else TYPES)
    p, f = rng.randrange(2, 7), rng.choice([2, 3, 3, 4, 4, 5, 5, 6, 7])
    count = rng.randrange(1, 50)
    rows = []
    for _ in range(p):
        row = []
        for k in range(f):
            r = rng.random()
            count += 1
            if k == f - 1:
                row.append(rng.randrange(3))
            elif r < 0.12:
                row.append(0)
            elif r < 0.2:
                row.append('nan')
            elif text and k % 2:
                row.append(f't{count}')
            else:
                row.append(count if rng.random() < 0.7 else count + 0.5)
        rows.append(row)
    ops = []
    for n in range(rng.randrange(4, 17)):
        d = rng.random() < 0.35
        how = rng.choice(DERIVE if d else CHANGE)
        fault = None
        r = rng.random()
        if r < 0.15:
            fault = {'k': rng.choice([0, 1, 2, 3, 5]), 'kind': rng.choice(['error', 'interrupt'])}
        elif d and r < 0.3:
            fault = {'line': int(10 ** rng.uniform(0, 3))}
        ops.append(['derive' if d else 'change', rng.choice([0, 0, 1, 2, 3, 4]), how,
                    {'axis': rng.choice(c15.AX), 'i': rng.randrange(100), 'j': rng.randrange(100), 'w': rng.randrange(6), 'seed': rng.randrange(100000), 'refuse': rng.random() < 0.12}, fault])
    return {'spec': {'type': t, 'rows': rows, 'pn': naming(rng, p, 'p'), 'fn': naming(rng, f, 'f')}, 'ops': ops}


def naming(rng, n, tag):
    r = rng.random()
    if r < 0.15:
        return None
    order = list(range(n))
    rng.shuffle(order)
    if r < 0.25:
        out = [rng.choice(['n ', 'a,b', 'é', '/', '-', ' ', '10']) + tag + str(i) for i in order]
    else:
        out = [f'{tag if i % 2 or r < 0.5 else tag.upper()}{i}' for i in order]
    if r > 0.75:
        out = [x if rng.random() < 0.6 else None for x in out]
        if all(x is None for x in out):
            return None
    return out


def explore(rng, ctx):
    ctx.execute(gen(rng))


def shrink(case):
    from sim.engine import generic_shrink
    yield from generic_shrink(case)
    for i, s in enumerate(case['ops']):
        if s[4]:
            c = dict(case, ops=list(case['ops']))
            c['ops'][i] = s[:4] + [None]
            yield c
    s = case['spec']
    for ax in ('pn', 'fn'):
        if s[ax]:
            yield dict(case, spec=dict(s, **{ax: None}))


# ------------------------------------------------------- the reference model
class Refused(Exception):
    """The model says this must be refused."""


class Skip(Exception):
    """Not an operation for this object."""


class Table:
    """Rows of cells, with a name or None for each row and each column."""
    def __init__(self, rows, pn, fn):
        self.rows, self.pn, self.fn = [list(r) for r in rows], list(pn), list(fn)

    def copy(self):
        return Table(self.rows, self.pn, self.fn)

    @property
    def T(self):
        return Table([[r[k] for r in self.rows] for k in range(len(self.fn))], self.fn, self.pn)

    def take(self, ids):
        return Table([self.rows[i] for i in ids], [self.pn[i] for i in ids], self.fn)

    def along(self, axis):
        return self if axis == 'points' else self.T

    def seen(self):
        return {'rows': [[dc.cell(v) for v in r] for r in self.rows] if self.fn else [[] for _ in self.pn], 'pn': self.pn, 'fn': self.fn}

    def bag(self):
        """Named rows in no order."""
        return sorted((repr([n, [dc.cell(v) for v in r]]) for n, r in zip(self.pn, self.rows))), self.fn


def some(names):
    return any(n is not None for n in names)


def full(names):
    return all(n is not None for n in names)


def lookups(obj):
    """Disagreements between the lookups of an object."""
    for ax in ('points', 'features'):
        A = getattr(obj, ax)
        names = list(A.getNames())
        if len(names) != len(A):
            return f'{ax}: {len(names)} names for {len(A)}'
        given = [n for n in names if n is not None]
        if len(set(given)) != len(given):
            return f'{ax}: names are not unique {names}'
        for i, n in enumerate(names):
            if A.getName(i) != n:
                return f'{ax}: getName({i}) {A.getName(i)!r}, getNames {n!r}'
            if n is not None and (A.getIndex(n) != i or not A.hasName(n)):
                return f'{ax}: getIndex({n!r}) is {A.getIndex(n)}, not {i}'
        if given and A.getIndices(given) != [names.index(n) for n in given]:
            return f'{ax}: getIndices {A.getIndices(given)}'
        if A.hasName('never given'):
            return f'{ax}: has a name never given'
    P, F = obj.points.getNames(), obj.features.getNames()
    for i, p in enumerate(P):
        for j, f in enumerate(F):
            if p is not None and f is not None and dc.cell(obj[p, f]) != dc.cell(obj[i, j]):
                return f'value at {p!r}, {f!r} is {obj[p, f]!r}, at {i}, {j} it is {obj[i, j]!r}'
    return None


def observe(obj):
    s = dc.logical(obj)
    rows = s['rows'] if len(obj.points) and len(obj.features) else [[] for _ in range(len(obj.points))]
    return {'rows': rows, 'pn': list(obj.points.getNames()), 'fn': list(obj.features.getNames())}


def actual(obj):
    """The table an object holds (where the order of the outcome is free)."""
    s = dc.logical(obj)
    return Table([[float('nan') if v == 'NaN:' else v for v in r] for r in s['rows']], obj.points.getNames(), obj.features.getNames())


# ------------------------------------------------------- the operations
def build(nimble, table, t):
    """An object of a table."""
    obj = nimble.data([list(r) for r in table.rows], returnType=t, rowsArePoints=True, useLog=False, pointNames=False, featureNames=False)
    if some(table.pn):
        obj.points.setNames(list(table.pn), useLog=False)
    if some(table.fn):
        obj.features.setNames(list(table.fn), useLog=False)
    return obj


def numeric(table):
    return all(not isinstance(v, str) for r in table.rows for v in r)


def choose(rng, names, least=1, most=None):
    """Some members as a random list of positions, and as identifiers."""
    n = len(names)
    ids = rng.sample(range(n), rng.randrange(least, (most or n) + 1))
    return ids, [names[i] if names[i] is not None and rng.random() < 0.6 else i for i in ids]


def fresh(rng, n, tag, taken):
    out = [f'{tag}{rng.randrange(1000)}x{k}' for k in range(n)]
    out = [None if x in taken else x for x in out]
    r = rng.random()
    return [None] * n if r < 0.25 else [x if rng.random() < 0.6 else None for x in out] if r < 0.45 else out


def partner(rng, table, axis, refuse, same=False):
    """A table that can be joined to the one given along an axis."""
    m = table.along(axis)
    n = len(m.pn) if same else rng.choice([1, 1, 2, 3])
    off = list(m.fn)
    r = rng.random()
    order = list(range(len(off)))
    if r < 0.35 and full(off):
        rng.shuffle(order)
    elif r < 0.6:
        off = [None] * len(off)
    rows = [[1000 + rng.randrange(5000) if rng.random() < 0.85 else 0 for _ in off] for _ in range(n)]
    names = fresh(rng, n, 'new' + axis[0], m.pn)
    if refuse:
        given = [x for x in m.pn if x is not None]
        if given and rng.random() < 0.5:
            names[rng.randrange(n)] = rng.choice(given)
        elif rng.random() < 0.5:
            rows = [r + [1] for r in rows]
            off = off + [None]
            order.append(len(order))
        elif some(m.fn) and full(m.fn):
            off = [f'other{k}' for k in range(len(off))]
        else:
            raise Skip
    other = Table(rows, names, off)
    other = other.T.take(order).T
    return other.along(axis), other


def fits(m, o):
    """The rows of o in the column order of m, or refused."""
    if len(m.fn) != len(o.fn):
        raise Refused
    if {x for x in m.pn if x is not None} & {x for x in o.pn if x is not None}:
        raise Refused
    if some(m.fn) and some(o.fn) and m.fn != o.fn:
        if full(m.fn) and full(o.fn) and set(m.fn) == set(o.fn):
            return o.T.take([o.fn.index(x) for x in m.fn]).T
        if full(m.fn) and full(o.fn):
            raise Refused
        raise Skip
    return o


def put(m, at, o):
    rows = m.rows[:at] + o.rows + m.rows[at:]
    fn = m.fn if some(m.fn) else o.fn
    return Table(rows, m.pn[:at] + o.pn + m.pn[at:], fn)


def nan(v):
    return v != v


def join(m, o, point, feature, key):
    """The documented merge of two tables; o is the right one."""
    if key is None and not (some(m.pn) and some(o.pn)):
        raise Refused
    if not (some(m.fn) and some(o.fn)):
        raise Refused
    shared = [x for x in m.fn if x is not None and x in o.fn]
    if key is not None:
        if key not in shared:
            raise Refused
        kl, kr = [r[m.fn.index(key)] for r in m.rows], [r[o.fn.index(key)] for r in o.rows]
        if len(set(kl)) != len(kl) and len(set(kr)) != len(kr):
            raise Refused
    else:
        kl, kr = [n if n is not None else ('l', i) for i, n in enumerate(m.pn)], [n if n is not None else ('r', i) for i, n in enumerate(o.pn)]
    pairs = []
    for i, k in enumerate(kl):
        match = [j for j, q in enumerate(kr) if q == k]
        if match:
            pairs += [(i, j) for j in match]
        elif point in ('union', 'left'):
            pairs.append((i, None))
    if point == 'union':
        pairs += [(None, j) for j, q in enumerate(kr) if q not in kl]
    if feature == 'intersection':
        cols = [(k, o.fn.index(n)) for k, n in enumerate(m.fn) if n in shared]
    else:
        cols = [(k, o.fn.index(n) if n in shared else None) for k, n in enumerate(m.fn)]
        if feature == 'union':
            cols += [(None, k) for k, n in enumerate(o.fn) if n not in shared]
    rows, pn = [], []
    # values in conflict are refused wherever the features are shared
    for i, j in pairs:
        if i is not None and j is not None:
            for n in shared:
                a, b = m.rows[i][m.fn.index(n)], o.rows[j][o.fn.index(n)]
                if a != b and not nan(a) and not nan(b):
                    raise Refused
    for i, j in pairs:
        row = []
        for a, b in cols:
            v = m.rows[i][a] if i is not None and a is not None else float('nan')
            if nan(v) and j is not None and b is not None:
                v = o.rows[j][b]
            row.append(v)
        rows.append(row)
        pn.append(None if key is not None else m.pn[i] if i is not None else o.pn[j])
    fn = [m.fn[a] if a is not None else o.fn[b] for a, b in cols]
    return Table(rows, pn, fn)


def change(nimble, obj, m0, how, p):
    """(call, table afterwards or a function judging the object, [(result table or judge)])"""
    rng = random.Random(p['seed'])
    ax, w, refuse = p['axis'], p['w'], p['refuse']
    t = obj.getTypeString()
    A = getattr(obj, ax)
    m = m0.along(ax)
    n = len(m.pn)
    call = c15.F.call
    kw = {'useLog': False}
    back = lambda x: x.along(ax)
    total = c15.total
    if how == 'permute':
        ids, names = choose(rng, m.pn, n)
        if refuse:
            bad = names[:-1] if w % 2 else names[:-1] + ['nosuch']
            return lambda: A.permute(bad, **kw), None, []
        return lambda: A.permute(names, **kw), back(m.take(ids)), []
    if how == 'shuffle':
        return lambda: A.permute(**kw), lambda now: now.along(ax).bag() == m.bag(), []
    if how in ('sortFunc', 'sortCmp'):
        def ordered(now):
            keys = [total(r) for r in now.along(ax).rows]
            return now.along(ax).bag() == m.bag() and keys == sorted(keys, reverse=bool(w % 2))
        if how == 'sortFunc':
            return lambda: A.sort(by=lambda v: call(total(v)), reverse=w % 2 == 1, **kw), ordered, []
        return lambda: A.sort(by=lambda a, b: call((total(a) > total(b)) - (total(a) < total(b))), reverse=w % 2 == 1, **kw), ordered, []
    if how == 'sortIds':
        ids, names = choose(rng, m.fn, 1, 2 if len(m.fn) > 1 else 1)
        if any(isinstance(r[i], str) or nan(r[i]) for r in m.rows for i in ids):
            raise Skip
        if refuse:
            names = names + ['nosuch']
            return lambda: A.sort(by=names, **kw), None, []

        def sorted_(now):
            keys = [tuple(r[i] for i in ids) for r in now.along(ax).rows]
            return now.along(ax).bag() == m.bag() and keys == sorted(keys, reverse=bool(w % 2))
        return lambda: A.sort(by=names if len(names) > 1 else names[0], reverse=w % 2 == 1, **kw), sorted_, []
    if how == 'sortNames':
        if not full(m.pn):
            raise Skip
        ids = sorted(range(n), key=lambda i: m.pn[i], reverse=w % 2 == 1)
        return lambda: A.sort(reverse=w % 2 == 1, **kw), back(m.take(ids)), []
    if how in ('extract', 'delete', 'retain'):
        F = getattr(A, how)
        out = lambda x: [back(x)] if how == 'extract' else []
        if refuse:
            return lambda: F(['nosuch', 0] if w % 2 else [n + 3], **kw), None, []
        if n < 2:
            raise Skip
        if w in (0, 1):
            ids, names = choose(rng, m.pn, 1, n - 1)
            if len(ids) == 1 and w:
                names = names[0]
            f = lambda: F(names, **kw)
        elif w in (2, 3):
            keys = sorted(total(r) for r in m.rows)
            limit = keys[len(keys) // 2]
            ids = [i for i in range(n) if total(m.rows[i]) < limit]
            if not ids:
                raise Skip
            f = lambda: F(lambda v: call(total(v) < limit), **kw)
        elif w == 4:
            a = rng.randrange(n)
            b = min(rng.randrange(a, n), n - 1)
            ids = list(range(a, b + 1))
            if len(ids) == n:
                raise Skip
            f = lambda: F(start=m.pn[a] if m.pn[a] is not None and rng.random() < 0.5 else a, end=b, **kw)
        else:
            k = rng.randrange(1, n)
            if p['i'] % 2:
                def part(now, res):
                    one = now.along(ax).bag()
                    if how == 'extract':
                        two = actual(res).along(ax)
                        return sorted(one[0] + two.bag()[0]) == m.bag()[0] and len(two.pn) == k and two.fn == m.fn
                    return set(one[0]) <= set(m.bag()[0]) and len(one[0]) == (k if how == 'retain' else n - k)
                return lambda: F(number=k, randomize=True, **kw), part, ['judged']
            ids = list(range(k))
            f = lambda: F(number=k, **kw)
        keep = [i for i in range(n) if i not in ids]
        if how == 'retain':
            # in the order of the object, or of the identifiers
            return f, [back(m.take(ids)), back(m.take(sorted(ids)))], []
        return f, back(m.take(keep)), out(m.take(ids))
    if how in ('insert', 'append'):
        other, o = partner(rng, m0, ax, refuse)
        thing = build(nimble, other, t if rng.random() < 0.5 or not numeric(other) else rng.choice(TYPES))
        if w == 5:
            thing = thing.view()
        at = n if how == 'append' else p['i'] % (n + 1)
        f = (lambda: A.append(thing, **kw)) if how == 'append' else (lambda: A.insert(m.pn[at] if at < n and m.pn[at] is not None and w % 2 else at, thing, **kw))
        try:
            after = back(put(m, at, fits(m, o)))
        except Refused:
            after = None
        return f, after, []
    if how == 'transpose':
        return lambda: obj.transpose(**kw), m0.T, []
    if how == 'setNames':
        names = fresh(rng, n, ax[0], [])
        if refuse:
            if n < 2:
                raise Skip
            names = ['twice', 'twice'] + ['z%d' % k for k in range(n - 2)] if w % 2 else names + ['more']
        elif w == 1 and full(names):
            given = {x: i for i, x in enumerate(names)}
            return lambda: A.setNames(given, **kw), back(Table(m.rows, names, m.fn)), []
        elif w == 2 and some(m.pn):
            # names change places
            names = list(m.pn)
            rng.shuffle(names)
        return lambda: A.setNames(names, **kw), None if refuse else back(Table(m.rows, names, m.fn)), []
    if how == 'rename':
        ids, old = choose(rng, m.pn, 1, min(3, n))
        new = [f'r{p["seed"]}_{k}' for k in range(len(ids))]
        if refuse:
            rest = [x for i, x in enumerate(m.pn) if x is not None and i not in ids]
            if not rest:
                raise Skip
            new[0] = rest[0]
        if w == 5:
            new[0] = None
        names = list(m.pn)
        for i, x in zip(ids, new):
            names[i] = x
        one = len(ids) == 1 and w % 2
        if one and new[0] is None:
            raise Skip                                   # None clears every name
        if refuse and new[0] is None:
            raise Skip
        return lambda: A.setNames(new[0] if one else new, oldIdentifiers=old[0] if one else old, **kw), None if refuse else back(Table(m.rows, names, m.fn)), []
    if how == 'clearNames':
        if w > 1:
            raise Skip
        return lambda: A.setNames(None, **kw), back(Table(m.rows, [None] * n, m.fn)), []
    if how == 'replace':
        if refuse:
            raise Skip
        k = rng.randrange(1, n + 1)
        ids, names = choose(rng, m.pn, k, k)
        rows = [[2000 + rng.randrange(3000) for _ in m.fn] for _ in ids]
        new = list(m.rows)
        for i, r in zip(ids, rows):
            new[i] = r
        after = back(Table(new, m.pn, m.fn))
        if w % 2 and all(m.pn[i] is not None for i in ids) and k < n:
            thing = build(nimble, back(Table(rows, [m.pn[i] for i in ids], [None] * len(m.fn))), t)
            return lambda: A.replace(thing, **kw), after, []
        thing = build(nimble, back(Table(rows, [None] * k, [None] * len(m.fn))), t)
        return lambda: A.replace(thing, names, **kw), after, []
    if how == 'flat':
        order = ['point', 'feature'][w % 2]

        def roundtrip():
            obj.flatten(order, **kw)
            flat = [list(obj.features.getNames()) if some(m0.pn) or some(m0.fn) else names, list(obj.points.getNames()), [dc.cell(v) for v in obj]]
            obj.unflatten((len(m0.pn), len(m0.fn)), order, **kw)
            return flat
        P = [x if x is not None else f'_PT#{i}' for i, x in enumerate(m0.pn)]
        F = [x if x is not None else f'_FT#{i}' for i, x in enumerate(m0.fn)]
        if any(' | ' in x for x in P + F):
            raise Skip
        if order == 'point':
            names = [f'{a} | {b}' for a in P for b in F]
            cells = [v for r in m0.rows for v in r]
        else:
            names = [f'{a} | {b}' for b in F for a in P]
            cells = [r[k] for k in range(len(F)) for r in m0.rows]
        if len(P) * len(F) < 2 or len(P) < 2 or len(F) < 2:
            raise Skip
        return roundtrip, m0, [('value', [names, ['Flattened'], [dc.cell(v) for v in cells]])]
    if how == 'transform':
        if not numeric(m0):
            raise Skip
        add = w + 1
        rows = [[v + add for v in r] for r in m.rows]
        if w % 2:
            ids, names = choose(rng, m.pn, 1)
            rows = [r if i in ids else old for i, (r, old) in enumerate(zip(rows, m.rows))]
            return lambda: A.transform(lambda v: call([x + add for x in v]), **{ax: names}, **kw), back(Table(rows, m.pn, m.fn)), []
        return lambda: A.transform(lambda v: call([x + add for x in v]), **kw), back(Table(rows, m.pn, m.fn)), []
    if how == 'elements':
        ids, names = choose(rng, m.pn, 1)
        f = lambda e: call(7 if isinstance(e, str) else e if e != e else e + 1)
        g = lambda e: 7 if isinstance(e, str) else e if e != e else e + 1
        return lambda: obj.transformElements(f, **{ax: names}, **kw), back(Table([[g(v) for v in r] if i in ids else r for i, r in enumerate(m.rows)], m.pn, m.fn)), []
    if how == 'normalize':
        if not numeric(m0):
            raise Skip
        c = m0.T
        ids, names = choose(rng, c.pn, 1)
        return (lambda: obj.features.normalize(lambda v: call([x + 2 for x in v]), features=names, **kw),
                Table([[v + 2 for v in r] if i in ids else r for i, r in enumerate(c.rows)], c.pn, c.fn).T, [])
    if how == 'fill':
        ids, names = choose(rng, m.pn, 1)
        return lambda: A.fillMatching(5, lambda e: call(e != e), **{ax: names}, **kw), back(Table([[5 if nan(v) else v for v in r] if i in ids else r for i, r in enumerate(m.rows)], m.pn, m.fn)), []
    if how == 'inplace':
        if not numeric(m0) or any(nan(v) for r in m0.rows for v in r):
            raise Skip
        k = 2 + w

        def compute():
            ns = {'o': obj, 'k': k}
            exec('o += k' if p['i'] % 2 else 'o *= k', ns)      # pylint: disable=exec-used
        return compute, Table([[v + k if p['i'] % 2 else v * k for v in r] for r in m0.rows], m0.pn, m0.fn), []
    if how == 'setitem':
        i, j = p['i'] % len(m0.pn), p['j'] % len(m0.fn)
        a = m0.pn[i] if m0.pn[i] is not None and w % 2 else i
        b = m0.fn[j] if m0.fn[j] is not None and w % 3 else j
        after = m0.copy()
        after.rows[i][j] = 4444

        def assign():
            obj[a, b] = 4444
        return assign, after, []
    if how == 'rect':
        i, j = p['i'] % len(m0.pn), p['j'] % len(m0.fn)
        rows = [[6000 + x + 10 * y for x in range(len(m0.fn) - j)] for y in range(len(m0.pn) - i)]
        after = m0.copy()
        for y, r in enumerate(rows):
            after.rows[i + y][j:] = r
        thing = build(nimble, Table(rows, [None] * len(rows), [None] * len(rows[0])), t)
        return lambda: obj.replaceRectangle(thing, m0.pn[i] if m0.pn[i] is not None else i, m0.fn[j] if m0.fn[j] is not None else j, **kw), after, []
    if how == 'split':
        if not numeric(m0):
            raise Skip
        j = p['j'] % len(m0.fn)
        names = [f's{p["seed"]}a', f's{p["seed"]}b']
        if refuse:
            rest = [x for k, x in enumerate(m0.fn) if x is not None and k != j]
            if not rest:
                raise Skip
            names[0] = rest[0]
        c = m0.T
        rows = c.rows[:j] + [[v + 1 for v in c.rows[j]], [v + 2 for v in c.rows[j]]] + c.rows[j + 1:]
        return (lambda: obj.features.splitByParsing(m0.fn[j] if m0.fn[j] is not None and w % 2 else j, lambda v: call([v + 1, v + 2]), names, **kw),
                None if refuse else Table(rows, c.pn[:j] + names + c.pn[j + 1:], c.fn).T, [])
    if how in ('binary', 'integers'):
        j = p['j'] % len(m0.fn)
        col = [r[j] for r in m0.rows]
        if any(isinstance(v, str) or nan(v) for v in col) or m0.fn[j] is None:
            raise Skip
        c = m0.T
        rest = c.take([k for k in range(len(c.pn)) if k != j])
        if how == 'integers':
            def same(now):
                x = now.T
                new = x.rows[j]
                return x.take([k for k in range(len(x.pn)) if k != j]).seen() == rest.seen() and x.pn == c.pn and \
                    all((new[a] == new[b]) == (col[a] == col[b]) for a in range(len(col)) for b in range(len(col)))
            return lambda: obj.transformFeatureToIntegers(m0.fn[j] if w % 2 else j, **kw), same, []

        def binary(now):
            x = now.T
            k = len(x.pn) - len(rest.pn)
            if k != len(set(col)) or x.fn != c.fn:
                return False
            if x.take([y for y in range(len(x.pn)) if not j <= y < j + k]).seen() != rest.seen():
                return False
            for y in range(j, j + k):
                head, _, v = str(x.pn[y]).rpartition('=')
                if head != m0.fn[j] or x.rows[y] != [1 if float(v) == float(u) else 0 for u in col]:
                    return False
            return True
        return lambda: obj.replaceFeatureWithBinaryFeatures(m0.fn[j] if w % 2 else j, **kw), binary, []
    if how in ('merge', 'mergeOn'):
        if not numeric(m0):
            raise Skip
        key = None
        if how == 'mergeOn':
            j = p['j'] % len(m0.fn)
            key = m0.fn[j]
            if key is None or any(nan(r[j]) for r in m0.rows):
                raise Skip
        size = rng.randrange(1, 5)
        pn = [rng.choice([x for x in m0.pn if x is not None] or ['q']) if rng.random() < 0.5 else f'm{rng.randrange(9)}' for _ in range(size)]
        pn = [None if x in pn[:k] else x for k, x in enumerate(pn)]
        if rng.random() < 0.8:
            pn = [x if x is not None else f'mm{k}_{p["seed"]}' for k, x in enumerate(pn)]
        cols = [key] if key is not None else []
        cols += [x for x in rng.sample(m0.fn, rng.randrange(len(m0.fn) + 1)) if x is not None and x != key and rng.random() < 0.5]
        cols += [f'c{k}_{p["seed"]}' for k in range(rng.randrange(0 if cols else 1, 3))]
        if w == 4:
            cols += [None]
        rng.shuffle(cols)
        rows = []
        for k in range(size):
            row = []
            match = None
            if key is None and pn[k] in m0.pn and pn[k] is not None:
                match = m0.pn.index(pn[k])
            elif key is not None:
                match = rng.randrange(len(m0.pn)) if rng.random() < 0.6 else None
            for x in cols:
                v = rng.choice([0, 0, 3000 + rng.randrange(1000), float('nan')])
                if key is not None and x == key:
                    v = m0.rows[match][m0.fn.index(key)] if match is not None else rng.choice([0, 5555, 5556, 5557])
                elif x is not None and x in m0.fn and match is not None:
                    v = m0.rows[match][m0.fn.index(x)] if rng.random() < (0.5 if refuse else 0.95) else float('nan') if rng.random() < 0.7 else v
                row.append(v)
            rows.append(row)
        o = Table(rows, pn, cols)
        thing = build(nimble, o, t if rng.random() < 0.5 else rng.choice(TYPES))
        if w == 5:
            thing = thing.view()
        point = rng.choice(['union', 'intersection', 'left'])
        feature = rng.choice(['union', 'intersection', 'left'])
        try:
            after = join(m0, o, point, feature, key)
        except Refused:
            after = None
        f = lambda: obj.merge(thing, point=point, feature=feature, onFeature=key, **kw)
        if after is not None and not after.pn:
            raise Skip
        if after is not None and not after.fn:
            raise Skip
        if key is not None and after is not None:
            # in the order of the key, or of the points
            return f, lambda now: now.bag() == after.bag(), []
        return f, after, []
    if how == 'strict':
        if not numeric(m0):
            raise Skip
        force = w % 2 == 1
        side = 'pn' if ax == 'points' else 'fn'
        names = list(getattr(m0, side))
        r = rng.random()
        if full(names) and r < 0.6:
            rng.shuffle(names)
        elif r < 0.8:
            names = [None] * len(names)
        else:
            names = [x if rng.random() < 0.5 else None for x in names]
        if refuse:
            if w % 3 == 0:
                names = names[:-1]
            elif full(names):
                names[rng.randrange(len(names))] = 'nosuch'
            if not names:
                raise Skip
        if ax == 'points':
            pn, cols = names, [x for x in m0.fn if x is not None and rng.random() < 0.4] + [f'c{k}_{p["seed"]}' for k in range(rng.randrange(1, 3))]
            rng.shuffle(cols)
        else:
            pn, cols = [x for x in m0.pn if x is not None and rng.random() < 0.5] + [f'm{k}_{p["seed"]}' for k in range(rng.randrange(1, 3))], names
            rng.shuffle(pn)
        positions = force and not (full(names) and full(getattr(m0, side)))
        rows = []
        for y, a in enumerate(pn):
            i = y if positions and ax == 'points' else m0.pn.index(a) if a is not None and a in m0.pn else None
            row = []
            for x, b in enumerate(cols):
                k = x if positions and ax == 'features' else m0.fn.index(b) if b is not None and b in m0.fn else None
                v = 3000 + rng.randrange(1000)
                if i is not None and k is not None and i < len(m0.pn) and k < len(m0.fn):
                    v = m0.rows[i][k] if rng.random() < 0.9 else float('nan')
                row.append(v)
            rows.append(row)
        o = Table(rows, pn, cols)
        thing = build(nimble, o, t if rng.random() < 0.5 else rng.choice(TYPES))
        if w == 5:
            thing = thing.view()
        other = rng.choice(['union', 'intersection', 'left'])
        point, feature = ('strict', other) if ax == 'points' else (other, 'strict')
        try:
            after = strict(m0, o, point, feature, force)
        except Refused:
            after = None
        if after is not None and (not after.pn or not after.fn):
            raise Skip
        return lambda: obj.merge(thing, point=point, feature=feature, force=force, **kw), after, []
    if how == 'collapse':
        if len(m0.fn) < 2 or len(m0.pn) * len(m0.fn) > 60:
            raise Skip
        ids, names = choose(rng, m0.fn, 1, len(m0.fn) - 1)
        if some([m0.fn[i] for i in ids]) and not full([m0.fn[i] for i in ids]):
            raise Skip                                   # indices among names may be text
        if t == 'Sparse' and some([m0.fn[i] for i in ids]):
            raise Skip
        new = [f'k{p["seed"]}', f'v{p["seed"]}']
        keep = [i for i in range(len(m0.fn)) if i not in ids]
        if refuse:
            taken = [m0.fn[i] for i in keep if m0.fn[i] is not None]
            if not taken:
                raise Skip
            new[w % 2] = taken[0]
        rows = [[r[i] for i in keep] + [m0.fn[k] if m0.fn[k] is not None else k, r[k]] for r in m0.rows for k in ids]
        pn = [None if x is None else f'{x}_{c}' for x in m0.pn for c in range(len(ids))]
        if refuse:
            after = None
        elif len({x for x in pn if x is not None}) != len([x for x in pn if x is not None]):
            after = None
        else:
            after = Table(rows, pn, [m0.fn[i] for i in keep] + new)
        return lambda: obj.points.splitByCollapsingFeatures(names, new[0], new[1], **kw), after, []
    if how == 'expand':
        Q = len(m0.fn)
        if Q < 3:
            raise Skip
        # after a collapse the last two features are the ones to expand
        j = Q - 2 if w < 4 else p['j'] % Q
        rest = [k for k in range(Q) if k != j]
        vals = [Q - 1] if w < 4 else rng.sample(rest, rng.randrange(1, 3))
        kept = [k for k in rest if k not in vals]
        if not kept or any(nan(r[k]) for r in m0.rows for k in kept + [j]):
            raise Skip
        groups, order, heads = {}, [], []
        clash = False
        for i, r in enumerate(m0.rows):
            key = tuple(r[k] for k in kept)
            if key not in groups:
                groups[key] = {}
                order.append((key, m0.pn[i]))
            clash = clash or r[j] in groups[key]
            groups[key][r[j]] = [r[k] for k in vals]
            if r[j] not in heads:
                heads.append(r[j])
        show = lambda v: v if isinstance(v, str) else float(v)
        tails = [m0.fn[k] if m0.fn[k] is not None else str(k) for k in vals]
        keptNames = [m0.fn[k] for k in kept]
        single = len(vals) == 1

        def expanded(now):
            # what was kept stays in order, what is new is one feature for each name and value
            c = now.T
            at = [k for k, x in enumerate(c.pn) if x in keptNames] if full(keptNames) else None
            new = len(heads) * len(vals)
            if len(c.pn) != len(kept) + new or now.pn != [x for _, x in order]:
                return False
            if at is None:
                first = len([k for k in kept if k < j])
                options = [[k for k in range(len(c.pn)) if not a <= k < a + new] for a in {first, min(j, len(kept))}]
            else:
                options = [at]
            for at in options:
                rest = [k for k in range(len(c.pn)) if k not in at]
                if [c.pn[k] for k in at] != keptNames or len(at) != len(kept):
                    continue
                if [[dc.cell(c.rows[k][i]) for k in at] for i in range(len(order))] != [[dc.cell(v) for v in key] for key, _ in order]:
                    continue
                good = True
                for n_, k in enumerate(rest):
                    head, v = heads[n_ // len(vals)], n_ % len(vals)
                    name = str(c.pn[k])
                    if not single:
                        if not name.endswith('_' + tails[v]):
                            good = False
                            break
                        name = name[:-len(tails[v]) - 1]
                    if name != head if isinstance(head, str) else float(name) != float(head):
                        good = False
                        break
                    if [dc.cell(x) for x in c.rows[k]] != [dc.cell(groups[key][head][v] if head in groups[key] else float('nan')) for key, _ in order]:
                        good = False
                        break
                if good:
                    return True
            return False
        one = lambda k: m0.fn[k] if m0.fn[k] is not None and p['i'] % 2 else k
        if any(isinstance(h, str) and h in keptNames for h in heads):
            raise Skip
        ids = [one(k) for k in vals]
        return lambda: obj.points.combineByExpandingFeatures(one(j), ids[0] if single and p['i'] % 3 else ids, **kw), None if clash else expanded, []
    raise KeyError(how)


def strict(m, o, point, feature, force):
    """The documented strict merge: one axis is the same in both tables."""
    side = 'pn' if point == 'strict' else 'fn'
    L, R = getattr(m, side), getattr(o, side)
    if len(L) != len(R):
        raise Refused
    how = dict(point='intersection' if point == 'strict' else point, feature='intersection' if feature == 'strict' else feature, key=None)
    if full(L) and full(R):
        if sorted(L) != sorted(R):
            raise Refused
        return join(m, o, **how)
    if not force:
        raise Refused
    if any(a is not None and b is not None and a != b for a, b in zip(L, R)):
        raise Skip
    end = [a if a is not None else b for a, b in zip(L, R)]
    if len({x for x in end if x is not None}) != len([x for x in end if x is not None]):
        raise Skip
    m, o = m.copy(), o.copy()
    setattr(m, side, [f'same {k}' for k in range(len(L))])
    setattr(o, side, [f'same {k}' for k in range(len(L))])
    out = join(m, o, **how)
    setattr(out, side, [end[int(x.split()[1])] for x in getattr(out, side)])
    return out


def derive(nimble, obj, m0, how, p, root, alltypes):
    """(call giving a list, [expected table, judge or ('value', value)] of the members of the list)"""
    rng = random.Random(p['seed'])
    ax, w, refuse = p['axis'], p['w'], p['refuse']
    t = obj.getTypeString()
    A = getattr(obj, ax)
    m = m0.along(ax)
    n = len(m.pn)
    P, Q = len(m0.pn), len(m0.fn)
    call, total = c15.F.call, c15.total
    kw = {'useLog': False}
    back = lambda x: x.along(ax)
    types = TYPES if numeric(m0) else TYPES[:3]
    if how == 'copy':
        return (lambda: [obj.copy()]) if w else (lambda: [copy.deepcopy(obj)]), [m0]
    if how == 'copyIds':
        if refuse:
            return lambda: [A.copy([0, 'nosuch'], useLog=False)], None
        if w == 4:
            a = rng.randrange(n)
            b = rng.randrange(a, n)
            return lambda: [A.copy(start=a, end=m.pn[b] if m.pn[b] is not None else b, useLog=False)], [back(m.take(range(a, b + 1)))]
        ids, names = choose(rng, m.pn)
        return lambda: [A.copy(names, useLog=False)], [back(m.take(ids))]
    if how == 'copyFunc':
        keys = sorted(total(r) for r in m.rows)
        limit = keys[len(keys) // 2]
        return lambda: [A.copy(lambda v: call(total(v) <= limit), useLog=False)], [back(m.take([i for i in range(n) if total(m.rows[i]) <= limit]))]
    if how == 'query':
        j = p['j'] % len(m.fn)
        name = m.fn[j]
        if name is None or P * Q == 1 or len(m.rows[0]) == 1 or (ax == 'features' and P == 1) or not name.isalnum() or any(isinstance(r[j], str) for r in m.rows):
            raise Skip
        keys = sorted(r[j] for r in m.rows if not nan(r[j]))
        if not keys:
            raise Skip
        limit = keys[len(keys) // 2]
        return lambda: [A.copy(f'{name} <= {limit}', useLog=False)], [back(m.take([i for i in range(n) if m.rows[i][j] <= limit]))]
    if how == 'T':
        return lambda: [obj.T], [m0.T]
    if how == 'view':
        a, c = rng.randrange(P), rng.randrange(Q)
        b, d = rng.randrange(a, P), rng.randrange(c, Q)
        name = lambda names, i: names[i] if names[i] is not None and rng.random() < 0.5 else i
        args = [name(m0.pn, a), name(m0.pn, b), name(m0.fn, c), name(m0.fn, d)]
        out = m0.take(range(a, b + 1)).T.take(range(c, d + 1)).T
        if w == 1:
            return lambda: [obj.pointView(args[0])], [m0.take([a])]
        if w == 2:
            return lambda: [obj.featureView(args[2])], [m0.T.take([c]).T]
        return lambda: [obj.view(*args)], [out]
    if how == 'axisView':
        a = rng.randrange(n)
        b = rng.randrange(a, n)
        return lambda: [obj.view(a, b) if ax == 'points' else obj.view(None, None, a, b)], [back(m.take(range(a, b + 1)))]
    if how == 'slice':
        ids, names = choose(rng, m0.pn)
        jds, fnames = choose(rng, m0.fn)
        if w == 0:
            return lambda: [obj[names, fnames]], [m0.take(ids).T.take(jds).T]
        if w == 1:
            return lambda: [obj[names[0], :]], [m0.take(ids[:1])]
        if w == 2:
            return lambda: [obj[:, fnames[0]]], [m0.T.take(jds[:1]).T]
        if w == 3:
            a, b = sorted([ids[0], rng.randrange(P)])
            c, d = sorted([jds[0], rng.randrange(Q)])
            # slices include the end
            start, end = (m0.pn[a], m0.pn[b]) if m0.pn[a] is not None and m0.pn[b] is not None else (a, b)
            return lambda: [obj[start:end, c:d]], [m0.take(range(a, b + 1)).T.take(range(c, d + 1)).T]
        return lambda: [getattr(obj, ax)[names if ax == 'points' else fnames]], [m0.take(ids) if ax == 'points' else m0.T.take(jds).T]
    if how == 'convert':
        return lambda: [obj.copy(types[w % len(types)])], [m0]
    if how == 'rawOut':
        if w in (0, 1):
            def frame():
                d = obj.copy('pandas dataframe')
                return [[[x for x in d.columns], [x for x in d.index], [[dc.cell(v) for v in r] for r in d.itertuples(index=False, name=None)]]]
            if not (full(m0.pn) and full(m0.fn)):
                raise Skip
            return frame, [('value', [m0.fn, m0.pn, m0.seen()['rows']])]
        if w in (2, 3):
            if not full(m0.fn):
                raise Skip
            return lambda: [sorted([k, [dc.cell(v) for v in x]] for k, x in obj.copy('dict of list').items())], [('value', sorted([k, [dc.cell(r[i]) for r in m0.rows]] for i, k in enumerate(m0.fn)))]
        if not full(m0.fn):
            raise Skip
        return lambda: [[sorted((k, dc.cell(v)) for k, v in d.items()) for d in obj.copy('list of dict')]], [('value', [sorted((k, dc.cell(v)) for k, v in zip(m0.fn, r)) for r in m0.rows])]
    if how == 'file':
        if not (full(m0.pn) and full(m0.fn)) or any(x.strip() != x for x in m0.pn + m0.fn) or not numeric(m0):
            raise Skip
        where = os.path.join(root, 'x.csv' if w % 2 else 'x.pickle')

        def trip():
            obj.save(where)
            return [nimble.data(where, returnType=t, useLog=False, **({'pointNames': True, 'featureNames': True} if w % 2 else {}))]
        return trip, [m0]
    if how == 'pickle':
        return lambda: [pickle.loads(pickle.dumps(obj))], [m0]
    if how == 'fromRaw':
        if not (full(m0.pn) and full(m0.fn)):
            raise Skip
        if w % 3 == 0:
            return lambda: [nimble.data(obj.copy('pandas dataframe'), returnType=types[p['i'] % len(types)], pointNames=True, featureNames=True, useLog=False)], [m0]
        if w % 3 == 1:
            if not numeric(m0):
                raise Skip
            return lambda: [nimble.data(obj.copy('dict of list'), returnType=types[p['i'] % len(types)], rowsArePoints=False, useLog=False)], [Table(m0.rows, [None] * P, m0.fn)]
        return lambda: [nimble.data(obj, returnType=types[p['i'] % len(types)], useLog=False)], [m0]
    if how == 'fromRows':
        ids, names = choose(rng, m0.pn)
        return lambda: [nimble.data([obj.points[x] if k % 2 else obj.pointView(x) for k, x in enumerate(names)], useLog=False)], [lambda x: x.rows == [] or [[dc.cell(v) for v in r] for r in x.rows] == m0.take(ids).seen()['rows'] and (not full(m0.fn) or x.fn == m0.fn)]
    if how == 'repeat':
        k = 11 if p['j'] < 3 else 2 + w % 2
        by = p['i'] % 2 == 0
        order = [(i, c) for i in range(n) for c in range(k)] if by else [(i, c) for c in range(k) for i in range(n)]
        names = [None if m.pn[i] is None else f'{m.pn[i]}_{c + 1}' for i, c in order]
        if len({x for x in names if x}) != len([x for x in names if x]):
            raise Skip
        return lambda: [A.repeat(k, by, useLog=False)], [back(Table([m.rows[i] for i, c in order], names, m.fn))]
    if how == 'group':
        j = Q - 1 if p['j'] % 2 else p['j'] % Q
        col = [r[j] for r in m0.rows]
        if Q < 2 or any(isinstance(v, str) or nan(v) for v in col):
            raise Skip
        keys = sorted(set(col))

        def groups():
            got = obj.groupByFeature(m0.fn[j] if m0.fn[j] is not None and w % 2 else j, **kw)
            if sorted(got) != keys:
                raise AssertionError(f'groups {sorted(got)}')
            return [got[k] for k in keys]
        rest = m0.T.take([k for k in range(Q) if k != j]).T
        return groups, [rest.take([i for i in range(P) if col[i] == k]) for k in keys]
    if how == 'sets':
        if P < 2:
            raise Skip
        if w < 3:
            def both(x):
                return sorted(x[0].bag()[0] + x[1].bag()[0]) == m0.bag()[0] and x[0].fn == x[1].fn == m0.fn
            return lambda: list(obj.trainAndTestSets(0.5, randomOrder=w > 0, **kw)), [('all', both)]
        if Q < 2:
            raise Skip
        j = p['j'] % Q
        one, two = m0.T.take([k for k in range(Q) if k != j]).T, m0.T.take([j]).T

        def four(x):
            ok = sorted(x[0].bag()[0] + x[2].bag()[0]) == one.bag()[0] and sorted(x[1].bag()[0] + x[3].bag()[0]) == two.bag()[0]
            # points and labels in the same order
            for a, b in ((x[0], x[1]), (x[2], x[3])):
                ok = ok and a.pn == b.pn and a.fn == one.fn and b.fn == two.fn
                whole = [(n_, repr([dc.cell(v) for v in r]), dc.cell(v)) for n_, r, (v,) in zip(one.pn, one.rows, two.rows)]
                ok = ok and all((n_, repr([dc.cell(v) for v in r]), dc.cell(y[0])) in whole for n_, r, y in zip(a.pn, a.rows, b.rows))
            return ok
        return lambda: list(obj.trainAndTestSets(0.5, labels=m0.fn[j] if m0.fn[j] is not None else j, randomOrder=w > 3, **kw)), [('all', four)]
    if how == 'unique':
        first, have = [], []
        for i, r in enumerate(m.rows):
            key = repr([dc.cell(v) for v in r])
            if key not in have:
                have.append(key)
                first.append(i)
        if any(nan(v) for r in m.rows for v in r):
            raise Skip
        want = back(m.take(first))
        return lambda: [A.unique()], [lambda x: x.along(ax).bag() == want.along(ax).bag()]
    if how == 'calc':
        want = Table([[total(r)] for r in m.rows], m.pn, [None])
        return lambda: [A.calculate(lambda v: call(total(v)), **kw)], [lambda x: x.along(ax).pn == want.pn and [r[0] for r in x.along(ax).rows] == [r[0] for r in want.rows]]
    if how == 'calcElements':
        if not numeric(m0):
            raise Skip
        # the elements are new, and so are their points and features
        return lambda: [obj.calculateOnElements(lambda v: call(v + 3), useLog=False)], [Table([[v + 3 for v in r] for r in m0.rows], [None] * P, [None] * Q)]
    if how == 'stats':
        if not numeric(m0) or any(nan(v) for r in m0.rows for v in r):
            raise Skip
        return lambda: [A.max() if w % 2 else A.sum()], [lambda x: x.along(ax).pn == m.pn and all(abs(r[0] - (max(o) if w % 2 else sum(o))) < 1e-6 for r, o in zip(x.along(ax).rows, m.rows))]
    if how == 'matching':
        if w % 2:
            return lambda: [obj.matchingElements(lambda e: call(e == 0), useLog=False)], [Table([[v == 0 for v in r] for r in m0.rows], m0.pn, m0.fn)]
        return lambda: [A.matching(lambda v: call(total(v) > 20), useLog=False)], [lambda x: x.along(ax).pn == m.pn and [bool(r[0]) for r in x.along(ax).rows] == [total(r) > 20 for r in m.rows]]
    if how == 'iterate':
        def loop():
            return [[[v.points.getNames()[0] if ax == 'points' else v.features.getNames()[0], list(v.features.getNames() if ax == 'points' else v.points.getNames()), [dc.cell(e) for e in v]] for v in A]]
        return loop, [('value', [[m.pn[i], m.fn, [dc.cell(v) for v in m.rows[i]]] for i in range(n)])]
    if how == 'scalar':
        if not numeric(m0):
            raise Skip
        if any(nan(v) for r in m0.rows for v in r):
            raise Skip
        return lambda: [obj + 2 if w % 2 else 2 * obj], [Table([[v + 2 if w % 2 else v * 2 for v in r] for r in m0.rows], m0.pn, m0.fn)]
    if how == 'pair':
        if not numeric(m0) or any(nan(v) for r in m0.rows for v in r):
            raise Skip
        bare = Table(m0.rows, m0.pn if w % 2 else [None] * P, m0.fn if w % 3 else [None] * Q)
        thing = build(nimble, bare, t if w < 3 else types[p['i'] % len(types)])
        return (lambda: [obj + thing]) if p['j'] % 2 else (lambda: [thing + obj]), [Table([[v + v for v in r] for r in m0.rows], m0.pn, m0.fn)]
    raise KeyError(how)


# ------------------------------------------------------- inside the session
def attempt(func, fault):
    c15.F.arm(None, None)
    if fault and 'k' in fault:
        c15.F.arm(fault['k'], fault['kind'])
    try:
        if fault and 'line' in fault:
            out = c15.attempt(lambda: interrupted(func, {}, {'where': '/nimble/', 'k': fault['line']})[0])
        else:
            out = c15.attempt(func)
    except SimInterrupt:
        out = 'siminterrupt', None
    fired = c15.F.fired or out[0] == 'siminterrupt' or bool(fault and 'line' in fault and out[0] == 'interrupt')
    c15.F.arm(None, None)
    return out[0], out[1], bool(fired)


def op_make(nimble, state, spec, root):
    rows = [[float('nan') if v == 'nan' else v for v in r] for r in spec['rows']]
    table = Table(rows, spec['pn'] or [None] * len(rows), spec['fn'] or [None] * len(rows[0]))
    state['root'] = root
    state['members'] = [{'obj': build(nimble, table, spec['type']), 'table': table, 'how': 'made', 'source': None}]


def matches(want, obj):
    """What is wrong with an object that should hold a table."""
    now, model = observe(obj), want.seen()
    for key in ('pn', 'fn', 'rows'):
        if now[key] != model[key]:
            return f'{ {"pn": "point names", "fn": "feature names", "rows": "values"}[key]} {str(now[key])[:220]}, expected {str(model[key])[:220]}'
    return None


def holds(want, obj):
    """Judge an object by a table, several tables or a function; gives (problem, table)."""
    if callable(want):
        now = actual(obj)
        return (None if want(now) else f'unexpected {str(now.seen())[:500]}'), now
    if isinstance(want, list):
        for x in want:
            if not matches(x, obj):
                return None, x
        return matches(want[0], obj), want[0]
    return matches(want, obj), want


def op_step(nimble, state, todo):
    kind, who, how, p, fault = todo
    members = state['members']
    m = members[who % len(members)]
    obj, table = m['obj'], m['table']
    isview = hasattr(obj, '_source')
    if kind == 'change' and isview:
        return None
    bad, after, wanted = [], None, []
    try:
        if kind == 'change':
            func, after, wanted = change(nimble, obj, table, how, p)
        else:
            func, wanted = derive(nimble, obj, table, how, p, state['root'], None)
    except Skip:
        return None
    must = after is None if kind == 'change' else wanted is None
    out, val, fired = attempt(func, fault)
    if fired:
        pass
    elif must and out == 'ok':
        bad.append(['accepted', 'was to be refused'])
    elif not must and out != 'ok':
        bad.append(['refused', f'was to succeed on {str(table.seen())[:400]}'])
    new = []
    if out == 'ok' and not bad:
        try:
            if kind == 'change':
                if wanted == ['judged']:
                    now = actual(obj)
                    if not after(now, val):
                        bad.append(['judged', f'{str(table.seen())[:300]} -> {str(now.seen())[:300]} and {val and str(actual(val).seen())[:300]}'])
                    m['table'] = now
                    if val is not None:
                        new = [(val, actual(val))]
                    wanted = []
                else:
                    problem, m['table'] = holds(after, obj)
                    if problem:
                        bad.append(['object', problem + f' from {str(table.seen())[:300]}'])
                got = [val] if wanted else []
            else:
                got = val
            if len(wanted) == 1 and isinstance(wanted[0], tuple) and wanted[0][0] == 'all':
                now = [actual(x) for x in got]
                if not wanted[0][1](now):
                    bad.append(['result', f'{str([x.seen() for x in now])[:500]} from {str(table.seen())[:300]}'])
                new = list(zip(got, now))
            else:
                if len(got) != len(wanted):
                    bad.append(['result', f'{len(got)} results, expected {len(wanted)}'])
                for x, want in zip(got, wanted):
                    if isinstance(want, tuple):
                        if x != want[1]:
                            bad.append(['result', f'{str(x)[:300]}, expected {str(want[1])[:300]}'])
                        continue
                    problem, t = holds(want, x)
                    if problem:
                        bad.append(['result', problem + f' from {str(table.seen())[:300]}'])
                    new.append((x, t))
        except Exception as e:                           # pylint: disable=broad-except
            if isinstance(e, (NameError, ImportError)):
                raise
            bad.append(['unusable', f'{type(e).__name__}: {e}'])
    if kind == 'change' and (out == 'ok' or fired):
        # what looks at it is no longer judged
        gone = [m]
        for x in members:
            if any(x['source'] is g for g in gone):
                gone.append(x)
        members[:] = [x for x in members if x is m or not any(x is g for g in gone)]
    if not bad:
        for x, t in new[:3]:
            if how != 'matching' and hasattr(x, 'points') and len(x.points) and len(x.features) and not any(y['obj'] is x for y in members):
                members.append({'obj': x, 'table': t, 'how': how, 'source': m if hasattr(x, '_source') else None})
        for x in members:
            try:
                problem = matches(x['table'], x['obj']) or lookups(x['obj'])
            except Exception as e:                       # pylint: disable=broad-except
                problem = f'{type(e).__name__}: {e}'
            if problem:
                same = 'object' if x is m else 'other'
                bad.append([same if out == 'ok' else same + '-after-failure', f'{x["how"]} {problem}'])
    empty = [x for x in members if not (len(x['obj'].points) and len(x['obj'].features))]
    while len(members) > 6:
        empty.append(members[1])
        members.pop(1)
    gone = list(empty)
    for x in members:
        if any(x['source'] is g for g in gone):
            gone.append(x)
    members[:] = [x for x in members if not any(x is g for g in gone)]
    state_ = lambda names: 'all' if full(names) else 'some' if some(names) else 'none'
    typ = type(obj).__name__
    if not members:
        return [out[:60], fired, bad, typ, how, state_(table.pn), state_(table.fn), True]
    return [out[:60], fired, bad, typ, how, state_(table.pn), state_(table.fn), False]


OPS = {'make': op_make, 'step': op_step}


def run(case, ctx, res):
    root = ctx.fresh()
    res.nontrivial = False
    sess = Session(root, OPS, clock=(1.6e9, 0), rand=1, fresh=False)
    try:
        r = sess.start(armed=False)
        if not r.ok:
            raise RuntimeError(str(r['exc']))
        r = sess.call('make', _armed=False, spec=case['spec'], root=root)
        if not r.ok:
            res.violate('call-failed', f'making the table: {r["exc"]["type"]}: {r["exc"]["msg"]}')
            return
        failed = False
        for i, s in enumerate(case['ops']):
            r = sess.call('step', _armed=False, todo=s)
            if not r.ok:
                res.violate('call-failed', f'step {i} {s}: {r["exc"]["type"]}: {r["exc"]["msg"]}')
                return
            if r.value is None:
                continue
            out, fired, bad, typ, how, pn, fn, done = r.value
            fault = s[4]
            res.steps += 1
            res.nontrivial = res.nontrivial or failed
            if fired:
                res.faults['interrupt at a library line' if 'line' in fault else 'user function ' + fault['kind']] += 1
            elif out != 'ok':
                res.faults['refused operation'] += 1
            failed = failed or out != 'ok'
            head = f'step {i} {s[0]} {how} {s[3]} fault={fault} on a {typ} -> {out}'
            res.states.add(f'{how}/{s[3]["axis"]}/{typ}/{pn}/{fn}/{fired}/{out[:12]}')
            res.note(head)
            for sig, text in bad:
                res.violate(f'{how}-{sig}'[:60], f'{head}: {text}')
            if res.violations or done:
                return
    finally:
        sess.kill()
