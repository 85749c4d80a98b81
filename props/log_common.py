"""Shared pieces of the log simulations (C03, C05, C06)."""
import ast
import os
import shutil
import sqlite3

LOGDIR = 'logs-nimble'
LOGDB = 'log-nimble.db'


def payload(rng, marker):
    r = rng.random()
    if r < 0.3:
        return f'{marker} ' + rng.choice(['plain', "it's \"quoted\"", 'two\nlines', 'ünïcode ✓', '%d %s ? :x', 'a; DROP TABLE logger;--',
                                          '[not, a list', 'nul?\\0', ''])
    if r < 0.5:
        return {'marker': marker, 'value': rng.choice([1, 2.5, None, True, 'x', [1, 2], {'k': 'v'}])}
    if r < 0.65:
        return [marker, 1, 'two', None]
    if r < 0.9:
        return marker + 'x' * rng.choice([10, 900, 4000, 9000])
    return marker + 'y' * rng.choice([30000, 120000])


def read_rows(dbpath, scratch):
    """(rows, None) as a later session would see them, or (None, problem).
    Reads a copy, so that recovering from a crash is not done for the library."""
    d = os.path.join(scratch, 'dbcopy')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    base = os.path.basename(dbpath)
    src = os.path.dirname(dbpath)
    if not os.path.exists(dbpath):
        return [], None
    for f in os.listdir(src):
        if f.startswith(base):
            shutil.copyfile(os.path.join(src, f), os.path.join(d, f))
    try:
        c = sqlite3.connect(os.path.join(d, base))
        try:
            ok = c.execute('pragma integrity_check').fetchone()[0]
            if ok != 'ok':
                return None, f'integrity check: {ok}'
            t = c.execute("select name from sqlite_master where type='table' and name='logger'").fetchone()
            if t is None:
                return [], None
            rows = c.execute('select entry, timestamp, sessionNumber, logType, logInfo from logger order by entry').fetchall()
            return rows, None
        finally:
            c.close()
    except sqlite3.Error as e:
        return None, f'{type(e).__name__}: {e}'


def op_log(nimble, state, heading, info):
    nimble.log(heading, info)


def op_data(nimble, state, marker):
    state.setdefault('objs', {})[marker] = nimble.data([[3, 1], [2, 2], [1, 3]], name=marker, useLog=True)


def op_prep(nimble, state, marker):
    o = nimble.data([[3, 1], [2, 2], [1, 3]], name=marker, useLog=False)
    o.points.sort(by=0, useLog=True)
    state.setdefault('objs', {})[marker] = o


def op_seed(nimble, state, seed):
    nimble.random.setSeed(seed, useLog=True)


def op_show(nimble, state, **kw):
    nimble.showLog(**kw)


def op_exit(nimble, state):
    import atexit
    atexit._run_exitfuncs()


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith('op_')}


def expect(op, args):
    """(logType, exact stored info or None, text that must occur in it)."""
    if op == 'log':
        return 'User - ' + args['heading'], repr(args['info']), None
    if op == 'data':
        return 'load', None, repr(args['marker'])
    if op == 'prep':
        return 'prep', None, repr(args['marker'])
    if op == 'seed':
        return 'setSeed', None, f"'seed': {args['seed']}"
    raise KeyError(op)


def matches(row, exp):
    _, _, _, typ, info = row
    if typ != exp[0]:
        return False
    if exp[1] is not None:
        return info == exp[1]
    if exp[2] not in info:
        return False
    try:
        return isinstance(ast.literal_eval(info), dict)
    except (ValueError, SyntaxError):
        return False


def gen_op(rng, n):
    marker = f'mk{n}q'
    r = rng.random()
    if r < 0.62:
        return 'log', {'heading': rng.choice(['note', 'h', 'Result ' + str(n), "it's", 'x' * 50]), 'info': payload(rng, marker)}
    if r < 0.8:
        return 'data', {'marker': marker}
    if r < 0.93:
        return 'prep', {'marker': marker}
    return 'seed', {'seed': 100000 + n}
