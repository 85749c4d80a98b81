"""C10: loading from files and streams is exact or fails; open sources stay usable."""
import errno
import gzip
import io
import os
import random
import tarfile
import zipfile

from sim.session import Session
from . import data_common as dc

IN_PROCESS = True
LEVEL = 'fault_enumeration'
BUDGET = {'quick': {'seeds': 900, 'wall': 150, 'min': 50},
          'thorough': {'seeds': 40000, 'wall': 3000, 'min': 200}}
RULE = ('A seed draws content (csv, mtx, hdf5, pickled object, with names or not), a container (none, gzip, zip, stored zip, tar, tar.gz), a way to '
        'give it (path, open text or binary file, unbuffered file, memory stream, user-written stream; possibly positioned after other content) and '
        'loads it: without faults, with reads split or failing at sampled points, with the stream failing at a sampled call, with the bytes cut off '
        'at sampled lengths or changed, and interrupted at sampled lines. Non-trivial: a fault fired, or the load succeeded from a container or stream.')
STATES = '(format, container, way, fault kind, outcome)'
REAL = ['nimble.data for files and streams', 'gzip, zipfile, tarfile, csv, scipy.io, h5py, pickle readers', 'kernel file system']
STUBS = ['read errors and short reads at the C library boundary', 'failing user-written streams', 'damaged and truncated files', 'interrupts at chosen lines of the library']
ASSUMPTIONS = ['a change of bytes is required to be noticed in gzip and zip files, which carry checksums of their content',
               'cutting off is required to be noticed in compressed, archived, hdf5 and pickle sources (a shorter csv or mtx text is also a valid text), from the length on at which the kind of the source can be told']
ERRNOS = [errno.EIO, errno.ESTALE]


def gen(rng):
    fmt = rng.choice(['csv', 'csv', 'csv', 'mtx', 'mtxc', 'hdf5', 'pickle'])
    kinds = ('int', 'float', 'nan', 'text', 'mixed') if fmt in ('csv', 'pickle') else ('int', 'float', 'nan')
    s = dc.spec(rng, kinds=kinds, maxp=rng.choice([3, 6, 40]), maxf=4, plain=True)
    if fmt == 'pickle' and s['type'] == 'Sparse':
        s['type'] = 'Matrix'
    cont = rng.choice(['none', 'none', 'gz', 'zip', 'zips', 'tar', 'targz'])
    via = rng.choice(['path', 'path', 'bin', 'raw', 'bytesio', 'user'] + (['text', 'text', 'stringio', 'usertext'] if cont == 'none' and fmt in ('csv', 'mtx', 'mtxc') else []))
    case = {'fmt': fmt, 'spec': s, 'cont': cont, 'via': via, 'skip': rng.choice([0, 0, 0, 7, 5000]) if via != 'path' else 0, 'fault': None,
            'ret': rng.choice([None, 'List', 'Matrix', 'DataFrame', s['type']]), 'ext': rng.random() < 0.6, 'sep': rng.choice([',', ',', ';', '\t']),
            'comments': rng.choice([0, 0, 1, 2]), 'chunk': rng.choice([0, 0, 1, 3, 1000]), 'bad': rng.random() < 0.08, 'eol': rng.random() < 0.8}
    if len(s['rows']) == 1 or fmt == 'pickle':
        case['bad'] = False
    if fmt == 'csv' and len(s['kinds']) == 1:
        case['sep'] = ','
    return case


def explore(rng, ctx):
    case = gen(rng)
    base = ctx.execute(case)
    n = len(base.blob)
    todo = []
    if case['via'] in ('path', 'bin', 'raw', 'text') and base.events:
        for _ in range(3):
            kind = rng.choice(['errno', 'errno', 'short', 'short', 'sticky'])
            todo.append({'plan': [[rng.randrange(base.events), kind, rng.choice(ERRNOS)]]})
        todo.append({'plan': [[k, 'short', 0] for k in range(0, base.events, 2)]})
    if case['via'] in ('user', 'usertext') and base.calls:
        for _ in range(3):
            todo.append({'stream': rng.randrange(base.calls), 'exc': rng.choice(['OSError', 'ValueError', 'KeyboardInterrupt'])})
    if case['cont'] != 'none' or case['fmt'] in ('hdf5', 'pickle'):
        least = {'gz': 2, 'targz': 2, 'zip': 6, 'zips': 6, 'tar': 14}.get(case['cont'], 8)
        cuts = {rng.randrange(n) for _ in range(4)} | {n - 1 - rng.randrange(min(n, 12)), rng.randrange(min(n, 40))}
        todo += [{'cut': c} for c in sorted(cuts) if c >= least]
    if case['cont'] in ('gz', 'zip', 'zips', 'targz'):
        todo += [{'flip': [rng.randrange(n), rng.randrange(8)]} for _ in range(4)]
    todo.append({'interrupt': rng.randrange(rng.choice([30, 150, 600]))})
    if ctx.tier == 'thorough' and (case['cont'] != 'none' or case['fmt'] in ('hdf5', 'pickle')):
        todo += [{'cut': rng.randrange(least, n)} for _ in range(20)]
    for f in todo:
        ctx.execute(dict(case, fault=f))


def shrink(case):
    s = case['spec']
    for i in range(len(s['rows'])):
        if len(s['rows']) > 1 + case['bad']:
            t = dict(s, rows=s['rows'][:i] + s['rows'][i + 1:])
            if s['pn']:
                t['pn'] = s['pn'][:i] + s['pn'][i + 1:]
            yield dict(case, spec=t)
    for i in range(len(s['kinds'])):
        if len(s['kinds']) > 1:
            t = dict(s, rows=[r[:i] + r[i + 1:] for r in s['rows']], kinds=s['kinds'][:i] + s['kinds'][i + 1:])
            if s['fn']:
                t['fn'] = s['fn'][:i] + s['fn'][i + 1:]
            yield dict(case, spec=t)
    for k in ('pn', 'fn'):
        if s[k]:
            yield dict(case, spec=dict(s, **{k: None}))
    for k, v in (('skip', 0), ('comments', 0), ('chunk', 0), ('bad', False), ('ret', None)):
        if case[k] != v:
            yield dict(case, **{k: v})


# ------------------------------------------------------------------- content
def plain(case):
    """The bytes of the uncompressed file."""
    s, fmt = case['spec'], case['fmt']
    vals = dc.values(s)
    if fmt == 'csv':
        sep = case['sep']
        out = ['# a comment\n'] * case['comments']
        if s['fn']:
            out.append(sep.join((['pointNames'] if s['pn'] else []) + s['fn']) + '\n')
        for i, r in enumerate(vals):
            cells = ['' if v != v else repr(v) if isinstance(v, float) else str(v) for v in r]
            # an empty first cell of a single column would be an empty line
            cells = ['nan' if c == '' and len(vals) * len(r) <= 60 and (len(r) == 1 or j == len(r) - 1) else c for j, c in enumerate(cells)]
            out.append(sep.join(([s['pn'][i]] if s['pn'] else []) + cells) + '\n')
        text = ''.join(out)
        if not case['eol']:
            text = text[:-1]
        if case['bad']:
            text += '\n' + sep.join(['7'] * (len(s['kinds']) + 3)) + '\n'
        return text.encode('utf-8')
    if fmt in ('mtx', 'mtxc'):
        out = ['%%MatrixMarket matrix ' + ('array' if fmt == 'mtx' else 'coordinate') + ' real general\n']
        out.append('%#' + (','.join(s['pn']) if s['pn'] else '') + '\n')
        out.append('%#' + (','.join(s['fn']) if s['fn'] else '') + '\n')
        p, f = len(vals), len(s['kinds'])
        if fmt == 'mtx':
            out.append(f'{p} {f}\n')
            for j in range(f):
                for i in range(p):
                    out.append(repr(float(vals[i][j])) + '\n')
        else:
            nz = [(i + 1, j + 1, float(vals[i][j])) for i in range(p) for j in range(f) if vals[i][j] != 0]
            out.append(f'{p} {f} {len(nz)}\n')
            out += [f'{i} {j} {v!r}\n' for i, j, v in nz]
        if case['bad']:
            out.insert(3, 'no numbers\n')
        return ''.join(out).encode('utf-8')
    if fmt == 'hdf5':
        import h5py
        import numpy
        b = io.BytesIO()
        with h5py.File(b, 'w', track_order=True) as h:
            for i, r in enumerate(vals):
                if case['bad'] and i == len(vals) - 1:
                    r = r + [1, 2]
                h.create_dataset(s['pn'][i] if s['pn'] else f'i{i}', data=numpy.array(r, dtype=float))
        return b.getvalue()
    import cloudpickle
    import nimble
    obj = dc.build(nimble, s)
    return cloudpickle.dumps(obj)


def pack(case, data):
    cont = case['cont']
    name = 'inner.' + {'mtxc': 'mtx'}.get(case['fmt'], case['fmt'])
    b = io.BytesIO()
    if cont == 'none':
        return data
    if cont == 'gz':
        with gzip.GzipFile(fileobj=b, mode='wb', mtime=0) as f:
            f.write(data)
    elif cont in ('zip', 'zips'):
        m = zipfile.ZIP_DEFLATED if cont == 'zip' else zipfile.ZIP_STORED
        with zipfile.ZipFile(b, 'w', m) as z:
            z.writestr(zipfile.ZipInfo(name, (2020, 1, 1, 0, 0, 0)), data, m)
    else:
        with tarfile.open(fileobj=b, mode='w') as t:
            i = tarfile.TarInfo(name)
            i.size = len(data)
            i.mtime = 1577836800
            t.addfile(i, io.BytesIO(data))
        if cont == 'targz':
            raw = b.getvalue()
            b = io.BytesIO()
            with gzip.GzipFile(fileobj=b, mode='wb', mtime=0) as f:
                f.write(raw)
    return b.getvalue()


class UserStream:
    """A stream as a user may write one: only the documented methods."""

    def __init__(self, inner, fail=None, exc=None, text=False):
        self.inner, self.fail, self.exc, self.n, self.fired = inner, fail, exc, 0, 0
        self.armed = True
        if text:
            self.encoding = 'utf-8'

    def _call(self):
        if self.armed:
            k, self.n = self.n, self.n + 1
            if k == self.fail:
                self.fired += 1
                raise {'OSError': OSError(5, 'simulated: stream failed'), 'ValueError': ValueError('simulated: stream failed'),
                       'KeyboardInterrupt': KeyboardInterrupt('simulated')}[self.exc]

    def read(self, *a):
        self._call()
        return self.inner.read(*a)

    def tell(self):
        self._call()
        return self.inner.tell()

    def seek(self, *a):
        # going back is what a reader does to leave the source as it was
        if self.armed:
            self.n += 1
        return self.inner.seek(*a)

    def write(self, *a):
        raise io.UnsupportedOperation('write')

    @property
    def closed(self):
        return self.inner.closed

    def close(self):
        self.inner.close()


# ---------------------------------------------------------------- in session
def op_load(nimble, state, case, path, blob):
    s, via, fault = case['spec'], case['via'], case['fault'] or {}
    kw = {'useLog': False, 'returnType': case['ret']}
    if case['fmt'] == 'csv':
        kw.update(pointNames=bool(s['pn']), featureNames=bool(s['fn']))
        if case['sep'] != ',' or len(s['kinds']) == 1:
            kw['inputSeparator'] = case['sep']
    if case['fmt'] == 'hdf5':
        kw['pointNames'] = bool(s['pn'])
    skip = b'x' * case['skip']
    src = None
    from sim import seam
    seam.disarm()
    if via == 'path':
        source = path
    else:
        if via == 'bin':
            src = open(path, 'rb')
        elif via == 'raw':
            src = open(path, 'rb', buffering=0)
        elif via == 'text':
            src = open(path, encoding='utf-8')
        elif via == 'bytesio':
            src = io.BytesIO(skip + blob)
        elif via == 'stringio':
            src = io.StringIO((skip + blob).decode('utf-8'))
        elif via == 'user':
            src = UserStream(io.BytesIO(skip + blob), fault.get('stream'), fault.get('exc'))
        else:
            src = UserStream(io.StringIO((skip + blob).decode('utf-8')), fault.get('stream'), fault.get('exc'), text=True)
        state['src'] = src
        inner = src.inner if isinstance(src, UserStream) else src
        inner.read(case['skip'])
        state['pos'] = inner.tell()
        source = src
    import gc
    gc.freeze()
    fds = sorted(os.listdir('/proc/self/fd'))
    seam.lib().sim_arm(1)
    out = {'exc': None, 'data': None}
    from sim.session import describe
    try:
        obj = nimble.data(source, **kw)
        seam.disarm()
        out['data'] = dc.logical(obj)
        out['type'] = obj.getTypeString()
    except BaseException as e:                       # pylint: disable=broad-except
        seam.disarm()
        import sys
        sys.settrace(None)
        out['exc'] = describe(e)
        e.__traceback__ = None
        del e
    if src is not None:
        inner = src.inner if isinstance(src, UserStream) else src
        out['closed'] = inner.closed
        out['moved'] = None if inner.closed or inner.tell() == state['pos'] else [state['pos'], inner.tell()]
        if isinstance(src, UserStream):
            out['calls'], out['sfired'] = src.n, src.fired
    gc.collect()
    out['leak'] = [f for f in sorted(os.listdir('/proc/self/fd')) if f not in fds]
    return out


OPS = {'load': op_load}


def run(case, ctx, res):
    root = ctx.fresh()
    res.events = res.calls = 0
    res.nontrivial = False
    fault = case['fault'] or {}
    data = plain(case)
    blob = pack(case, data)
    res.blob = blob
    if 'cut' in fault:
        blob = blob[:fault['cut']]
    if 'flip' in fault:
        i, bit = fault['flip']
        blob = blob[:i] + bytes([blob[i] ^ (1 << bit)]) + blob[i + 1:]
    ext = {'none': {'mtxc': '.mtx', 'pickle': '.pickle'}.get(case['fmt'], '.' + case['fmt']), 'zips': '.zip', 'targz': '.tar.gz'}.get(case['cont'], '.' + case['cont'])
    path = os.path.join(root, 'source' + (ext if case['ext'] else ''))
    with open(path, 'wb') as f:
        f.write(b'x' * case['skip'] + blob)
    sess = Session(root, OPS, clock=(1.6e9, 0), rand=1, fresh=False)
    try:
        r = sess.start(armed=False)
        if not r.ok:
            raise RuntimeError(str(r['exc']))
        intr = {'where': '/nimble/core/', 'k': fault['interrupt']} if 'interrupt' in fault else None
        r = sess.call('load', case=case, path=path, blob=blob, _plan=fault.get('plan', []), _reads=True,
                      _kinds=['openr', 'read'], _interrupt=intr)
        if not r.ok:
            res.violate('call-failed', r['exc'])
            return
        v = r.value
        res.steps += 1
        res.events = r['io']['events']
        res.calls = v.get('calls', 0)
        res.fire(r['io']['fired'])
        interrupted = bool(v['exc'] and v['exc']['type'] == 'SimInterrupt')
        for name, on in (('interrupt', interrupted), ('stream-error', v.get('sfired')), ('truncated', 'cut' in fault), ('damaged', 'flip' in fault)):
            if on:
                res.faults[name] += 1
        failing = interrupted or v.get('sfired') or any(k in r['io']['fired'] for k in ('errno', 'sticky'))
        s = case['spec']
        where = f'{case["fmt"]} in {case["cont"]} given as {case["via"]} ({len(blob)} bytes), fault {fault}'
        outcome = 'error' if v['exc'] else 'ok'
        res.states.add(f'{case["fmt"]}/{case["cont"]}/{case["via"]}/{bool(case["skip"])}/{sorted(fault)}/{outcome}')
        res.note(where, outcome, v['exc'] and v['exc']['type'], res.events)
        res.nontrivial = bool(fault) or case['cont'] != 'none' or case['via'] != 'path'
        if v['leak']:
            res.violate('file-left-open', where + f': {outcome}, open descriptors {v["leak"]}')
            return
        if v.get('closed'):
            res.violate('source-closed', where + f': {outcome}')
            return
        if v.get('moved'):
            res.violate('source-moved', where + f': {outcome}, position was {v["moved"][0]}, is {v["moved"][1]}')
            return
        if v['exc']:
            if not fault and not case['bad']:
                res.violate('valid-source-fails', where + f': {v["exc"]["type"]}: {v["exc"]["msg"]}')
            elif sorted(r['io']['fired']) == ['short']:
                res.violate('split-reads-fail', where + f': {v["exc"]["type"]}: {v["exc"]["msg"]}')
            return
        if case['bad'] and not failing:
            if case['fmt'] != 'pickle':
                res.violate('malformed-content-loaded', where + f': {v["data"]}')
            return
        if failing and not interrupted:
            res.violate('read-error-ignored', where + ': the source could not be read but an object was returned')
            return
        exp = [[dc.cell(x) for x in row] for row in dc.values(s)]
        names = (s['pn'], s['fn'] if case['fmt'] != 'hdf5' else None)
        got = v['data']
        if got['rows'] != exp or (got['pn'], got['fn']) != names:
            sig = 'damaged-source-loaded' if 'cut' in fault or 'flip' in fault else 'wrong-content'
            res.violate(sig, where + f': loaded {str(got)[:500]}, source holds {str(exp)[:300]} {names}')
            return
        if case['ret'] and v['type'] != case['ret']:
            res.violate('wrong-type', where + f': {v["type"]}')
    finally:
        sess.close()
