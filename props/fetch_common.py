"""Shared pieces of the fetch simulations (C07, C08): a simulated network."""
import gzip
import hashlib
import io
import os
import tarfile
import zipfile


def content(tag, size):
    """Deterministic csv text of about the given size."""
    out, i = [f'{tag},1,2'], 0
    n = len(out[0])
    while n < size:
        line = hashlib.md5(f'{tag}{i}'.encode()).hexdigest()[:12] + f',{i},{i * 7}'
        out.append(line)
        n += len(line) + 1
        i += 1
    return ('\n'.join(out) + '\n').encode()


def members(spec):
    return {name: content(f'{spec["tag"]}-{name}-v{spec["version"]}', size) for name, size in spec['members']}


def build(spec):
    """The bytes the source provides."""
    kind = spec['kind']
    m = members(spec)
    if kind == 'plain':
        return next(iter(m.values()))
    if kind in ('gz', 'badgz'):
        b = io.BytesIO()
        with gzip.GzipFile(fileobj=b, mode='wb', mtime=0) as f:
            f.write(next(iter(m.values())))
        data = b.getvalue()
        if kind == 'badgz':
            data = data[:len(data) // 2]
        return data
    if kind in ('zip', 'badzip'):
        b = io.BytesIO()
        with zipfile.ZipFile(b, 'w', spec.get('method', zipfile.ZIP_DEFLATED)) as z:
            for n, d in m.items():
                z.writestr(zipfile.ZipInfo(n, (2020, 1, 1, 0, 0, 0)), d, spec.get('method', zipfile.ZIP_DEFLATED))
        data = b.getvalue()
        if kind == 'badzip':
            # the data of the last member is damaged
            i = data.rindex(b'PK\x03\x04') + 60
            data = data[:i] + bytes(x ^ 255 for x in data[i:i + 4]) + data[i + 4:]
        return data
    if kind in ('tar', 'targz'):
        b = io.BytesIO()
        with tarfile.open(fileobj=b, mode='w') as t:
            for n, d in m.items():
                i = tarfile.TarInfo(n)
                i.size = len(d)
                i.mtime = 1577836800
                t.addfile(i, io.BytesIO(d))
        data = b.getvalue()
        if kind == 'targz':
            b = io.BytesIO()
            with gzip.GzipFile(fileobj=b, mode='wb', mtime=0) as f:
                f.write(data)
            data = b.getvalue()
        return data
    raise KeyError(kind)


def expected(spec):
    """{path relative to the source's directory: bytes} of the unpacked source,
    or None if it cannot be unpacked."""
    kind = spec['kind']
    base = spec['url'].rsplit('/', 1)[1]
    m = members(spec)
    if kind == 'plain':
        return {base: next(iter(m.values()))}
    if kind == 'gz':
        # without the suffix there is no other name to unpack to
        return {base[:-3]: next(iter(m.values()))} if base.endswith('.gz') else {base: build(spec)}
    if kind in ('zip', 'tar', 'targz'):
        return m
    return None


class Body(io.RawIOBase):
    def __init__(self, data, cut=None, reset=False):
        self.data, self.pos, self.cut, self.reset = data, 0, cut, reset

    def readable(self):
        return True

    def readinto(self, b):
        end = len(self.data) if self.cut is None else self.cut
        n = min(len(b), end - self.pos, 1 << 14)
        if n <= 0:
            if self.reset:
                raise ConnectionResetError(104, 'Connection reset by peer')
            return 0
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


def install(nimble, state):
    """Replace the transport under requests."""
    import requests
    import urllib3
    state['requests'] = []

    def send(self, request, **kw):
        url = request.url
        k = len(state['requests'])
        state['requests'].append([request.method, url])
        fault = next((f for f in state['netfaults'] if f['req'] == k), None)
        if fault and fault['kind'] == 'connect':
            state['netfired'].append('connect')
            raise requests.exceptions.ConnectionError('simulated: no connection')
        if fault and fault['kind'] == 'timeout':
            state['netfired'].append('timeout')
            raise requests.exceptions.ReadTimeout('simulated: timeout')
        status, data, ctype = 200, None, 'application/octet-stream'
        if fault and fault['kind'] == 'status':
            state['netfired'].append('status')
            status, data, ctype = fault['status'], b'<html>sorry</html>', 'text/html'
        else:
            data, ctype, status, loc = state['serve'](url)
        headers = {'Content-Type': ctype, 'Content-Length': str(len(data))}
        if status in (301, 302):
            headers['Location'] = loc
        cut = reset = None
        if request.method == 'GET' and fault and fault['kind'] in ('cut', 'reset'):
            state['netfired'].append(fault['kind'])
            cut, reset = int(len(data) * fault['at']), fault['kind'] == 'reset'
        body = Body(data if request.method != 'HEAD' else b'', cut, bool(reset))
        resp = urllib3.response.HTTPResponse(body=body, headers=headers, status=status,
                                             reason={200: 'OK', 404: 'Not Found'}.get(status, 'x'), preload_content=False,
                                             enforce_content_length=True, request_method=request.method)
        return self.build_response(request, resp)
    requests.adapters.HTTPAdapter.send = send


def serving(server):
    def serve(url):
        spec = server.get(url)
        if spec is None:
            return b'<html>not found</html>', 'text/html', 404, None
        if 'page' in spec:
            return spec['page'].encode(), 'text/html', 200, None
        if 'redirect' in spec:
            return b'', 'text/html', 302, spec['redirect']
        return build(spec), spec.get('ctype', 'application/octet-stream'), 200, None
    return serve


def op_fetch(nimble, state, url, server, overwrite=False, netfaults=()):
    state['serve'] = serving(server)
    state['netfaults'] = list(netfaults)
    state['netfired'] = []
    state['requests'].clear()
    out = {'exc': None, 'paths': None}
    try:
        paths = nimble.fetchFiles(url, overwrite)
        out['paths'] = paths
    except BaseException as e:                     # pylint: disable=broad-except
        from sim.session import describe
        out['exc'] = describe(e)
    out['requests'] = [list(r) for r in state['requests']]
    out['netfired'] = list(state['netfired'])
    return out


def op_load(nimble, state, url, server, netfaults=()):
    state['serve'] = serving(server)
    state['netfaults'] = list(netfaults)
    state['netfired'] = []
    state['requests'].clear()
    o = nimble.data(url, useLog=False)
    return {'values': o.copy('pythonlist')}


def op_setloc(nimble, state, location):
    nimble.settings.set('fetch', 'location', location)


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith('op_')}


def tree(root):
    """{relative path: bytes} of every file below root."""
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, root)] = fh.read()
    return out


def gen_source(rng, i, kinds=('plain', 'gz', 'zip', 'tar', 'targz')):
    kind = rng.choice(kinds)
    many = kind in ('zip', 'tar', 'targz', 'badzip')
    size = lambda: rng.choice([0, 30, 400, 5000, 20000, 70000])
    ext = {'plain': ['.csv', '', '.data'], 'gz': ['.csv.gz', '.csv.gz', '', '.gzip'], 'zip': ['.zip', '.zip', ''],
           'tar': ['.tar', ''], 'targz': ['.tar.gz', '.tgz'], 'badzip': ['.zip'], 'badgz': ['.csv.gz']}[kind]
    url = f'http://{rng.choice(["data.example", "www.other.example:8080"])}/' + rng.choice(['', 'sub/', 'a/b/']) + f'source{i}' + rng.choice(ext)
    mem = [[(rng.choice(['', 'in/']) if many else '') + f's{i}m{j}.csv', size()] for j in range(rng.choice([1, 2, 3, 4]) if many else 1)]
    if kind == 'badzip':
        mem[-1][1] = 5000
    spec = {'kind': kind, 'url': url, 'tag': f's{i}', 'members': mem, 'version': 1}
    if kind == 'zip' and rng.random() < 0.3:
        spec['method'] = 0
    return spec
