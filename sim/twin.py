"""Twin processes: separately started interpreters that run the same work.

A template is an interpreter with its own hash seed that has imported the
library; for every request it forks a child, which sets its own clock, kernel
randomness, directory and memory use, runs the named function and answers.
"""
import importlib
import os
import pickle
import random
import signal
import socket
import struct
import subprocess
import sys
import time
import traceback

from .session import HarnessError, describe

MODULES = ['numpy', 'pandas', 'scipy', 'scipy.sparse', 'scipy.io', 'sklearn', 'sklearn.ensemble', 'sklearn.neighbors', 'sklearn.svm', 'sklearn.naive_bayes',
           'sklearn.tree', 'sklearn.decomposition', 'sklearn.linear_model', 'sklearn.preprocessing', 'sklearn.cluster', 'sqlite3', 'cloudpickle', 'dateutil.parser',
           'hyperopt', 'storm_tuner', 'pandas.testing']


def path(key):
    return os.path.join(os.environ['NIMSIM_SCRATCH'], f'twin{key}.sock')


def start(hashseeds, modname):
    """Start one template per hash seed (in the parent, before any worker)."""
    procs = []
    for hs in hashseeds:
        home = os.path.join(os.environ['NIMSIM_SCRATCH'], f'home{hs}')
        os.makedirs(home, exist_ok=True)
        env = dict(os.environ, PYTHONHASHSEED=str(hs), HOME=home)
        cmd = [sys.executable, '-W', 'ignore', '-m', 'sim.twin', str(hs), modname]
        if subprocess.run(['setarch', '-R', 'true'], stderr=subprocess.DEVNULL, stdout=subprocess.DEVNULL).returncode == 0:
            cmd = ['setarch', '-R'] + cmd                  # same addresses in every start
        procs.append(subprocess.Popen(cmd, env=env, cwd=home, stdin=subprocess.DEVNULL))
    for hs, p in zip(hashseeds, procs):
        t0 = time.monotonic()
        while not os.path.exists(path(hs)):
            if p.poll() is not None or time.monotonic() - t0 > 180:
                raise HarnessError(f'twin process {hs} did not start')
            time.sleep(0.02)


def recvn(s, n):
    out = b''
    while len(out) < n:
        d = s.recv(n - len(out))
        if not d:
            raise HarnessError('twin process ended')
        out += d
    return out


def send(s, obj):
    b = pickle.dumps(obj)
    s.sendall(struct.pack('<Q', len(b)) + b)


def recv(s):
    return pickle.loads(recvn(s, struct.unpack('<Q', recvn(s, 8))[0]))


def call(hs, func, **spec):
    """Run func(**spec['args']) in a new child of the template."""
    s = socket.socket(socket.AF_UNIX)
    s.settimeout(200)
    try:
        s.connect(path(hs))
        send(s, dict(spec, func=func))
        r = recv(s)
    except (OSError, EOFError) as e:
        raise HarnessError(f'twin process {hs}: {e}') from e
    finally:
        s.close()
    if r['status'] != 'ok':
        raise HarnessError(f'twin process {hs}: {r["exc"]["tb"]}')
    return r['value']


def child(s, mod, nimble):
    import io
    from . import cover, seam
    cover.start()
    signal.alarm(180)
    spec = recv(s)
    os.makedirs(spec['root'], exist_ok=True)
    os.chdir(spec['root'])
    r = random.Random(spec['junk'])
    keep = [bytearray(r.randrange(1, 5000)) for _ in range(r.randrange(0, 3000))]    # another memory layout
    keep = keep[::2] if spec['junk'] % 2 else keep
    for k, v in spec.get('env', {}).items():
        os.environ[k] = v
    seam.clock(spec['clock'], spec['clock'] / 7, 0, spec.get('tick', 1000))
    seam.randomness(spec['rand'])
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        out = {'status': 'ok', 'value': getattr(mod, spec['func'])(nimble, **spec['args'])}
    except BaseException as e:                       # pylint: disable=broad-except
        out = {'status': 'exc', 'exc': describe(e)}
    cover.dump()
    send(s, out)
    del keep


def serve(hs, modname):
    for m in MODULES:
        try:
            importlib.import_module(m)
        except ImportError:
            pass
    import nimble
    mod = importlib.import_module(modname)
    if hasattr(mod, 'setup_twin'):
        mod.setup_twin(nimble)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    srv = socket.socket(socket.AF_UNIX)
    tmp = path(hs) + '.tmp'
    srv.bind(tmp)
    srv.listen(64)
    os.rename(tmp, path(hs))
    parent = os.getppid()
    while os.getppid() == parent:
        srv.settimeout(5)
        try:
            s, _ = srv.accept()
        except socket.timeout:
            continue
        s.settimeout(None)
        if os.fork() == 0:
            code = 1
            try:
                srv.close()
                child(s, mod, nimble)
                code = 0
            except BaseException:                    # pylint: disable=broad-except
                traceback.print_exc(file=sys.__stderr__)
            finally:
                os._exit(code)
        s.close()


if __name__ == '__main__':
    serve(sys.argv[1], sys.argv[2])
