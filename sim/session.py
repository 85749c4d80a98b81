"""A simulated user session: a forked process that runs the real library.

The parent (the simulator) sends commands one at a time.  The process can be
killed at any file operation, its disk can fail, its clock is simulated; in
lock-step mode it stops before every file operation and lock until the
scheduler lets it go on, so the interleaving of several sessions is decided by
the scheduler alone.
"""
import dis
import gc
import io
import os
import pickle
import signal
import socket
import sys
import traceback

from . import cover, seam


class Crashed(Exception):
    pass


class CallFailed(Exception):
    """Ends a run whose failed call has been recorded as a violation."""


class HarnessError(Exception):
    """The simulator itself went wrong (never a verdict on the library)."""


def describe(exc):
    return {'type': type(exc).__name__,
            'mro': [c.__name__ for c in type(exc).__mro__],
            'msg': str(exc)[:300],
            'tb': ''.join(traceback.format_exception(exc))[-2500:]}


class Reply(dict):
    @property
    def ok(self):
        return self['status'] == 'ok'

    @property
    def crashed(self):
        return self['status'] == 'crash'

    @property
    def exc(self):
        return self.get('exc')

    @property
    def value(self):
        return self.get('value')


class SimInterrupt(KeyboardInterrupt):
    """Ctrl-C at a chosen line of the library."""


# after these instructions the interpreter looks for pending signals
CHECKS = frozenset(dis.opmap[x] for x in ('CALL', 'CALL_KW', 'CALL_FUNCTION_EX', 'RESUME', 'JUMP_BACKWARD') if x in dis.opmap)
RESUME = dis.opmap['RESUME']


def interrupted(func, args, spec):
    """Run func and raise an interrupt in the library files whose path
    contains spec['where'] and does not end in one of spec['exclude']: at the
    first place from the k-th line on (k counts from 0) where the interpreter
    would deliver a signal, never between two plain assignments."""
    count, armed, before = [0], [False], {}
    where, k = spec['where'], spec['k']
    exclude = tuple(spec.get('exclude', ()))

    def arm(frame):
        armed[0] = True
        while frame is not None:
            if frame.f_trace is local:
                frame.f_trace_opcodes = True
            frame = frame.f_back
        sys.settrace(tracer)                             # from now on with every instruction

    def local(frame, event, arg):
        if event == 'line':
            if count[0] == k:
                arm(frame)
            count[0] += 1
        elif event == 'opcode' and armed[0]:
            if before.get(frame) in CHECKS:
                sys.settrace(None)
                before.clear()
                raise SimInterrupt('simulated interrupt')
            before[frame] = frame.f_code.co_code[frame.f_lasti]
        return local

    def tracer(frame, event, arg):
        if armed[0] and frame.f_back in before:
            before[frame.f_back] = None                  # signals are looked for in the function called instead
        name = frame.f_code.co_filename
        if where in name and not name.endswith(exclude):
            if armed[0]:
                frame.f_trace_opcodes = True
                before[frame] = RESUME
            return local
        return None
    sys.settrace(tracer)
    try:
        value = func(**args)
    finally:
        sys.settrace(None)
        before.clear()
        spec['lines'] = count[0]
    return value, False


class Session:
    TIMEOUT = 120

    def __init__(self, root, ops, *, home=None, cwd=None, clock=None,
                 tick=1000, rand=1, lockstep=False, fresh=True, setup=None,
                 before=None, name='s'):
        self.root = root
        self.ops = ops
        self.home = home or root
        self.cwd = cwd or root
        self.clock = clock
        self.tick = tick
        self.rand = rand
        self.lockstep = lockstep
        self.fresh = fresh
        self.setup = setup
        self.before = before
        self.name = name
        self.shm = seam.Shm()
        self.alive = False
        self.pid = None
        self.state = 'idle'      # lockstep: idle | ready | asleep
        self.wake = 0
        self.total_fired = {}

    # ------------------------------------------------------------ lifecycle
    def start(self, plan=(), reads=False, kinds=None, armed=True, clock=None):
        """Fork and import the library (the import runs under the plan)."""
        a, b = socket.socketpair()
        a.settimeout(self.TIMEOUT)
        if clock is not None:
            self.clock = clock
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                a.close()
                self._child(b, plan, reads, kinds, armed)
                code = 0
            except BaseException:            # pylint: disable=broad-except
                seam.disarm()
                try:
                    traceback.print_exc(file=sys.__stderr__)
                    sys.__stderr__.flush()
                except Exception:            # pylint: disable=broad-except
                    pass
            finally:
                os._exit(code)
        b.close()
        self.pid, self.sock, self.alive = pid, a, True
        self.rbuf = b''
        return self._wait() if not self.lockstep else self._begin_wait()

    def _begin_wait(self):
        self.state = 'busy'
        return None

    def _child(self, sock, plan, reads, kinds, armed):
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        signal.alarm(0)
        gc.disable()
        os.environ['HOME'] = self.home
        os.chdir(self.cwd)
        self.shm.attach()
        seam.prefix(self.root)
        if self.clock is not None:
            seam.clock(self.clock[0], self.clock[1], 0, self.tick)
        if self.rand is not None:
            seam.randomness(self.rand)
        fd = sock.fileno()
        out = io.StringIO()
        sys.stdout = out
        sys.stderr = io.StringIO()
        state = {'session': self}
        if self.lockstep:
            seam.lib().sim_lockstep(fd, 1)

        def begin():
            import warnings
            warnings.simplefilter('ignore')
            if self.fresh:
                for m in [m for m in sys.modules
                          if m == 'nimble' or m.startswith('nimble.')]:
                    del sys.modules[m]
            if self.before is not None:
                self.before(state)
            import nimble
            state['nimble'] = nimble
            if self.setup is not None:
                return self.setup(nimble, state)
            return None

        f = sock.makefile('rb')
        first = True
        while True:
            if first:
                func, args = begin, {}
                opts = {'plan': plan, 'reads': reads, 'kinds': kinds, 'armed': armed}
                first = False
            else:
                head = f.read(8)
                if len(head) < 8:
                    return
                opname, args, opts = pickle.loads(f.read(int(head)))
                op = self.ops[opname]
                def func(op=op, **kw):
                    return op(state['nimble'], state, **kw)
            if opts.get('advance'):
                seam.advance(opts['advance'], opts['advance'])
            out.seek(0)
            out.truncate()
            if opts.get('armed', True):
                seam.arm(opts.get('plan') or (), opts.get('reads', False),
                         opts.get('kinds'))
            intr = opts.get('interrupt')
            try:
                if intr:
                    value, _ = interrupted(func, args, intr)
                else:
                    value = func(**args)
                status, exc = 'ok', None
            except Exception as e:               # pylint: disable=broad-except
                value, status, exc = None, 'exc', describe(e)
                e.__traceback__ = None
            except BaseException as e:           # pylint: disable=broad-except
                value, status, exc = None, 'exc', describe(e)
            seam.disarm()
            cover.dump()
            try:
                blob = pickle.dumps({'status': status, 'value': value,
                                     'lines': intr and intr.get('lines'),
                                     'exc': exc, 'out': out.getvalue(),
                                     'now': [seam.now('real'), seam.now('mono')]})
            except Exception as e:               # pylint: disable=broad-except
                blob = pickle.dumps({'status': 'harness', 'exc': describe(e)})
            sock.sendall(b'R %d\n' % len(blob) + blob)

    # ------------------------------------------------------------- plumbing
    def _readline(self):
        while b'\n' not in self.rbuf:
            try:
                d = self.sock.recv(65536)
            except (ConnectionResetError, BrokenPipeError):
                d = b''
            except socket.timeout:
                self.kill()
                raise HarnessError(f'session {self.name}: no answer in {self.TIMEOUT}s')
            if not d:
                raise Crashed()
            self.rbuf += d
        line, self.rbuf = self.rbuf.split(b'\n', 1)
        return line.decode()

    def _readn(self, n):
        while len(self.rbuf) < n:
            d = self.sock.recv(65536)
            if not d:
                raise Crashed()
            self.rbuf += d
        d, self.rbuf = self.rbuf[:n], self.rbuf[n:]
        return d

    def _reap(self):
        self.alive = False
        try:
            _, st = os.waitpid(self.pid, 0)
        except ChildProcessError:
            st = 0
        self.sock.close()
        return os.waitstatus_to_exitcode(st)

    def _finish(self, msg):
        info = self.shm.read()
        for k, v in info['fired'].items():
            self.total_fired[k] = self.total_fired.get(k, 0) + v
        r = Reply({'value': None, 'exc': None, 'out': ''})
        r.update(msg)
        r.update(io=info)
        if r['status'] == 'harness':
            raise HarnessError(str(r['exc']))
        return r

    def _wait(self):
        try:
            line = self._readline()
            if not line.startswith('R '):
                raise HarnessError(f'unexpected message {line!r}')
            msg = pickle.loads(self._readn(int(line[2:])))
        except Crashed:
            code = self._reap()
            if code != 137:
                raise HarnessError(f"session {self.name} ended with status {code}")
            msg = {'status': 'crash'}
        return self._finish(msg)

    def _send(self, opname, args, opts):
        blob = pickle.dumps((opname, args, opts))
        self.sock.sendall(b'%08d' % len(blob) + blob)

    def call(self, opname, _plan=(), _reads=False, _kinds=None, _armed=True,
             _advance=None, _interrupt=None, **args):
        assert self.alive
        self._send(opname, args, {'plan': list(_plan), 'reads': _reads,
                                  'interrupt': _interrupt,
                                  'kinds': _kinds, 'armed': _armed,
                                  'advance': _advance})
        return self._wait()

    # lock-step -----------------------------------------------------------
    def begin(self, opname, _kinds=None, _reads=True, **args):
        self._send(opname, args, {'plan': [], 'reads': _reads, 'kinds': _kinds,
                                  'armed': True})
        self.state = 'busy'

    def pump(self):
        """Read the next message: ('yield', text) | ('sleep', ns) | ('done', Reply)."""
        try:
            line = self._readline()
            if line.startswith('Y '):
                self.state = 'ready'
                return 'yield', line[2:]
            if line.startswith('S '):
                self.state = 'asleep'
                return 'sleep', int(line[2:])
            msg = pickle.loads(self._readn(int(line[2:])))
        except Crashed:
            code = self._reap()
            if code != 137:
                raise HarnessError(f"session {self.name} ended with status {code}")
            msg = {'status': 'crash'}
        self.state = 'idle'
        return 'done', self._finish(msg)

    def go(self, now_ns=None):
        self.sock.sendall(b'G %d\n' % now_ns if now_ns is not None else b'G\n')
        self.state = 'busy'

    def fail(self, err):
        self.sock.sendall(b'E %d\n' % err)
        self.state = 'busy'

    def crash(self):
        self.sock.sendall(b'X\n')
        self.state = 'busy'

    def kill(self):
        if self.alive:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self._reap()

    close = kill
