"""ctypes face of simio.c plus the shared page it reports through."""
import ctypes
import mmap

I64 = ctypes.c_int64
KINDS = ["openw", "openr", "write", "read", "trunc", "rename", "unlink",
         "mkdir", "rmdir", "fsync", "close", "lock", "link", "sleep", "chmod"]
KIDX = {k: i for i, k in enumerate(KINDS)}
FAULTS = ["none", "crash_before", "crash_after", "crash_torn", "errno",
          "short", "torn_errno", "sticky"]
FIDX = {k: i for i, k in enumerate(FAULTS)}
MUTATING = ["openw", "write", "trunc", "rename", "unlink", "mkdir", "rmdir",
            "fsync", "close", "link", "chmod"]

_lib = None


def lib():
    global _lib
    if _lib is None:
        l = ctypes.CDLL(None)
        l.sim_loaded()
        l.sim_now.restype = I64
        _lib = l
    return _lib


def mask(kinds):
    m = 0
    for k in kinds:
        m |= 1 << KIDX[k]
    return ctypes.c_uint(m)


class Shm:
    """Counters and event log of one simulated process, readable after it dies."""
    CAP = 1 << 18
    HEAD = 8 * (2 + 32 + 16 + 2)

    def __init__(self):
        self.mm = mmap.mmap(-1, self.CAP)
        self.buf = (ctypes.c_char * self.CAP).from_buffer(self.mm)

    def attach(self):
        lib().sim_shm(ctypes.byref(self.buf), ctypes.c_long(self.CAP))

    def _long(self, i):
        return int.from_bytes(self.mm[8 * i:8 * i + 8], 'little', signed=True)

    def read(self):
        n = self._long(50)
        log = self.mm[self.HEAD:self.HEAD + n].decode('latin-1')
        fired = {FAULTS[i]: self._long(34 + i) for i in range(len(FAULTS))
                 if self._long(34 + i)}
        kinds = {KINDS[i]: self._long(2 + i) for i in range(len(KINDS))
                 if self._long(2 + i)}
        return {'events': self._long(0), 'nfired': self._long(1),
                'kinds': kinds, 'fired': fired, 'log': log}


def arm(plan=(), reads=False, kinds=None):
    """plan: [[index, fault name, arg], ...]"""
    l = lib()
    l.sim_plan_clear()
    for index, fault, arg in plan:
        l.sim_plan_add(ctypes.c_long(index), FIDX[fault], int(arg))
    if kinds is None:
        kinds = MUTATING + (["openr", "read"] if reads else [])
    l.sim_track(1 if reads else 0, mask(kinds))
    l.sim_reset()
    l.sim_arm(1)


def disarm():
    lib().sim_arm(0)


def prefix(path):
    lib().sim_prefix(path.encode())


def clock(real=None, mono=0, cpu=0, tick=1000):
    """Start simulated clocks (seconds, float or int); None stops them."""
    if real is None:
        lib().sim_clock(0, I64(0), I64(0), I64(0), I64(0))
    else:
        lib().sim_clock(1, I64(int(real * 10**9)), I64(int(mono * 10**9)),
                        I64(int(cpu * 10**9)), I64(tick))


def advance(real=0.0, mono=0.0, cpu=0.0):
    lib().sim_advance(I64(int(real * 10**9)), I64(int(mono * 10**9)),
                      I64(int(cpu * 10**9)))


def now(which='real'):
    return lib().sim_now({'real': 0, 'mono': 1, 'cpu': 2}[which]) / 1e9


def randomness(seed):
    if seed is None:
        lib().sim_rand(0, ctypes.c_uint64(0))
    else:
        lib().sim_rand(1, ctypes.c_uint64(seed))
