"""Seams: everything nondeterministic that celest (or code it calls) can observe.

`install()` must run before celest is imported. With no simulation active every seam passes through.
"""
import builtins
import datetime as _dt
import errno
import io
import os
import random
import stat as _stat
import sys
import threading
import time
import uuid

REPO = os.environ.get("CELEST_REPO", "/repo")
CELEST = os.path.join(REPO, "celest") + os.sep
real = {}
_installed = False


# ------------------------------------------------------------------------------------ randomness
class SimRandom(random.Random):
    """MT19937 from the plan's seed; in the bent modes some draws are replaced by extremes.

    The bending decisions come from a second generator seeded alike, so a plan fixes every draw.
    """
    LOW, HIGH = 0.0, 1.0 - 2.0 ** -53

    def __new__(cls, seed=0, mode="plain"):
        return super().__new__(cls, 0)

    def __init__(self, seed=0, mode="plain"):
        self.draws = 0
        self.bent = 0
        self.mode = mode
        self._reseed(seed)

    def _reseed(self, seed):
        super().seed(seed)
        self._bend = real.get("Random", random.Random)(f"bend/{seed}/{self.mode}")

    def seed(self, a=None, version=2):
        if a is None:
            a = entropy[0].getrandbits(64) if entropy[0] is not None else "unseeded"
        self.draws = 0
        super().seed(a, version)
        self._bend = real.get("Random", random.Random)(f"bend/{a}/{self.mode}")

    def _extreme(self):
        m = self.mode
        if m == "plain":
            return None
        r = self._bend.random()
        if m == "low":
            return 0 if r < 0.6 else None
        if m == "high":
            return 1 if r < 0.6 else None
        if m == "mixed":
            return 0 if r < 0.2 else 1 if r < 0.4 else None
        return None

    def random(self):
        self.draws += 1
        v = super().random()
        e = self._extreme()
        if e is None:
            return v
        self.bent += 1
        return self.LOW if e == 0 else self.HIGH

    def getrandbits(self, k):
        self.draws += 1
        v = super().getrandbits(k)
        e = self._extreme()
        if e is None or k == 0:
            return v
        self.bent += 1
        return 0 if e == 0 else (1 << k) - 1


class _RandomState(threading.local):
    inst = None


_rnd_state = _RandomState()
_global_random = [None]


def set_random(inst, thread_only=False):
    if thread_only:
        _rnd_state.inst = inst
    else:
        _global_random[0] = inst
    return inst


def _current_random():
    return _rnd_state.inst or _global_random[0] or real["random_inst"]


_RANDOM_FUNCS = ["random", "uniform", "triangular", "randint", "choice", "randrange", "sample", "shuffle", "choices",
                 "normalvariate", "lognormvariate", "expovariate", "vonmisesvariate", "gammavariate", "gauss",
                 "betavariate", "binomialvariate", "paretovariate", "weibullvariate", "getstate", "setstate",
                 "getrandbits", "randbytes", "seed"]


class EntropyRandom(random.Random):
    """random.Random whose unseeded state comes from the entropy seam."""

    def seed(self, a=None, version=2):
        if a is None and entropy[0] is not None:
            a = entropy[0].getrandbits(64)
        super().seed(a, version)


def _install_random():
    real["Random"] = random.Random
    real["random_inst"] = random._inst
    EntropyRandom.__name__ = EntropyRandom.__qualname__ = "Random"
    random.Random = EntropyRandom

    def make(name):
        def f(*a, **k):
            return getattr(_current_random(), name)(*a, **k)
        f.__name__ = name
        f.__qualname__ = name
        return f
    for n in _RANDOM_FUNCS:
        if hasattr(random, n):
            setattr(random, n, make(n))


# ------------------------------------------------------------------------------------ clocks, entropy
class SimClock:
    """A clock that advances by uneven steps on every reading and sometimes jumps, both ways."""

    def __init__(self, start, seed, pace=1e-3, jumps=0.1):
        self.t = start
        self.r = real["Random"](f"clock/{seed}")
        self.pace = pace            # largest ordinary step between two readings
        self.jumps = jumps          # how often a reading is off by days
        self.reads = 0
        self.slept = 0.0

    def read(self):
        self.reads += 1
        x = self.r.random()
        self.t += x * self.pace
        if x > 1 - self.jumps:
            self.t += (self.r.random() - 0.5) * 1e6
        return self.t


clock = [None]
entropy = [None]
id_mask = [0]           # memory addresses as seen through id(), see mask_ids


def mask_ids(mask):
    """Permute the addresses celest can see (a constant xor keeps identity intact)."""
    id_mask[0] = mask
    builtins.id = real["sim_id"] if mask else real["id"]


def _install_clock():
    for n in ("time", "monotonic", "perf_counter", "process_time", "thread_time"):
        real[n] = getattr(time, n)

        def f(_r=real[n]):
            return clock[0].read() if clock[0] is not None else _r()
        setattr(time, n, f)
        if hasattr(time, n + "_ns"):
            real[n + "_ns"] = getattr(time, n + "_ns")

            def g(_r=real[n + "_ns"]):
                return int(clock[0].read() * 1e9) if clock[0] is not None else _r()
            setattr(time, n + "_ns", g)
    import resource
    real["os.times"], real["getrusage"] = os.times, resource.getrusage

    def times():
        t = clock[0].read() if clock[0] is not None else None
        return real["os.times"]() if t is None else os.times_result((t % 1e6, 0.0, 0.0, 0.0, t))

    def getrusage(who):
        r = real["getrusage"](who)
        return r if clock[0] is None else resource.struct_rusage((clock[0].read() % 1e6, 0.0) + tuple(r)[2:])
    os.times, resource.getrusage = times, getrusage
    real["datetime"] = _dt.datetime

    class SimDatetime(_dt.datetime):
        @classmethod
        def now(cls, tz=None):
            if clock[0] is None:
                return real["datetime"].now(tz)
            return real["datetime"].fromtimestamp(clock[0].read() % 4e9, tz)

        @classmethod
        def utcnow(cls):
            if clock[0] is None:
                return real["datetime"].now(_dt.timezone.utc).replace(tzinfo=None)
            return real["datetime"].fromtimestamp(clock[0].read() % 4e9, _dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()
    SimDatetime.__name__ = "datetime"
    SimDatetime.__qualname__ = "datetime"
    _dt.datetime = SimDatetime
    real["urandom"] = os.urandom

    def urandom(n):
        if entropy[0] is None:
            return real["urandom"](n)
        return bytes(entropy[0].getrandbits(8) for _ in range(n))
    os.urandom = urandom
    random._urandom = urandom
    real["sleep"] = time.sleep

    def sleep(s):
        if clock[0] is None:
            return real["sleep"](s)
        if s < 0:
            raise ValueError("sleep length must be non-negative")
        clock[0].t += s
        clock[0].slept += s
    time.sleep = sleep
    real["id"] = builtins.id

    def sim_id(o, _r=builtins.id, _m=id_mask):
        return _r(o) ^ _m[0]
    sim_id.__name__ = "id"
    real["sim_id"] = sim_id
    real["uuid4"] = uuid.uuid4

    def uuid4():
        return uuid.UUID(bytes=os.urandom(16), version=4)
    uuid.uuid4 = uuid4


# ------------------------------------------------------------------------------------ disk
class Disk:
    """A simulated disk over a private scratch directory.

    faults: list of dicts, each used at most once (sticky ones stay until healed):
      {"op": "open",  "nth": k, "errno": E}
      {"op": "write", "at": byte offset in the stream of all bytes written, "errno": E, "sticky": bool}
      {"op": "flush"/"fsync", "nth": k, "errno": E}     {"op": "close", "nth": k, "errno": E}
      {"op": "rename"/"remove", "nth": k, "errno": E}
      {"op": "eintr", "nth": raw write number}          transparent
    short: maximum number of bytes one raw write accepts (0: unlimited)   transparent
    """

    def __init__(self, root, faults=(), short=0, bufsize=0, chunk=0, default_encoding=None):
        self.root = os.path.realpath(root)
        self.faults = [dict(f) for f in faults]
        self.short, self.bufsize, self.chunk = short, bufsize, chunk
        self.default_encoding = default_encoding
        self.open_handles = []
        self.fds = {}               # descriptors from os.open: fd -> path
        self.n = {}
        self.bytes_written = 0
        self.fired = []             # fault kinds that actually fired
        self.hard = []              # the exception objects raised by non-transparent faults
        self.touched = set()
        self.escapes = []
        self.trace = []

    def inside(self, path):
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p if p == self.root or p.startswith(self.root + os.sep) else None

    def heal(self):
        self.faults = []
        self.short = 0

    def op(self, kind, path=""):
        k = self.n[kind] = self.n.get(kind, 0) + 1
        if len(self.trace) < 200:
            self.trace.append(f"{kind}#{k} {os.path.basename(str(path))}")
        for f in self.faults:
            if f["op"] == kind and f.get("nth") == k and not f.get("done"):
                f["done"] = True
                self.raise_(f, path)

    def accept(self, n, path):
        """How many of n bytes offered by one raw write the disk takes; raises what the plan has."""
        k = self.n["write"] = self.n.get("write", 0) + 1
        for f in self.faults:
            if f["op"] == "eintr" and f["nth"] == k and not f.get("done"):
                f["done"] = True
                self.fired.append("write:EINTR")
                raise InterruptedError(errno.EINTR, "interrupted")
        if self.short and n > self.short:
            n = self.short
            self.fired.append("short-write")
        for f in self.faults:
            if f["op"] == "write" and (not f.get("done") or f.get("sticky")):
                room = f["at"] - self.bytes_written
                if room <= 0 and n:
                    f["done"] = True
                    self.raise_(f, path)
                if room < n:
                    n = room            # the disk takes what fits; the next write fails
                    self.fired.append("torn-write")
        if len(self.trace) < 200:
            self.trace.append(f"write#{k} {n}")
        return n

    def raise_(self, f, path):
        e = OSError(f["errno"], os.strerror(f["errno"]), str(path))
        self.fired.append(f"{f['op']}:{errno.errorcode.get(f['errno'], f['errno'])}")
        self.hard.append(e)
        raise e


class FaultyRaw(io.RawIOBase):
    def __init__(self, disk, path, mode, opener=None, closefd=True):
        self._f = None
        self._fd = path if isinstance(path, int) else None
        if self._fd is None:
            disk.op("open", path)
            if opener is not None:      # what the opener opens is counted here, not there
                self._f = _passing(lambda: real["FileIO"](path, mode, opener=opener))
            else:
                self._f = real["FileIO"](path, mode)
        else:
            self._f = real["FileIO"](path, mode, closefd=closefd)
            path = disk.fds.get(path, "fd")
            if closefd:
                disk.fds.pop(self._fd, None)
        self._d, self._path = disk, path
        self.name = path
        self.mode = self._f.mode
        disk.open_handles.append(self)

    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return self._f.seekable()

    def fileno(self):
        return self._f.fileno()

    def isatty(self):
        return False

    def seek(self, *a):
        return self._f.seek(*a)

    def tell(self):
        return self._f.tell()

    def truncate(self, *a):
        return self._f.truncate(*a)

    def readinto(self, b):
        return self._f.readinto(b)

    def write(self, b):
        d = self._d
        data = bytes(b)
        n = d.accept(len(data), self._path)
        self._f.write(data[:n])
        d.bytes_written += n
        return n

    def close(self):
        if self._f is None or self._f.closed:
            return super().close()
        f, self_closed = self._f, False
        try:
            f.close()
            if self in self._d.open_handles:
                self._d.open_handles.remove(self)
            super().close()
            self._d.op("close", self._path)
        finally:
            pass


disk = [None]


def _passing(f):
    """Run f with the disk seam out of the way."""
    d, disk[0] = disk[0], None
    try:
        return f()
    finally:
        disk[0] = d


def _install_fd_calls():
    """os.open, os.write and os.close on the simulated disk."""
    ropen, rwrite, rclose = os.open, os.write, os.close
    real.update({"os.open": ropen, "os.write": rwrite, "os.close": rclose})

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        d = disk[0]
        writes = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        p = d.inside(path) if d is not None and dir_fd is None and not isinstance(path, int) else None
        if d is None or not writes and p is None:
            return ropen(path, flags, mode, dir_fd=dir_fd)
        if p is None:
            d.escapes.append(str(path))
            raise PermissionError(errno.EPERM, "simulated disk: write outside the scratch directory", str(path))
        if writes:
            d.touched.add(p)
        d.op("open", p)
        fd = ropen(path, flags, mode)
        d.fds[fd] = p
        return fd

    def os_write(fd, data):
        d = disk[0]
        if d is None or fd not in d.fds:
            return rwrite(fd, data)
        n = d.accept(len(memoryview(data).cast("B")), d.fds[fd])
        k = rwrite(fd, memoryview(data).cast("B")[:n])
        d.bytes_written += k
        return k

    def os_close(fd):
        d = disk[0]
        if d is None or fd not in d.fds:
            return rclose(fd)
        p = d.fds.pop(fd)
        rclose(fd)
        d.op("close", p)
    for n, f in (("open", os_open), ("write", os_write), ("close", os_close)):
        f.__name__ = n
        setattr(os, n, f)


# ------------------------------------------------------------------------------------ ephemeris
EPHEMERIS_NAME = "de421.bsp"


class Ephemeris:
    """The simulated ephemeris file: in-memory content and a fault plan for reading it.

    faults: {"op": "open", "nth": k, "errno": E}, {"op": "read", "nth": k, "errno": E}, {"op": "close", "nth": k, ..}
    truncate: length at which the content ends; short: bytes one raw read returns at most.
    """

    def __init__(self, content, faults=(), truncate=None, short=0, bufsize=8192):
        self.content = content if truncate is None else content[:truncate]
        self.truncated = truncate is not None and truncate < len(content)
        self.faults = [dict(f) for f in faults]
        self.short, self.bufsize = short, bufsize
        self.n = {}
        self.fired = []
        self.hard = []
        self.open_handles = []
        self.opens = 0
        self.parsed = 0             # SPK.open calls that returned

    def op(self, kind):
        k = self.n[kind] = self.n.get(kind, 0) + 1
        for f in self.faults:
            if f["op"] == kind and (f.get("nth") == k or f.get("sticky") and k > f["nth"]):
                e = OSError(f["errno"], os.strerror(f["errno"]), EPHEMERIS_NAME)
                self.fired.append(f"ephemeris-{kind}:{errno.errorcode.get(f['errno'])}")
                self.hard.append(repr(e))           # not the exception: it would keep frames and files alive
                raise e


class EphemerisRaw(io.RawIOBase):
    def __init__(self, eph):
        self._e, self._p = eph, 0
        eph.op("open")
        eph.opens += 1
        eph.open_handles.append(self)
        self.name = EPHEMERIS_NAME

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        self._p = off if whence == 0 else self._p + off if whence == 1 else len(self._e.content) + off
        return self._p

    def tell(self):
        return self._p

    def readinto(self, b):
        e = self._e
        e.op("read")
        n = len(b)
        if e.short and n > e.short:
            n = e.short
            if "ephemeris-short-read" not in e.fired:
                e.fired.append("ephemeris-short-read")
        data = e.content[self._p:self._p + n]
        if e.truncated and len(data) < n and "ephemeris-truncated" not in e.fired:
            e.fired.append("ephemeris-truncated")
        b[:len(data)] = data
        self._p += len(data)
        return len(data)

    def close(self):
        if not self.closed:
            if self in self._e.open_handles:
                self._e.open_handles.remove(self)
            super().close()
            self._e.op("close")


ephemeris = [None]


def _is_ephemeris(file):
    try:
        return os.path.basename(os.fspath(file)) in (EPHEMERIS_NAME, EPHEMERIS_NAME.encode())
    except TypeError:
        return False


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if ephemeris[0] is not None and _is_ephemeris(file) and not set(mode) & set("wax+"):
        raw = EphemerisRaw(ephemeris[0])
        if buffering == 0:
            return raw
        return io.BufferedReader(raw, max(1, ephemeris[0].bufsize))
    d = disk[0]
    if d is None or isinstance(file, int) and file not in d.fds:
        return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    path = file if isinstance(file, int) else d.inside(file)
    if path is None:
        if set(mode) & set("wax+"):
            d.escapes.append(str(file))
            raise PermissionError(errno.EPERM, "simulated disk: write outside the scratch directory", str(file))
        return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if set(mode) & set("wax+") and not isinstance(path, int):
        d.touched.add(path)
    raw_mode = "".join(c for c in mode if c not in "btU")
    raw = FaultyRaw(d, path, raw_mode, opener, closefd)
    try:
        if buffering == 0:
            if "b" not in mode:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = d.bufsize or (buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
        if "+" in raw_mode:
            buf = io.BufferedRandom(raw, size)
        elif "r" in raw_mode:
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if "b" in mode:
            return buf
        if encoding is None and d.default_encoding:
            encoding = d.default_encoding
        txt = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        if d.chunk:
            txt._CHUNK_SIZE = d.chunk
        txt.mode = mode
        return txt
    except BaseException:
        raw.close()
        raise


def _install_io():
    real["open"] = builtins.open
    real["FileIO"] = io.FileIO
    builtins.open = sim_open
    io.open = sim_open
    _install_fd_calls()
    import shutil
    shutil._USE_CP_SENDFILE = False         # copies go through open() and write()
    try:
        from numpy.lib._datasource import _file_openers
        _file_openers._load()
        _file_openers._file_openers[None] = sim_open
    except (ImportError, AttributeError, TypeError):
        pass

    def wrap(mod, name, kind, paths):
        r = getattr(mod, name)
        real["os." + name] = r

        def f(*a, **k):
            d = disk[0]
            if d is None:
                return r(*a, **k)
            for p in a[:paths]:
                if not isinstance(p, int) and d.inside(p) is None:
                    d.escapes.append(f"{name} {p}")
                    raise PermissionError(errno.EPERM, "simulated disk: outside the scratch directory", str(p))
            d.op(kind, a[0] if a else "")
            for p in a[:paths]:
                if not isinstance(p, int):
                    d.touched.add(d.inside(p))
            return r(*a, **k)
        f.__name__ = name
        setattr(mod, name, f)
    for n in ("replace", "rename"):
        wrap(os, n, "rename", 2)
    for n in ("remove", "unlink"):
        wrap(os, n, "remove", 1)
    for n in ("mkdir", "rmdir", "truncate", "chmod"):
        wrap(os, n, n, 1)
    for n in ("fsync", "fdatasync"):
        wrap(os, n, "fsync", 0)
    real["os.stat"] = os.stat

    def sim_stat(path, *a, **k):
        if ephemeris[0] is not None and _is_ephemeris(path):
            return os.stat_result((_stat.S_IFREG | 0o644, 1, 1, 1, 0, 0, len(ephemeris[0].content), 0, 0, 0))
        return real["os.stat"](path, *a, **k)
    os.stat = sim_stat


def _install_jplephem():
    try:
        from jplephem import spk
    except ImportError:
        return
    orig = spk.SPK.open.__func__

    def open_(cls, path):
        k = orig(cls, path)
        if ephemeris[0] is not None:
            ephemeris[0].parsed += 1
        return k
    spk.SPK.open = classmethod(open_)


# ------------------------------------------------------------------------------------ statements: aborts, budgets
class Deadlock(BaseException):
    """A lock is awaited that nobody will release."""


class StatementBudget(BaseException):
    """Raised when a run executes more celest statements than its budget."""


class Tracer:
    """Counts statements executed in celest; at the n-th raises `exc`; over `budget` raises StatementBudget."""

    def __init__(self, at=None, exc=None, budget=None):
        self.n = 0
        self.at, self.exc, self.budget = at, exc, budget
        self.where = None
        self.fired = False

    def _local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.at is not None and self.n == self.at:
                self.fired = True
                self.where = f"{frame.f_code.co_filename[len(CELEST):]}:{frame.f_lineno}"
                raise self.exc
            if self.budget is not None and self.n > self.budget:
                raise StatementBudget(f"more than {self.budget} statements, at "
                                      f"{frame.f_code.co_filename[len(CELEST):]}:{frame.f_lineno}")
        return self._local

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(CELEST):
            return self._local
        return None

    def __enter__(self):
        self._before = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self._before)
        return False


class Lines(Tracer):
    """Where each source line was first executed."""

    def __init__(self):
        super().__init__(budget=2_000_000)
        self.seen = {}

    def _local(self, frame, event, arg):
        super()._local(frame, event, arg)
        if event == "line":
            self.seen.setdefault((frame.f_code, frame.f_lineno), self.n)
        return self._local


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import numpy  # noqa - bind real functions inside libraries first
    import copy, json, pickle, tempfile, linecache, inspect, warnings  # noqa
    warnings.simplefilter("ignore")
    _install_random()
    _install_clock()
    _install_io()
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True


def _lock_factories():
    """threading.Lock and RLock that celest gets: they pass the baton when threads are simulated."""
    import _thread
    import checks_threads
    real["Lock"], real["RLock"] = threading.Lock, threading.RLock

    def factory(make):
        def f(*a, **k):
            if sys._getframe(1).f_code.co_filename.startswith(CELEST):
                return checks_threads.SimLock(make)
            return make()
        return f
    threading.Lock = factory(_thread.allocate_lock)
    threading.RLock = factory(threading.RLock)


def modules():
    """The names of all celest modules."""
    mods = []
    for dp, dn, fn in os.walk(CELEST):
        dn[:] = sorted(d for d in dn if d != "__pycache__")
        for f in sorted(fn):
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(dp, f), REPO)[:-3].replace(os.sep, ".")
                mods.append(rel[:-9] if rel.endswith(".__init__") else rel)
    return mods


def load_celest():
    """Import every celest module (so that a forked run never imports)."""
    install()
    _lock_factories()
    import importlib
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    mods = modules()
    for m in mods:
        importlib.import_module(m)
    _install_jplephem()
    return mods


def reset():
    """Deactivate every simulation."""
    set_random(None)
    _rnd_state.inst = None
    clock[0] = entropy[0] = disk[0] = ephemeris[0] = None
    if id_mask[0]:
        mask_ids(0)
