"""Threads sharing inputs, under a scheduler that owns every switch: C15."""
import _thread
import os
import re
import sys
import threading

import numpy as np

import core
import seams
import world as W
from checks_files import Scratch, _facts
from checks_planning import in_child, Unjudged
from core import Check, digest


class Stop(KeyboardInterrupt):
    """The injected abort of a computation."""


class NoMemory(MemoryError):
    """The injected failing allocation."""


class WouldBlock(BaseException):
    """A lock is held by a paused thread; raised into the harness's own observations only."""


# ------------------------------------------------------------------------------------------ baton
MAX_SWITCHES = 2000


class Baton:
    """Runs threads one at a time; passes the baton at celest statements, as the schedule of the plan says.

    sched: {"kind": "random", "gap": mean statements between switches, "seed"} - a seeded scheduler,
           {"kind": "pauses", "at": [[thread, fraction of its statements, next thread]]},
           {"kind": "lines", "at": [[thread, u, v, next thread]]} - pauses at the u-th of the source lines the
            thread runs through, at its v-th passage, so that lines run once count as much as hot ones,
           {"kind": "list", "switches": [[thread, statement, next thread]]} - a recorded schedule.
    """
    active = None

    def __init__(self, bodies, sched, totals, aborts, limit, watch=None, lines=None, lookup=None):
        self.n = len(bodies)
        self.bodies, self.aborts, self.limit, self.watch = bodies, aborts, limit, watch
        self.steps = [0] * self.n
        self.state = ["ready"] * self.n
        self.gate = [_thread.allocate_lock() for _ in range(self.n)]
        for g in self.gate:
            g.acquire()
        self.held = [0] * self.n
        self.waits = [None] * self.n
        self.current = None
        self.over = _thread.allocate_lock()
        self.over.acquire()
        self.taken = []             # switches made: [thread, statement, next, where]
        self.progress = 0
        self.grants = 0
        self.deadlock = None
        self.aborted = {}
        self.overrun = None
        kind = sched["kind"]
        self.table = [dict() for _ in range(self.n)]
        self.lines = lines          # where a solo run was: {source line: its first statements}
        self.rng = None
        if kind == "list":
            for i, s, j in sched["switches"]:
                if i < self.n:
                    self.table[i][s] = j
        elif kind == "pauses":
            for i, f, j in sched["at"]:
                if i < self.n:
                    self.table[i][max(1, int(f * totals[i]))] = j
        elif kind == "lines":
            for i, f, g, j in sched["at"]:
                if i < self.n and lookup[i]:
                    at = lookup[i][int(f * len(lookup[i]))]
                    self.table[i][at[int(g * len(at))]] = j
        else:
            self.rng = [core.REAL_RANDOM(f"{sched['seed']}/{i}") for i in range(self.n)]
            self.gap = sched["gap"]
            self.next = [self._gap(i) for i in range(self.n)]
        self.first = sched.get("first", 0) % self.n

    def _gap(self, i):
        r = self.rng[i]
        return 1 if self.gap <= 1 else 1 + int(r.expovariate(1.0 / self.gap))

    # -- tracing
    def _global(self, i):
        def local(frame, event, arg):
            if event == "line":
                self.point(i, frame)
            return local

        def g(frame, event, arg):
            if frame.f_code.co_filename.startswith(seams.CELEST):
                return local
            return None
        return g

    def point(self, i, frame):
        if self.current != i:                    # was detached by the watchdog: queue up again
            self.state[i] = "ready"
            self.gate[i].acquire()
        self.progress += 1
        self.steps[i] = s = self.steps[i] + 1
        if self.lines is not None:
            at = self.lines.setdefault((frame.f_code.co_filename, frame.f_lineno), [])
            if len(at) < 40:
                at.append(s)
        if self.limit and s > self.limit[i]:
            self.overrun = (i, s)
            raise seams.StatementBudget(f"thread {i} ran more than {self.limit[i]} statements")
        a = self.aborts.get(i)
        if a and i not in self.aborted and s >= a[0] and not self.held[i]:
            self.aborted[i] = f"{frame.f_code.co_filename[len(seams.CELEST):]}:{frame.f_lineno}"
            raise a[1]
        if self.rng is None:
            j = self.table[i].get(s)
            if j is None:
                return
        else:
            if s < self.next[i] or len(self.taken) >= MAX_SWITCHES:
                return
            self.next[i] = s + self._gap(i)
            j = self.rng[i].randrange(self.n)
        j = self._ready(j, i)
        if j is None:
            return
        self.taken.append((i, s, j, f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"))
        if self.watch is not None:
            t = sys.gettrace()
            sys.settrace(None)
            try:
                self.watch(self)
            finally:
                sys.settrace(t)
        self._pass(i, j)

    # -- passing
    def _ready(self, j, i):
        """The first runnable thread at or after j, other than i."""
        for k in range(self.n):
            c = (j + k) % self.n
            if c != i and self.state[c] == "ready":
                return c
        return None

    def _pass(self, i, j):
        self.state[i] = "ready" if self.waits[i] is None else "blocked"
        self.state[j] = "running"
        self.current = j
        self.gate[j].release()
        self.gate[i].acquire()
        self.state[i] = "running"

    def block(self, i, lock):
        """Thread i waits for a lock that a paused thread holds."""
        j = self._ready(i + 1, i)
        if j is None:
            self.deadlock = f"thread {i} waits for a lock nobody will release"
            raise Stop("deadlock")
        self.waits[i] = lock
        self._pass(i, j)
        self.waits[i] = None

    def wake(self, lock):
        for k in range(self.n):
            if self.waits[k] is lock and self.state[k] == "blocked":
                self.state[k] = "ready"

    def _body(self, i):
        self.gate[i].acquire()
        self.state[i] = "running"
        self.ident[_thread.get_ident()] = i
        sys.settrace(self._global(i))
        try:
            self.bodies[i]()
        finally:
            sys.settrace(None)
            self.state[i] = "done"
            if self.current == i:
                j = self._ready(i + 1, i)
                if j is None:
                    blocked = [k for k in range(self.n) if self.state[k] == "blocked"]
                    if blocked:                  # its holder is gone: let it find out
                        self.deadlock = f"thread {blocked[0]} waits for a lock of a finished computation"
                        j = blocked[0]
                if j is None:
                    self.over.release()
                else:
                    self.state[j] = "running"
                    self.current = j
                    self.gate[j].release()
            elif all(s == "done" for s in self.state):
                self.over.release()

    def run(self):
        self.ident = {}
        Baton.active = self
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        self.current = self.first
        self.state[self.first] = "running"
        self.gate[self.first].release()
        last, idle = -1, 0
        while not self.over.acquire(timeout=1.0):
            idle = idle + 1 if self.progress == last else 0
            last = self.progress
            if idle >= 5:                        # really blocked outside the seams: let another thread go on
                i = self.current
                j = self._ready(i + 1, i)
                idle = 0
                if j is not None:
                    self.grants += 1
                    self.state[i] = "detached"
                    self.state[j] = "running"
                    self.current = j
                    self.gate[j].release()
        Baton.active = None
        for t in ts:
            t.join(5)


# ------------------------------------------------------------------------------------------ locks
class SimLock:
    """threading.Lock / RLock that passes the baton instead of blocking; a plain lock outside simulations."""

    def __init__(self, make):
        self._l = make()

    def acquire(self, blocking=True, timeout=-1):
        b = Baton.active
        i = b.ident.get(_thread.get_ident()) if b is not None else None
        if i is None:
            if b is not None and blocking and timeout == -1:
                if self._l.acquire(False):
                    return True
                raise WouldBlock()
            if b is None and blocking and timeout == -1:        # nobody else runs: waiting would be for ever
                if not self._l.acquire(False):
                    raise seams.Deadlock("waits for a lock that nobody will release")
                return True
            return self._l.acquire(blocking, timeout)
        while not self._l.acquire(False):
            if WATCHING[0]:
                raise WouldBlock()
            if not blocking or timeout >= 0:
                return False
            b.block(i, self)
        b.held[i] += 1
        return True

    def release(self):
        self._l.release()
        b = Baton.active
        i = b.ident.get(_thread.get_ident()) if b is not None else None
        if i is not None:
            b.held[i] = max(0, b.held[i] - 1)
            b.wake(self)

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, n):
        return getattr(self._l, n)

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")
    __reduce_ex__ = __deepcopy__


WATCHING = [False]


# ------------------------------------------------------------------------------------------ computations
TIME_METHODS = ["julian", "ut1", "datetime", "gmst", "gast"]
TIME_LON = ["true_solar_time", "mean_solar_time", "true_hour_angle", "mean_hour_angle", "lmst", "last"]
ASTRO = ["earth_rotation_angle", "nutation_angles", "nutation_components", "conventional_precession_angles",
         "mean_obliquity", "apparent_obliquity", "from_julian", "day_of_year", "equation_of_time",
         "equation_of_equinoxes", "sun_right_ascension"]
MATRICES = ["bias_matrix", "precession_matrix", "nutation_matrix"]
QUANTITY = ["add", "radd", "sub", "mul", "div", "rdiv", "neg", "eq", "lt", "gt", "to", "convert", "str", "scale", "square"]
KINDS = ["convert"] * 5 + ["attitude"] * 3 + ["look", "distance", "altitude", "satellite"] + ["time"] * 3 + \
    ["astro"] * 2 + ["matrix", "quantity", "quantity", "location", "to_numpy", "text"] + ["vtws"] * 3 + ["plan"] + \
    ["iterate"] * 2 + ["save"] * 3


TWO = ("convert", "attitude", "look", "distance", "altitude", "satellite", "astro", "matrix", "to_numpy", "vtws")


def gen_task(rng, kind, ns, lit):
    t = {"kind": kind, "site": rng.randrange(ns)}
    if kind in TWO and rng.random() < 0.25:
        t["two"] = True                              # about the other satellite and its track
    if kind == "convert":
        t |= {"src": rng.choice(["itrs", "gcrs", "wgs84"]), "dst": rng.choice(["ITRS", "GCRS", "WGS84", "AzEl", "AzEl"])}
    elif kind == "time":
        t |= {"m": rng.choice(TIME_METHODS + TIME_LON * 2), "lon": rng.choice(["array", "scalar", "array"])}
    elif kind == "astro":
        t["m"] = rng.choice(ASTRO)
    elif kind == "matrix":
        t["m"] = rng.choice(MATRICES)
    elif kind == "quantity":
        t |= {"m": rng.choice(QUANTITY), "a": rng.choice(["km", "m", "deg", "s", "one", "speed"]),
              "b": rng.choice(["km", "m", "deg", "s", "one", "speed"])}
    elif kind == "to_numpy":
        t |= {"src": rng.choice(["itrs", "gcrs", "vel"])}
    elif kind == "vtws":
        t |= {"thr": rng.choice([0, 5, 10, 30, None]),
              "light": rng.choice(["ANYTIME", "DAYTIME", "NIGHTTIME"] if lit else ["ANYTIME"])}
    elif kind == "plan":
        t |= {"rs": rng.getrandbits(32), "iters": rng.choice([0, 1, 2]), "p": rng.choice([0.5, 0.9]),
              "l": rng.choice([0.1, 0.5, 0.9]), "nreq": rng.choice([1, 1, 2, 3])}
    elif kind == "iterate":
        t |= {"how": rng.choice(["plain", "nested", "index", "slice", "partial"]), "src": rng.choice(["vtws", "obs"])}
    elif kind == "save":
        t |= {"src": rng.choice(["itrs", "gcrs", "wgs84", "sat", "vtws", "obs", "obs", "att", "azel", "writer"]),
              "relative": rng.random() < 0.5, "sub": rng.random() < 0.4}
    elif kind == "text":
        t |= {"src": rng.choice(["vtws", "obs", "quantity", "window"])}
    return t


class Shared:
    """The objects the threads share, all public inputs."""

    def __init__(self, plan):
        from celest import units as u
        from celest.coordinates.frames.azel import AzEl
        from celest.coordinates.frames.attitude import Attitude
        from celest.coordinates.frames.gcrs import GCRS
        from celest.coordinates.frames.wgs84 import WGS84
        from celest.encounter.window_generator import generate_vtws
        from celest.encounter.window_handling import ObservationWindow, WindowCollection
        from celest.file_save import TextFileWriter
        from celest.time import Time
        from celest.units.quantity import Quantity
        w = self.w = plan["world"]
        self.plan = plan
        r = core.REAL_RANDOM(f"shared/{plan['rs']}")
        t, pos = W.times_of(w), W.track_of(w)
        n = len(t)
        self.arrays = {"jd": t.copy(), "lon": np.array([r.uniform(-180, 180) for _ in range(n)]),
                       "x": pos[:, 0].copy(), "y": pos[:, 1].copy(), "z": pos[:, 2].copy()}
        a = self.arrays
        self.sat = W.build_satellite(w)
        self.sites = [W.build_site(s) for s in w["sites"]]
        self.frames = {"itrs": self.sat.position, "vel": self.sat.velocity,
                       "gcrs": GCRS(a["jd"], a["x"], a["y"], a["z"], u.km),
                       "wgs84": WGS84(a["jd"], np.array([r.uniform(-89, 89) for _ in t]), a["lon"],
                                      np.array([r.uniform(0, 900) for _ in t]), u.deg, u.km)}
        two = w | {"alt": w["alt"] + 120.0,
                   "blocks": [b | {"heading": (b["heading"] + 25.0) % 360} for b in w["blocks"]]}
        self.other = W.build_satellite(two)
        self.frames2 = {"itrs": self.other.position, "vel": self.other.velocity,
                        "gcrs": GCRS(a["jd"], a["y"] * 1.1, -a["x"] * 1.1, a["z"] * 0.9, u.km),
                        "wgs84": WGS84(a["jd"], -self.frames["wgs84"].latitude.data, a["lon"] * 0.5,
                                       np.array([r.uniform(0, 900) for _ in t]), u.deg, u.km)}
        self.julian2 = Quantity(a["jd"] + 0.37, u.jd2000)
        self.gvel = GCRS(a["jd"], *[np.array([r.uniform(-8, 8) for _ in t]) for _ in range(3)], u.km / u.s)
        self.time = Time(a["jd"])
        self.julian = Quantity(a["jd"], u.jd2000)
        q = lambda s: np.array([r.uniform(0.1, s) for _ in t])
        self.quantities = {"km": Quantity(q(7000), u.km), "m": Quantity(q(9e5), u.m), "deg": Quantity(q(180), u.deg),
                           "s": Quantity(q(400), u.s), "one": Quantity(r.uniform(1, 50), u.km),
                           "speed": Quantity(q(8), u.km / u.s)}
        self.att = Attitude(a["jd"], q(40), q(40), q(40), u.deg, self.sites[0])
        self.azel = AzEl(a["jd"], q(300), q(80), u.deg, self.sites[0])
        self.vtws = WindowCollection()
        try:
            self.vtws = generate_vtws(W.build_satellite(w), W.build_site(w["sites"][0]), 5.0)
        except Exception:
            pass
        self.obs = WindowCollection()
        for k in range(min(4, n)):
            self.obs.add_window(ObservationWindow(
                Quantity(float(t[(2 * k + 1) % min(4, n)]), u.jd2000), Quantity(30.0 + k, u.s), self.sites[k % len(self.sites)],
                Attitude(a["jd"][k:k + 1], *[np.array([r.uniform(-40, 40)]) for _ in range(3)], u.deg,
                         self.sites[k % len(self.sites)])))
        self.layer = [["Range", self.quantities["km"]], ["Angle", self.quantities["deg"]], ["Raw", a["lon"]]]
        self.params = [["Name", "shared"], ["Kind", "threads"]]
        self.writer = TextFileWriter
        self.u = u
        self.inputs = [("arrays", [a[k] for k in sorted(a)]), ("satellite", [self.sat, self.other]), ("sites", self.sites),
                       ("frames", [self.frames[k] for k in sorted(self.frames)] + [self.gvel] +
                        [self.frames2[k] for k in sorted(self.frames2)]),
                       ("time", lambda: self.time.julian), ("julian", [self.julian, self.julian2]),
                       ("quantities", [self.quantities[k] for k in sorted(self.quantities)]), ("attitude", self.att),
                       ("azel", self.azel), ("vtws", self.vtws), ("observations", self.obs),
                       ("layer", [str(self.params), self.layer])]

    def facts(self):
        return {k: digest(_facts(v() if callable(v) else v)) for k, v in self.inputs}

    def do(self, t, tag, root):
        """The public call a task stands for; its value as plain facts is compared."""
        import importlib
        k, u, loc = t["kind"], self.u, self.sites[t["site"] % len(self.sites)]
        sat, frames, julian = (self.other, self.frames2, self.julian2) if t.get("two") else (self.sat, self.frames, self.julian)
        if k == "convert":
            from celest.coordinates import coordinate as C
            dst = getattr(C, t["dst"])
            return C.Coordinate(frames[t["src"]]).convert_to(dst, *([loc] if t["dst"] == "AzEl" else []))
        if k == "attitude":
            return sat.attitude(loc)
        if k == "look":
            return sat.look_angle(loc)
        if k == "distance":
            return sat.distance(loc)
        if k == "altitude":
            return sat.altitude()
        if k == "satellite":
            from celest.satellite import Satellite
            return Satellite(frames["gcrs"], self.gvel)
        if k == "time":
            if t["m"] in TIME_METHODS:
                v = getattr(self.time, t["m"])
                return v() if callable(v) else v
            return getattr(self.time, t["m"])(self.arrays["lon"] if t["lon"] == "array" else 12.5 + t["site"])
        if k == "astro":
            return getattr(importlib.import_module("celest.coordinates.astronomical_quantities"), t["m"])(julian)
        if k == "matrix":
            f = getattr(importlib.import_module("celest.coordinates.nutation_precession_matrices"), t["m"])
            return f() if t["m"] == "bias_matrix" else f(julian)
        if k == "quantity":
            a, b = self.quantities[t["a"]], self.quantities[t["b"]]
            return {"add": lambda: a + b, "radd": lambda: 2.5 + a, "sub": lambda: a - b, "mul": lambda: a * b,
                    "div": lambda: a / b, "rdiv": lambda: 2 / a, "neg": lambda: -a, "eq": lambda: a == b,
                    "lt": lambda: a < b, "gt": lambda: a > b, "to": lambda: a.to(b.unit),
                    "convert": lambda: a.convert_to(b.unit), "str": lambda: str(a) + repr(b),
                    "scale": lambda: a * 3, "square": lambda: a * a}[t["m"]]()
        if k == "location":
            return [loc.radius, loc.itrs_x, loc.itrs_y, loc.itrs_z, str(loc), loc.latitude, loc.height]
        if k == "to_numpy":
            return frames[t["src"]].to_numpy(u.m / u.s if t["src"] == "vel" else u.m)
        if k == "vtws":
            from celest.encounter.window_generator import generate_vtws
            thr = self.w["thr"] if t["thr"] is None else t["thr"]
            return generate_vtws(sat, loc, thr, W.lighting(t["light"]))
        if k == "plan":
            from celest.schedule.scheduler import Scheduler
            seams.set_random(seams.SimRandom(t["rs"]), thread_only=True)
            s = Scheduler(self.sat, self.w["thr"])
            reqs = self.plan["reqs"]
            for i in range(min(t["nreq"], len(reqs))):
                W.add_request(s, self.w, reqs[(i + t["site"]) % len(reqs)], self.sites)
            return s.generate(t["iters"], t["p"], t["l"])
        if k == "iterate":
            c = self.vtws if t["src"] == "vtws" else self.obs
            at = (lambda x: x.rise_time) if t["src"] == "vtws" else (lambda x: x.start_time)
            if t["how"] == "plain":
                return [at(x) for x in c]
            if t["how"] == "nested":
                return [[at(x), at(y)] for x in c for y in c]
            if t["how"] == "index":
                return [at(c[i]) for i in range(len(c))]
            if t["how"] == "slice":
                return [at(x) for x in c[:2]]
            it = iter(c)
            head = [at(x) for x, _ in zip(it, range(1))]
            return head + [at(x) for x in c] + [len(c)]
        if k == "text":
            if t["src"] == "quantity":
                out = [str(self.quantities["km"]), str(self.time.julian), repr(self.sat.position.x)]
            elif t["src"] == "window":
                out = [str(x) for x in self.obs[:2]] + [repr(x.rise_time) for x in self.vtws[:2]]
            else:
                out = [str(self.obs if t["src"] == "obs" else self.vtws)]
            return [re.sub("0x[0-9a-f]+", "0x", x) for x in out]     # object addresses say nothing
        if k == "save":
            name = os.path.join("sub", f"{tag}.txt") if t.get("sub") else f"{tag}.txt"
            path = name if t.get("relative") else os.path.join(root, name)
            if t["src"] == "writer":
                w = self.writer(path, "Shared layers")
                w.add_layer("Layer", self.params, self.layer, "%.6f")
                w.add_layer(data=self.layer)
                w.save()
            else:
                {"sat": self.sat, "vtws": self.vtws, "obs": self.obs, "att": self.att, "azel": self.azel}.get(
                    t["src"], self.frames.get(t["src"])).save_text_file(path)
            with seams.real["open"](os.path.join(root, name), "rb") as f:
                return f.read().decode("utf-8", "replace")
        raise AssertionError(k)


def task_facts(shared, t, tag, root):
    """(facts, live value) of a task; an exception is an outcome too."""
    try:
        v = shared.do(t, tag, root)
    except (Stop, NoMemory, seams.StatementBudget):
        raise
    except Exception as e:
        return ("raised", type(e).__name__), None
    tr = sys.gettrace()
    sys.settrace(None)
    try:
        return ("value", _facts(v)), v
    finally:
        sys.settrace(tr)


def agree(a, b):
    """Equal facts; floats may differ in the last digits."""
    if a == b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        if len(a) == 4 and a[0] == "array" and b[:1] == ("array",) and a[1:3] == b[1:3] and isinstance(a[3], bytes):
            x, y = np.frombuffer(a[3], a[1]), np.frombuffer(b[3], a[1])
            return x.dtype.kind == "f" and bool(np.allclose(x, y, rtol=1e-9, atol=1e-9, equal_nan=True))
        return len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    if isinstance(a, str) and len(a) < 60:
        try:
            return abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(a)))
        except ValueError:
            return False
    return False


def brief(f):
    return str(f)[:110]


# ------------------------------------------------------------------------------------------ the check
class C15(Check):
    id = "C15"
    level = "exploration"
    tiers = {"quick": {"runs": 50000, "wall": 110}, "thorough": {"runs": 1000000, "wall": 600}}
    hang_is_violation = False
    rule = ("a run gives 2-4 threads 1-3 computations each on shared objects and passes a baton between them at celest "
            "statements as a seeded schedule says: random gaps of mean 1 to 1000, or a "
            "few pauses at chosen points or source lines with the other threads run to their end; some threads are aborted at a "
            "chosen statement. Non-trivial: at least one switch was made while both threads were mid-computation")
    measure = "digest of the sequence of switches (thread, next thread, source line) and the computations"
    real = ["all of celest that the computations reach (see the task kinds in the rule)", "Python threads", "jplephem.spk"]
    stubs = ["thread scheduling (one thread at a time, switches decided by the plan)", "threading.Lock and RLock",
             "Python's random generator (one seeded stream per thread)", "de421.bsp (in memory)",
             "disk (scratch directory, no faults)"]
    assumptions = ["switches happen between celest statements, not inside numpy or jplephem calls",
                   "each thread owns its scheduler object and its random numbers; tracks, satellites, locations, "
                   "quantities, times, arrays and collections are shared",
                   "results may differ from solo results in the last digits (1e-9 relative); inputs not at all"]

    def gen(self, rng, tier, i):
        lit = rng.random() < 0.35
        w = W.gen_world(rng, lighting=lit, nsites=rng.choice([1, 2, 2, 3]), npass=rng.choice([1, 1, 2]))
        if rng.random() < 0.15:                      # two places that differ in height only
            w["sites"].append(w["sites"][0] | {"h": round(w["sites"][0]["h"] + 2.5, 3)})
        n = rng.choice([2, 2, 2, 3, 4])
        theme = rng.choice(KINDS) if rng.random() < 0.5 else None
        threads = []
        for _ in range(n):
            ts = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                k = theme if theme and rng.random() < 0.75 else rng.choice(KINDS)
                ts.append(gen_task(rng, k, len(w["sites"]), lit))
            threads.append(ts)
        if rng.random() < 0.25:                      # the very same computation in two threads
            threads[1] = [dict(t) for t in threads[0]]
        x = rng.random()
        if x < 0.4:
            sched = {"kind": "lines", "at": [[rng.randrange(n), round(rng.random(), 5), round(rng.random() ** 2, 4),
                                              rng.randrange(n)] for _ in range(rng.choice([1, 1, 2, 3, 5]))]}
        elif x < 0.75:
            sched = {"kind": "random", "gap": rng.choice([1, 2, 4, 10, 30, 100, 400]), "seed": rng.getrandbits(32)}
        else:
            sched = {"kind": "pauses", "at": [[rng.randrange(n), round(rng.random(), 4), rng.randrange(n)]
                                              for _ in range(rng.choice([1, 1, 2, 3, 6]))]}
        sched["first"] = rng.randrange(n)
        if "at" in sched:
            sched["at"][0][0] = sched["first"]
        aborts = []
        if rng.random() < 0.35:
            for a in sorted(rng.sample(range(n), rng.choice([1, 1, 2]) if n > 2 else 1)):
                aborts.append([a, round(rng.random(), 4), rng.choice(["stop", "memory"])])
        return {"rs": rng.getrandbits(32), "world": w, "reqs": W.gen_requests(rng, w, 4), "threads": threads,
                "sched": sched, "aborts": aborts}

    def execute(self, plan, res):
        sc = Scratch()
        try:
            seams.disk[0] = seams.Disk(sc.root)
            os.chdir(sc.root)
            self.judge(plan, res, sc)
        except Unjudged:
            res.hit("unjudged")
        finally:
            sc.close()
            seams.reset()

    def judge(self, plan, res, sc):
        w = plan["world"]
        seams.clock[0] = seams.SimClock(1.6e9, plan["rs"])
        seams.entropy[0] = core.REAL_RANDOM(f"entropy/{plan['rs']}")
        if w.get("sun"):
            seams.ephemeris[0] = seams.Ephemeris(W.spk_bytes(w["sun"], w["t0"]))
        sh = Shared(plan)
        before = in_child(sh.facts)                  # reading may fill what is computed on demand: not here

        def solo(i):
            def f():
                out, lines = [], {}
                b = Baton([lambda: [out.append(task_facts(sh, t, f"solo{i}-{k}", sc.root)[0])
                                    for k, t in enumerate(plan["threads"][i])]], {"kind": "list", "switches": []},
                          [0], {}, None, lines=lines)
                b.run()
                return out, b.steps[0], sh.facts(), [lines[k] for k in sorted(lines)]
            return f
        alone = [in_child(solo(i)) for i in range(len(plan["threads"]))]
        for i, (out, steps, after, _) in enumerate(alone):
            for k in before:
                if after[k] != before[k]:
                    res.fail("input-modified", f"{k} changed by {plan['threads'][i]} run alone")
                    return
        totals = [a[1] for a in alone]
        got = [[] for _ in alone]
        live = [[] for _ in alone]
        died = {}

        def body(i):
            def f():
                for k, t in enumerate(plan["threads"][i]):
                    try:
                        facts, v = task_facts(sh, t, f"t{i}-{k}", sc.root)
                    except (Stop, NoMemory, seams.StatementBudget) as e:
                        died[i] = type(e).__name__
                        if i not in b.aborted or b.deadlock or b.overrun:
                            return
                        facts, v = None, None        # the thread goes on with what else it has to do
                    got[i].append(facts)
                    live[i].append(v)
            return f
        aborts = {a: (max(1, int(f * totals[a])), (Stop if kind == "stop" else NoMemory)("injected"))
                  for a, f, kind in plan["aborts"] if a < len(totals)}
        seen = {"n": 0, "bad": None, "busy": 0}

        def watch(b):
            if sum(0 < s < t for s, t in zip(b.steps, totals)) >= 2:
                seen["busy"] += 1
            if seen["bad"] or seen["n"] >= 8:
                return
            if seen["n"] > 3 and len(b.taken) % 7:
                return
            seen["n"] += 1
            WATCHING[0] = True
            try:
                f = sh.facts()
                for k in before:
                    if f[k] != before[k]:
                        seen["bad"] = f"{k} changed while threads are at {b.taken[-1]}"
            except WouldBlock:
                pass
            finally:
                WATCHING[0] = False
        b = Baton([body(i) for i in range(len(alone))], plan["sched"], totals, aborts,
                  [20 * t + 100000 for t in totals], watch, lookup=[a[3] for a in alone])
        b.run()
        # ------------------------------------------------------------------ verdict
        names = [",".join(t["kind"] for t in ts) for ts in plan["threads"]]
        res.hit("switches", len(b.taken))
        res.hit("statements", sum(b.steps))
        if b.aborted:
            res.hit("aborted-threads", len(b.aborted))
        if b.grants:
            res.hit("watchdog-grants", b.grants)
        for ts in plan["threads"]:
            for t in ts:
                res.hit("task:" + t["kind"])
        res.simtime += sum(totals) * 1e-6
        res.nontrivial = seen["busy"] > 0
        res.sig = digest(([(x[0], x[2], x[3]) for x in b.taken], names, sorted(b.aborted.items())))
        res.digest = digest((b.taken, b.steps, [digest(g) for g in got], sorted(b.aborted.items())))
        res.event("threads", names, "statements", totals)
        res.event("switches", [list(x[:3]) for x in b.taken[:8]], f"of {len(b.taken)}")
        if plan.get("record"):
            res.agg = [list(x[:3]) for x in b.taken]
        if seen["bad"]:
            res.fail("input-modified", seen["bad"])
        after = sh.facts()
        for k in before:
            if after[k] != before[k]:
                res.fail("input-modified", f"{k} differs after threads {names}, aborted {sorted(b.aborted.items())}")
        if b.deadlock and not b.grants:
            res.fail("deadlock", b.deadlock)
        if b.overrun:
            res.fail("runs-away", f"thread {b.overrun[0]} of {names} alone needs {totals[b.overrun[0]]} statements")
        for i, (want, _, _, _) in enumerate(alone):
            if i not in b.aborted and len(got[i]) != len(want) and not (b.deadlock or b.overrun):
                res.fail("result-differs", f"thread {i} {names[i]} stopped early: {died.get(i)}")
            for k, (g, x) in enumerate(zip(got[i], want)):
                if g is None:
                    continue
                if not agree(g, x):
                    res.fail("result-differs", f"{plan['threads'][i][k]} beside {names}: {brief(g)} alone {brief(x)}")
                elif g[0] == "value" and not isinstance(live[i][k], (str, bytes)) and \
                        _facts(live[i][k]) != g[1]:
                    res.fail("result-overwritten", f"{plan['threads'][i][k]}: its value changed after it was returned, "
                                                   f"beside {names}")
        if not res.violations:
            for i, ts in enumerate(plan["threads"]):         # and once more, after everything that happened
                for k, t in enumerate(ts[:1]):
                    f, _ = task_facts(sh, t, f"again{i}-{k}", sc.root)
                    if not agree(f, alone[i][0][k]):
                        res.fail("result-differs", f"{t} again after {names}, aborted {sorted(b.aborted.items())}: "
                                                   f"{brief(f)} alone {brief(alone[i][0][k])}")
            seams.set_random(None, thread_only=True)

    def shrink(self, plan):
        s = plan["sched"]
        if s["kind"] != "list":
            r = core.Forker(self, limit=60).one(plan | {"record": True})
            if r.agg is not None:
                yield plan | {"sched": {"kind": "list", "switches": r.agg, "first": s.get("first", 0)}}
        else:
            for p in core.drop_each(s, "switches"):
                yield plan | {"sched": p}
        for p in core.drop_each(plan, "aborts"):
            yield p
        n = len(plan["threads"])
        for i in reversed(range(n)):
            if n > 1 and i == n - 1:
                yield plan | {"threads": plan["threads"][:-1]}
            if len(plan["threads"][i]) > 1:
                for k in range(len(plan["threads"][i])):
                    ts = plan["threads"][i]
                    yield plan | {"threads": plan["threads"][:i] + [ts[:k] + ts[k + 1:]] + plan["threads"][i + 1:]}
        yield from W.shrink_world(plan)


CHECKS = [C15]
