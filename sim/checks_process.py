"""The library and its process: what it leaves behind there (C17) and what it takes from there (C18)."""
import decimal
import errno
import faulthandler
import gc
import io
import json
import locale
import logging
import os
import random
import resource
import signal
import socket
import subprocess
import sys
import tempfile
import threading
import time
import warnings

import numpy as np

import core
import seams
import world as W
from checks_files import Doc, Scratch, _facts, disk_of, gen_doc, gen_faults
from checks_planning import abort_point, in_child, Unjudged
from checks_threads import KINDS, NoMemory, Shared, Stop, agree, brief, gen_task
from core import Check, digest

PATCHABLE = ["builtins", "os", "os.path", "io", "random", "time", "datetime", "math", "copy", "json", "warnings", "signal",
             "threading", "tempfile", "locale", "numpy", "numpy.linalg", "jplephem.spk", "shutil", "sys", "enum", "functools",
             "itertools", "collections", "operator", "logging", "decimal", "contextlib", "string", "numpy.random"]
LAZY = {"last_exc", "last_value", "last_type", "last_traceback", "tempdir", "stdout", "stderr", "path_importer_cache"}
REFUSALS = ["iterations", "proportion", "learning", "empty", "index", "window", "units", "threshold", "site", "lengths",
            "azel", "path", "nowhere", "blank", "lookangle", "lighting", "dimension"]
WINDOW = 6                              # consecutive statements in which an abort must leave the change


class WatchedRandom(seams.SimRandom):
    """Notes that somebody set the state of the generator."""
    resets = 0

    def seed(self, a=None, version=2):
        self.resets += 1
        super().seed(a, version)

    def setstate(self, s):
        self.resets += 1
        super().setstate(s)


# ------------------------------------------------------------------------------------------ process state
def unit_facts():
    from celest import constants, units
    from celest.encounter.window_generator import Lighting
    out = []
    for k, v in sorted(vars(units).items()):
        if hasattr(v, "scale") and hasattr(v, "bases") and not isinstance(v, type):
            out.append((k, str(v), repr(v.scale), v.dimension, [str(b) for b in v.bases], [repr(p) for p in v.powers]))
    out += [(k, repr(v)) for k, v in sorted(vars(constants).items()) if isinstance(v, (int, float))]
    return digest((out, [(x.name, repr(x.value)) for x in Lighting]))


def snapshot(sc, celest=True):
    """What of the process the rest of the program relies on, as {name: plain value}."""
    with seams.real["open"]("/proc/self/status") as f:
        umask = [ln for ln in f if ln.startswith("Umask")]
    ctx = decimal.getcontext()
    root = logging.getLogger()
    out = {
        "working directory": os.getcwd(), "environment": digest(sorted(os.environ.items())), "file mode mask": umask,
        "signal handlers": [repr(signal.getsignal(s)) for s in sorted(signal.valid_signals())],
        "blocked signals": sorted(map(int, signal.pthread_sigmask(signal.SIG_BLOCK, []))),
        "timers": [signal.getitimer(t)[1] for t in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)],
        "recursion limit": sys.getrecursionlimit(), "thread switch interval": sys.getswitchinterval(),
        "integer string limit": sys.get_int_max_str_digits(),
        "warning filters": [(f[0], str(f[1]), f[2].__name__, str(f[3]), f[4]) for f in warnings.filters],
        "warning display": id(warnings.showwarning),
        "numpy error handling": (sorted(np.geterr().items()), repr(np.geterrcall())),
        "numpy print options": sorted((k, repr(v)) for k, v in np.get_printoptions().items()),
        "numpy buffer size": np.getbufsize(), "numpy random state": hash((np.random.get_state()[1].tobytes(),) + np.random.get_state()[2:]),
        "locale": locale.setlocale(locale.LC_ALL), "decimal context": (ctx.prec, ctx.rounding, ctx.Emax, ctx.Emin, repr(
            sorted((k.__name__, v) for k, v in ctx.traps.items()))),
        "standard streams": [id(sys.stdin), id(sys.stdout), id(sys.stderr), id(sys.displayhook)],
        "import path": list(sys.path), "import hooks": [id(x) for x in sys.meta_path],
        "exception hooks": [id(sys.excepthook), id(threading.excepthook), id(sys.unraisablehook)],
        "tracing": [repr(sys.gettrace()), repr(sys.getprofile())],
        "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), gc.get_freeze_count() > 0, len(gc.callbacks)),
        "crash reports": faulthandler.is_enabled(), "sockets": socket.getdefaulttimeout(),
        "threads": threading.active_count(),
        "open files": len(os.listdir("/proc/self/fd")),
        "resource limits": [resource.getrlimit(r) for r in (resource.RLIMIT_NOFILE, resource.RLIMIT_FSIZE, resource.RLIMIT_STACK,
                                                            resource.RLIMIT_AS)],
        "processors": (sorted(os.sched_getaffinity(0)), os.getpriority(os.PRIO_PROCESS, 0)),
        "logging": (root.level, [id(h) for h in root.handlers], logging.root.manager.disable, logging.raiseExceptions,
                    repr(logging.getLoggerClass()), logging.lastResort is None),
        "thread stack": threading.stack_size(),
    }
    if celest:
        out["units and constants"] = unit_facts()
    if sc.quiet is not None:
        out["standard output"] = sc.quiet.getvalue()
        out["standard error"] = sc.loud.getvalue()
    return out


def namespaces():
    """{(module, name): identity} of what modules outside celest offer."""
    return {(m, k): id(v) for m in PATCHABLE if m in sys.modules for k, v in vars(sys.modules[m]).items()
            if k not in LAZY and not k.startswith("__")}


def changed(a, b, names):
    """What differs between two snapshots and namespaces."""
    out = [f"{k} {str(a[k])[:90]} -> {str(b[k])[:90]}" for k in a if a[k] != b[k]]
    now = namespaces()
    out += [f"{m}.{k} replaced" for (m, k), v in names.items() if now.get((m, k)) != v]
    return out


def gen_ambient(rng):
    """Settings of the program that uses the library."""
    return {"umask": rng.choice([0o022, 0o027, 0o077, 0o002]), "recursion": rng.choice([1000, 1500, 3000]),
            "interval": rng.choice([0.005, 0.01, 0.001]), "prec": rng.choice([28, 9, 50]),
            "err": [rng.choice(["ignore", "warn", "ignore", "call"]) for _ in range(4)],
            "print": [rng.choice([8, 3, 15]), rng.choice([1000, 5]), rng.random() < 0.3],
            "filters": rng.choice(["ignore", "default", "always", "once"]), "gc": rng.choice([True, True, False]),
            "threshold": rng.choice([[700, 10, 10], [50, 3, 3]]), "buf": rng.choice([8192, 16384]),
            "locale": rng.choice(["C", "C.utf8"]), "cwd": rng.choice(["", "sub"]), "tz": rng.choice([None, "Asia/Tokyo"])}


def settle(amb, sc):
    """The settings of the program that uses the library."""
    os.umask(amb["umask"])
    sys.setrecursionlimit(amb["recursion"])
    sys.setswitchinterval(amb["interval"])
    decimal.getcontext().prec = amb["prec"]
    np.seterr(**dict(zip(("divide", "over", "under", "invalid"), amb["err"])))
    np.seterrcall(_heard)
    np.set_printoptions(precision=amb["print"][0], threshold=amb["print"][1], suppress=amb["print"][2])
    np.setbufsize(amb["buf"])
    warnings.filterwarnings("ignore", message="the program's own")
    warnings.simplefilter(amb["filters"], RuntimeWarning)
    warnings.showwarning = _shown
    gc.set_threshold(*amb["threshold"])
    (gc.enable if amb["gc"] else gc.disable)()
    try:
        locale.setlocale(locale.LC_ALL, amb["locale"])
    except locale.Error:
        pass
    if amb["tz"]:
        os.environ["TZ"] = amb["tz"]
        time.tzset()
    os.environ["THE_PROGRAM"] = "own"
    signal.signal(signal.SIGINT, _handler)
    signal.signal(signal.SIGUSR1, signal.SIG_IGN)
    np.random.seed(11)
    sc.quiet = sys.stdout = io.StringIO()
    sc.loud = sys.stderr = io.StringIO()
    os.makedirs(os.path.join(sc.root, "tmp"), exist_ok=True)
    tempfile.tempdir = os.path.join(sc.root, "tmp")
    os.chdir(os.path.join(sc.root, amb["cwd"]))


def _heard(*a):
    pass


def _shown(*a, **k):
    pass


def _handler(*a):
    pass


# ------------------------------------------------------------------------------------------ the checks
class C17(Check):
    id = "C17"
    level = "exploration"
    tiers = {"quick": {"runs": 9000, "wall": 75, "limit": 60}, "thorough": {"runs": 200000, "wall": 600, "limit": 60}}
    hang_is_violation = False
    rule = ("histories of 1-8 public calls (conversions, attitudes, times, units, collections, windows, plans, saves, refused "
            "calls) in a process whose settings were chosen at random; calls return, refuse, meet disk and ephemeris faults or "
            "are aborted at a chosen statement; process-wide state is compared before and after each call. Non-trivial: "
            "at least one call did not simply return, or planned, or saved")
    measure = "distinct (operation, outcome, place of the abort) tuples"
    real = ["all of celest that the calls reach", "jplephem.spk", "io.BufferedWriter, io.TextIOWrapper"]
    stubs = ["raw files", "de421.bsp (in memory)", "Python's random generator (seeded, resets noted)", "clocks, entropy"]
    assumptions = ["a setting that only an abort within fewer than 6 consecutive statements leaves behind is not judged: no "
                   "program text can close the gap between changing and protecting a setting",
                   "caches inside celest, imported modules and lazily set defaults of the standard library are not state others rely on"]

    def gen(self, rng, tier, i):
        lit = rng.random() < 0.5
        w = W.gen_world(rng, lighting=lit, nsites=rng.choice([1, 2, 2]), npass=rng.choice([1, 1, 2]))
        theme = rng.choice(KINDS + ["plan", "save", "vtws"]) if rng.random() < 0.4 else None
        ops = []
        for _ in range(rng.choice([1, 2, 3, 4, 6, 8])):
            x = rng.random()
            if x < 0.16:
                d = gen_doc(rng)
                op = {"op": "doc", "doc": d, "io": gen_faults(rng, 0, rng.random() < 0.7)}
            elif x < 0.23:
                op = {"op": "alns", "iters": rng.choice([0, 1, 5, 30]), "goal": rng.choice([9.5, 7.0, 3.0, -99.0]),
                      "fail": rng.choice([None, None, rng.randint(1, 12)]), "who": rng.choice(["destroy", "repair", "cost", "complete"]),
                      "p": rng.choice([0.5, 0.9, 1.0]), "l": rng.choice([0.0, 0.3, 1.0])}
            elif x < 0.33:
                op = {"op": "refuse", "what": rng.choice(REFUSALS)}
            else:
                k = theme if theme and rng.random() < 0.7 else rng.choice(KINDS + ["plan"] * 4 + ["vtws"] * 2)
                op = {"op": "task", "t": gen_task(rng, k, len(w["sites"]), lit)}
                if k == "plan":
                    op["t"]["nreq"] = rng.choice([1, 2, 3, 4, 4, 8, 12])
                if k in ("vtws", "plan") and lit and rng.random() < 0.4:
                    op["eph"] = rng.choice([{"open": errno.EACCES}, {"open": errno.EMFILE},
                                            {"read": rng.randint(1, 10), "errno": errno.EIO},
                                            {"cut": round(rng.random(), 4)}, {"absent": True}])
            if rng.random() < 0.3 and op["op"] != "refuse":
                op["abort"] = [rng.choice([rng.random(), rng.random(), rng.random() ** 4, 1 - rng.random() ** 3 * 0.1]),
                               rng.choice(["stop", "stop", "memory"])]
            ops.append(op)
        amb = gen_ambient(rng)
        if self.id == "C17" and i % 150 == 7:
            return {"rs": rng.getrandbits(32), "import": True, "amb": amb}
        return {"rs": rng.getrandbits(32), "world": w, "reqs": W.gen_requests(
            rng, w, 4, ("ANYTIME", "DAYTIME", "NIGHTTIME") if lit else ("ANYTIME",)), "ops": ops, "amb": amb}

    def execute(self, plan, res):
        if plan.get("import"):
            return self.imports(plan, res)
        sc = Scratch()
        try:
            self.judge(plan, res, sc)
        except Unjudged:
            res.hit("unjudged")
        finally:
            sc.close()
            seams.reset()

    def judge(self, plan, res, sc):
        w = plan["world"]
        sc.quiet = None
        seams.clock[0] = seams.SimClock(1.6e9, plan["rs"])
        seams.entropy[0] = core.REAL_RANDOM(f"entropy/{plan['rs']}")
        self.rnd = seams.set_random(WatchedRandom(plan["rs"]))
        seams.disk[0] = seams.Disk(sc.root)
        self.kernel = W.spk_bytes(w["sun"], w["t0"]) if w.get("sun") else None
        if self.kernel:
            seams.ephemeris[0] = seams.Ephemeris(self.kernel)
        sh = Shared(plan)
        out, err = sys.stdout, sys.stderr
        settle(plan["amb"], sc)
        gc.collect()
        gc.freeze()                                  # what exists already need not be searched again
        try:
            sigs = []
            for n, op in enumerate(plan["ops"]):
                sig = self.step(plan, res, sc, sh, n, op)
                sigs.append(sig)
                if res.violations or sig is None:
                    break
        finally:
            sys.stdout, sys.stderr = out, err
        res.sig = digest(sigs)
        res.digest = digest((sigs, self.rnd.draws))

    @staticmethod
    def imports(plan, res):
        """Importing celest in a process that has imported all it builds on."""
        p = subprocess.run([sys.executable, "-B", "-W", "ignore", os.path.join(os.path.dirname(__file__), "import_probe.py")],
                           input=json.dumps(plan["amb"] | {"rs": plan["rs"]}), capture_output=True, text=True, timeout=300)
        line = [x for x in p.stdout.splitlines() if x.startswith("CHANGED ")]
        if p.returncode or not line:
            raise RuntimeError(f"import probe: {p.returncode} {p.stderr[-500:]}")
        for b in json.loads(line[0][8:]):
            res.fail("process-changed", f"after importing celest: {b}")
        res.hit("imports")
        res.nontrivial = True
        res.sig = res.digest = digest(("import", line))

    def call(self, plan, sc, sh, n, op, tracer):
        """(outcome, disk or None)"""
        seams.disk[0] = d = seams.Disk(sc.root)
        if op["op"] == "doc":
            doc = Doc(op["doc"])
            name = os.path.join(sc.root, op["doc"]["name"])
            seams.disk[0] = d = disk_of(sc.root, doc, op["io"])
            f = lambda: doc.save(name)
        elif op["op"] == "alns":
            f = lambda: self.search(op)
        elif op["op"] == "refuse":
            f = lambda: self.refuse(op["what"], sh)
        else:
            f = lambda: self.act(op, n, sh, sc.root)
        if self.kernel:
            e = op.get("eph") or {}
            faults = [{"op": "open", "nth": 1, "errno": e["open"]}] if "open" in e else \
                [{"op": "read", "nth": e["read"], "errno": e["errno"], "sticky": True}] if "read" in e else []
            seams.ephemeris[0] = None if "absent" in e else seams.Ephemeris(
                self.kernel, faults, int(e["cut"] * len(self.kernel)) if "cut" in e else None)
        self.facts = None
        kept = []
        if op.get("use"):
            arrays_of(sh, kept, set())
        try:
            with tracer:
                v = f()
            out = "returned"
            if self.id == "C18":
                self.facts = _facts(v)
                if op.get("use"):
                    self.used += scribble(v, kept)
            v = None
        except (Stop, NoMemory):
            out = "aborted"
        except seams.StatementBudget:
            raise Unjudged("too long")
        except Exception as x:
            out = f"raised {type(x).__name__}"
        if self.id == "C17":
            gc.collect()
        return out, d

    def act(self, op, n, sh, root):
        return self.plan_it(op["t"], sh) if op["t"]["kind"] == "plan" else sh.do(op["t"], f"t{n}", root)

    def plan_it(self, t, sh):
        from celest.schedule.scheduler import Scheduler
        s = Scheduler(sh.sat, sh.w["thr"])
        reqs = sh.plan["reqs"]
        for i in range(t["nreq"]):
            W.add_request(s, sh.w, reqs[(i + t["site"]) % len(reqs)], sh.sites)
        return s.generate(t["iters"], t["p"], t["l"])

    def search(self, op):
        """The search engine with the caller's own functions, of which one may fail."""
        from celest.schedule.alns import ALNS
        calls = {}

        def noted(who, f):
            def g(*a):
                calls[who] = calls.get(who, 0) + 1
                if op["who"] == who and calls[who] == op["fail"]:
                    raise LookupError("the caller's function fails")
                return f(*a)
            return g

        def less(s, n):
            s[0] -= n

        def more(s, n):
            s[0] += n / 2
        a = ALNS([10.0])
        a.add_cost_function(noted("cost", lambda s: s[0]))
        a.add_destroy_functions([noted("destroy", less), noted("destroy", more)])
        a.add_repair_functions([noted("repair", lambda s, n: None), noted("repair", more)])
        a.add_completeness_function(noted("complete", lambda s: s[0] <= op["goal"]))
        return a.solve(op["iters"], op["p"], op["l"], 1, 1)

    def refuse(self, what, sh):
        """A call that has to be refused, or that might be."""
        from celest import units as u
        from celest.coordinates.coordinate import Coordinate
        from celest.coordinates.frames.azel import AzEl
        from celest.coordinates.frames.gcrs import GCRS
        from celest.coordinates.ground_location import GroundLocation
        from celest.encounter.window_generator import generate_vtws
        from celest.schedule.scheduler import Scheduler
        s = lambda: Scheduler(sh.sat, sh.w["thr"])
        jd = sh.arrays["jd"]

        def planned(**k):
            x = s()
            W.add_request(x, sh.w, sh.plan["reqs"][0], sh.sites)
            return x.generate(*[k.get(n, d) for n, d in (("iterations", 2), ("proportion", 0.5), ("learning", 0.5))])
        return {"iterations": lambda: planned(iterations=-1), "proportion": lambda: planned(proportion=7.0),
                "learning": lambda: planned(learning=-3.0), "empty": lambda: s().generate(3, 0.5, 0.5),
                "index": lambda: sh.obs[99], "window": lambda: sh.obs.add_window("no window"),
                "units": lambda: sh.quantities["km"] + sh.quantities["s"],
                "dimension": lambda: sh.quantities["km"].to(u.s),
                "threshold": lambda: generate_vtws(sh.sat, sh.sites[0], 95),
                "site": lambda: GroundLocation(100.0, 0.0, 0.0, u.deg, u.km),
                "lengths": lambda: GCRS(jd, jd[:1], jd[:1], jd, u.km),
                "azel": lambda: Coordinate(sh.frames["itrs"]).convert_to(AzEl),
                "path": lambda: sh.sat.save_text_file(5),
                "nowhere": lambda: sh.sat.save_text_file("nowhere/at/all"),
                "blank": lambda: sh.writer("x", None).save(),
                "lookangle": lambda: planned(iterations="many"),
                "lighting": lambda: generate_vtws(sh.sat, sh.sites[0], 5, "noon")}[what]()

    def step(self, plan, res, sc, sh, n, op):
        """Signature of the step; None ends the history."""
        name = op["t"]["kind"] if op["op"] == "task" else op["op"] if op["op"] != "refuse" else "refuse:" + op["what"]
        trace = seams.Tracer(budget=2_000_000)
        if op.get("abort"):
            total = self.apart(plan, sc, sh, n, op, None)[1]
            at = max(1, min(total, int(op["abort"][0] * total) + 1))
            trace = self.tracer(op, at)
        plans = name in ("plan", "alns") or name.startswith("refuse:")
        files, names, resets, rstate = sc.listing(), namespaces(), self.rnd.resets, hash(self.rnd.getstate())
        gc.collect()
        before = snapshot(sc)
        out, d = self.call(plan, sc, sh, n, op, trace)
        bad = changed(before, snapshot(sc), names)
        if self.rnd.resets != resets:
            bad.append("Python's random generator was seeded or rewound")
        if not plans and hash(self.rnd.getstate()) != rstate:
            bad.append("Python's random generator advanced")
        seams.disk[0] = None
        after = sc.listing()
        mine = {os.path.normpath(x) for x in self.targets(op, n)}
        for k in sorted(set(files) | set(after)):
            if files.get(k) != after.get(k) and (op["op"] != "doc" or k not in mine) and not self.asked(op, k, mine):
                if not (op["op"] == "doc" and d.fired) and out != "aborted":
                    bad.append(f"file {k} {'appeared' if k not in files else 'vanished' if k not in after else 'changed'}")
        if op["op"] != "refuse":
            bad += [f"file {x} was to be changed" for x in d.escapes]
        res.hit("op:" + name)
        res.hit("outcome:" + out.split()[0])
        for k in d.fired:
            res.hit(k)
        if seams.ephemeris[0] is not None:
            for k in seams.ephemeris[0].fired:
                res.hit(k)
        if out != "returned" or name in ("plan", "alns", "doc", "save"):
            res.nontrivial = True
        res.event(n, name, out, trace.where)
        if bad and out == "aborted" and not self.lasting(plan, sc, sh, n, op, at, bad):
            res.hit("abort-in-a-gap")
            return None
        for b in bad:
            res.fail("process-changed", f"after {name} {out}{' at ' + trace.where if trace.where else ''}: {b}")
        return name, out, trace.where

    @staticmethod
    def targets(op, n):
        if op["op"] == "doc":
            x = op["doc"]["name"]
            return [x, x + ".txt", x.strip(), x.strip() + ".txt"]
        return []

    @staticmethod
    def asked(op, k, mine):
        """Is this the file the call was to write?"""
        if op["op"] == "doc":
            return k in mine
        if op["op"] == "refuse":
            return op["what"] in ("path", "blank") and not k.startswith("tmp/")
        return op["op"] == "task" and op["t"]["kind"] == "save" and not k.startswith("tmp/")

    @staticmethod
    def tracer(op, at):
        return seams.Tracer(at, (Stop if op["abort"][1] == "stop" else NoMemory)("injected"), 2_000_000)

    def apart(self, plan, sc, sh, n, op, at):
        """What an abort at a statement changes, and the statements run, in a forked child."""
        def f():
            sc.quiet, sc.loud = io.StringIO(), io.StringIO()
            sys.stdout, sys.stderr = sc.quiet, sc.loud
            names = namespaces()
            gc.collect()
            before = snapshot(sc)
            resets = self.rnd.resets
            trace = seams.Tracer(budget=2_000_000) if at is None else self.tracer(op, at)
            self.call(plan, sc, sh, n, op, trace)
            return len(changed(before, snapshot(sc), names)) + (self.rnd.resets != resets), trace.n
        saved = sc.listing()
        out = in_child(f)
        for k, v in sc.listing().items():             # the child shares the directory
            if k not in saved and not k.endswith("/"):
                os.unlink(os.path.join(sc.root, k))
            elif v != saved.get(k):
                sc.put(k, saved[k])
        return out

    def lasting(self, plan, sc, sh, n, op, at, bad):
        """Do aborts at enough consecutive statements around this one leave a change?"""
        run = 1
        for step in (1, -1):
            k = at + step
            while run < WINDOW and k >= 1 and self.apart(plan, sc, sh, n, op, k)[0]:
                run += 1
                k += step
        return run >= WINDOW

    def shrink(self, plan):
        if plan.get("import"):
            return
        yield from core.drop_each(plan, "ops", 1)
        for i, op in enumerate(plan["ops"]):
            for k in ("abort", "eph"):
                if op.get(k):
                    yield plan | {"ops": plan["ops"][:i] + [{x: y for x, y in op.items() if x != k}] + plan["ops"][i + 1:]}
            if op["op"] == "doc" and op["io"]["faults"]:
                yield plan | {"ops": plan["ops"][:i] + [op | {"io": op["io"] | {"faults": []}}] + plan["ops"][i + 1:]}
        if len(plan["reqs"]) > 1:
            yield plan | {"reqs": plan["reqs"][:1]}
        yield from W.shrink_world(plan)


# ------------------------------------------------------------------------------------------ arguments only
COMPUTED = [k for k in KINDS if k != "text"] + ["plan", "vtws", "convert", "altitude", "distance", "look", "attitude"]


def variant(rng, w, warp=None):
    """A world that has much in common with another one."""
    import copy
    v = copy.deepcopy(w)
    only, warp = warp, warp or rng.random() < 0.15
    for _ in range(0 if only else rng.choice([0, 1, 1, 2])):
        what = rng.choice(["time", "height", "track", "sites", "step", "threshold", "cut"])
        if what == "time":
            v["t0"] = round(w["t0"] + rng.choice([1, 0.25, -0.5, 5, 1e-3]), 4)
        elif what == "height":
            for s in v["sites"]:
                s["h"] = round(s["h"] + 2.0, 3)
        elif what == "track":
            for b in v["blocks"]:
                b["heading"] = round((b["heading"] + 31.7) % 360, 1)
        elif what == "sites":
            v["sites"] = v["sites"][::-1]
        elif what == "step" and not w["exact"]:
            v["dt"] = round(w["dt"] * 1.5, 3)
        elif what == "threshold":
            v["thr"] = round(min(89.0, w["thr"] + 7), 3)
        elif what == "cut" and len(v["blocks"]) > 1:
            v["blocks"] = v["blocks"][:-1]
            if sum(b["n"] for b in v["blocks"]) < 3:
                v["blocks"].append({"kind": "far", "n": 3, "heading": 10.0})
    if warp and not w["exact"]:                      # as many instants from and to the same times, others between
        t = W.times_of(v)
        x = (t - t[0]) / (t[-1] - t[0])
        v["instants"] = [float(y) for y in t[0] + (t[-1] - t[0]) * x ** 1.4]
        v["instants"][-1] = float(t[-1])
    return v


def arrays_of(o, out, seen, depth=0):
    """Every array reachable from o."""
    if id(o) in seen or depth > 12:
        return
    seen.add(id(o))
    if isinstance(o, np.ndarray):
        out.append(o)
        if o.dtype == object:
            for x in o.ravel():
                arrays_of(x, out, seen, depth + 1)
    elif isinstance(o, dict):
        for x in list(o.values()):
            arrays_of(x, out, seen, depth + 1)
    elif isinstance(o, (list, tuple, set)):
        for x in o:
            arrays_of(x, out, seen, depth + 1)
    elif hasattr(o, "__dict__") and not isinstance(o, type):
        arrays_of(vars(o), out, seen, depth + 1)


def scribble(v, kept):
    """The program changes a result it was given, except where that is an input itself."""
    mine = []
    arrays_of(v, mine, set())
    n = 0
    for a in mine:
        if a.dtype.kind == "f" and a.flags.writeable and not any(np.may_share_memory(a, k) for k in kept):
            a *= -3.0
            a += 7.0
            n += 1
    return n


class C18(C17):
    id = "C18"
    tiers = {"quick": {"runs": 9000, "wall": 90, "limit": 60}, "thorough": {"runs": 200000, "wall": 600, "limit": 60}}
    rule = ("histories of 2-10 public computations over 1-3 similar worlds in one process, with failing and aborted calls between "
            "them and with the inputs rebuilt now and then; every undisturbed result is compared with the one that a fresh "
            "process with other settings, clocks, entropy and working directory gets. Non-trivial: at least two results compared")
    measure = "digest of the history: operations, outcomes, worlds"
    assumptions = ["results may differ in the last digits (1e-9 relative)", "printed text follows NumPy's print options and is not "
                   "compared; saved files are", "the ephemeris file keeps its content while a process runs"]

    def gen(self, rng, tier, i):
        lit = rng.random() < 0.5
        w = W.gen_world(rng, lighting=lit, nsites=rng.choice([1, 2, 2, 3]), npass=rng.choice([1, 1, 2]))
        if rng.random() < 0.06:                      # numbers with equal hashes
            rng.choice(w["sites"])["lat"] = -1.0
        days = lit and rng.random() < 0.15           # days and nights within a pass
        if days:
            w.pop("dts", None)
            w |= {"dt": rng.choice([900.0, 3600.0]), "thr": rng.choice([0.0, 5.0, 20.0])}
        worlds = [w] + [variant(rng, w, warp=days or None) for _ in range(rng.choice([1, 2] if days else [0, 1, 1, 2]))]
        moved = 0
        ops, theme = [], "vtws" if days else rng.choice(COMPUTED) if rng.random() < 0.6 else None
        for _ in range(rng.choice([2, 3, 4, 6, 10])):
            k = theme if theme and rng.random() < 0.75 else rng.choice(COMPUTED)
            op = {"op": "task", "w": rng.randrange(len(worlds)), "t": gen_task(rng, k, len(w["sites"]), lit)}
            if k == "plan":
                op["t"]["nreq"] = rng.choice([1, 2, 3, 5])
            if k == "save":
                op["t"]["relative"] = False
            if k == "quantity" and op["t"]["m"] == "str":
                op["t"]["m"] = "add"
            if k in ("vtws", "plan") and lit and rng.random() < 0.2:
                op["eph"] = rng.choice([{"open": errno.EACCES}, {"read": rng.randint(1, 10), "errno": errno.EIO},
                                        {"cut": round(rng.random(), 4)}, {"absent": True}])
            elif rng.random() < 0.15:
                op["abort"] = [round(rng.random(), 4), rng.choice(["stop", "stop", "memory"])]
            if rng.random() < 0.12:
                ops.append({"op": "rebuild", "w": op["w"]})
            if rng.random() < 0.3:                   # the same satellite, other places
                moved = rng.choice([0, 1, 2])
            op["moved"] = moved
            op["use"] = rng.random() < 0.4
            ops.append(op)
            if rng.random() < 0.3:                   # the same again, perhaps on a similar world
                ops.append({k: v for k, v in op.items() if k not in ("eph", "abort")} | {"w": rng.randrange(len(worlds))})
        if rng.random() < 0.3:                       # the first use of the library is aborted
            ops.insert(0, {"op": "first", "w": rng.randrange(len(worlds)), "abort": [round(rng.random() ** 2, 5), rng.choice(["stop", "memory"])]})
        reqs = W.gen_requests(rng, w, 5, ("ANYTIME", "DAYTIME", "NIGHTTIME") if lit else ("ANYTIME",))
        return {"rs": rng.getrandbits(32), "world": w, "others": worlds[1:], "reqs": reqs, "ops": ops,
                "amb": gen_ambient(rng), "amb0": gen_ambient(rng)}

    def scene(self, plan, i):
        w = ([plan["world"]] + plan["others"])[i % (1 + len(plan["others"]))]
        return Shared({"world": w, "rs": plan["rs"], "reqs": plan["reqs"]})

    @staticmethod
    def move(sh, k):
        """Other places, made after the old ones are gone."""
        if getattr(sh, "moved", 0) == k:
            return
        sh.moved = k
        sh.sites = []
        gc.collect()
        sites = [s | {"lat": -2.0 if k == 2 and s["lat"] == -1.0 else round(s["lat"] - 0.7 * k * (1 if s["lat"] > 0 else -1), 4)}
                 for s in sh.w["sites"]]
        sh.sites = [W.build_site(s) for s in (sites if k != 1 else sites[::-1])]

    def judge(self, plan, res, sc):
        sc.quiet = None
        w = plan["world"]
        self.kernel = W.spk_bytes(w["sun"], w["t0"]) if w.get("sun") else None
        out, err = sys.stdout, sys.stderr
        ops = plan["ops"]
        fair = [n for n, op in enumerate(ops) if op["op"] == "task" and not op.get("eph") and not op.get("abort")]
        worlds = sorted({ops[n]["w"] for n in fair})

        def alone(k):
            def one(sh, n):
                def g():
                    self.move(sh, ops[n]["moved"])
                    return self.call(plan, sc, sh, n, ops[n], seams.Tracer(budget=2_000_000))[0], self.facts
                return g

            def f():                                 # a fresh process with other surroundings
                seams.clock[0] = seams.SimClock(1.1e9, plan["rs"] ^ 5)
                seams.entropy[0] = core.REAL_RANDOM(f"other/{plan['rs']}")
                seams.disk[0] = seams.Disk(sc.root)
                settle(plan["amb0"], sc)
                np.random.seed(77)
                sh = self.scene(plan, k)
                return {n: in_child(one(sh, n)) for n in fair if ops[n]["w"] == k}
            return f
        want, self.used = {}, 0
        for k in worlds:
            want |= in_child(alone(k))
        seams.clock[0] = seams.SimClock(1.6e9, plan["rs"])
        seams.entropy[0] = core.REAL_RANDOM(f"entropy/{plan['rs']}")
        seams.set_random(seams.SimRandom(plan["rs"]))
        seams.disk[0] = seams.Disk(sc.root)
        for n, op in enumerate(ops):                 # what the other processes have saved is not to be found
            for d in ("", "sub"):
                p = os.path.join(sc.root, d, f"t{n}.txt")
                if os.path.exists(p):
                    os.unlink(p)
        settle(plan["amb"], sc)
        gc.collect()
        gc.freeze()
        scenes, log, compared, self.used = {}, [], 0, 0
        try:
            for n, op in enumerate(ops):
                k = op["w"]
                if op["op"] == "rebuild":
                    scenes.pop(k, None)
                    gc.collect()
                    log.append("rebuild")
                    continue
                if self.kernel:
                    seams.ephemeris[0] = seams.Ephemeris(self.kernel)
                if op["op"] == "first":
                    log.append(("first", self.first_use(plan, k, op, res)))
                    continue
                if k not in scenes:
                    scenes[k] = self.scene(plan, k)
                sh, name = scenes[k], op["t"]["kind"]
                self.move(sh, op["moved"])
                trace = seams.Tracer(budget=2_000_000)
                if op.get("abort"):
                    trace = self.tracer(op, abort_point(lambda: self.act(op, n, sh, sc.root), op["abort"][0]))
                got, _ = self.call(plan, sc, sh, n, op, trace)
                res.hit("op:" + name)
                res.hit("outcome:" + got.split()[0])
                log.append((name, k, got, trace.where))
                res.event(n, name, "world", k, got, trace.where)
                if n in want:
                    compared += 1
                    if got != want[n][0]:
                        res.fail("result-differs", f"{op['t']} {got}, alone it {want[n][0]}, after {log[:-1][-4:]}")
                    elif not agree(self.facts, want[n][1]):
                        res.fail("result-differs", f"{op['t']}: {brief(self.facts)} alone {brief(want[n][1])} "
                                                   f"after {log[:-1][-4:]}")
                    if res.violations:
                        break
        finally:
            sys.stdout, sys.stderr = out, err
        res.hit("arrays-scribbled", self.used)
        res.nontrivial = compared > 1
        res.sig = digest(log)
        res.digest = digest((log, compared))

    def first_use(self, plan, k, op, res):
        """Building the inputs, aborted half way, before anything else has run."""
        t = self.tracer(op, abort_point(lambda: self.scene(plan, k), op["abort"][0]))
        try:
            with t:
                self.scene(plan, k)
        except (Stop, NoMemory):
            pass
        res.hit("first-use-aborted")
        return t.where

    def act(self, op, n, sh, root):
        t = op["t"]
        if t["kind"] == "plan":
            seams.set_random(seams.SimRandom(t["rs"]))
            return self.plan_it(t, sh)
        return sh.do(t, f"t{n}", root)

    def shrink(self, plan):
        for p in super().shrink(plan):
            yield p
        if plan["others"]:
            yield plan | {"others": plan["others"][:-1], "ops": [o | {"w": min(o["w"], len(plan["others"]) - 1)} for o in plan["ops"]]}


CHECKS = [C17, C18]
