"""Planning under a seeded world, random draws, clock, entropy and faults: C01 C02 C03 C08 C09 C10 C16."""
import copy
import errno
import json
import math
import os
import pickle
import subprocess
import sys
import threading

import numpy as np

import core
import seams
import world as W
from core import Check, digest

REAL = ["celest.schedule (Scheduler, RequestHandler, ALNS, insertion and removal operators)",
        "celest.encounter (generate_vtws, windows)", "celest.satellite", "celest.coordinates", "celest.units",
        "jplephem.spk"]
STUBS = ["Python's global random generator (seeded, optionally with extreme draws)",
         "clocks, sleep, os.urandom, uuid4 (simulated)", "file de421.bsp (in-memory kernel built from the plan)"]
ASSUME = ["tracks are fabricated, not propagated; the track is the program's input, so any track is a legal one",
          "worlds have 1-4 sites, up to ~130 samples and 11 requests"]


class Unjudged(Exception):
    """The run failed in a way another property answers for."""


# ------------------------------------------------------------------------------------------- running
def setup(plan):
    """Seams for one run; returns the simulated random generator."""
    w = plan["world"]
    seams.clock[0] = seams.SimClock(1.6e9, plan["rs"])
    seams.entropy[0] = core.REAL_RANDOM(f"entropy/{plan['rs']}")
    np.random.seed(plan["rs"] & 0x7fffffff)
    if w.get("sun"):
        seams.ephemeris[0] = seams.Ephemeris(W.spk_bytes(w["sun"], w["t0"]))


class Rig:
    """Satellite and sites of a world, with the schedulers made on them."""

    def __init__(self, w):
        self.w = w
        self.sat = W.build_satellite(w)
        self.sites = [W.build_site(s) for s in w["sites"]]

    def scheduler(self, reqs=()):
        from celest.schedule.scheduler import Scheduler
        s = Scheduler(self.sat, self.w["thr"])
        for r in reqs:
            self.add(s, r)
        return s

    def add(self, sched, r):
        W.add_request(sched, self.w, r, self.sites)


def generate(sched, par, reseed=True):
    """The returned collection. par: iters, p, l, rs, mode"""
    if reseed:
        seams.set_random(seams.SimRandom(par["rs"], par.get("mode", "plain")))
    return sched.generate(par["iters"], par["p"], par["l"])


def outcome(f):
    """("ok", value) or ("raised", type) - to compare executions, not to judge them."""
    try:
        return ("ok", f())
    except Exception as e:
        return ("raised", type(e).__name__)


def in_child(f):
    """f() evaluated in a forked child of the present state (the child's effects vanish)."""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = pickle.dumps(f())
            with os.fdopen(wr, "wb") as fh:
                fh.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    if not data:
        raise Unjudged("reference execution failed")
    return pickle.loads(data)


def abort_point(f, frac, share=0.8):
    """The statement of f at which to abort it: with this share one that a second f does not execute, if any."""
    def run():
        a, b = seams.Lines(), seams.Lines()
        for t in (a, b)[:2 if share else 1]:
            try:
                with t:
                    f()
            except Exception:
                pass
        once = sorted(n for k, n in a.seen.items() if k not in b.seen) if share else []
        return once, a.n
    once, total = in_child(run)
    if once and frac * 1000 % 1 < share:
        return once[int(frac * len(once))]
    return max(1, min(total, int(frac * total) + 1))


def in_thread(f):
    """f() evaluated in another thread, alone."""
    box = []

    def body():
        try:
            box.append((f(), None))
        except BaseException as e:  # noqa
            box.append((None, e))
    t = threading.Thread(target=body)
    t.start()
    t.join()
    if box[0][1] is not None:
        raise box[0][1]
    return box[0][0]


def planned(plan, res):
    """Plan once; observations as plain data. Failures are other properties' business."""
    setup(plan)
    try:
        rig = Rig(plan["world"])
        sched = rig.scheduler(plan["reqs"])
        obs = W.observations(generate(sched, plan))
    except Exception as e:
        res.hit("unjudged-raised")
        res.event("raised", type(e).__name__, e)
        raise Unjudged()
    note(plan, res, obs)
    return rig, obs


def note(plan, res, obs):
    rnd = seams._current_random()
    draws, bent = getattr(rnd, "draws", 0), getattr(rnd, "bent", 0)
    t = W.times_of(plan["world"])
    res.simtime += float(t[-1] - t[0]) * 86400
    res.hit("observations", len(obs))
    res.hit("requests", len(plan["reqs"]))
    res.hit("random-draws", draws)
    if bent:
        res.hit("extreme-draws", bent)
    if len(obs) < len(plan["reqs"]) and draws:
        res.hit("searched-runs")
    res.nontrivial = len(obs) > 0 and len(plan["reqs"]) > 1
    res.digest = digest((obs, draws))
    res.sig = digest((W.canon(obs), draws))
    for o in obs:
        res.event("obs", o["start"], o["dur"], o["loc"])


# ------------------------------------------------------------------------------------------- judging
def eps_of(w):
    return 0.0 if w.get("exact") else 2e-9


def matching(n, m, ok):
    """Maximum bipartite matching of n left to m right nodes; list right-of-left (None if unmatched)."""
    left, right = [None] * n, [None] * m

    def go(i, seen):
        for j in range(m):
            if j not in seen and ok(i, j):
                seen.add(j)
                if right[j] is None or go(right[j], seen):
                    right[j], left[i] = i, j
                    return True
        return False
    for i in range(n):
        go(i, set())
    return left


def same_job(w, o, r):
    s = w["sites"][r["site"]]
    return o["loc"] == (round(float(s["lat"]), 9), round(float(s["lon"]), 9), round(float(s["h"]), 9)) \
        and abs(o["dur"] - r["dur"]) <= 1e-9 * r["dur"]


def why_infeasible(rig, geo, pitch, o, r):
    """None if observation o may answer request r, else the reason."""
    w = rig.w
    if not same_job(w, o, r):
        return "other location or duration"
    e = eps_of(w)
    start, end = o["start"], o["start"] + o["dur"] / 86400
    if not (end < r["deadline"] if e == 0 else end < r["deadline"] + e):
        return f"ends {end!r} not before the deadline {r['deadline']!r}"
    wins = [(a, b) for a, b in geo.windows(r["site"], r["light"])
            if (a < start and end < b if e == 0 else a - e < start and end < b + e)]
    if not wins:
        return f"[{start!r}, {end!r}] not inside a {r['light']} window of {geo.windows(r['site'], r['light'])}"
    if geo.sure(r["site"], r["light"]):
        best = max(10 - 9 * abs(start - (a + b) / 2) / ((a + b) / 2 - a)
                   + (0 if e == 0 else 9 * 3e-9 / ((a + b) / 2 - a) + 1e-9) for a, b in wins)
        if math.floor(best + 1e-12) < r["qual"]:
            return f"quality {best} below {r['qual']} at {start!r} in {wins}"
    if r["look"] is not None:
        i = int(np.argmin(np.abs(geo.t - start)))
        if abs(geo.t[i] - start) > 1e-9:
            return f"look angle requested but start {start!r} is not a tabulated instant"
        p = pitch(r["site"])
        here = p[i] - r["look"]
        ok = any(0 <= j < len(p) and here * (p[j] - r["look"]) <= 1e-7 for j in (i - 1, i + 1))
        if not ok:
            return f"pitch {p[max(0, i - 1):i + 2]} does not pass through {r['look']} at {start!r}"
    return None


def pitches(rig):
    cache = {}

    def f(si):
        if si not in cache:
            t, pos = W.times_of(rig.w), W.track_of(rig.w)
            cache[si] = W.attitudes(pos, W.velocity_of(rig.w, pos, t), rig.w["sites"][si])[1]
        return cache[si]
    return f


class Planning(Check):
    real, stubs, assumptions = REAL, STUBS, ASSUME
    hang_is_violation = False
    tiers = {"quick": {"runs": 8000, "wall": 55, "limit": 40, "shrink": 20},
             "thorough": {"runs": 60000, "wall": 600, "limit": 30, "shrink": 60}}
    measure = "distinct (schedule, number of random draws) pairs"

    def gen(self, rng, tier, i):
        return W.gen_plan(rng, max_iter=40 if tier == "quick" else rng.choice([40, 80, 150]))

    def execute(self, plan, res):
        try:
            self.judge(plan, res)
        except Unjudged:
            res.digest = res.digest or "unjudged"

    def shrink(self, plan):
        yield from W.shrink_world(plan)
        yield from core.smaller_ints(plan, "iters")


class C01(Planning):
    id = "C01"
    rule = ("random draws, clock and entropy simulated; worlds, requests at the edges of windows, deadlines and "
            "qualities, planner parameters and extreme draw sequences from the seed; every observation must have a "
            "different request it can answer (bipartite matching), judged by geometry written independently of celest")

    def judge(self, plan, res):
        rig, obs = planned(plan, res)
        geo, pitch = W.Geometry(rig.w), pitches(rig)
        reqs = plan["reqs"]
        why = {}

        def ok(i, j):
            if (i, j) not in why:
                why[i, j] = why_infeasible(rig, geo, pitch, obs[i], reqs[j])
            return why[i, j] is None
        left = matching(len(obs), len(reqs), ok)
        for i, o in enumerate(obs):
            if left[i] is None:
                # named by the nearest request so that shrinking keeps the kind of failure
                cand = [why[i, j] for j in range(len(reqs)) if (i, j) in why and not ok(i, j)]
                cand.sort(key=lambda m: m.startswith("other"))
                res.fail("infeasible-observation", f"{o['start']!r}+{o['dur']}s at {o['loc']}: {cand[:2]}")
        res.hit("look-angle-observations", sum(1 for j in left if j is not None and reqs[j]["look"] is not None))


class C02(Planning):
    id = "C02"
    rule = ("same simulation as C01 with contended worlds; the observations sorted by start, each must end before the "
            "next starts")

    def gen(self, rng, tier, i):
        plan = W.gen_plan(rng, rng.choice([None, "contended", "contended", "exact"]),
                          max_iter=40 if tier == "quick" else rng.choice([40, 80, 150]))
        if rng.random() < 0.12 and not plan["world"]["exact"]:
            self.contrast(rng, plan)
        return plan

    @staticmethod
    def contrast(rng, plan):
        """Very long and very short requests of the same windows, the short ones often first."""
        w = plan["world"]
        if rng.random() < 0.7:
            w.pop("dts", None)
            w["dt"], w["sun"] = rng.choice([300.0, 900.0, 3600.0, 43200.0, 172800.0]), None
        geo = W.Geometry(w)
        end = float(geo.t[-1]) + 1
        out = []
        for k, r in enumerate(plan["reqs"]):
            wins = geo.windows(r["site"], "ANYTIME")
            if not wins:
                out.append(r)
                continue
            a, b = rng.choice(wins)
            long = rng.random() < 0.5
            wide = max(1.0, (b - a) * 86400)
            out.append(r | {"dur": round(wide * rng.uniform(0.3, 0.9), 3) + k * 1e-4 if long else
                            round(rng.choice([0.5, 5.0, 50.0]) + k * 1e-4, 4), "deadline": end, "qual": 1,
                            "light": "ANYTIME", "prio": rng.randint(1, 5) if long else rng.randint(4, 10)})
        plan["reqs"] = out

    def judge(self, plan, res):
        rig, obs = planned(plan, res)
        e = 1e-9 if not rig.w.get("exact") else 1e-10
        iv = sorted((o["start"], o["start"] + o["dur"] / 86400, o["loc"]) for o in obs)
        last = None
        for a in iv:
            if last is not None and a[0] < last[1] - e:
                res.fail("overlap", f"{last} and {a}")
            if last is None or a[1] > last[1]:
                last = a
        res.nontrivial = len(obs) > 1


def dear(rng):
    """Important requests for few windows: the search takes worse plans, so where it stands matters."""
    if rng.random() < 0.3:
        plan = W.gen_plan(rng, "contended", max_iter=8, nreq=rng.choice([10, 14]))
        plan["reqs"] = [r | {"prio": rng.choice([10, 10, 10, 10, 1])} for r in plan["reqs"]]
        plan["mode"] = "plain"
        return plan
    npass, more = rng.choice([(3, 5), (4, 6), (4, 4)])
    heading = rng.uniform(0, 360)
    la, lo = round(rng.uniform(-60, 60), 3), round(rng.uniform(-170, 170), 3)
    b = W.destination(la, lo, heading, rng.choice([1.0, 2.0]))
    w = {"t0": 2459000.5 + rng.randint(0, 300), "dt": 10.0, "alt": 600.0, "thr": 60.0, "exact": False, "sun": None,
         "sites": [{"lat": la, "lon": lo, "h": 0}, {"lat": round(b[0], 4), "lon": round(b[1], 4), "h": 0}]}
    far = {"kind": "far", "n": 1, "heading": 10.0}
    w["blocks"] = [far]
    for k in range(npass):
        w["blocks"] += [{"kind": "pass", "site": k % 2, "n": rng.choice([4, 5]), "from": -5, "to": 5,
                         "heading": round(heading + rng.choice([0, 90, 60]), 1),
                         "cross": round(rng.uniform(-1, 1), 2)}, far]
    t = W.times_of(w)
    reqs = []
    for k in range(npass + more):
        late = float(t[-1]) + 1 if rng.random() < 0.6 else float(t[rng.randrange(len(t) // 3, len(t))])
        reqs.append({"site": rng.randrange(2), "deadline": late, "dur": round(rng.choice([2.0, 2.5]) + k * 0.01, 3),
                     "prio": rng.choice([10, 9, 8]), "qual": 1, "look": None, "light": "ANYTIME"})
    return {"profile": "dear", "world": w, "reqs": reqs} | W.gen_params(rng, 8) | {"mode": "plain"}


def roomy(rng):
    """Many sites, each with a pass to itself: everything fits, at once."""
    n = rng.choice([6, 9, 10, 12, 14])
    la, lo = rng.uniform(-50, 50), rng.uniform(-179, 179)
    w = {"t0": 2459000.5 + rng.randint(0, 300), "dt": rng.choice([10.0, 20.0, 60.0]), "alt": 500.0, "thr": 40.0,
         "exact": False, "sun": None, "sites": [], "blocks": [{"kind": "far", "n": 1, "heading": 10.0}]}
    for k in range(n):
        a, b = W.destination(la, lo, 360 * k / n, 45)
        w["sites"].append({"lat": round(a, 4), "lon": round(b, 4), "h": 0.5})
        w["blocks"].append({"kind": "pass", "site": k, "n": rng.choice([6, 7, 8]), "from": -8, "to": 8,
                            "heading": round(rng.uniform(0, 360), 1), "cross": 0.1})
        if rng.random() < 0.3:
            w["blocks"].append({"kind": "far", "n": 1, "heading": 10.0})
    geo = W.Geometry(w)
    reqs = []
    for k in range(n):
        win = geo.windows(k, "ANYTIME")
        wide = (win[0][1] - win[0][0]) * 86400 if win else 60.0
        reqs.append({"site": k, "deadline": float(geo.t[-1]) + 1, "dur": round(wide * rng.choice([0.02, 0.1, 0.2]), 3) +
                     1e-4 * (k + 1), "prio": rng.randint(1, 10), "qual": rng.randint(1, 5), "look": None,
                     "light": "ANYTIME"})
    rng.shuffle(reqs)
    for _ in range(rng.choice([0, 0, 1])):          # one that cannot be served keeps the search going
        reqs.insert(rng.randrange(n), reqs[0] | {"dur": 5e4, "prio": rng.randint(1, 10)})
    return {"profile": "roomy", "world": w, "reqs": reqs} | W.gen_params(rng, 3)


class C03(Planning):
    id = "C03"
    tiers = {"quick": {"runs": 8000, "wall": 100, "limit": 60, "shrink": 20},
             "thorough": {"runs": 60000, "wall": 600, "limit": 30, "shrink": 60}}
    rule = ("same simulation as C01; observations must map to different requests by location and duration and carry "
            "the attitude recomputed at the nearest tabulated instant; comfortable requests in windows shared with "
            "nobody must be scheduled; total priority over growing iteration limits with identical draws must not fall")

    def gen(self, rng, tier, i):
        plan = W.gen_plan(rng, rng.choice([None, "isolated", "isolated", "contended", "looks", "hopeless"]),
                          max_iter=rng.choice([12, 12, 12, 12, 50]) if tier == "quick" else 60)
        plan["more"] = sorted({plan["iters"], plan["iters"] + rng.choice([1, 2, 5]), rng.choice([0, 1])})
        if rng.random() < 0.06:
            plan = roomy(rng)
            plan["more"] = [0, plan["iters"]]
        elif rng.random() < 0.24:
            plan = dear(rng)
            plan |= {"iters": rng.choice([10, 35, 45]), "p": rng.choice([0.95, 1.0]), "l": rng.choice([0.1, 0.5])}
            plan["more"] = [plan["iters"] - rng.choice([3, 8]), plan["iters"]]
            if rng.random() < 0.5:                   # a worse plan may be taken early, then none
                plan |= {"p": rng.choice([0.0, 0.0, 0.01, 0.3]), "iters": 8, "more": [0, rng.choice([1, 2, 3]), 8]}
        elif rng.random() < 0.2:                     # the same request made more than once
            for _ in range(rng.choice([1, 1, 2])):
                r = dict(rng.choice(plan["reqs"])) | ({"look": None, "qual": 1} if rng.random() < 0.5 else {})
                many = [rng.randrange(len(plan["reqs"]) + 1) for _ in range(2)]
                if r in plan["reqs"]:
                    many = many[:1]
                else:
                    r["dur"] = round(r["dur"] * 0.9 + 0.00037, 5)
                for k in many:
                    plan["reqs"].insert(k, dict(r))
        return plan

    def judge(self, plan, res):
        w, reqs = plan["world"], plan["reqs"]
        geo = W.Geometry(w)
        must = self.comfortable(geo, w, reqs)
        totals = []
        for it in plan.get("more") or [plan["iters"]]:
            try:
                rig, obs = planned(plan | {"iters": it}, res)
            except Unjudged:
                if must:
                    res.fail("comfortable-request-not-scheduled", f"planning {it} iterations raised; {must} have "
                             f"windows to themselves: {res.log[-1:]}")
                raise
            left = matching(len(obs), len(reqs), lambda i, j: same_job(w, obs[i], reqs[j]))
            for i, j in enumerate(left):
                if j is None:
                    res.fail("observation-without-request", f"{obs[i]['dur']}s at {obs[i]['loc']}")
            got = [j for j in left if j is not None]
            for j in must:
                if j not in got:
                    res.fail("comfortable-request-not-scheduled", f"request {j} {reqs[j]} iterations {it}")
            for j in range(len(reqs)):
                if j not in got and j not in must:
                    self.room_left(geo, j, reqs[j], obs, it, res)
            for o in obs:
                self.attitude(rig, geo, o, res)
            totals.append((it, sum(reqs[j]["prio"] for j in got)))
        for (a, x), (b, y) in zip(totals, totals[1:]):
            if y < x:
                res.fail("searching-hurts", f"total priority by iteration limit: {totals}")
        res.hit("comfortable-requests", len(must))
        res.hit("improved-by-search", int(totals[-1][1] > totals[0][1]))

    @staticmethod
    def room_left(geo, j, r, obs, it, res):
        """A request left out although nothing is planned during a window it fits comfortably in."""
        if r["look"] is not None or r["qual"] > 5 or not geo.sure(r["site"], r["light"]):
            return
        for a, b in geo.windows(r["site"], r["light"]):
            if (b - a) * 86400 >= 4 * r["dur"] * (1 + 1e-6) and r["deadline"] > b + 1e-6 and not any(
                    o["start"] <= b + 1e-6 and a - 1e-6 <= o["start"] + o["dur"] / 86400 for o in obs):
                return res.fail("room-left", f"request {j} {r} is not planned though {a}..{b} is free, iterations {it}")
        res.hit("left-out-requests")

    @staticmethod
    def comfortable(geo, w, reqs):
        out = []
        for j, r in enumerate(reqs):
            if r["look"] is not None or r["qual"] > 5 or not geo.sure(r["site"], r["light"]):
                continue
            others = [x for k, o in enumerate(reqs) if k != j for x in geo.windows(o["site"], o["light"])]
            for a, b in geo.windows(r["site"], r["light"]):
                if (b - a) * 86400 >= 4 * r["dur"] * (1 + 1e-6) and r["deadline"] > b + 1e-6 and \
                        not any(x[0] <= b + 1e-6 and a - 1e-6 <= x[1] for x in others):
                    out.append(j)
                    break
        return out

    @staticmethod
    def attitude(rig, geo, o, res):
        d = np.abs(geo.t - o["start"])
        near = [int(i) for i in np.where(d <= d.min() + 1e-9)[0]]
        site = next((s for s, x in zip(rig.w["sites"], rig.sites) if W.site_key(x) == o["loc"]), None)
        if site is None:
            return
        rpy = W.attitudes(geo.pos, W.velocity_of(rig.w, geo.pos, geo.t), site)
        if o["aloc"] != o["loc"] or any(len(x) != 1 for x in o["rpy"]):
            res.fail("attitude", f"attitude of {o['loc']} is for {o['aloc']}, sizes {[len(x) for x in o['rpy']]}")
            return
        for i in near:
            if all(abs(o["rpy"][k][0] - rpy[k][i]) <= 1e-6 for k in range(3)) and \
                    all(abs(x - geo.t[i]) < 1e-9 for x in o["t"]):
                return
        res.fail("attitude", f"observation at {o['start']!r} carries {o['rpy']} of time {o['t']}, "
                 f"expected sample(s) {near}: {[[float(x[i]) for x in rpy] for i in near]}")


class C08(Planning):
    id = "C08"
    tiers = {"quick": {"runs": 8000, "wall": 75, "limit": 60, "shrink": 20},
             "thorough": {"runs": 60000, "wall": 600, "limit": 30, "shrink": 60}}
    hang_is_violation = True
    rule = ("same simulation as C01, weighted towards degenerate worlds, parameter ends and extreme draws; any "
            "exception or more celest statements than the budget is a violation")

    def gen(self, rng, tier, i):
        plan = W.gen_plan(rng, rng.choice([None, None, "degenerate", "contended", "exact"]),
                          max_iter=60 if tier == "quick" else rng.choice([60, 150, 400]))
        if rng.random() < 0.3:
            plan["p"], plan["l"] = rng.choice([0.0, 1.0]), rng.choice([0.0, 1.0])
        if rng.random() < 0.12:                     # long search on an incomplete plan: costs and weights decay
            plan["iters"], plan["l"] = 300, rng.choice([1.0, 0.9, 0.5])
            plan["reqs"] = plan["reqs"][:3]
            plan["p"] = rng.choice([0.0, 0.01, 0.5])
        big = rng.random()
        if big < 0.006:                             # more rounds than the interpreter's stack is deep
            plan["iters"], plan["reqs"] = rng.choice([1100, 1300]), plan["reqs"][:1]
            plan["reqs"].append(plan["reqs"][0] | {"deadline": float(plan["world"]["t0"]) - 1})
        elif big < 0.010:                           # more requests than that
            w = plan["world"]
            w["blocks"] = [b | {"n": min(b["n"], 4)} for b in w["blocks"]][:2]
            w["blocks"].append({"kind": "far", "n": 3, "heading": 5.0})
            late = {"light": "ANYTIME", "deadline": float(w["t0"]) - 1}
            some = plan["reqs"]
            plan["reqs"] = some + [rng.choice(some) | late for _ in range(rng.randint(1010, 1100))]
            plan["iters"] = 0
        if rng.random() < 0.2:                      # equal windows, priorities and durations everywhere
            r0 = plan["reqs"][0]
            plan["reqs"] = [dict(r0) for _ in plan["reqs"]]
        if plan["world"].get("sun") and rng.random() < 0.2:
            plan["eph"] = {"short": rng.choice([1, 7, 100]), "bufsize": rng.choice([1, 16, 512])}
        return plan

    def judge(self, plan, res):
        setup(plan)
        if plan.get("eph"):
            seams.ephemeris[0].short, seams.ephemeris[0].bufsize = plan["eph"]["short"], plan["eph"]["bufsize"]
        from celest.encounter.window_handling import ObservationWindow, WindowCollection
        try:
            rig = Rig(plan["world"])
        except Exception:
            raise Unjudged()
        try:
            sched = rig.scheduler(plan["reqs"])
            coll = generate(sched, plan)
            if not isinstance(coll, WindowCollection):
                return res.fail("not-a-collection", type(coll).__name__)
            if not all(isinstance(x, ObservationWindow) for x in coll):
                return res.fail("not-observations", [type(x).__name__ for x in coll][:5])
            obs = W.observations(coll)
        except seams.StatementBudget:
            raise
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            at = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb)
                       if f.filename.startswith(seams.CELEST)), "?")
            return res.fail("raised", f"{type(e).__name__}: {e} (in {at})")
        note(plan, res, obs)
        res.nontrivial = True
        for k in ("degenerate",):
            if plan["profile"] == k:
                res.hit("degenerate-worlds")
        if not obs:
            res.hit("empty-schedules")


# ------------------------------------------------------------------------------------------- C09
def plan_plain(plan):
    """Outcome of a plan as JSON-able data, order included."""
    def f():
        rig = Rig(plan["world"])
        return W.observations(generate(rig.scheduler(plan["reqs"]), plan))
    return list(outcome(f))


def sub_main():
    import warnings
    warnings.simplefilter("ignore")
    plans = json.load(sys.stdin)
    out = []
    for p in plans:
        setup(p)
        seams.entropy[0] = core.REAL_RANDOM(os.environ.get("PYTHONHASHSEED", "0") + "e")
        seams.clock[0] = seams.SimClock(1e9, os.environ.get("PYTHONHASHSEED", "0"),
                                       10.0 ** (int(os.environ.get("PYTHONHASHSEED", "0")) % 9 - 6))
        out.append(plan_plain(p))
        seams.reset()
    json.dump(out, sys.stdout)
    return 0


class C09(Planning):
    id = "C09"
    hang_is_violation = False
    rule = ("one plan executed several times with the same random state but different clocks, entropy, numpy state, "
            "addresses seen through id(), heap layout and prior planning activity in one process, and in processes "
            "with other hash seeds; schedules must be identical in order and bit for bit")
    measure = "distinct (schedule, variation kinds) pairs"
    tiers = {"quick": {"runs": 3000, "wall": 65, "limit": 40, "shrink": 25},
             "thorough": {"runs": 20000, "wall": 600, "limit": 60, "shrink": 60}}

    def gen(self, rng, tier, i):
        if i % 16 == 0:
            return {"kind": "processes", "plans": [self.small(rng) for _ in range(10)],
                    "hashseeds": [rng.randint(1, 10 ** 6) for _ in range(2)]}
        plan = W.gen_plan(rng, max_iter=25)
        kinds = ["clock", "entropy", "numpy", "addresses", "heap", "prior", "like-prior", "thread"]
        plan["kind"] = "in-process"
        plan["variations"] = [{"kinds": rng.sample(kinds, rng.randint(1, len(kinds))), "seed": rng.getrandbits(32)}
                              for _ in range(rng.choice([2, 3]))]
        return plan

    @staticmethod
    def small(rng):
        return W.gen_plan(rng, rng.choice(["contended", "exact", "lit", "general"]), max_iter=20, nreq=rng.randint(3, 7))

    def judge(self, plan, res):
        if plan["kind"] == "processes":
            return self.processes(plan, res)
        import random
        setup(plan)
        seams.clock[0] = seams.SimClock(1.6e9, plan["rs"], 1e-6, 0)        # a fast machine with a steady clock
        base = in_child(lambda: self.once(plan))    # in a process that planned nothing before
        for v in plan["variations"]:
            r = core.REAL_RANDOM(v["seed"])
            k = v["kinds"]
            setup(plan)
            keep = None
            if "prior" in k:                        # what other schedulers did before must not matter
                other = W.gen_plan(r, "contended", max_iter=6, nreq=3)
                seams.set_random(seams.SimRandom(r.getrandbits(20)))
                keep = outcome(lambda: generate(Rig(other["world"]).scheduler(other["reqs"]), other))
                setup(plan)
            if "like-prior" in k:                   # the same places, seen from another track of the same size
                w = plan["world"]
                like = dict(plan, world=w | {"t0": w["t0"] + r.choice([0.0, 0.25, 7.0]), "alt": w["alt"] + 55.0,
                                             "blocks": [b | {"heading": b["heading"] + r.choice([0, 30])}
                                                        for b in w["blocks"]]}, iters=min(plan["iters"], 3))
                keep = (keep, outcome(lambda: generate(Rig(like["world"]).scheduler(like["reqs"]), like)))
                setup(plan)
            if "clock" in k:
                seams.clock[0] = seams.SimClock(r.uniform(-1e9, 4e9), v["seed"],
                                               r.choice([0, 1e-6, 1e-3, 1, 3600, 1e5, -10]), r.choice([0, 0, 0.1]))
            if "entropy" in k:
                seams.entropy[0] = core.REAL_RANDOM(v["seed"] + 1)
            if "numpy" in k:
                np.random.seed(r.getrandbits(31))
            if "heap" in k:
                keep = (keep, self.heap(r))
            if "addresses" in k:
                seams.mask_ids(r.getrandbits(40) & ~15 | 1 << 20)
            try:
                got = in_thread(lambda: self.once(plan)) if "thread" in k else self.once(plan)
            finally:
                seams.mask_ids(0)
            for x in k:
                res.hit("varied-" + x)
            if got != base:
                res.fail("not-reproducible", f"under {k}: {self.diff(base, got)}")
                break
        obs = base[1] if base[0] == "ok" else []
        note(plan, res, obs)
        res.sig = digest((res.sig, [v["kinds"] for v in plan["variations"]]))

    @staticmethod
    def once(plan):
        """Seeded as users do it: random.seed on the global generator."""
        import random

        def f():
            rig = Rig(plan["world"])
            sched = rig.scheduler(plan["reqs"])
            random.seed(plan["rs"])
            return W.observations(generate(sched, plan, reseed=False))
        seams.set_random(seams.SimRandom(0, plan.get("mode", "plain")))
        random.seed(plan["rs"])
        return outcome(f)

    @staticmethod
    def heap(r):
        """Fill and randomly empty the small-object free lists: later objects get shuffled addresses."""
        objs = []
        for _ in range(4000):
            n = r.choice([0, 1, 2, 3, 5, 8])
            objs.append(r.choice([list, tuple, dict])([(i, i) for i in range(n)]))
        r.shuffle(objs)
        del objs[: len(objs) // 2]
        return objs

    @staticmethod
    def diff(a, b):
        if a[0] != b[0] or a[0] != "ok":
            return f"{str(a)[:150]} / {str(b)[:150]}"
        x, y = a[1], b[1]
        for i in range(max(len(x), len(y))):
            p, q = (x[i] if i < len(x) else None), (y[i] if i < len(y) else None)
            if p != q:
                return f"observation {i}: {str(p)[:120]} / {str(q)[:120]}"
        return "?"

    def processes(self, plan, res):
        outs = []
        for hs in plan["hashseeds"]:
            env = dict(os.environ, PYTHONHASHSEED=str(hs), SIM_EXEC="1", TZ=["UTC", "Asia/Tokyo", "EST5EDT"][hs % 3],
                       LANG=["C", "C.UTF-8"][hs % 2], USER=f"u{hs}", HOME=["/", "/tmp", "/root"][hs % 3])
            r = subprocess.run([sys.executable, "-B", "-W", "ignore", os.path.join(core.VERIF, "sim", "run.py"), "sub"],
                               input=json.dumps(plan["plans"]), capture_output=True, text=True, env=env, timeout=300,
                               cwd=["/", "/tmp"][hs % 2])
            if r.returncode != 0:
                raise RuntimeError("sub process: " + r.stderr[-600:])
            outs.append(json.loads(r.stdout))
            res.hit("varied-process-and-hash-seed")
        for i, p in enumerate(plan["plans"]):
            setup(p)
            seams.clock[0] = seams.SimClock(1.6e9, p["rs"], 1e-6, 0)
            base = json.loads(json.dumps(plan_plain(p)))
            seams.reset()
            for hs, o in zip(plan["hashseeds"], outs):
                if o[i] != base:
                    res.fail("differs-between-processes", f"plan {i}, hash seed {hs}: {self.diff(base, o[i])}")
        res.nontrivial = True
        res.digest = res.sig = digest(outs)

    def shrink(self, plan):
        if plan["kind"] == "processes":
            yield from core.drop_each(plan, "plans", 1)
            yield from core.drop_each(plan, "hashseeds", 1)
            return
        yield from core.drop_each(plan, "variations", 1)
        for i, v in enumerate(plan["variations"]):
            for k in v["kinds"]:
                if len(v["kinds"]) > 1:
                    yield plan | {"variations": plan["variations"][:i] + [v | {"kinds": [x for x in v["kinds"] if x != k]}]
                                  + plan["variations"][i + 1:]}
        yield from super().shrink(plan)


# ------------------------------------------------------------------------------------------- C10
class Boom(KeyboardInterrupt):
    """The injected interrupt."""


class NoMemory(MemoryError):
    """The injected allocation failure."""


def in_chain(exc, target):
    seen = set()
    todo = [exc]
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        if e is target:
            return True
        todo += [e.__cause__, e.__context__]
    return False


class C10(Planning):
    id = "C10"
    hang_is_violation = True
    rule = ("histories of add_request and generate calls of which some are aborted at a chosen celest statement "
            "(KeyboardInterrupt, MemoryError) or meet ephemeris I/O errors; the injected error must reach the caller "
            "and later plans must equal those of an undisturbed scheduler, computed in a process where no fault occurred")
    measure = "distinct (abort location, history outcome) pairs"
    tiers = {"quick": {"runs": 5000, "wall": 70, "limit": 40, "shrink": 20},
             "thorough": {"runs": 30000, "wall": 700, "limit": 60, "shrink": 60}}

    def gen(self, rng, tier, i):
        plan = W.gen_plan(rng, rng.choice(["contended", "contended", "general", "lit", "exact"]), max_iter=6)
        plan["reqs"] = plan["reqs"][:rng.choice([2, 3, 4, 5])]
        lit = bool(plan["world"].get("sun"))
        ops, aborts = [], 0
        for j, r in enumerate(plan["reqs"]):
            fault = None
            if aborts < (1 if i % 3 else 2) and rng.random() < 0.3:
                fault = self.fault(rng, lit and r["light"] != "ANYTIME")
                aborts += 1
            ops.append({"op": "add", "r": j, "fault": fault, "again": rng.random() < 0.5})
            if rng.random() < 0.15:
                ops.append(self.gen_op(rng, rng.random() < 0.5))
        for _ in range(rng.choice([0, 1, 1, 2])):
            ops.append(self.gen_op(rng, True))
        plan["ops"] = ops
        plan["final"] = W.gen_params(rng, 6) | {"mode": "plain"}
        return plan

    @staticmethod
    def fault(rng, eph):
        if eph and rng.random() < 0.6:
            k = rng.random()
            if k < 0.2:
                return {"kind": "eph-open"}
            if k < 0.8:
                return {"kind": "eph-read", "nth": rng.randint(1, 12), "errno": rng.choice([errno.EIO, errno.ESTALE]),
                        "bufsize": rng.choice([1, 64, 512, 8192])}
            return {"kind": "eph-truncated", "frac": rng.random()}
        return {"kind": rng.choice(["interrupt", "interrupt", "memory"]),
                "f": rng.choice([rng.random(), rng.random(), 1 - rng.random() ** 3 * 0.1, rng.random() ** 3 * 0.05])}

    def gen_op(self, rng, faulty):
        return {"op": "gen", "par": W.gen_params(rng, 6), "fault": self.fault(rng, False) if faulty else None}

    def judge(self, plan, res):
        setup(plan)
        w, reqs = plan["world"], plan["reqs"]
        clean = seams.ephemeris[0].content if seams.ephemeris[0] else None

        def reference(indices, par):
            """What an undisturbed scheduler plans, in a process that has seen no fault."""
            def f():
                rig = Rig(w)
                return outcome(lambda: W.canon(W.observations(generate(rig.scheduler([reqs[k] for k in indices]), par))))
            return f
        # every set of requests the scheduler may hold at each planning point, known before any fault happens
        wanted, cands = [], [()]
        for op in plan["ops"]:
            if op["op"] == "add":
                tail = (op["r"],)
                if not op["fault"]:
                    cands = [c + tail for c in cands]
                elif op["again"]:
                    cands = [c + tail for c in cands] + [c + tail + tail for c in cands]
                else:
                    cands = cands + [c + tail for c in cands]
            else:
                wanted += [(c, json.dumps(op["par"])) for c in cands]
        wanted += [(c, json.dumps(plan["final"])) for c in cands]
        wanted = sorted(set(wanted))[:60]
        expected = in_child(lambda: {k: reference(k[0], json.loads(k[1]))() for k in wanted} |
                            {k: outcome(lambda: bool(Rig(w).scheduler([r]))) for k, r in enumerate(reqs)})

        rig = Rig(w)
        sched = rig.scheduler()

        def add_again(k, n):
            got = outcome(lambda: rig.add(sched, reqs[k]))
            if got[0] == "raised":
                if expected[k][0] == "raised":
                    raise Unjudged("the request is refused always")
                res.fail("state-lost", f"at {n} adding request {k} raises {got[1]} after {where}")
            return got[0] != "raised"
        held = [()]                                  # the request lists the scheduler may hold
        where = []
        for n, op in enumerate(plan["ops"]):
            if op["op"] == "add":
                r = reqs[op["r"]]
                tail = (op["r"],)
                if op["fault"]:
                    status, at = self.attempt(lambda: rig.add(sched, r), op["fault"], clean, res, True)
                    where.append((n, at))
                    res.event(n, "add", op["r"], op["fault"], "->", status, at)
                    if status == "swallowed":
                        return res.fail("error-swallowed", f"add_request returned although {op['fault']} fired at {at}")
                    if status == "completed":
                        held = [h + tail for h in held]
                    else:
                        held = held + [h + tail for h in held]
                    if status == "aborted" and op["again"]:
                        if not add_again(op["r"], n):
                            return
                        held = [h + tail for h in held]
                else:
                    if not add_again(op["r"], n):
                        return
                    held = [h + tail for h in held]
            else:
                if not any(held):
                    continue
                if op["fault"]:
                    seams.set_random(seams.SimRandom(op["par"]["rs"], op["par"]["mode"]))
                    status, at = self.attempt(lambda: generate(sched, op["par"]), op["fault"], clean, res)
                    where.append((n, at))
                    res.event(n, "gen", op["fault"], "->", status, at)
                    if status == "swallowed":
                        return res.fail("error-swallowed", f"generate returned although {op['fault']} fired at {at}")
                else:
                    held = self.compare(sched, op["par"], held, expected, res, n)
                    if held is None:
                        return
        if any(held):
            held = self.compare(sched, plan["final"], held, expected, res, "final")
        t = W.times_of(w)
        res.simtime += float(t[-1] - t[0]) * 86400
        res.nontrivial = bool(where)
        res.digest = digest((where, held))
        res.sig = digest((where, held))

    def attempt(self, f, fault, clean, res, again=False):
        """(completed | aborted | swallowed, where)"""
        if fault["kind"] in ("interrupt", "memory"):
            at = abort_point(f, fault["f"], 0.25 if again else 0)
            exc = (Boom if fault["kind"] == "interrupt" else NoMemory)("injected")
            tr = seams.Tracer(at=at, exc=exc)
            try:
                with tr:
                    f()
            except BaseException as e:
                if isinstance(e, seams.StatementBudget):
                    raise
                if not tr.fired:
                    raise Unjudged()
                if not in_chain(e, exc):
                    return "swallowed", tr.where
                res.hit("abort-" + fault["kind"])
                e = None
                return "aborted", tr.where
            return ("swallowed" if tr.fired else "completed"), tr.where
        ep = {"eph-open": dict(faults=[{"op": "open", "nth": 1, "errno": errno.ENOENT}]),
              "eph-read": dict(faults=[{"op": "read", "nth": fault.get("nth"), "errno": fault.get("errno")}],
                               bufsize=fault.get("bufsize", 8192)),
              "eph-truncated": dict(truncate=int(len(clean) * fault.get("frac", 0)))}[fault["kind"]]
        seams.ephemeris[0] = e = seams.Ephemeris(clean, **ep)
        try:
            f()
        except Exception as x:
            if not e.fired and not e.truncated:
                raise Unjudged()
            res.hit("abort-" + fault["kind"])
            x = None
            return "aborted", e.fired[:1]
        finally:
            seams.ephemeris[0] = seams.Ephemeris(clean)
        return ("swallowed" if e.hard else "completed"), e.fired[:1]

    def compare(self, sched, par, held, expected, res, n):
        """Plan on the disturbed scheduler; keep the request lists that explain the result."""
        got = outcome(lambda: W.canon(W.observations(generate(sched, par))))
        known = [h for h in held if h and (h, json.dumps(par)) in expected]
        keep = [h for h in known if expected[h, json.dumps(par)] == got]
        res.event(n, "planned", str(got)[:80], "explained by", keep)
        res.hit("plans-compared")
        if () in held:
            # nothing may be held at all: planning then refuses, whatever the refusal
            if got[0] == "raised":
                return [()] + keep
        if len(known) < len([h for h in held if h]):
            return keep or held
        if not keep:
            res.fail("state-lost", f"at {n} the scheduler may hold {held} but plans {str(got)[:200]}; "
                     f"expected one of {str([expected[h, json.dumps(par)] for h in known])[:200]}")
            return None
        return keep

    def shrink(self, plan):
        yield from core.drop_each(plan, "ops", 1)
        for i, op in enumerate(plan["ops"]):
            if op.get("fault"):
                yield plan | {"ops": plan["ops"][:i] + [op | {"fault": None}] + plan["ops"][i + 1:]}
        w = plan["world"]
        bl = w["blocks"]
        for i in reversed(range(len(bl))):
            if sum(b["n"] for b in bl[:i] + bl[i + 1:]) >= 3:
                yield plan | {"world": w | {"blocks": bl[:i] + bl[i + 1:]}}


# ------------------------------------------------------------------------------------------- C16
class C16(Planning):
    id = "C16"
    hang_is_violation = True
    rule = ("histories of add and generate calls on one scheduler; every plan must equal that of a fresh scheduler "
            "given the same requests and random state (computed in a forked process), and plans returned earlier are "
            "read again at the end")
    tiers = {"quick": {"runs": 5000, "wall": 80, "limit": 40, "shrink": 20},
             "thorough": {"runs": 30000, "wall": 600, "limit": 60, "shrink": 60}}

    def gen(self, rng, tier, i):
        plan = W.gen_plan(rng, rng.choice(["contended", "contended", "general", "exact", "isolated"]), max_iter=8)
        plan["reqs"] = plan["reqs"][:6]
        if rng.random() < 0.15:                     # dear plans: the search takes worse ones, and where it stands matters
            plan = dear(rng)
            plan["ops"] = [{"op": "add", "r": j} for j in range(len(plan["reqs"]))]
            for _ in range(rng.choice([2, 3])):
                par = W.gen_params(rng, 8) | {"p": rng.choice([0.2, 0.5, 0.999, 1.0]), "iters": rng.choice([4, 12, 20])}
                plan["ops"].append({"op": "gen", "par": par | {"mode": "plain"}})
            return plan
        ops = []
        for j in range(len(plan["reqs"])):
            ops.append({"op": "add", "r": j})
            while rng.random() < 0.35:
                self.gens(rng, ops)
            if rng.random() < 0.1:
                ops.append({"op": "extend"})
        for _ in range(rng.choice([1, 2, 3])):
            self.gens(rng, ops)
        if rng.random() < 0.3:                      # two or three schedulers live side by side
            ops = self.shared(rng, ops, rng.choice([2, 2, 3]))
        plan["ops"] = ops
        if rng.random() < 0.35:
            self.siblings(rng, plan)
        return plan

    @staticmethod
    def siblings(rng, plan):
        """Two schedulers asked the same but for one or two things: details of requests, or what the satellite does."""
        ops, reqs = [], plan["reqs"]
        n, swapped = len(reqs), {}
        if rng.random() < 0.7:
            for j in rng.sample(range(n), min(n, rng.choice([1, 1, 2]))):
                r = dict(reqs[j])
                for what in rng.sample(["site", "site", "dur", "prio", "qual", "look", "light", "deadline"],
                                       rng.choice([1, 1, 2])):
                    r[what] = {"site": rng.randrange(len(plan["world"]["sites"])), "prio": rng.randint(1, 10),
                               "qual": rng.randint(1, 10), "dur": round(r["dur"] * rng.choice([0.4, 0.7, 1.5, 3]), 4),
                               "look": rng.choice([None, 0.0, 10.0]), "deadline": rng.choice(reqs)["deadline"],
                               "light": rng.choice(["ANYTIME", r["light"]])}[what]
                swapped[j] = len(reqs)
                reqs.append(r)
        if not swapped or rng.random() < 0.3:
            w = plan["world"]
            how, o = rng.choice(["thr", "cross", "sites"]), dict(w)
            if how == "thr":
                o["thr"] = round(min(80.0, w["thr"] + rng.choice([1, 5, 15])), 3)
            elif how == "cross":
                o["blocks"] = [b | ({"cross": round(b["cross"] + rng.choice([-1, 1]), 3)} if b["kind"] == "pass" else {})
                               for b in w["blocks"]]
            else:
                o["sites"] = [s | {"lat": round(s["lat"] + (0.7 if s["lat"] < 80 else -0.7), 4)} for s in w["sites"]]
            plan["other"] = o
        order = rng.sample(range(n), n)
        for j in order:
            ops += [{"op": "add", "r": j, "s": 0}, {"op": "add", "r": swapped.get(j, j), "s": 1}]
        pars = [W.gen_params(rng, 8) for _ in range(rng.choice([1, 1, 2]))]
        for par in pars:
            for who in rng.sample([0, 1, 0, 1], rng.choice([2, 3, 4])):
                ops.append({"op": "gen", "par": par, "s": who})
        plan["ops"] = ops

    @staticmethod
    def shared(rng, ops, n):
        """The same operations dealt to n schedulers of the same satellite; requests may be given to several."""
        out = []
        for op in ops:
            s = rng.randrange(n)
            out.append(op | {"s": s})
            while op["op"] == "add" and rng.random() < 0.4:
                s = (s + 1) % n
                out.append(op | {"s": s})
            if op["op"] == "gen" and rng.random() < 0.4:
                out.append(op | {"s": (s + 1) % n})
        return out

    @staticmethod
    def gens(rng, ops):
        """Plan once, or a few times with the same parameters while the caller uses what it was given."""
        par = W.gen_params(rng, 8)
        if rng.random() < 0.25:
            par["iters"] = rng.choice([0, 0, 1])
        ops.append({"op": "gen", "par": par})
        while rng.random() < 0.35:
            if rng.random() < 0.6:
                ops.append({"op": "extend"})
            if rng.random() < 0.3:                  # other draws, all else the same
                par = par | {"rs": rng.getrandbits(32)}
            ops.append({"op": "gen", "par": par})

    def judge(self, plan, res):
        setup(plan)
        w, reqs = plan["world"], plan["reqs"]
        rigs = [Rig(w), Rig(plan["other"]) if "other" in plan else None]

        def rig_of(who):
            return rigs[1] if who % 2 and rigs[1] else rigs[0]

        def fresh(indices, par, who):
            r = Rig(rig_of(who).w)
            return outcome(lambda: W.canon(W.observations(generate(r.scheduler([reqs[k] for k in indices]), par))))
        todo, have = [], {}
        for op in plan["ops"]:
            if op["op"] == "add":
                have.setdefault(op.get("s", 0), []).append(op["r"])
            elif op["op"] == "gen" and have.get(op.get("s", 0)):
                todo.append((list(have[op.get("s", 0)]), op["par"], op.get("s", 0)))
        expected = []
        for x in todo:                              # each in a process of its own, that planned nothing before
            expected.append(in_child(lambda: fresh(*x)))
        scheds, kept, have, k = {}, [], {}, 0
        results = []
        for n, op in enumerate(plan["ops"]):
            who = op.get("s", 0)
            rig = rig_of(who)
            if who not in scheds:
                scheds[who] = rig.scheduler()
            if op["op"] == "add":
                got = outcome(lambda: rig.add(scheds[who], reqs[op["r"]]))
                if got[0] == "raised":
                    alone = in_child(lambda: outcome(lambda: Rig(rig.w).scheduler([reqs[op["r"]]]) and None))
                    if alone[0] == "raised":
                        raise Unjudged("the request is refused always")
                    res.fail("depends-on-history", f"op {n}: adding request {op['r']} raises {got[1]}, but not to a "
                             "fresh scheduler")
                    return
                have.setdefault(who, []).append(op["r"])
            elif op["op"] == "extend":              # the caller keeps using a collection it was given
                if kept and len(kept[-1][1]):
                    coll = kept[-1][1]
                    coll.add_window(coll[0])
                    kept[-1] = (kept[-1][0], coll, W.observations(coll))
            elif have.get(who):
                box = []

                def f():
                    c = generate(scheds[who], op["par"])
                    box.append(c)
                    return W.canon(W.observations(c))
                got = outcome(f)
                if got != expected[k]:
                    res.fail("depends-on-history", f"op {n}: plan {str(got)[:200]} but a fresh scheduler gives "
                             f"{str(expected[k])[:200]}")
                k += 1
                res.hit("plans-compared")
                results.append(got)
                if box:
                    kept.append((n, box[0], W.observations(box[0])))
            for m, coll, before in kept:
                if W.observations(coll) != before:
                    res.fail("returned-plan-changed", f"plan of op {m} differs after op {n} {op['op']}")
                    return
        t = W.times_of(w)
        res.simtime += float(t[-1] - t[0]) * 86400
        res.nontrivial = k > 1
        res.digest = res.sig = digest(results)

    def shrink(self, plan):
        yield from core.drop_each(plan, "ops", 1)
        for i, op in enumerate(plan["ops"]):
            if op["op"] == "gen" and op["par"]["iters"]:
                yield plan | {"ops": plan["ops"][:i] + [op | {"par": op["par"] | {"iters": op["par"]["iters"] // 2}}]
                              + plan["ops"][i + 1:]}
        w = plan["world"]
        bl = w["blocks"]
        if "other" in plan:
            yield {k: v for k, v in plan.items() if k != "other"}
        for i in reversed(range(len(bl))):
            if sum(b["n"] for b in bl[:i] + bl[i + 1:]) >= 3:
                new = plan | {"world": w | {"blocks": bl[:i] + bl[i + 1:]}}
                if "other" in plan:
                    ob = plan["other"]["blocks"]
                    new["other"] = plan["other"] | {"blocks": ob[:i] + ob[i + 1:]}
                yield new


CHECKS = [C01, C02, C03, C08, C09, C10, C16]
