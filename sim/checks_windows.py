"""Windows: C11 (collections under interleaved use) and C14 (visible windows under ephemeris faults)."""
import errno
import gc

import numpy as np

import core
import seams
import world as W
from core import Check, digest


# ------------------------------------------------------------------------------------------- C11
class C11(Check):
    id = "C11"
    rule = ("random histories of additions, refused additions, indexing, slicing, lengths and any number of open "
            "iterations (interleaved, nested, abandoned, run by other simulated tasks) against a list model")
    measure = "distinct histories"
    real = ["celest.encounter.window_handling (WindowCollection, VisibleTimeWindow, ObservationWindow)"]
    stubs = ["task scheduling (each step of each open iteration is a scheduled event)"]
    assumptions = ["an iteration that is running while windows are added may or may not include the new ones, but "
                   "yields every window present when it started once and in order"]
    tiers = {"quick": {"runs": 40000, "wall": 25, "limit": 20, "shrink": 15},
             "thorough": {"runs": 600000, "wall": 300, "limit": 20, "shrink": 40}}

    def gen(self, rng, tier, i):
        ops = []
        for _ in range(rng.choice([3, 8, 20, 40])):
            k = rng.random()
            if k < 0.2:
                ops.append(["add", rng.choice(["same", "same", "same", "dup"]), rng.randrange(-9, 10)])
            elif k < 0.3:
                ops.append(["bad", rng.choice(["other", "other", "none", "list", "int", "str", "fake", "named", "class"])])
            elif k < 0.5:
                j = rng.randrange(3)
                ops += [["next", j]] * rng.choice([1, 1, 2, 4, 7])
            elif k < 0.62:
                ops.append(["iter", rng.randrange(3)])
            elif k < 0.66:
                ops.append(["drop", rng.randrange(3)])
            elif k < 0.74:
                ops.append(["index", rng.randint(-6, 12), rng.choice(["int", "int", "int", "int64", "intp", "bool"])])
            elif k < 0.82:
                ops.append(["slice", [rng.choice([None] + list(range(-5, 9))) for _ in range(2)]
                            + [rng.choice([None, 1, 2, -1, -2, 3])],
                            rng.choice([None, None, "clear", "reverse", "grow"])])
            elif k < 0.87:
                ops.append(["len"])
            elif k < 0.91:
                ops.append(["list"])
            elif k < 0.94:
                ops.append(["nested"])
            elif k < 0.96:
                ops.append(["break", rng.randint(0, 5)])
            elif k < 0.98:
                ops.append(["text", rng.choice(["str", "repr"])])
            else:
                ops.append([rng.choice(["contains", "reversed", "zip", "bool"])])
        return {"kind": rng.choice(["vtw", "ow"]), "ops": ops, "start": rng.choice([0, 1, 2, 5]) if rng.random() < 0.9 else rng.choice([31, 64, 99, 100, 127, 200, 256, 1000]),
                "ticks": [rng.randrange(-9, 10) for _ in range(5)]}

    def execute(self, plan, res):
        from celest.encounter.window_handling import ObservationWindow, VisibleTimeWindow, WindowCollection
        from celest.units.quantity import Quantity
        from celest import units as u

        # times in any order, with ties: the order of a collection is that of the additions
        def vtw(k):
            return VisibleTimeWindow(2459000.5 + k, 2459000.5 + k + 0.25, None)

        def ow(k):
            return ObservationWindow(Quantity(2459000.5 + k, u.jd2000), Quantity(30 + k, u.s), None, None)
        ticks = plan.get("ticks", range(99))
        mine, other = (vtw, ow) if plan["kind"] == "vtw" else (ow, vtw)

        class Fake:
            rise_time = set_time = attitude = start_time = duration = location = None
        coll, model, its = WindowCollection(), [], {}
        fresh = 0
        trace = []

        def same(a, b):
            return len(a) == len(b) and all(x is y for x, y in zip(a, b))

        def whole(what):
            got = list(coll)
            if not same(got, model):
                res.fail("wrong-content", f"{what}: {len(got)} windows {[id(x) in map(id, model) for x in got]}, "
                         f"model has {len(model)}")
                return False
            return True
        for _ in range(plan["start"]):
            x = mine(ticks[fresh % len(ticks)])
            fresh += 1
            coll.add_window(x)
            model.append(x)
        for n, op in enumerate(plan["ops"]):
            name = f"op {n} {op}"
            k = op[0]
            if k == "add":
                x = model[op[2] % len(model)] if op[1] == "dup" and model else mine(op[2])
                try:
                    coll.add_window(x)
                except Exception as e:
                    return res.fail("addition-refused", f"{name}: {type(e).__name__} {e}")
                model.append(x)
            elif k == "bad":
                bad = {"other": lambda: other(n), "none": lambda: None, "list": lambda: [mine(0)],
                       "int": lambda: 3, "str": lambda: "VisibleTimeWindow", "fake": Fake,
                       "named": type(mine(0).__class__.__name__, (Fake,), {}),
                       "class": lambda: (VisibleTimeWindow if plan["kind"] == "vtw" else ObservationWindow)}[op[1]]()
                if op[1] == "other" and not model:
                    continue
                try:
                    coll.add_window(bad)
                    res.fail("wrong-kind-accepted", name)
                except TypeError:
                    pass
                except Exception as e:
                    res.fail("wrong-kind-error", f"{name}: {type(e).__name__} instead of TypeError")
                res.hit("refused")
                if len(coll) != len(model):
                    return res.fail("refused-but-kept", f"{name}: length {len(coll)}, model {len(model)}")
            elif k == "iter":
                its[op[1]] = [iter(coll), [], len(model)]
            elif k == "drop":
                its.pop(op[1], None)
                gc.collect(0)
            elif k == "next" and op[1] in its:
                it = its[op[1]]
                try:
                    it[1].append(next(it[0]))
                    res.hit("iteration-steps")
                except StopIteration:
                    if len(it[1]) < it[2]:
                        return res.fail("iteration-short", f"{name}: yielded {len(it[1])} of {it[2]} windows present at its start")
                    its.pop(op[1])
                    res.hit("iterations-finished")
                    continue
                if len(it[1]) > len(model) or it[1][-1] is not model[len(it[1]) - 1]:
                    return res.fail("iteration-wrong", f"{name}: step {len(it[1])} yielded another window than number "
                                    f"{len(it[1]) - 1}; open iterations {sorted(its)}")
            elif k == "index":
                x = {"int64": np.int64, "intp": np.intp, "bool": lambda n: n > 0}.get(op[2], int)(op[1])
                want = outcome(lambda: model[x])
                got = outcome(lambda: coll[x])
                if want[0] != got[0] or (want[0] == "ok" and want[1] is not got[1]) or (want[0] != "ok" and want[1] != got[1]):
                    return res.fail("wrong-index", f"{name}: {got} expected {want}")
            elif k == "slice":
                s = slice(*op[1])
                got = outcome(lambda: list(coll[s]))
                if got[0] == "ok" and same(got[1], model[s]) and op[2]:
                    part = coll[s]                   # a slice belongs to the caller
                    if isinstance(part, list):
                        {"clear": part.clear, "reverse": part.reverse, "grow": lambda: part.append(None)}[op[2]]()
                    if not whole(f"{name}, slice changed"):
                        return
                if got[0] != "ok" or not same(got[1], model[s]):
                    return res.fail("wrong-slice", f"{name}: {str(got)[:100]}, expected {len(model[s])} windows")
            elif k == "len":
                if len(coll) != len(model):
                    return res.fail("wrong-length", f"{name}: {len(coll)}, model {len(model)}")
            elif k == "list":
                if not whole(name):
                    return
            elif k == "nested":
                pairs = [(x, y) for x in coll for y in coll]
                want = [(x, y) for x in model for y in model]
                if len(pairs) != len(want) or any(p[0] is not q[0] or p[1] is not q[1] for p, q in zip(pairs, want)):
                    return res.fail("nested-iteration", f"{name}: {len(pairs)} pairs, expected {len(want)}")
            elif k == "break":
                for j, x in enumerate(coll):
                    if j == op[1]:
                        break
            elif k == "text":
                (str if op[1] == "str" else repr)(coll)
            elif k == "contains":
                if model and model[-1] not in coll:
                    return res.fail("wrong-content", f"{name}: last window not in the collection")
            elif k == "reversed":
                got = outcome(lambda: list(reversed(coll)))
                if got[0] == "ok" and not same(got[1], model[::-1]):
                    return res.fail("wrong-content", f"{name}: reversed differs")
            elif k == "zip":
                got = list(zip(coll, coll))
                if not same([a for a, b in got], model) or not same([b for a, b in got], model):
                    return res.fail("parallel-iteration", f"{name}: {len(got)} pairs, expected {len(model)}")
            elif k == "bool":
                if bool(coll) != bool(model):
                    return res.fail("wrong-length", f"{name}: truth {bool(coll)}")
            trace.append((k, len(model)))
            if res.violations:
                return
        for key in sorted(its):                      # iterations left open still finish correctly
            it = its[key]
            rest = it[1] + list(it[0])
            if len(rest) < it[2] or not same(rest, model[:len(rest)]):
                return res.fail("iteration-wrong", f"iteration {key} finished at the end yields {len(rest)} windows, "
                                f"{it[2]} were present at its start")
        if len(coll) != len(model) or not whole("end"):
            return res.fail("wrong-length", "at the end") if not res.violations else None
        res.nontrivial = len(model) > 1
        res.digest = digest(trace)
        res.sig = digest((plan["ops"], plan["start"]))

    def shrink(self, plan):
        yield from core.drop_each(plan, "ops", 1)
        yield from core.smaller_ints(plan, "start")


def outcome(f):
    try:
        return ("ok", f())
    except Exception as e:
        return ("raised", type(e).__name__)


# ------------------------------------------------------------------------------------------- C14
class C14(Check):
    id = "C14"
    rule = ("random tracks, sites, thresholds, lighting and suns; each plan queries one satellite several times while "
            "the ephemeris file meets open, read and close errors, truncation, short reads and missing coverage; results "
            "compared with windows computed independently of celest; open handles counted after every call")
    measure = "distinct (windows, faults fired) pairs"
    real = ["celest.encounter.window_generator", "celest.satellite", "celest.coordinates", "celest.units", "jplephem"]
    stubs = ["file de421.bsp (in-memory kernel built from the plan, with a fault plan)", "clocks, entropy"]
    assumptions = ["jplephem extrapolates by up to one record past the end of a kernel; gaps in coverage are longer",
                   "the reference neglects nutation; instants where the sun or the satellite is within 0.03 or 0.02 "
                   "degree of the limit are not judged",
                   "the horizon may be taken perpendicular to the geocentric or to the geodetic vertical"]
    tiers = {"quick": {"runs": 20000, "wall": 45, "limit": 20, "shrink": 20},
             "thorough": {"runs": 150000, "wall": 500, "limit": 30, "shrink": 60}}

    def gen(self, rng, tier, i):
        w = W.gen_world(rng, size=rng.choice(["small", "large"]))
        if rng.random() < 0.15 and not w["exact"]:
            for b in w["blocks"]:
                if rng.random() < 0.5 and b["n"] < 300:
                    b["gap"] = round(rng.choice([600.0, 5400.0, 40000.0]) * rng.uniform(0.5, 1.5), 3)
        w["sun"] = W.gen_sun(rng, w)
        w["kernel"] = {"order": rng.sample(["sun", "emb", "earth"], 3), "endian": rng.choice("<<>"),
                       "pad": rng.choice([0, 0, 1024])}
        qs = []
        for _ in range(rng.choice([2, 3, 5])):
            q = {"site": rng.randrange(len(w["sites"])), "light": rng.choice(["ANYTIME", "DAYTIME", "DAYTIME", "NIGHTTIME",
                                                                             "NIGHTTIME"]),
                 "thr": rng.choice([w["thr"], w["thr"], 0, 90, round(rng.uniform(0, 90), 2), 10]),
                 "fault": None}
            if rng.random() < 0.5:
                q["fault"] = self.fault(rng)
            if rng.random() < 0.35:
                q["tweak"] = [rng.choice(["times", "times", "track", "later"]), rng.getrandbits(20)]
            qs.append(q)
        qs.append(dict(rng.choice(qs)) | {"fault": None})
        return {"world": w, "queries": qs, "rs": rng.getrandbits(30)}

    @staticmethod
    def fault(rng):
        e = rng.choice([errno.EIO, errno.EIO, errno.ESTALE, errno.EACCES, errno.ENOMEM])
        sticky = rng.random() < 0.5
        k = rng.random()
        base = {"bufsize": rng.choice([1, 16, 512, 8192, 8192]), "short": rng.choice([0, 0, 1, 7, 100, 1000]), "kind": ""}
        if k < 0.15:
            return base | {"kind": "open", "errno": rng.choice([errno.ENOENT, errno.EACCES, errno.EMFILE, errno.EIO]),
                           "nth": 1, "sticky": sticky}
        if k < 0.55:
            return base | {"kind": "read", "errno": e, "nth": rng.choice([1, 2, 3, 4, 5, rng.randint(1, 40)]), "sticky": sticky}
        if k < 0.62:
            return base | {"kind": "close", "errno": errno.EIO, "nth": 1, "sticky": False}
        if k < 0.75:
            return base | {"kind": "truncated", "frac": rng.choice([0, rng.random(), 0.999])}
        if k < 0.87:
            return base | {"kind": "uncovered", "how": rng.choice(["before", "after", "partial-start", "partial-end"]),
                           "frac": rng.random()}
        return base | {"kind": "none"}

    def execute(self, plan, res):
        w = plan["world"]
        seams.clock[0] = seams.SimClock(1.6e9, plan["rs"])
        seams.entropy[0] = core.REAL_RANDOM(plan["rs"])
        seams.set_random(seams.SimRandom(plan["rs"]))
        geo_t, pos = W.times_of(w), W.track_of(w)
        sat = W.build_satellite(w)
        sites = [W.build_site(s) for s in w["sites"]]
        content = W.spk_bytes(w["sun"], w["t0"], **w.get("kernel", {}))
        trace = []
        base = w
        for n, q in enumerate(plan["queries"]):
            w, this, t, p = base, sat, geo_t, pos
            if q.get("tweak"):                      # another satellite that looks much like the first
                w = self.tweaked(base, *q["tweak"])
                this, t, p = W.build_satellite(w), W.times_of(w), W.track_of(w)
                res.hit("other-satellites")
            trace.append(self.query(n, q, w, this, sites, t, p, content, res))
            if res.violations:
                break
        res.simtime = float(geo_t[-1] - geo_t[0]) * 86400
        res.digest = res.sig = digest(trace)
        res.nontrivial = any(t and t[0] for t in trace)

    @staticmethod
    def tweaked(w, how, seed):
        """A like world: as many samples, same first and last instants (times), or other passes, or a later epoch."""
        r = core.REAL_RANDOM(seed)
        if how == "later":
            return w | {"start": round(r.uniform(-0.6, 0.6), 4) + w.get("start", 0)}
        if how == "track":
            return w | {"blocks": [b | {"heading": round(r.uniform(0, 360), 1)} for b in w["blocks"]]}
        n = sum(b["n"] for b in w["blocks"])
        t = W.times_of(w)
        xs = sorted(r.uniform(0, 1) ** r.choice([1, 3]) for _ in range(n - 2))
        span = float(t[-1] - t[0])
        mid = [float(t[0]) + span * (0.001 + 0.998 * (x * 0.9 + 0.1 * (k + 1) / (n - 1))) for k, x in enumerate(xs)]
        return w | {"instants": [float(t[0])] + mid + [float(t[-1])]}

    def query(self, n, q, w, sat, sites, t, pos, content, res):
        from celest.encounter.window_generator import generate_vtws
        f = q["fault"]
        name = f"query {n} {q['light']} threshold {q['thr']} site {q['site']} fault {f}"
        c = W.classify(w, w["sites"][q["site"]], q["thr"], q["light"], t, pos)
        body, kw = content, {}
        uncovered = False
        if f:
            kw = {"bufsize": f["bufsize"], "short": f["short"]}
            if f["kind"] in ("open", "read", "close"):
                kw["faults"] = [{"op": f["kind"], "nth": f["nth"], "errno": f["errno"], "sticky": f.get("sticky")}]
            elif f["kind"] == "truncated":
                kw["truncate"] = int(len(content) * f["frac"])
            elif f["kind"] == "uncovered":
                uncovered = True
                span = float(t[-1] - t[0])
                rec = span / 40                     # jplephem extrapolates by up to one record past the end
                cut = float(t[0]) + span * (0.05 + 0.85 * f["frac"])
                nrec = {"partial-start": 60, "partial-end": int((cut - t[0]) / rec) + 2}.get(f["how"], 8)
                begin = {"before": t[0] - 12 * rec, "after": t[-1] + 1.0, "partial-start": cut,
                         "partial-end": cut - nrec * rec}[f["how"]]
                body = W.spk_bytes(w["sun"], w["t0"], rec_days=rec, begin=float(begin), nrec=nrec, **w.get("kernel", {}))
        seams.ephemeris[0] = e = seams.Ephemeris(body, **kw)
        failed = None
        try:
            out = generate_vtws(sat, sites[q["site"]], q["thr"], W.lighting(q["light"]))
        except seams.StatementBudget:
            raise
        except Exception as x:
            failed = f"{type(x).__name__}: {x}"
            open_now = len(e.open_handles)
            parsed = e.parsed
            x = None
        if failed is not None:
            if parsed and open_now:
                res.fail("handle-left-open", f"{name}: {open_now} handles open when the error {failed} arrives")
            elif e.open_handles:
                gc.collect()
                if e.open_handles:
                    res.fail("handle-left-open", f"{name}: handle open after the error {failed} was dealt with")
        elif e.open_handles:
            res.fail("handle-left-open", f"{name}: {len(e.open_handles)} handles open after the call returned")
        res.hit("queries")
        for k in e.fired:
            res.hit(k)
        res.event(name, "->", failed or f"{len(out)} windows", e.fired)
        disturbed = bool(e.hard) or (e.truncated and "ephemeris-truncated" in e.fired)
        used = e.opens > 0
        if failed is not None:
            if disturbed or (uncovered and used):
                res.hit("errors-reported")
                return (True, "failed", tuple(e.fired))
            return res.fail("raised", f"{name}: {failed} although nothing was wrong")
        if uncovered and used:
            return res.fail("fault-passed-over", f"{name}: returned {len(out)} windows although the ephemeris does not cover the track")
        sticky = bool(f) and f["kind"] in ("open", "read") and f.get("sticky") and bool(e.hard)
        if sticky:
            return res.fail("fault-passed-over", f"{name}: returned {len(out)} windows although the ephemeris could not be read")
        return self.compare(name, q, w, sat, sites, t, c, out, res, e)

    def compare(self, name, q, w, sat, sites, t, c, out, res, e):
        from celest import units as u
        got = [(float(v.rise_time.to(u.jd2000)), float(v.set_time.to(u.jd2000))) for v in out]
        want = W.reference_windows(t, c)
        if want is None:
            res.hit("ambiguous")
            if not self.lenient(t, c, got):
                return res.fail("wrong-windows", f"{name}: {got}; classes {''.join('-?+'[x + 1] for x in c)}")
        elif len(got) != len(want) or any(abs(a - x) > 1e-9 or abs(b - y) > 1e-9 for (a, b), (x, y) in zip(got, want)):
            return res.fail("wrong-windows", f"{name}: {got}, expected {want} at {e.fired}")
        res.hit("windows", len(got))
        if len(out):
            pos = W.track_of(w)
            ref = W.attitudes(pos, W.velocity_of(w, pos, t), w["sites"][q["site"]])
            for v in out:
                at = v.attitude
                rpy = [np.asarray(x.to(u.deg)) for x in (at.roll, at.pitch, at.yaw)]
                tt = np.asarray(at.time.to(u.jd2000))
                key = W.site_key(at.location)
                if key != W.site_key(sites[q["site"]]):
                    return res.fail("wrong-attitude", f"{name}: window attitude is for {key}")
                idx = np.searchsorted(t, tt)
                ok = len(tt) and (idx < len(t)).all() and np.allclose(t[np.minimum(idx, len(t) - 1)], tt, atol=1e-9, rtol=0)
                if ok:
                    ok = all(len(a) == len(tt) and np.allclose(a, b[idx], atol=1e-6, rtol=0) for a, b in zip(rpy, ref))
                rise, set_ = float(v.rise_time.to(u.jd2000)), float(v.set_time.to(u.jd2000))
                if ok:                               # at least the window's own instants are there
                    ok = all(np.abs(tt - x).min() < 1e-9 for x in t[(t >= rise - 1e-9) & (t <= set_ + 1e-9)])
                if not ok:
                    return res.fail("wrong-attitude", f"{name}: attitude of window {rise, set_} is not the satellite's")
        return (bool(got), tuple(got), tuple(e.fired))

    @staticmethod
    def lenient(t, c, got):
        """Whether some choice for the undecided samples explains the windows."""
        cover = np.zeros(len(t), int)
        last = -1
        for a, b in got:
            i, j = int(np.argmin(np.abs(t - a))), int(np.argmin(np.abs(t - b)))
            if abs(t[i] - a) > 1e-9 or abs(t[j] - b) > 1e-9 or j < i or i < last:
                return False
            first = i + 1 if i > 0 or (c[0] <= 0 and j > 0) else 0
            if i == 0 and c[0] >= 0 and not (c[0] == 0 and j > 0):
                first = 0
            cover[first:j + 1] = 1
            if i == 0 and c[0] == 0:
                cover[0] = 2
            last = j
        return not (((cover == 1) & (c < 0)) | ((cover == 0) & (c > 0))).any()

    def shrink(self, plan):
        yield from core.drop_each(plan, "queries", 1)
        for p in W.shrink_world({"world": plan["world"]}):
            yield plan | p
        for i, q in enumerate(plan["queries"]):
            if q["fault"]:
                yield plan | {"queries": plan["queries"][:i] + [q | {"fault": None}] + plan["queries"][i + 1:]}
                for k, v in (("short", 0), ("bufsize", 8192)):
                    if q["fault"].get(k) != v:
                        yield plan | {"queries": plan["queries"][:i] + [q | {"fault": q["fault"] | {k: v}}]
                                      + plan["queries"][i + 1:]}


CHECKS = [C11, C14]
