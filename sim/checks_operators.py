"""Histories of removal and insertion operators over fabricated window structures: C07."""
import copy
import math

import numpy as np

import core
import seams
from checks_search import zscores
from core import Check, digest

STEP = 1 / 4096          # days; dyadic, so that edges, midpoints and sums are exact floats
REMOVALS = ["random_removal", "priority_removal", "opportunity_removal", "conflict_removal"]
INSERTIONS = ["greedy_insertion", "minimum_opportunity_insertion", "minimum_conflict_insertion"]


def gen_windows(rng, horizon):
    """[(rise, set)] in steps, in order, apart from each other."""
    out, at = [], rng.randint(0, horizon // 2)
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4]) if rng.random() < 0.9 else rng.choice([7, 9, 12])):
        n = rng.choice([1, 2, 3, 6, 8, 12, 16, 24])
        if at + n > horizon:
            break
        out.append([at, at + n])
        at += n + rng.choice([1, 1, 2, 5, 20])
    return out


class C07(Check):
    id = "C07"
    level = "exploration"
    real = ["celest.schedule.insertion_operators", "celest.schedule.removal_operators",
            "celest.schedule.scheduling_utils", "celest.schedule.request_handler", "celest.units"]
    stubs = ["visible time windows and attitudes (fabricated)", "Python's global random generator (seeded, optionally "
             "with extreme draws)", "clocks, entropy"]
    assumptions = ["windows of one request do not overlap each other; times lie on a dyadic grid"]
    rule = ("random request sets with nested, equal, touching and one-step windows; histories of initialisation, the four "
            "removals, the three insertions and deep copies with any amounts; every step compared with the state "
            "before it; random removal tested for uniformity over the batch (|z| < 6)")
    measure = "distinct histories of scheduled sets"
    budget = 30_000_000
    tiers = {"quick": {"runs": 20000, "wall": 50, "limit": 60, "shrink": 20},
             "thorough": {"runs": 200000, "wall": 500, "limit": 60, "shrink": 60}}

    @staticmethod
    def gen_uniform(rng):
        """Disjoint windows, everything fits: many random removals out of known scheduled sets."""
        n, reqs, at = rng.randint(2, 8) if rng.random() < 0.75 else rng.randint(9, 16), [], 1
        for k in range(n):
            w = rng.choice([6, 8, 12])
            reqs.append({"wins": [[at, at + w]], "dur": STEP * (1 / 8 + k / 1024), "dl": 1.0, "prio": rng.randint(1, 10),
                         "qual": 1, "look": None})
            at += w + rng.choice([1, 3])
        rng.shuffle(reqs)
        if rng.random() < 0.3:                       # one that never fits, anywhere in the order
            reqs[rng.randrange(n)]["wins"] = []
        ops = [["init", 0]]
        for _ in range(30):
            ops += [["random_removal", rng.randint(1, max(1, n - 1))], [rng.choice(INSERTIONS), n]]
        return {"t0": 2459000.5, "horizon": at + 4, "reqs": reqs, "ops": ops, "pitch": [0.0, 1.0],
                "rs": rng.getrandbits(32), "mode": "plain"}

    def gen(self, rng, tier, i):
        if i % 9 == 5:
            return self.gen_uniform(rng)
        rich = rng.random() < 0.6                    # most requests fit somewhere
        horizon = rng.choice([120, 240]) if rich else rng.choice([30, 60, 120])
        n = rng.choice([4, 5, 6, 7, 8, 10]) if rich else rng.choice([1, 2, 3, 4, 5, 6, 8, 10])
        many = rng.random() < 0.02
        if many:
            n, horizon = rng.choice([20, 33, 40]), 240
        reqs, shared = [], [gen_windows(rng, horizon) for _ in range(2)]
        for k in range(n):
            how = rng.random()
            wins = shared[rng.randrange(2)] if how < (0.1 if rich else 0.4) else gen_windows(rng, horizon)
            if how > (0.95 if rich else 0.85) and wins:                  # nested in a shared structure
                wins = [[a, min(b, a + 2)] for a, b in shared[0]] or wins
            width = (wins[0][1] - wins[0][0]) if wins else 8
            f = rng.choice([1 / 64, 1 / 32, 1 / 16, 1 / 8, 1 / 4, 1 / 3, 1 / 2, 1 / 9, 2 / 9])
            q = STEP / 4096
            dur = (max(1, round(width * STEP * f / q)) + (0 if rng.random() < 0.5 else k)) * q
            end = ((wins[0][0] + wins[0][1]) * STEP + dur) / 2 + dur if wins else 1.0
            dl = rng.choice([horizon * STEP + 1, horizon * STEP + 1, horizon * STEP + 1, end, end + q, end - dur,
                             rng.randint(0, horizon) * STEP])
            if rich and rng.random() < 0.8:
                dur, dl = max(1, round(width * STEP * rng.choice([1 / 64, 1 / 32, 1 / 16, 1 / 8]) / q) + k) * q, horizon
                reqs.append({"wins": wins, "dur": dur, "dl": dl, "prio": rng.randint(1, 10), "qual": rng.randint(1, 5),
                             "look": None})
                continue
            reqs.append({"wins": wins, "dur": dur, "dl": dl, "prio": rng.randint(1, 10),
                         "qual": rng.choice([1, 1, 2, 3, 5, 7, 8, 9, 10]),
                         "look": rng.choice([None] * 6 + [0.0, 5.0, -3.5, 40.0])})
        ops = [["init", 0]] if rng.random() < 0.85 else []
        for _ in range(3 if many else rng.choice([2, 4, 8, 12])):
            k = rng.random()
            amount = rng.choice([0, 1, 1, 2, 3, n // 4 + 1, n, n + 3])
            if k < 0.45:
                ops.append([rng.choice(REMOVALS + ["random_removal"]), amount])
            elif k < 0.9:
                ops.append([rng.choice(INSERTIONS), amount])
            elif k < 0.95:
                ops.append(["copy", 0])
            else:
                ops.append(["init", 0])
        return {"t0": 2459000.5 + rng.randint(0, 100), "horizon": horizon, "reqs": reqs, "ops": ops,
                "pitch": [round(rng.uniform(-60, 60), 3) for _ in range(rng.choice([2, 3, 6]))],
                "rs": rng.getrandbits(32), "mode": rng.choice(["plain", "plain", "plain", "mixed", "low", "high"])}

    # ------------------------------------------------------------------------------------------
    def build(self, plan):
        from celest.coordinates.frames.attitude import Attitude
        from celest.coordinates.ground_location import GroundLocation
        from celest.encounter.window_handling import VisibleTimeWindow, WindowCollection
        from celest.schedule.request_handler import RequestHandler
        from celest.units.quantity import Quantity
        from celest import units as u
        t = plan["t0"] + np.arange(plan["horizon"] + 1) * STEP
        knots = plan["pitch"]
        pitch = np.interp(np.arange(len(t)), np.linspace(0, len(t) - 1, len(knots)), knots)
        h = RequestHandler()
        for k, r in enumerate(plan["reqs"]):
            loc = GroundLocation(10.0 + k, 20.0, 0.1, u.deg, u.km)
            att = Attitude(t.copy(), np.zeros(len(t)), pitch.copy(), np.zeros(len(t)), u.deg, loc)
            wins = WindowCollection()
            for a, b in r["wins"]:
                wins.add_window(VisibleTimeWindow(t[a], t[b], att))
            h.add_request(loc, Quantity(plan["t0"] + r["dl"], u.jd2000), Quantity(r["dur"] * 86400, u.s), r["prio"],
                          r["qual"], None if r["look"] is None else Quantity(r["look"], u.deg), wins)
        return h

    def state(self, h):
        """{request number: facts}, through the documented layout of a request."""
        from celest.schedule.request_handler import RequestIndices as I
        from celest import units as u
        out, order = {}, []
        for row in h:
            lat = float(row[I.location].latitude.to(u.deg))
            k = round(lat - 10)
            wins = [(float(v.rise_time.to(u.jd2000)), float(v.set_time.to(u.jd2000))) for v in row[I.vtw_list]]
            on = bool(row[I.is_scheduled])
            fixed = (lat, float(row[I.deadline].to(u.jd2000)), float(row[I.duration].to(u.s)), row[I.priority],
                     row[I.quality], None if row[I.look_angle] is None else float(row[I.look_angle].to(u.deg)),
                     tuple(sorted(wins)))
            sched = None
            if on:
                i = row[I.vtw_index]
                w = wins[i] if isinstance(i, (int, np.integer)) and 0 <= i < len(wins) else None
                sched = (float(row[I.scheduled_start_time].to(u.jd2000)), float(row[I.scheduled_duration].to(u.s)), w)
            if k in out:
                raise core.Violation("request-duplicated", f"request {k} occurs twice")
            out[k] = (fixed, sched)
            order.append(k)
        return out, order

    def execute(self, plan, res):
        from celest.schedule import insertion_operators, removal_operators, scheduling_utils
        seams.clock[0] = seams.SimClock(0, 1)
        seams.entropy[0] = core.REAL_RANDOM(1)
        seams.set_random(seams.SimRandom(plan["rs"], plan["mode"]))
        res.agg = {}
        h = self.build(plan)
        before, order = self.state(h)
        hist = []
        try:
            for n, (op, amount) in enumerate(plan["ops"]):
                try:
                    if op == "init":
                        scheduling_utils.initialize_solution(h)
                        amount = len(plan["reqs"])
                    elif op == "copy":
                        h = copy.deepcopy(h)
                    elif op in REMOVALS:
                        getattr(removal_operators, op)(h, amount)
                    else:
                        getattr(insertion_operators, op)(h, amount)
                except seams.StatementBudget:
                    raise
                except Exception as e:
                    return res.fail("operator-raised", f"op {n} {op}({amount}): {type(e).__name__}: {e}")
                after, norder = self.state(h)
                res.hit(op)
                self.step(plan, n, op, amount, before, order, after, h, res)
                hist.append(tuple(sorted((k, s) for k, (f, s) in after.items() if s)))
                if res.violations:
                    return
                before, order = after, norder
        finally:
            res.nontrivial = len(set(hist)) > 1
            res.digest = res.sig = digest(hist)
            res.event("last", hist[-1:] or "nothing")

    def step(self, plan, n, op, amount, before, order, after, h, res):
        name = f"op {n} {op}({amount})"
        if set(after) != set(range(len(plan["reqs"]))):
            return res.fail("request-lost", f"{name}: requests {sorted(after)} of {len(plan['reqs'])}")
        for k in after:
            if after[k][0] != before[k][0]:
                return res.fail("request-altered", f"{name}: request {k}: {before[k][0]} -> {after[k][0]}")
        was = {k for k in before if before[k][1]}
        now = {k for k in after if after[k][1]}
        count = getattr(h, "number_of_scheduled_requests", len(now))
        if count != len(now):
            return res.fail("wrong-count", f"{name}: {count} counted, {len(now)} scheduled")
        for k in was & now:
            if before[k][1] != after[k][1]:
                return res.fail("scheduled-request-moved", f"{name}: request {k} {before[k][1]} -> {after[k][1]}")
        if op == "copy":
            if was != now:
                res.fail("copy-differs", f"{name}: {was} -> {now}")
            return
        if op in REMOVALS:
            gone = was - now
            if now - was:
                return res.fail("removal-schedules", f"{name}: {now - was} newly scheduled")
            if len(gone) != min(amount, len(was)):
                return res.fail("wrong-number-removed", f"{name}: removed {sorted(gone)} of {sorted(was)}")
            if 0 < amount < len(was):
                self.chosen(plan, name, op, amount, before, order, was, gone, res)
            return
        new = now - was
        if was - now:
            return res.fail("insertion-removes", f"{name}: {was - now} no longer scheduled")
        if len(new) > amount:
            return res.fail("too-many-inserted", f"{name}: inserted {sorted(new)}")
        for k in new:
            self.valid(name, k, after, res)
        iv = sorted((s[0], s[0] + s[1] / 86400, k) for k, (f, s) in after.items() if s)
        for a, b in zip(iv, iv[1:]):
            if b[0] < a[1] - 1e-10:
                return res.fail("overlap", f"{name}: requests {a[2]} and {b[2]}: {a[:2]} {b[:2]}")
        if len(new) < amount:
            for k, (f, s) in after.items():
                if s is None and f[5] is None and f[4] <= 5:
                    for rise, set_ in f[6]:
                        if (set_ - rise) * 86400 >= 4 * f[2] and f[1] > set_ and \
                                not any(x[0] <= set_ and rise <= x[1] for x in iv):
                            return res.fail("stopped-short", f"{name}: inserted {sorted(new)}; request {k} of "
                                            f"{f[2]} s still fits in free window {(rise, set_)}")
        res.hit("inserted", len(new))

    @staticmethod
    def valid(name, k, after, res):
        fixed, (start, dur, win) = after[k]
        end = start + dur / 86400
        if win is None:
            return res.fail("bad-window-index", f"{name}: request {k} records no window of its own")
        if dur != fixed[2]:
            return res.fail("wrong-duration", f"{name}: request {k} {dur} s instead of {fixed[2]}")
        rise, set_ = win
        if not (rise < start and end < set_):
            return res.fail("outside-window", f"{name}: request {k} [{start!r}, {end!r}] in {win}")
        if not end < fixed[1]:
            return res.fail("deadline-missed", f"{name}: request {k} ends {end!r}, deadline {fixed[1]!r}")
        mid = (rise + set_) / 2
        if math.floor(10 - 9 * abs(start - mid) / (mid - rise) + 1e-9) < fixed[4]:
            return res.fail("quality-missed", f"{name}: request {k} quality {fixed[4]} at {start!r} in {win}")

    def chosen(self, plan, name, op, amount, before, order, was, gone, res):
        kept = was - gone
        if op == "random_removal":
            if plan["mode"] == "plain":
                s = len(was)
                pos = [k for k in order if k in was]
                q = amount / s
                keys = {"first": pos[0], "last": pos[-1], f"place{min(4, len(pos) // 2)}of{min(s, 9)}": pos[len(pos) // 2],
                        "top-priority": max(was, key=lambda k: (before[k][0][3], k)), "handler-end": order[-1],
                        "handler-start": order[0]}
                for key, k in keys.items():
                    if k in was:
                        a = res.agg.setdefault(key, [0.0, 0.0, 0])
                        a[0] += (k in gone) - q
                        a[1] += q * (1 - q)
                        a[2] += 1
                q2 = amount * (amount - 1) / (s * (s - 1))
                if q2 > 0:
                    a = res.agg.setdefault("neighbours", [0.0, 0.0, 0])
                    a[0] += (pos[0] in gone and pos[1] in gone) - q2
                    a[1] += q2 * (1 - q2)
                    a[2] += 1
            return
        if op == "priority_removal":
            key = {k: before[k][0][3] for k in was}
        elif op == "opportunity_removal":
            key = {k: len(before[k][0][6]) for k in was}
        else:
            wins = [w for f, s in before.values() for w in f[6]]
            key = {}
            for k in was:
                a, b = before[k][1][2]
                over = [min(b, d) - max(a, c) for c, d in wins if not (b < c or d < a)]
                key[k] = sum(over) / len(over)
        res.hit("ranked-removals")
        if min(key[k] for k in gone) < max(key[k] for k in kept) - 1e-9:
            res.fail("wrong-request-removed", f"{name}: removed { {k: key[k] for k in gone} }, "
                     f"kept { {k: key[k] for k in kept} }")

    def aggregate(self, aggs):
        return zscores(aggs, "random-removal-not-uniform", "removed minus expected")

    def shrink(self, plan):
        yield from core.drop_each(plan, "ops", 1)
        yield from core.drop_each(plan, "reqs", 1)
        for i, (op, n) in enumerate(plan["ops"]):
            if n > 1:
                yield plan | {"ops": plan["ops"][:i] + [[op, n - 1]] + plan["ops"][i + 1:]}
        for i, r in enumerate(plan["reqs"]):
            if len(r["wins"]) > 1:
                for j in range(len(r["wins"])):
                    yield plan | {"reqs": plan["reqs"][:i] + [r | {"wins": r["wins"][:j] + r["wins"][j + 1:]}]
                                  + plan["reqs"][i + 1:]}
        if plan["mode"] != "plain":
            yield plan | {"mode": "plain"}


CHECKS = [C07]
