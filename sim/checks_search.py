"""The adaptive search driven by simulated operators: C04 C05 C06.

Solutions carry a version tag at the top and nested content below it; every content is recorded when an operator
leaves it, so sharing between solutions shows as content that does not belong to its tag. The operators see which
solution each round starts from, and with it every acceptance decision.
"""
import math

import core
import seams
from core import Check, digest

REAL = ["celest.schedule.alns.ALNS", "in C04 also request handlers with celest's own operators, cost and completeness", "copy.deepcopy", "random.choices and the global generator's functions"]
STUBS = ["cost, destroy, repair and completeness functions (scripted by the plan)",
         "Python's global random generator (seeded, optionally with extreme draws)", "clocks, entropy"]


class OpError(BaseException):
    """Raised by a scripted operator."""


OP_ERRORS = [type("Op" + b.__name__, (OpError, b), {}) for b in (
    RuntimeError, ValueError, KeyError, IndexError, TypeError, AttributeError, ZeroDivisionError, OverflowError, ArithmeticError,
    OSError, MemoryError, RecursionError, AssertionError, Exception, KeyboardInterrupt, SystemExit)]


def op_error(spec, n):
    return OP_ERRORS[spec.get("error", 0) % len(OP_ERRORS)](f"operator call {n}")


class Sol:
    """A deep solution: top-level tag, nested parts whose sum is the cost."""

    def __init__(self, tag, parts, extra):
        self.tag, self.parts, self.extra = tag, parts, extra

    def content(self):
        return (tuple(tuple(x) for x in self.parts), tuple(sorted((k, tuple(v)) for k, v in self.extra.items())))

    def cost(self):
        return math.fsum(y for x in self.parts for y in x)


class Aliased(core.Violation):
    pass


class Problem:
    """One scripted problem; `history` is what the operators saw."""

    def __init__(self, spec):
        self.spec = spec
        self.initial = Sol(0, [[spec["c0"]], [0.0]], {"seen": [0], "deep": [1, 2]})
        self.done_content = {0: self.initial.content()}

    def begin(self, raise_at=None):
        self.r = core.REAL_RANDOM(f"ops/{self.spec['seed']}")
        self.rounds = []                # (destroy index, input tag, input cost, amount) ... see below
        self.tags = 0
        self.known = {0: self.done_content[0]}
        self.costs = {0: self.initial.cost()}
        self.complete_tags = {0} if self.spec.get("complete_at") == 0 else set()
        self.calls = 0
        self.raise_at = raise_at
        self.pending = None
        self.problems = []
        self.handed = []
        self.weights = []               # (round, destroy weights, repair weights) read before the round

    # ---- functions handed to ALNS
    def cost(self, sol):
        return sol.cost()

    def complete(self, sol):
        return sol.extra["seen"][0] >= 0 and "done" in sol.extra

    def check_known(self, sol, who):
        if sol.tag in self.known and self.known[sol.tag] != sol.content():
            self.problems.append(("aliased-solution", f"{who} got version {sol.tag} with content that is not its own: "
                                  f"{str(sol.content())[:120]} expected {str(self.known[sol.tag])[:120]}"))
        elif sol.tag not in self.known:
            self.problems.append(("unknown-solution", f"{who} got version {sol.tag}"))

    def call(self):
        self.calls += 1
        if self.raise_at == self.calls:
            raise op_error(self.spec, self.calls)

    def destroy(self, i, alns):
        def f(sol, amount):
            if sol is self.initial:
                self.problems.append(("initial-passed-to-operator", "the destroy step got the initial solution itself"))
            if any(sol is x for x in self.handed):
                self.problems.append(("not-a-private-copy", "a destroy step got an object an earlier round worked on"))
            self.handed = self.handed[-3:] + [sol]
            self.check_known(sol, f"destroy {i}")
            if self.pending is not None:
                self.problems.append(("not-one-destroy-one-repair", "two destroy steps in a row"))
            self.read_weights(alns)
            before = sol.tag
            cost = sol.cost()
            self.tags += 1
            sol.tag = self.tags
            sol.parts[1][0] -= 0.0
            sol.parts[0].append(0.125)
            sol.extra["seen"].append(self.tags)
            if len(sol.extra["seen"]) > 4:
                del sol.extra["seen"][1]
            self.known[sol.tag] = sol.content()
            self.pending = (i, before, cost, amount, sol.tag)
            self.call()
            return sol
        return f

    def repair(self, j, alns):
        def f(sol, amount):
            self.check_known(sol, f"repair {j}")
            if self.pending is None or sol.tag != self.pending[4]:
                self.problems.append(("not-one-destroy-one-repair", f"repair of {sol.tag} after {self.pending}"))
                self.pending = self.pending or (0, sol.tag, sol.cost(), amount, sol.tag)
            i, before, cost, damount, _ = self.pending
            self.pending = None
            self.tags += 1
            sol.tag = self.tags
            k = len(self.rounds)
            target = self.next_cost(cost, k)
            sol.parts[:] = [[target - 1.0, 1.0], [0.0]]
            if sol.cost() != target:
                sol.parts[:] = [[target], [0.0]]
            sol.extra["deep"] = [k, self.r.randrange(3)]
            if self.spec.get("complete_at") is not None and k + 1 >= self.spec["complete_at"] and \
                    (k + 1 == self.spec["complete_at"] or self.r.random() < 0.5):
                sol.extra["done"] = [k]
                self.complete_tags.add(sol.tag)
            else:
                sol.extra.pop("done", None)
            self.known[sol.tag] = sol.content()
            self.costs[sol.tag] = sol.cost()
            self.rounds.append((i, before, cost, damount, j, amount, sol.tag, sol.cost()))
            self.call()
            return sol
        return f

    def read_weights(self, alns):
        def as_list(name, n):
            v = getattr(alns, name, None)
            try:
                v = [float(x) for x in v]
            except TypeError:
                return None
            return v if len(v) == n else None
        if len(self.weights) == len(self.rounds):
            self.weights.append((as_list("destroy_weights", self.spec["nd"]), as_list("repair_weights", self.spec["nr"])))

    def next_cost(self, current, k):
        s, r = self.spec, self.r
        style = s["style"]
        t = abs(0.05 * s["c0"] / math.log(2)) * s["p"] ** k
        u = r.random()
        if style == "grid":                        # few levels, many ties
            return s["c0"] + s["unit"] * r.choice([-2, -1, -1, 0, 0, 0, 1, 1, 2, 3])
        if style == "zero":
            return r.choice([0.0, current, current + s["unit"], current - s["unit"], -s["unit"], s["unit"]])
        if u < s["improve"]:
            return current - abs(s["unit"]) * r.choice([0.125, 1, 1, 3])
        if u < s["improve"] + s["equal"]:
            return current
        scale = t * abs(current)                   # worse: aim at a spread of acceptance probabilities
        rho = r.choice([r.random(), r.random(), 0.5, 1e-13 * r.random(), 0.99])
        inc = -math.log(max(rho, 1e-300)) * scale / 100
        if inc < 1e-9 * max(1.0, abs(current)):
            inc = abs(s["unit"])
        return current + inc


def run(prob, alns, par, raise_at=None):
    """One solve; (status, returned object)."""
    from_seed = seams.SimRandom(par["rs"], par.get("mode", "plain"))
    seams.set_random(from_seed)
    prob.begin(raise_at)
    try:
        out = alns.solve(par["iters"], par["p"], par["l"], par["remove"], par["add"])
    except OpError as e:
        return "raised", e
    return "ok", out


def make(prob):
    from celest.schedule.alns import ALNS
    a = ALNS(prob.initial)
    a.add_cost_function(prob.cost)
    a.add_destroy_functions([prob.destroy(i, a) for i in range(prob.spec["nd"])])
    a.add_repair_functions([prob.repair(j, a) for j in range(prob.spec["nr"])])
    a.add_completeness_function(prob.complete)
    if prob.spec.get("complete_at") == 0:
        prob.initial.extra["done"] = [0]
        prob.done_content[0] = prob.initial.content()
    return a


def spec_of(rng, iters):
    c0 = rng.choice([-1, -5, -20, -1000, 1, 7, 300, -0.5, 0.25]) * 1.0
    return {"seed": rng.getrandbits(40), "nd": rng.choice([1, 2, 3, 4, 5]), "nr": rng.choice([1, 2, 3, 4]), "c0": c0,
            "unit": rng.choice([1.0, 1.0, 0.5, 0.5, abs(c0) / 4, abs(c0) / 4, abs(c0) * 2.0 ** -38]), "style": rng.choice(["anneal", "anneal", "grid", "zero"]),
            "improve": rng.choice([0.05, 0.2, 0.5]), "equal": rng.choice([0.0, 0.1, 0.3]),
            "iters": iters, "p": rng.choice([1.0, 0.99, 0.95, 0.8, 0.5, 0.0, 0.9999]),
            "l": rng.choice([0.0, 0.05, 0.3, 0.5, 0.8, 1.0]), "remove": rng.randint(0, 9), "add": rng.randint(0, 9),
            "rs": rng.getrandbits(32), "mode": "plain"}


class Search(Check):
    real, stubs = REAL, STUBS
    assumptions = ["operators modify the solution in place and return it, as celest's own operators do",
                   "costs are finite floats; request handlers come from fabricated windows"]
    hang_is_violation = True
    measure = "distinct round histories (operator indices, costs, acceptances)"

    def execute(self, plan, res):
        seams.clock[0] = seams.SimClock(0, 1)
        seams.entropy[0] = core.REAL_RANDOM(1)
        traces = []
        for par in plan["solves"]:
            traces.append(self.one(par, res))
            if res.violations:
                break
        res.nontrivial = True
        res.digest = res.sig = digest(traces)
        res.hit("rounds", sum(len(t[0]) for t in traces if t))

    def shrink(self, plan):
        yield from core.drop_each(plan, "solves", 1)
        for i, s in enumerate(plan["solves"]):
            for k in ("iters", "nd", "nr"):
                for v in sorted({1, s[k] // 2, s[k] - 1}):
                    if 1 <= v < s[k]:
                        yield plan | {"solves": plan["solves"][:i] + [s | {k: v}] + plan["solves"][i + 1:]}
            h = s.get("handler")
            for j in reversed(range(len(h["h"]["reqs"]) if h else 0)):
                if len(h["h"]["reqs"]) > 1:
                    rest = h["h"]["reqs"][:j] + h["h"]["reqs"][j + 1:]
                    yield plan | {"solves": plan["solves"][:i] + [s | {"handler": h | {"h": h["h"] | {"reqs": rest}}}]
                                  + plan["solves"][i + 1:]}


class C04(Search):
    id = "C04"
    tiers = {"quick": {"runs": 30000, "wall": 40, "limit": 20, "shrink": 15},
             "thorough": {"runs": 400000, "wall": 400, "limit": 30, "shrink": 40}}
    rule = ("random problems (cost landscapes with ties, zeros, both signs; operators that raise at a chosen call; extreme "
            "draws); the operators record what they are handed and the returned solution is compared with the record")

    def gen(self, rng, tier, i):
        out = []
        for _ in range(rng.choice([1, 2, 4])):
            s = spec_of(rng, rng.choice([0, 1, 2, 5, 12, 25, 50]))
            if rng.random() < 0.06:                 # a long search, most of it without improvement
                s["iters"] = rng.choice([80, 150, 300])
                s["improve"], s["equal"] = rng.choice([(0.05, 0.1), (0.01, 0.0), (0.003, 0.02)])
            s["mode"] = rng.choice(["plain", "plain", "mixed", "low", "high"])
            s["complete_at"] = rng.choice([None, None, 0, rng.randint(1, 20)])
            s["raises"] = rng.choice([None, None, sorted(rng.sample(range(1, 12), rng.choice([1, 2])))])
            s["error"] = rng.randrange(16)
            out.append(s)
        if i % 4 == 3:                              # celest's own solutions and operators
            from checks_operators import C07
            for s in out:
                s["handler"] = self.handler_plan(C07(), rng, tier, i)
                s["iters"] = min(s["iters"], 12)
        return {"solves": out}

    @staticmethod
    def handler_plan(c07, rng, tier, i):
        p = c07.gen(rng, tier, 0)
        n = len(p["reqs"])
        return {"h": p | {"ops": []}, "init": rng.random() < 0.8, "remove": rng.choice([1, math.ceil(n / 4), n]),
                "add": rng.choice([1, n, n])}

    def real_handler(self, par, res):
        """The search over request handlers with celest's operators, each wrapped by a recorder."""
        from celest.schedule import insertion_operators, removal_operators, scheduling_utils
        from celest.schedule.alns import ALNS
        from checks_operators import C07, INSERTIONS, REMOVALS
        c, hp = C07(), par["handler"]

        def snap(h):
            st, _ = c.state(h)
            return tuple(sorted((k, st[k]) for k in st))

        def start():
            h = c.build(hp["h"])
            if hp["init"]:
                scheduling_utils.initialize_solution(h)
            return h

        def cost_of(sn):
            return -sum(f[3] for _, (f, s) in sn if s)
        initial = start()
        first = snap(initial)
        alns = ALNS(initial)
        rounds, calls, fail_at = [], [0], [None]
        box = {}

        def call():
            calls[0] += 1
            if calls[0] == fail_at[0]:
                raise op_error(par, calls[0])

        witnessed = []                              # solutions the search weighed lately, as they were then

        def watch(f):
            def g(sol):
                if not any(sol is x for x, _ in witnessed):
                    witnessed.append((sol, snap(sol)))
                    del witnessed[:-8]
                return f(sol)
            return g

        def others_untouched(sol, name):
            for x, sn in witnessed:
                if x is not sol and snap(x) != sn:
                    res.fail("not-a-private-copy", f"{name} worked on a copy but another solution changed: "
                             f"{[(k, s) for k, (f, s) in sn]} -> {[(k, s) for k, (f, s) in snap(x)]}")
            witnessed[:] = [(x, sn) for x, sn in witnessed if x is not sol]

        def destroy(name):
            f = getattr(removal_operators, name)

            def g(sol, amount):
                if sol is initial:
                    res.fail("initial-passed-to-operator", f"{name} got the initial solution itself")
                box["in"] = (snap(sol), name, amount)
                out = f(sol, amount)
                others_untouched(sol, name)
                call()
                return out
            return g

        def repair(name):
            f = getattr(insertion_operators, name)

            def g(sol, amount):
                out = f(sol, amount)
                rounds.append(box.pop("in") + (name, amount, snap(sol)))
                others_untouched(sol, name)
                call()
                return out
            return g
        alns.add_cost_function(watch(scheduling_utils.cost))
        alns.add_destroy_functions([destroy(n) for n in REMOVALS])
        alns.add_repair_functions([repair(n) for n in INSERTIONS])
        alns.add_completeness_function(watch(scheduling_utils.is_complete))

        def solve(at=None):
            rounds.clear()
            witnessed.clear()
            calls[0], fail_at[0] = 0, at
            seams.set_random(seams.SimRandom(par["rs"], par["mode"]))
            try:
                return "ok", alns.solve(par["iters"], par["p"], par["l"], hp["remove"], hp["add"])
            except OpError as e:
                return "raised", e

        def check(what):
            if snap(initial) != first:
                res.fail("initial-modified", f"{what}: {first} -> {snap(initial)}")
            for k, rd in enumerate(rounds):
                allowed = [first] if k == 0 else [rounds[k - 1][0], rounds[k - 1][5]]
                if rd[0] not in allowed:
                    res.fail("round-starts-elsewhere", f"{what}: round {k} started from neither the current solution nor "
                             f"the candidate of the round before")
                    break
                if (rd[2], rd[4]) != (hp["remove"], hp["add"]):
                    res.fail("wrong-amount", f"{what}: round {k}: {rd[1:5]}")
                    break
        for at in par.get("raises") or []:
            st, _ = solve(at)
            if st == "ok" and calls[0] >= at:
                res.fail("operator-error-swallowed", f"operator call {at} raised but solve returned")
            check(f"after an error at call {at}")
        st, out = solve()
        if st == "raised":
            return res.fail("unexpected-error", out)
        check("after solve")
        res.hit("handler-rounds", len(rounds))
        best, cost, stop = first, cost_of(first), None
        if all(s for _, (f, s) in first):
            stop = 0
        for k, rd in enumerate(rounds):
            if cost_of(rd[5]) < cost:
                best, cost = rd[5], cost_of(rd[5])
            if stop is None and all(s for _, (f, s) in best):
                stop = k + 1
        want = par["iters"] if stop is None else min(stop, par["iters"])
        if len(rounds) != want:
            res.fail("wrong-stop", f"{len(rounds)} rounds; best complete after {stop}, limit {par['iters']}")
        got = snap(out)
        if got != best:
            res.fail("not-the-best", f"returned cost {cost_of(got)}: {[(k, s) for k, (f, s) in got]}; best has cost {cost}: "
                     f"{[(k, s) for k, (f, s) in best]}")
        return [(rd[1], rd[3], cost_of(rd[5])) for rd in rounds], cost

    def one(self, par, res):
        if par.get("handler"):
            return self.real_handler(par, res)
        prob = Problem(par)
        alns = make(prob)
        if par.get("raises"):
            for at in par["raises"]:
                st, out = run(prob, alns, par, at)
                if st != "raised" and prob.calls >= at:
                    res.fail("operator-error-swallowed", f"operator call {at} raised but solve returned")
                res.hit("operator-errors", int(st == "raised"))
                self.common(prob, par, res)
            # as if those runs had not happened
            fresh = Problem(par)
            st2, out2 = run(fresh, make(fresh), par)
            ref = (fresh.rounds, out2.tag if st2 == "ok" else None)
            st, out = run(prob, alns, par)
            if (prob.rounds, out.tag if st == "ok" else None) != ref:
                res.fail("failed-run-left-traces", f"after errors at {par['raises']}: {prob.rounds[:3]}.. vs a fresh "
                         f"search {fresh.rounds[:3]}..")
        else:
            st, out = run(prob, alns, par)
        if st == "raised":
            res.fail("unexpected-error", out)
            return None
        self.common(prob, par, res)
        self.returned(prob, par, out, res)
        return prob.rounds, out.tag

    @staticmethod
    def common(prob, par, res):
        for c, m in prob.problems[:2]:
            res.fail(c, m)
        if prob.initial.content() != prob.done_content[0] or prob.initial.tag != 0:
            res.fail("initial-modified", f"{prob.initial.content()}")
        for k, (i, a, ca, am, j, amr, b, cb) in enumerate(prob.rounds):
            if (am, amr) != (par["remove"], par["add"]):
                res.fail("wrong-amount", f"round {k}: destroy {am}, repair {amr}; wanted {par['remove']}, {par['add']}")
                break
        if len(prob.rounds) > par["iters"]:
            res.fail("too-many-rounds", f"{len(prob.rounds)} > {par['iters']}")
        prev = None
        for k, rd in enumerate(prob.rounds):
            allowed = {0} if k == 0 else {prob.rounds[k - 1][1], prob.rounds[k - 1][6]}
            if rd[1] not in allowed:
                res.fail("round-starts-elsewhere", f"round {k} started from version {rd[1]}, allowed {allowed}")
                break

    @staticmethod
    def returned(prob, par, out, res):
        best, cost = 0, prob.initial.cost()
        stop = 0 if 0 in prob.complete_tags or par.get("complete_at") == 0 else None
        for k, rd in enumerate(prob.rounds):
            if rd[7] < cost:
                best, cost = rd[6], rd[7]
            if stop is None and best in prob.complete_tags:
                stop = k + 1
        if out is prob.initial:
            pass
        if getattr(out, "tag", None) != best or out.content() != prob.known[best]:
            res.fail("not-the-best", f"returned version {getattr(out, 'tag', out)} cost {out.cost()}, best is {best} "
                     f"cost {cost}; rounds {[(r[6], r[7]) for r in prob.rounds][:12]}")
        want = par["iters"] if stop is None else min(stop, par["iters"])
        if len(prob.rounds) != want:
            res.fail("wrong-stop", f"{len(prob.rounds)} rounds; {'best complete after ' + str(stop) if stop is not None else 'never complete'}"
                     f", limit {par['iters']}")
        res.hit("complete-stops", int(stop is not None))


class C05(Search):
    id = "C05"
    tiers = {"quick": {"runs": 5000, "wall": 30, "limit": 20, "shrink": 15},
             "thorough": {"runs": 100000, "wall": 400, "limit": 30, "shrink": 40}}
    rule = ("random searches whose worse candidates aim at acceptance probabilities spread over (0,1); certain decisions "
            "are checked one by one, uncertain ones against their probability over the batch (|z| < 6 in every bucket)")

    def gen(self, rng, tier, i):
        out = []
        for _ in range(8):
            s = spec_of(rng, rng.choice([20, 40, 60]))
            if rng.random() < 0.03:
                s |= {"iters": rng.choice([150, 300, 600]), "p": rng.choice([1.0, 0.9999, 0.999, 0.99])}
            s["style"] = rng.choice(["anneal", "anneal", "anneal", "grid", "zero"])
            if s["style"] == "zero":
                s["c0"] = rng.choice([0.0, 0.0, s["c0"]])
                s["mode"] = rng.choice(["plain", "low", "mixed"])
            out.append(s)
        return {"solves": out}

    def execute(self, plan, res):
        res.agg = {}
        super().execute(plan, res)

    def one(self, par, res):
        prob = Problem(par)
        st, out = run(prob, make(prob), par)
        c0 = prob.initial.cost()
        before = None
        for k in range(len(prob.rounds) - 1):
            i, a, ca, _, j, _, b, cb = prob.rounds[k]
            nxt = prob.rounds[k + 1][1]
            if nxt not in (a, b):
                continue                            # C04's business
            accepted = nxt == b
            last, before = before, ("better" if cb < ca else "equal" if cb == ca else "taken" if accepted else "refused")
            if cb <= ca:
                res.hit("not-worse")
                if not accepted:
                    return self.bad(res, "not-worse-rejected", k, ca, cb, par)
                continue
            t = 0.05 * abs(c0) / math.log(2) * par["p"] ** k
            if t == 0 or ca == 0:
                res.hit("frozen")
                if accepted:
                    return self.bad(res, "worse-accepted-when-frozen", k, ca, cb, par)
                continue
            x = -100 * (cb - ca) / (t * abs(ca))
            rho = math.exp(x) if x > -700 else 0.0
            if par["mode"] != "plain":
                continue
            res.hit("annealed")
            if rho < 1e-12:
                if accepted:
                    return self.bad(res, "worse-accepted-improbably", k, ca, cb, par, rho)
                continue
            for key in ("all", f"rho{min(9, int(rho * 10))}", "neg" if ca < 0 else "pos", f"round{min(5, k // 10)}",
                        f"p{par['p']}", f"p{par['p']}-late{min(4, k // 60)}", f"c0sign{1 if c0 > 0 else -1}", f"c0{c0}", f"after-{last}", f"destroy{i}",
                        f"repair{j}", "same-operators" if i == j else "other-operators",
                        f"decade{math.floor(math.log10(rho))}", f"doubt{math.floor(math.log10(1 - rho)) if rho < 1 else -99}"):
                s = res.agg.setdefault(key, [0.0, 0.0, 0])
                s[0] += accepted - rho
                s[1] += rho * (1 - rho)
                s[2] += 1
        return prob.rounds, getattr(out, "tag", None)

    @staticmethod
    def bad(res, cls, k, ca, cb, par, rho=None):
        res.fail(cls, f"round {k}: current {ca}, candidate {cb}, c0 {par['c0']}, p {par['p']}, probability {rho}")

    def aggregate(self, aggs):
        return zscores(aggs, "acceptance-probability", "accepted minus expected", rare=25.0)


def cov(p, x, u):
    """Covariance of "x is drawn" and "u is drawn" in one draw with probabilities p."""
    return p[x] * (1 - p[x]) if x == u else -p[x] * p[u]


def improbable(d, v):
    """-log of a bound (Bennett's) on the probability that indicators of variance v together leave their mean by d."""
    x = abs(d) / v
    return v * ((1 + x) * math.log1p(x) - x)


def zscores(aggs, cls, what, limit=6.0, rare=None):
    tot = {}
    for _, a in aggs:
        for k, (d, v, n) in a.items():
            s = tot.setdefault(k, [0.0, 0.0, 0])
            s[0] += d
            s[1] += v
            s[2] += n
    zs = {k: (d / math.sqrt(v), n) for k, (d, v, n) in sorted(tot.items()) if v > 25}
    bad = sorted(((abs(z), k, z, n) for k, (z, n) in zs.items() if abs(z) > limit), reverse=True)
    odd = [(k, d, v, n) for k, (d, v, n) in sorted(tot.items()) if rare and 0 < v <= 25 and improbable(d, v) > rare]
    return {"violations": [(cls, f"{what} over bucket {k}: z = {z:.1f} of {n} decisions") for _, k, z, n in bad]
            + [(cls, f"{what} over bucket {k}: {d:.3g} of {n} decisions, variance {v:.3g}") for k, d, v, n in odd],
            "report": {"buckets": len(zs), "decisions": max((n for _, n in zs.values()), default=0),
                       "largest |z|": round(max((abs(z) for z, _ in zs.values()), default=0), 2), "limit": limit}}


class C06(Search):
    id = "C06"
    tiers = {"quick": {"runs": 5000, "wall": 30, "limit": 20, "shrink": 15},
             "thorough": {"runs": 100000, "wall": 400, "limit": 30, "shrink": 40}}
    rule = ("random searches; a model of the weights follows the observed decisions; weights are read inside the "
            "operators and compared, operators of weight zero must not be drawn, and the choices are tested against "
            "the model's probabilities and for independence over the batch (|z| < 6 in every bucket)")

    def gen(self, rng, tier, i):
        out = []
        for _ in range(8):
            s = spec_of(rng, rng.choice([10, 30, 60]))
            if rng.random() < 0.03:
                s["iters"] = rng.choice([150, 300, 600])
            s["mode"] = rng.choice(["plain", "plain", "plain", "plain", "mixed", "low", "high"])
            out.append(s)
        return {"solves": out}

    def execute(self, plan, res):
        res.agg = {}
        super().execute(plan, res)

    def one(self, par, res):
        prob = Problem(par)
        st, out = run(prob, make(prob), par)
        wd, wr = [1.0] * par["nd"], [1.0] * par["nr"]
        best = prob.initial.cost()
        before = score = None
        r = par["l"]
        for k, (i, a, ca, _, j, _, b, cb) in enumerate(prob.rounds):
            seen = prob.weights[k] if k < len(prob.weights) else (None, None)
            for name, model, got in (("destroy", wd, seen[0]), ("repair", wr, seen[1])):
                if got is None:
                    continue
                res.hit("weights-read")
                if any(abs(x - y) > 1e-9 * max(1e-300, abs(x)) + 1e-15 for x, y in zip(model, got)):
                    return res.fail("wrong-weights", f"{name} weights before round {k} are {got}, expected {model}; "
                                    f"previous rounds (destroy, repair, current cost, candidate cost) "
                                    f"{[(x[0], x[4], x[2], x[7]) for x in prob.rounds[max(0, k - 2):k]]}, r={r}")
            pd, pr = self.probs(wd), self.probs(wr)
            for name, p, x in (("destroy", pd, i), ("repair", pr, j)):
                if p[x] == 0:
                    return res.fail("zero-weight-drawn", f"round {k}: {name} operator {x} of weights {wd if name == 'destroy' else wr}")
            if par["mode"] == "plain":
                self.collect(res.agg, "d", pd, i, not any(wd), k, before and before[0], score)
                self.collect(res.agg, "r", pr, j, not any(wr), k, before and before[1], score)
                for shift in (0, 1):
                    pairs = [(x, (x + shift) % len(pd)) for x in range(len(pd)) if (x + shift) % len(pd) < len(pr)]
                    s = res.agg.setdefault("independence" + ("-other" if shift else "-same"), [0.0, 0.0, 0])
                    s[0] += sum(((i == x) - pd[x]) * ((j == y) - pr[y]) for x, y in pairs)
                    s[1] += sum(cov(pd, x, u) * cov(pr, y, v) for x, y in pairs for u, v in pairs)
                    s[2] += 1
                before = (i, j, score)
            if k + 1 >= len(prob.rounds):
                break
            nxt = prob.rounds[k + 1][1]
            if nxt not in (a, b):
                break
            score = 3 if cb < best else 0 if nxt != b else 2 if cb < ca else 1
            best = min(best, cb)
            res.hit(f"score-{score}")
            wd[i] = (1 - r) * wd[i] + r * score / 6
            wr[j] = (1 - r) * wr[j] + r * score / 6
            if not any(wd):
                res.hit("all-weights-zero")
        return prob.rounds, getattr(out, "tag", None)

    @staticmethod
    def probs(w):
        t = sum(w)
        return [x / t for x in w] if t > 0 else [1 / len(w)] * len(w)

    @staticmethod
    def collect(agg, kind, p, chosen, zero, k, last, score):
        for x, q in enumerate(p):
            if not 0 < q < 1:
                continue
            for key in (f"{kind}-op{x}", f"{kind}-p{min(9, int(q * 10))}", f"{kind}-zero{zero}-{x}" if zero else None,
                        f"{kind}-first{x}" if k == 0 else None, f"{kind}-n{len(p)}-op{x}",
                        f"{kind}-again" if x == last else None, f"{kind}-again-score{score}" if x == last else None,
                        f"{kind}-late{min(5, k // 10)}-op{x}", f"{kind}-verylate{min(5, k // 100)}-op{x}"):
                if key:
                    s = agg.setdefault(key, [0.0, 0.0, 0])
                    s[0] += (chosen == x) - q
                    s[1] += q * (1 - q)
                    s[2] += 1

    def aggregate(self, aggs):
        return zscores(aggs, "selection-probability", "chosen minus expected")


CHECKS = [C04, C05, C06]
