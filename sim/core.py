"""Runner of the simulator: seeds -> plans -> isolated executions -> verdict, shrinking, replay, evidence.

Every run is executed in a child forked from a process that has imported celest and done nothing
else, so a run depends on its plan and on /repo only; no state leaks from run to run.
"""
import hashlib
import json
import os
import pickle
import random as _random
import select
import signal
import struct
import sys
import time as _time
import traceback

import seams

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, "evidence", "replays")
now = _time.perf_counter            # the real clock; only the runner reads it
REAL_RANDOM = _random.Random        # untouched by the seams


class Violation(Exception):
    """A property does not hold. `cls` is the violation class kept fixed while shrinking."""

    def __init__(self, cls, msg):
        super().__init__(f"{cls}: {msg}")
        self.cls, self.msg = cls, msg


class Result:
    __slots__ = ("violations", "digest", "sig", "nontrivial", "counts", "simtime", "agg", "log", "error",
                 "wall", "timeout")

    def __init__(self):
        self.violations = []        # [(cls, msg)]
        self.digest = ""            # digest of everything observable in the run
        self.sig = ""               # state / interleaving reached, for distinct counting
        self.nontrivial = False
        self.counts = {}            # faults fired, probes hit
        self.simtime = 0.0          # simulated seconds
        self.agg = None             # data for batch-level statistics
        self.log = []               # event log (short)
        self.error = None           # harness error
        self.wall = 0.0
        self.timeout = False

    def __getstate__(self):
        return {k: getattr(self, k) for k in self.__slots__}

    def __setstate__(self, s):
        for k, v in s.items():
            setattr(self, k, v)

    def fail(self, cls, msg):
        self.violations.append((cls, str(msg)[:600]))

    def hit(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def event(self, *a):
        if len(self.log) < 400:
            self.log.append(" ".join(str(x) for x in a)[:200])


def digest(obj):
    return hashlib.sha256(repr(obj).encode()).hexdigest()[:24]


def seed_of(base, prop, i):
    return int.from_bytes(hashlib.sha256(f"{base}/{prop}/{i}".encode()).digest()[:8], "big")


def execute_here(check, plan):
    """Execute a plan in this process (a fresh child or a replay process)."""
    res = Result()
    budget = plan.get("statement_budget")
    try:
        if budget:
            with seams.Tracer(budget=budget):
                check.execute(plan, res)
        else:
            check.execute(plan, res)
    except Violation as v:
        res.fail(v.cls, v.msg)
    except seams.StatementBudget as e:
        res.hit("statement-budget-exceeded")
        if check.hang_is_violation:
            res.fail("does-not-terminate", e)
    except seams.Deadlock as e:
        res.fail("deadlock", e)
    except BaseException as e:  # noqa - a harness error unless the check says otherwise
        if of_celest(e):
            res.fail("unexpected-error", f"a valid use of celest raised {type(e).__name__}: {e}")
        else:
            res.error = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    return res


def walk_below(x):
    """The frames of x from its last celest frame on."""
    frames = list(traceback.walk_tb(x.__traceback__))
    last = [i for i, (f, _) in enumerate(frames) if os.path.abspath(f.f_code.co_filename).startswith(seams.CELEST)]
    return frames[last[-1]:] if last else frames


def of_celest(e):
    """Did celest itself raise this where the check had no error to expect? Not so what a seam or a stand-in of the
    simulator could be the cause of."""
    if not isinstance(e, Exception):
        return False
    here = os.path.dirname(os.path.abspath(__file__)) + os.sep
    files = [os.path.abspath(f.f_code.co_filename) for f, _ in traceback.walk_tb(e.__traceback__)]
    where = [i for i, f in enumerate(files) if f.startswith(seams.CELEST)]
    if not where or any(f.startswith(here) for f in files[where[-1]:]):
        return False
    x = e.__cause__ or e.__context__
    while x is not None:                            # an injected error, wrapped
        if any(os.path.abspath(f.f_code.co_filename).startswith(here) for f, _ in walk_below(x)):
            return False
        x = x.__cause__ or x.__context__
    owner = getattr(e, "obj", None)
    for t in (type(owner), owner):
        if getattr(sys.modules.get(getattr(t, "__module__", None)), "__file__", None) or "":
            if os.path.abspath(sys.modules[t.__module__].__file__).startswith(here):
                return False
    return True


def _child(check, plan, fd):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    code = 0
    try:
        t = now()
        res = execute_here(check, plan)
        res.wall = now() - t
        data = pickle.dumps(res)
        with os.fdopen(fd, "wb") as f:
            f.write(struct.pack("<Q", len(data)))
            f.write(data)
    except BaseException:
        code = 3
    finally:
        os._exit(code)


class Forker:
    """Execute plans in forked children, up to `jobs` at a time, results in plan order of completion."""

    def __init__(self, check, jobs=None, limit=60.0):
        self.check = check
        self.jobs = jobs or min(8, os.cpu_count() or 1)
        self.limit = limit
        self.stop = False

    def run(self, plans, deadline=None):
        """plans: iterator of (key, plan); yields (key, plan, Result)."""
        live = {}
        it = iter(plans)
        more = True
        try:
            while more or live:
                while more and len(live) < self.jobs:
                    if self.stop or (deadline is not None and now() > deadline):
                        more = False
                        break
                    try:
                        key, plan = next(it)
                    except StopIteration:
                        more = False
                        break
                    r, w = os.pipe()
                    sys.stdout.flush()
                    pid = os.fork()
                    if pid == 0:
                        os.close(r)
                        _child(self.check, plan, w)
                    os.close(w)
                    live[r] = [pid, key, plan, b"", now()]
                if not live:
                    break
                ready, _, _ = select.select(list(live), [], [], 0.5)
                for fd in ready:
                    ent = live[fd]
                    chunk = os.read(fd, 1 << 20)
                    if chunk:
                        ent[3] += chunk
                        continue
                    os.close(fd)
                    del live[fd]
                    os.waitpid(ent[0], 0)
                    yield ent[1], ent[2], self._decode(ent[3])
                t = now()
                for fd, ent in list(live.items()):
                    if t - ent[4] > self.limit:
                        self._kill(ent[0])
                        os.close(fd)
                        del live[fd]
                        res = Result()
                        res.timeout = True
                        yield ent[1], ent[2], res
        finally:
            for fd, ent in live.items():
                self._kill(ent[0])
                os.close(fd)

    @staticmethod
    def _kill(pid):
        for f in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
            try:
                f()
            except OSError:
                pass
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass

    @staticmethod
    def _decode(data):
        if len(data) >= 8:
            n, = struct.unpack("<Q", data[:8])
            if len(data) == n + 8:
                return pickle.loads(data[8:])
        res = Result()
        res.error = "child died without a result"
        return res

    def one(self, plan):
        for _, _, res in self.run([(0, plan)]):
            return res


# ----------------------------------------------------------------------------------------------
def shrink(check, plan, cls, budget_s, jobs=8):
    """Greedy plan shrinking while a violation of the same class persists."""
    fk = Forker(check, jobs=jobs, limit=30)
    end = now() + budget_s
    best, tried, kept = plan, 0, 0
    progress = True
    while progress and now() < end:
        progress = False
        cands = list(check.shrink(best))
        # evaluate candidates in order, in parallel batches, keep the first that still fails
        for i in range(0, len(cands), jobs):
            if now() > end:
                break
            batch = cands[i:i + jobs]
            ok = {}
            for k, p, res in fk.run(enumerate(batch), deadline=end):
                tried += 1
                if not res.timeout and any(c == cls for c, _ in res.violations):
                    ok[k] = p
            if ok:
                best = ok[min(ok)]
                kept += 1
                progress = True
                break
    return best, tried, kept


def write_replay(prop, plan, viols, log, meta):
    os.makedirs(REPLAYS, exist_ok=True)
    body = {"property": prop, "violation": viols[:5], "plan": plan, "log": log, **meta}
    name = f"{prop}-{digest(json.dumps(plan, sort_keys=True))[:12]}.json"
    path = os.path.join(REPLAYS, name)
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return os.path.relpath(path, VERIF)


def known_findings():
    """Entries `{"property", "class", "match", "what"}` that are recorded rather than repaired."""
    path = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f).get("known", [])


def match_known(prop, cls, msg, known):
    for k in known:
        if k["property"] == prop and k["class"] == cls and k["match"] in msg:
            return k
    return None


# ----------------------------------------------------------------------------------------------
def run_check(check, tier, base_seed):
    t0 = now()
    prop = check.id
    cfg = check.tiers[tier]
    wall_cap = int(os.environ.get("SIM_WALL") or cfg["wall"])
    total = cfg["runs"]
    known = known_findings()
    print(f"[{prop}] tier={tier} VERIF_SEED={base_seed} runs<={total} wall<={wall_cap}s", flush=True)

    def plans(n, start=0):
        for i in range(start, n):
            s = seed_of(base_seed, prop, i)
            yield i, check.gen(REAL_RANDOM(s), tier, i) | {"run_seed": s}

    fk = Forker(check, limit=cfg.get("limit", 40))
    sigs, counts, simtime, nontrivial, done = set(), {}, 0.0, 0, 0
    trivial, aggs, digests, samples = 0, [], {}, []
    first_fail, errors, timeouts = None, [], []
    known_hits = {}
    deadline = t0 + wall_cap
    gen = fk.run(plans(total), deadline=deadline)
    for i, plan, res in gen:
        done += 1
        if res.timeout:
            timeouts.append((i, plan))
            if len(timeouts) >= 3:
                break
            continue
        if res.error:
            errors.append((i, res.error))
            if len(errors) >= 3:
                break
            continue
        for k, v in res.counts.items():
            counts[k] = counts.get(k, 0) + v
        simtime += res.simtime
        digests[i] = res.digest
        if res.nontrivial:
            nontrivial += 1
            sigs.add(res.sig)
        if res.agg is not None:
            aggs.append((i, res.agg))
        if len(samples) < 3 and res.nontrivial:
            samples.append({"run": i, "seed": plan["run_seed"], "plan": check.describe(plan), "log": res.log[:12]})
        new = []
        for c, m in res.violations:
            k = match_known(prop, c, m, known)
            if k:
                known_hits[k["what"]] = known_hits.get(k["what"], 0) + 1
            else:
                new.append((c, m))
        if new:                      # let earlier runs finish; report the lowest run number
            fk.stop = True
            if first_fail is None or i < first_fail[0]:
                first_fail = (i, plan, new, res.log)
    gen.close()

    violation = None
    if first_fail is None and not errors and timeouts:
        # decide non-termination by a count of executed statements, never by the wall clock
        with_budget = ((i, p | {"statement_budget": check.budget}) for i, p in timeouts)
        for i, plan, res in Forker(check, limit=200).run(with_budget):
            done += 1
            if res.timeout:
                counts["unjudged-slow-runs"] = counts.get("unjudged-slow-runs", 0) + 1
            elif res.error:
                errors.append((i, res.error))
            elif res.violations and (first_fail is None or i < first_fail[0]):
                if not any(match_known(prop, c, m, known) for c, m in res.violations):
                    first_fail = (i, plan, res.violations, res.log)

    stat = None
    if first_fail is None and not errors and aggs:
        stat = check.aggregate(aggs)
        if stat and stat.get("violations"):
            plan = {"aggregate": True, "base_seed": base_seed, "tier": tier,
                    "runs": stat.get("runs") or sorted(i for i, _ in aggs)}
            violation = write_replay(prop, plan, stat["violations"], stat.get("log", []),
                                     {"seed": base_seed, "kind": "batch statistic"})
            for c, m in stat["violations"][:5]:
                print(f"  {c}: {m}")

    shrunk = None
    if first_fail is not None:
        i, plan, viols, log = first_fail
        cls = viols[0][0]
        print(f"  run {i} seed {plan['run_seed']}: {viols[0][0]}: {viols[0][1]}", flush=True)
        small, tried, kept = shrink(check, plan, cls, cfg.get("shrink", 20))
        res = Forker(check, limit=400).one(small)
        if not any(c == cls for c, _ in res.violations):      # fall back to the original plan
            small = plan
            res = Forker(check, limit=400).one(small)
        shrunk = {"tried": tried, "kept": kept}
        v = res.violations or viols
        violation = write_replay(prop, small, v, res.log or log,
                                 {"seed": plan["run_seed"], "run": i, "base_seed": base_seed,
                                  "shrunk": shrunk, "original_plan": plan})
        repro = replay_subprocess(violation)
        print(f"  minimised ({kept} steps of {tried} tried); replay in a fresh process: "
              f"{'reproduced' if repro == 1 else f'exit {repro}'}")
        for c, m in v[:3]:
            print(f"  {c}: {m}")

    # determinism: re-execute a sample, other order, other parallelism
    recheck = sorted(digests, key=lambda k: digest(k))[: max(4, min(40, len(digests) // 50))]
    mism = 0
    if first_fail is None and not errors:
        for i, plan, res in Forker(check, jobs=5).run(
                ((i, check.gen(REAL_RANDOM(seed_of(base_seed, prop, i)), tier, i)
                  | {"run_seed": seed_of(base_seed, prop, i)}) for i in reversed(recheck)),
                deadline=now() + 20):
            if not res.timeout and res.digest != digests[i]:
                mism += 1
    wall = now() - t0
    cov = {
        "evaluations": done,
        "distinct_nontrivial": len(sigs),
        "rule": check.rule,
        "samples": samples,
        "nontrivial_runs": nontrivial,
        "runs_per_hour": round(done / wall * 3600) if wall else 0,
        "simulated_seconds": round(simtime, 3),
        "faults_and_probes_fired": dict(sorted(counts.items())),
        "distinct_measure": check.measure,
        "real_code": check.real, "stubs": check.stubs,
        "determinism_rechecked": len(recheck), "determinism_mismatches": mism,
        "wall_capped": done < total and violation is None,
    }
    if stat:
        cov["batch_statistics"] = stat.get("report")
    if known_hits:
        cov["known_findings_seen"] = known_hits
    ev = {"property": prop, "tier": tier, "seed": base_seed, "level": check.level, "coverage": cov,
          "assumptions": check.assumptions, "wall_s": round(wall, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in known:
        if k["property"] == prop:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if violation:
        print(f"VIOLATION property={prop} replay={violation}", flush=True)
        return 1
    if errors:
        for i, e in errors[:2]:
            print(f"[{prop}] harness error in run {i}:\n{e}", file=sys.stderr)
        return 2
    print(f"[{prop}] held: {done} runs, {nontrivial} non-trivial, {len(sigs)} distinct, "
          f"determinism {len(recheck)} rechecked/{mism} differ, {wall:.1f}s; "
          + ", ".join(f"{k}={v}" for k, v in sorted(counts.items())), flush=True)
    if stat and stat.get("report"):
        print(f"[{prop}] statistics: {json.dumps(stat['report'], default=str)[:600]}")
    return 0


def replay_subprocess(rel):
    import subprocess
    return subprocess.run([sys.executable, "-B", "-W", "ignore", os.path.join(VERIF, "sim", "run.py"), "replay",
                           os.path.join(VERIF, rel)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                          timeout=600).returncode


def replay(check, body):
    plan = body["plan"]
    if plan.get("aggregate"):
        aggs = []
        gens = ((i, check.gen(REAL_RANDOM(seed_of(plan["base_seed"], check.id, i)), plan["tier"], i)
                 | {"run_seed": seed_of(plan["base_seed"], check.id, i)}) for i in plan["runs"])
        for i, p, res in Forker(check).run(gens):
            if res.agg is not None:
                aggs.append((i, res.agg))
        st = check.aggregate(sorted(aggs, key=lambda x: x[0])) or {}
        return st.get("violations") or [], []
    res = execute_here(check, plan)
    if res.error:
        print(res.error, file=sys.stderr)
    return res.violations, res.log


class Check:
    """Base class of the checks."""
    id = "?"
    level = "exploration"
    tiers = {"quick": {"runs": 100, "wall": 30}, "thorough": {"runs": 1000, "wall": 600}}
    rule = ""
    measure = ""
    real, stubs, assumptions = [], [], []
    hang_is_violation = True
    budget = 3_000_000          # celest statements a run may execute; runs stay far below

    def gen(self, rng, tier, i):
        raise NotImplementedError

    def execute(self, plan, res):
        raise NotImplementedError

    def shrink(self, plan):
        return iter(())

    def aggregate(self, aggs):
        return None

    def describe(self, plan):
        s = json.dumps(plan, default=str)
        return s if len(s) < 1500 else s[:1500] + "..."


# generic shrink helpers ---------------------------------------------------------------------------
def drop_each(plan, key, minimum=0):
    xs = plan.get(key)
    if not isinstance(xs, list) or len(xs) <= minimum:
        return
    n = len(xs)
    if n >= 4:
        h = n // 2
        if h >= minimum:
            yield plan | {key: xs[:h]}
            yield plan | {key: xs[h:]}
    for i in reversed(range(n)):
        yield plan | {key: xs[:i] + xs[i + 1:]}


def smaller_ints(plan, key, low=0):
    v = plan.get(key)
    if isinstance(v, int) and not isinstance(v, bool) and v > low:
        for c in sorted({low, low + 1, v // 2, v - 1}):
            if low <= c < v:
                yield plan | {key: c}
