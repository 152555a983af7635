"""Determinism of the simulator itself: the same seeds give the same event digests in other processes, with other hash
seeds, other worker counts and other orders.   run.py selftest [IDs...] [--runs N]"""
import json
import os
import subprocess
import sys

import core


def digests(check, n, jobs, order=1):
    ids = list(range(n))[::order]
    plans = ((i, check.gen(core.REAL_RANDOM(core.seed_of(1, check.id, i)), "quick", i)
              | {"run_seed": core.seed_of(1, check.id, i)}) for i in ids)
    return {str(i): (None if r.timeout else r.error or r.digest)
            for i, _, r in core.Forker(check, jobs=jobs, limit=60).run(plans)}


def main(registry):
    args = sys.argv[2:]
    n = 24
    if "--runs" in args:
        k = args.index("--runs")
        n = int(args[k + 1])
        del args[k:k + 2]
    if args and args[0] == "--child":                    # one configuration, printed as JSON
        check, jobs, order = registry[args[1]](), int(args[2]), int(args[3])
        print("RESULT " + json.dumps(digests(check, n, jobs, order)))
        return 0
    bad = 0
    for cid in args or sorted(registry):
        outs = []
        for hashseed, jobs, order in (("0", 8, 1), ("1", 1, -1), ("4242", 3, 1)):
            env = dict(os.environ, PYTHONHASHSEED=hashseed, SIM_EXEC="1")
            p = subprocess.run([sys.executable, "-B", "-W", "ignore", os.path.join(core.VERIF, "sim", "run.py"), "selftest",
                                "--child", cid, str(jobs), str(order), "--runs", str(n)], env=env, text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            line = [x for x in p.stdout.splitlines() if x.startswith("RESULT ")]
            outs.append(json.loads(line[0][7:]) if line else {"error": p.stderr[-300:]})
        diff = [k for k in outs[0] if any(o.get(k) != outs[0][k] for o in outs if o.get(k) and outs[0][k])]
        errors = [o["error"] for o in outs if "error" in o]
        bad += bool(diff or errors)
        print(f"{cid}: {len(outs[0])} seeds x 3 processes (hash seeds 0/1/4242, 8/1/3 workers): "
              f"{len(diff)} differ {diff[:5]} {errors[:1]}", flush=True)
    return 1 if bad else 0
