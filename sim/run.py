#!/usr/bin/env python3
"""check ID [--tier quick|thorough] | replay FILE | selftest | sub (internal)"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"


def ensure_python():
    """Run under the interpreter the repository is built for, with a fixed hash seed."""
    want = PY if os.path.exists(PY) else sys.executable
    if os.environ.get("PYTHONHASHSEED") in (None, "random") or \
            (os.path.realpath(sys.prefix) != os.path.realpath(os.path.dirname(os.path.dirname(want)))
             and not os.environ.get("SIM_EXEC")):
        os.environ["PYTHONHASHSEED"] = os.environ.get("PYTHONHASHSEED") or "0"
        if os.environ["PYTHONHASHSEED"] == "random":
            os.environ["PYTHONHASHSEED"] = "0"
        os.environ["SIM_EXEC"] = "1"
        os.execv(want, [want, "-B", "-W", "ignore"] + sys.argv)


def registry():
    import importlib
    out = {}
    for m in ("checks_planning", "checks_search", "checks_operators", "checks_windows", "checks_files",
              "checks_threads", "checks_process"):
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        for c in mod.CHECKS:
            out[c.id] = c
    return out


def main():
    ensure_python()
    sys.dont_write_bytecode = True
    for out in (sys.stdout, sys.stderr):
        out.reconfigure(errors="backslashreplace")
    import seams
    import core
    seams.load_celest()
    cmd = sys.argv[1]
    if cmd == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in sys.argv:
            tier = sys.argv[sys.argv.index("--tier") + 1]
        seed = int(os.environ.get("VERIF_SEED", "1"))
        return core.run_check(registry()[sys.argv[2]](), tier, seed)
    if cmd == "replay":
        with open(sys.argv[2]) as f:
            body = json.load(f)
        viols, log = core.replay(registry()[body["property"]](), body)
        for x in log:
            print("   ", x)
        for c, m in viols:
            print(f"VIOLATION property={body['property']} class={c}: {m}")
        return 1 if viols else 0
    if cmd == "sub":                                # plans from stdin, outcomes to stdout
        import checks_planning
        return checks_planning.sub_main()
    if cmd == "selftest":
        import selftest
        return selftest.main(registry())
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
