"""Import celest in a process with the settings read from standard input; print what of the process that changed.

Everything celest builds on (numpy, jplephem, pkg_resources, the standard library) is imported before, so that only what
celest itself does is seen.
"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    amb = json.load(sys.stdin)
    import seams
    seams.install()
    import copy, datetime, decimal, enum, functools, itertools, logging, math, random, statistics, typing, warnings  # noqa
    import contextlib, dataclasses, heapq, bisect, operator, collections, pathlib, tempfile, threading, weakref  # noqa
    import concurrent.futures, importlib.resources  # noqa
    import jplephem.spk  # noqa
    import numpy  # noqa
    import pkg_resources  # noqa
    import checks_process as cp
    assert not any(m.split(".")[0] == "celest" for m in sys.modules)
    sc = cp.Scratch()
    sc.quiet = None
    rnd = seams.set_random(cp.WatchedRandom(amb["rs"]))
    seams.disk[0] = seams.Disk(sc.root)
    out, err = sys.stdout, sys.stderr
    cp.settle(amb, sc)
    files = sc.listing()
    before, names = cp.snapshot(sc, False), cp.namespaces()
    import importlib
    bad = []
    try:
        for m in seams.modules():
            importlib.import_module(m)
    except Exception as e:
        bad.append(f"raised {type(e).__name__}: {e}")
    bad += cp.changed(before, cp.snapshot(sc, False), names)
    if rnd.resets or rnd.draws:
        bad.append(f"random reseeded {rnd.resets} times, drawn from {rnd.draws} times")
    bad += [f"file {f} appeared or changed" for f, x in sc.listing().items() if files.get(f) != x]
    sys.stdout, sys.stderr = out, err
    sc.close()
    print("CHANGED " + json.dumps(bad))


main()
