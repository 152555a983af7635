"""Saving text files on a simulated disk: C12 (what a returned save has written) and C13 (failed saves)."""
import errno
import os
import re
import shutil
import tempfile

import numpy as np

import core
import seams
import world as W
from core import Check, digest

KINDS = ["gcrs", "itrs", "lvlh", "wgs84", "azel", "attitude", "satellite", "vtw", "ow", "custom", "custom", "custom"]
NAMES = ["out.txt", "out", "x.txt.txt", "x.txtfile", "not \udce9 utf8", "data.csv", "a.b", "UPPER.TXT", "sp ace", "ünïcode", "sub/inner", "sub/x.txt",
         "mixed.Txt", ".txt", "$HOME", "~", "~root", "a%sb", "{n}", "*", " lead", "trail ", "trail.txt ", "sub/../up", "-"]
NOWHERE = ["missing/out.txt", "missing/deeper/x", "sub/missing/y.txt", "sub/dir.txt", "sub/dir", "bystander.txt/x"]
FORMATS = ["%.15f", "%.15f", "%.3f", "%.0f", "%.6e", "%12.4f", "%+.2f", "%.9g", "% .1f", "%.17e"]
ERRNOS = {"open": [errno.EACCES, errno.EMFILE, errno.ENOSPC, errno.EROFS, errno.EIO, errno.EISDIR],
          "write": [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG],
          "close": [errno.EIO, errno.ENOSPC, errno.EDQUOT], "fsync": [errno.EIO], "rename": [errno.EIO, errno.EXDEV],
          "remove": [errno.EACCES]}


# ------------------------------------------------------------------------------------------- documents
def numbers(rng, n):
    style = rng.random()
    if style < 0.5:
        return [rng.uniform(-7000, 7000) for _ in range(n)]
    if style < 0.7:
        return [2459000.5 + rng.random() * 10 for _ in range(n)]
    odd = [float("nan"), float("inf"), float("-inf"), 5e-324, -1e300] if style > 0.9 else []
    return [rng.choice([0.0, -0.0, 1.0, -1.5, 1e-9, -123456.789, 1e16, 3.14159265358979] + odd) for _ in range(n)]


def size(rng):
    """Mostly small; sometimes just around the sizes that blocks and buffers have."""
    if rng.random() < 0.85:
        return rng.choice([1, 1, 2, 3, 8, 20])
    if rng.random() < 0.9:
        return rng.choice([10, 16, 32, 50, 64, 100, 128, 200, 256]) * rng.choice([1, 1, 2]) + rng.choice([-1, 0, 1, 2])
    return rng.choice([512, 1000, 1024, 2048]) + rng.choice([-1, 0, 1])


def text(rng, ordinary, odd):
    """Ordinary text, rarely with characters outside the basic plane or that UTF-8 cannot encode."""
    r = rng.random()
    if r < odd:
        return rng.choice(["bad \udce9 byte", "\ud83d half"])
    return rng.choice(["🛰 track", "Ωμέγα", "שלום", "e\u0301"]) if r < 0.06 + odd else rng.choice(ordinary)


def gen_doc(rng, odd=0.0):
    kind = rng.choice(KINDS)
    n = min(size(rng), {"ow": 130, "vtw": 520}.get(kind, 9999))
    doc = {"kind": kind, "n": n, "name": rng.choice(NAMES), "seed": rng.getrandbits(32)}
    if kind == "custom":
        layers = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            cols = None
            if rng.random() < 0.85:
                m = rng.choice([1, 2, 5, size(rng)])
                cols = []
                for _ in range(rng.choice([1, 2, 3])):
                    t = rng.choice(["q", "q", "q", "float", "int", "str"])
                    cols.append({"label": text(rng, ["A", "Time", "Länge", "A very long column label indeed"], odd),
                                 "type": t, "layout": rng.choice([None, None, None, "reversed", "strided", "fixed", "f4", "big"]),
                                 "unit": rng.choice(["km", "deg", "s", "jd2000", "m/s"]),
                                 "values": numbers(rng, m) if t in ("q", "float") else
                                 [rng.randint(-99, 10 ** 6) for _ in range(m)] if t == "int" else
                                 [text(rng, ["x", "50°30′N", "a b", "long text value", "UPPER", "  in", "-", "0", "1e3", "nan"], odd / 9) for _ in range(m)]})
            params = None
            if rng.random() < 0.5:
                params = [[f"P{k}", text(rng, ["v", "50°N", "some value", " v ", "a: b", "50%", "{x}"], odd)] for k in range(rng.choice([1, 2, 3]))]
            sub = text(rng, [None, "Subheading", "Überschrift", "S", "  indented ", "50% {of} it"], odd)
            if cols is None and params is None and sub is None:
                sub = "Only"
            layers.append({"sub": sub, "params": params, "cols": cols, "fmt": rng.choice(FORMATS)})
        doc["layers"] = layers
        doc["reuse"] = rng.random() < 0.5
        doc["header"] = text(rng, [None, "Header", "Überschrift °", "A longer header line", "  spaced  out ", "%d %s {0}"], odd)
    return doc


def arranged(arr, layout):
    """The same values in another memory layout, or as single precision numbers."""
    if layout == "reversed":
        return arr[::-1].copy()[::-1]
    if layout == "strided":
        return np.repeat(arr, 2)[::2]
    if layout == "fixed":
        arr.flags.writeable = False
    if layout == "f4" and arr.dtype.kind == "f":
        return arr.astype(np.float32)
    if layout == "big" and arr.dtype.kind == "f":
        return arr.astype(">f8")
    return arr


class Doc:
    """The object to save, and what its file has to say."""

    def __init__(self, doc):
        self.doc = doc
        r = core.REAL_RANDOM(doc["seed"])
        self.header, self.layers = None, []          # layers: (sub, params, [(label, values, exact, fmt)])
        getattr(self, "_custom" if doc["kind"] == "custom" else "_object")(doc, r)

    def _times(self, r, n):
        return np.array([2459000.5 + k * r.choice([0.001, 0.5]) + r.random() * 1e-4 for k in range(n)])

    def _object(self, doc, r):
        from celest import units as u
        from celest.coordinates.frames.attitude import Attitude
        from celest.coordinates.frames.azel import AzEl
        from celest.coordinates.frames.gcrs import GCRS
        from celest.coordinates.frames.itrs import ITRS
        from celest.coordinates.frames.lvlh import LVLH
        from celest.coordinates.frames.wgs84 import WGS84
        from celest.coordinates.ground_location import GroundLocation
        from celest.coordinates.coordinate import Coordinate
        from celest.encounter.window_handling import ObservationWindow, VisibleTimeWindow, WindowCollection
        from celest.satellite import Satellite
        from celest.units.quantity import Quantity
        n, k = doc["n"], doc["kind"]
        t = self._times(r, n)
        col = lambda s=7000: np.array([r.uniform(-s, s) for _ in range(n)])
        loc = GroundLocation(round(r.uniform(-89, 89), 4), round(r.uniform(-179, 179), 4), 0.1, u.deg, u.km)
        ln, an = r.choice([u.km, u.m]), r.choice([u.deg, u.rad])
        params, cols, header = None, None, None
        if k in ("gcrs", "itrs", "lvlh"):
            x, y, z = col(), col(), col()
            if k == "lvlh":
                self.obj = LVLH(t, x, y, z, ln)
            else:
                self.obj = {"gcrs": GCRS, "itrs": ITRS}[k](t, x, y, z, ln)
            header = {"gcrs": "GCRS Coordinate Data", "itrs": "ITRS Coordinate Data",
                      "lvlh": "Satellite LVLH Coordinate Data"}[k]
            cols = [("Time", u.jd2000, t), ("X", ln, x), ("Y", ln, y), ("Z", ln, z)]
        elif k == "wgs84":
            la, lo, h = col(89), col(179), col(500)
            self.obj = WGS84(t, la, lo, h, u.deg, ln)
            header = "WGS84 Coordinate Data"
            cols = [("Time", u.jd2000, t), ("Latitude", u.deg, la), ("Longitude", u.deg, lo), ("Height", ln, h)]
        elif k == "azel":
            a, e = col(180), col(90)
            self.obj = AzEl(t, a, e, an, loc)
            header, params = "Azimuth-Elevation Coordinate Data", [["Location", str(loc)]]
            cols = [("Time", u.jd2000, t), ("Azimuth", an, a), ("Elevation", an, e)]
        elif k == "attitude":
            a, b, c = col(180), col(180), col(180)
            self.obj = Attitude(t, a, b, c, an, loc)
            header, params = "Attitude Coordinate Data", [["Location", str(loc)]]
            cols = [("Time", u.jd2000, t), ("Roll", an, a), ("Pitch", an, b), ("Yaw", an, c)]
        elif k == "satellite":
            p, v = [col() + 1 for _ in range(3)], [col(8) for _ in range(3)]
            pos, vel = ITRS(t, *p, u.km), ITRS(t, *v, u.km / u.s)
            self.obj = Satellite(pos, vel)
            header = "Satellite Position and Velocity"
            gp = Coordinate(ITRS(t, *p, u.km)).convert_to(GCRS)
            gv = Coordinate(ITRS(t, *v, u.km / u.s)).convert_to(GCRS)
            cols = [("Time", u.jd2000, t)]
            cols += [("Itrs " + c, u.km, x) for c, x in zip("XYZ", p)]
            cols += [("Itrs V" + c, u.km / u.s, x) for c, x in zip("XYZ", v)]
            cols += [("Gcrs " + c, q.unit, q.data, "derived") for c, q in zip("XYZ", (gp.x, gp.y, gp.z))]
            cols += [("Gcrs V" + c, q.unit, q.data, "derived") for c, q in zip("XYZ", (gv.x, gv.y, gv.z))]
        else:
            self.obj = WindowCollection()
            att = Attitude(t, col(90), col(90), col(90), u.deg, loc)
            if k == "vtw":
                s = t + 0.01
                for a, b in zip(t, s):
                    self.obj.add_window(VisibleTimeWindow(a, b, att))
                header = "VisibleTimeWindow Data"
                cols = [("Rise Time", u.jd2000, t), ("Set Time", u.jd2000, s)]
            else:
                d = np.array([r.uniform(1, 900) for _ in range(n)])
                rpy = [col(180) for _ in range(3)]
                locs = [loc if r.random() < 0.5 else
                        GroundLocation(round(r.uniform(-89, 89), 3), 5.0, 0.2, u.deg, u.km) for _ in range(n)]
                for i in range(n):
                    a = Attitude(t[i:i + 1], *[x[i:i + 1] for x in rpy], u.deg, locs[i])
                    self.obj.add_window(ObservationWindow(Quantity(t[i], u.jd2000), Quantity(d[i], u.s), locs[i], a))
                header = "ObservationWindow Data"
                cols = [("Start Time", u.jd2000, t), ("Duration", u.s, d), ("Location", None, [str(x) for x in locs])]
                cols += [(c, u.deg, x) for c, x in zip(("Roll", "Pitch", "Yaw"), rpy)]
        self.header = header
        cs = [(c[0] + (f" ({c[1]})" if c[1] is not None else ""), list(c[2]), len(c) < 4, "%.15f") for c in cols]
        self.layers = [(None, params, cs)]
        self.save = lambda path: self.obj.save_text_file(path)

    def _custom(self, doc, r):
        from celest.file_save import TextFileWriter
        from celest.units.quantity import Quantity
        from celest import units as u
        units = {"km": u.km, "deg": u.deg, "s": u.s, "jd2000": u.jd2000, "m/s": u.m / u.s}
        self.header = doc["header"]
        self.data = []
        for la in doc["layers"]:
            cols = data = None
            if la["cols"] is not None:
                cols, data = [], []
                for c in la["cols"]:
                    arr = arranged(np.array(c["values"]), c.get("layout"))
                    val = Quantity(arr, units[c["unit"]]) if c["type"] == "q" else arr
                    data.append([c["label"], val])
                    cols.append((c["label"] + (f" ({units[c['unit']]})" if c["type"] == "q" else ""), arr.tolist(),
                                 True, la["fmt"]))
            self.layers.append((la["sub"], la["params"], cols))
            self.data.append((la["sub"], la["params"], data, la["fmt"]))
        self.obj = self.data

        made = []

        def save(path):
            if made and doc.get("reuse"):
                made[0].save()                      # the same writer again
                return
            w = TextFileWriter(path, self.header)
            for sub, params, data, fmt in self.data:
                kw = {k: v for k, v in (("subheading", sub), ("parameters", params), ("data", data)) if v is not None}
                w.add_layer(**kw, data_format=fmt)
            made.append(w)
            w.save()
        self.save = save

    # --------------------------------------------------------------------------------------
    def path(self):
        name = self.doc["name"]
        return name if name.endswith(".txt") else name + ".txt"

    def approx_length(self):
        n = len(self.header or "") * 2
        for sub, params, cols in self.layers:
            n += len(sub or "") + sum(len(a) + len(b) + 3 for a, b in params or [])
            if cols:
                n += (len(cols[0][1]) + 2) * sum(max(len(c[0]), 20) for c in cols)
        return n

    def fingerprint(self):
        """Digest of everything public in the object."""
        return digest(_facts(self.obj))

    def wrong(self, raw):
        """None if the bytes hold the whole document, else what is missing."""
        try:
            text = raw.decode("utf-8")
        except UnicodeDecodeError as e:
            return f"not UTF-8: {e}"
        full = [x for x in text.split("\n") if x.strip()]
        lines = [x.rstrip() for x in full]
        want = []
        if self.header is not None:
            want += [("text", self.header), ("rule", "=")]
        for sub, params, cols in self.layers:
            if sub is not None:
                want.append(("text", sub))
            for a, b in params or []:
                want.append(("text", f"{a}: {b}"))
            if cols is not None:
                want.append(("cells", [c[0] for c in cols]))
                want.append(("rule", "-"))
                for i in range(len(cols[0][1])):
                    want.append(("row", [(c[1][i], c[2], c[3]) for c in cols]))
        for k, w in enumerate(want):
            if k >= len(lines):
                return f"ends after {len(lines)} of {len(want)} lines; next should be {str(w)[:150]}"
            line = lines[k]
            if w[0] == "text" and (line.strip() != w[1].strip() or w[1] not in full[k]):
                return f"line {k}: {line!r}, expected {w[1]!r}"
            if w[0] == "rule" and set(line) - {w[1], "\t", " "}:
                return f"line {k}: {line!r}, expected a rule of {w[1]!r}"
            if w[0] in ("cells", "row"):
                raws = full[k].split("\t")
                cells = [c.strip() for c in raws]
                if len(cells) != len(w[1]):
                    return f"line {k}: {len(cells)} cells, expected {len(w[1])}: {line!r}"
                for raw, c, x in zip(raws, cells, w[1]):
                    if w[0] == "row" and isinstance(x[0], str) and x[0] not in raw:
                        return f"line {k}: {raw!r} does not hold the text {x[0]!r}"
                    if w[0] == "cells" and c != x.strip():
                        return f"line {k}: column label {c!r}, expected {x!r}"
                    if w[0] == "row" and not cell_ok(c, *x):
                        return f"line {k}: value {c!r}, expected {x[0]!r} as {x[2]}"
        if len(lines) > len(want):
            return f"{len(lines) - len(want)} lines too many, first {lines[len(want)]!r}"
        return None


def cell_ok(cell, value, exact, fmt):
    if isinstance(value, str):
        return cell == value.strip()
    if isinstance(value, (int, np.integer)):
        return cell in (str(int(value)), (fmt % value).strip())
    if cell == (fmt % value).strip():
        return True
    if exact:
        return False
    m = re.fullmatch(r"-?\d+\.(\d{15})", cell)
    return bool(m) and abs(float(cell) - value) <= 1e-9 * max(1.0, abs(value))


def _facts(o, depth=0):
    """Public data of celest objects, arrays and containers."""
    if depth > 9:
        return "..."
    if isinstance(o, np.ndarray):
        return ("array", o.dtype.str, o.shape, o.tobytes() if o.dtype != object else tuple(map(str, o)))
    if isinstance(o, (list, tuple)):
        return tuple(_facts(x, depth + 1) for x in o)
    if isinstance(o, (str, int, float, bool, type(None), np.number)):
        return repr(o)
    t = type(o).__name__
    if t == "Quantity":
        return (t, _facts(o.data, depth + 1), str(o.unit))
    names = {"WindowCollection": None, "GroundLocation": ["latitude", "longitude", "height", "itrs_x", "itrs_y", "itrs_z"],
             "Satellite": ["position", "velocity"], "VisibleTimeWindow": ["rise_time", "set_time", "attitude"],
             "ObservationWindow": ["start_time", "duration", "location", "attitude"],
             "WGS84": ["time", "latitude", "longitude", "height"], "AzEl": ["time", "azimuth", "elevation", "location"],
             "Attitude": ["time", "roll", "pitch", "yaw", "location"]}
    if t == "WindowCollection":
        return (t,) + tuple(_facts(x, depth + 1) for x in o[:])
    if t in names:
        return (t,) + tuple(_facts(getattr(o, k, None), depth + 1) for k in names[t])
    if hasattr(o, "x") and hasattr(o, "time"):
        return (t,) + tuple(_facts(getattr(o, k, None), depth + 1) for k in ("time", "x", "y", "z"))
    return (t, str(o))


class Scratch:
    """A private directory that becomes the simulated disk."""

    def __init__(self):
        self.root = tempfile.mkdtemp(prefix="celest-sim-")
        real = seams.real
        os.mkdir(os.path.join(self.root, "sub"))
        os.mkdir(os.path.join(self.root, "sub", "dir.txt"))
        self.put("bystander.txt", b"not yours\n")
        self.put("sub/other.txt", b"nor this\n")

    def put(self, rel, data):
        with seams.real["open"](os.path.join(self.root, rel), "wb") as f:
            f.write(data)

    def get(self, rel):
        p = os.path.join(self.root, rel)
        if not os.path.isfile(p):
            return None
        with seams.real["open"](p, "rb") as f:
            return f.read()

    def listing(self):
        out = {}
        for dp, dn, fn in os.walk(self.root):
            for f in fn:
                rel = os.path.relpath(os.path.join(dp, f), self.root)
                out[rel] = self.get(rel)
            for d in dn:
                out[os.path.relpath(os.path.join(dp, d), self.root) + "/"] = b""
        return out

    def close(self):
        seams.disk[0] = None
        os.chdir("/")
        shutil.rmtree(self.root, ignore_errors=True)


def gen_faults(rng, length_hint, hard):
    """Fault plan of one save. Offsets are fractions of the expected length."""
    f = {"short": rng.choice([0, 0, 1, 3, 17, 100]), "bufsize": rng.choice([0, 0, 1, 16, 256]),
         "chunk": rng.choice([0, 0, 1, 64]), "encoding": rng.choice([None, "ascii", "utf-16", "latin-1"]), "faults": []}
    for _ in range(rng.choice([0, 0, 1, 3])):
        f["faults"].append({"op": "eintr", "nth": rng.randint(1, 12)})
    if hard:
        for _ in range(rng.choice([1, 1, 1, 2])):
            op = rng.choice(["open", "write", "write", "write", "write", "close", "fsync", "rename", "remove"])
            x = {"op": op, "errno": rng.choice(ERRNOS[op])}
            if op == "write":
                x["frac"] = rng.choice([0.0, rng.random(), rng.random(), 0.9 + 0.1 * rng.random()])
                x["sticky"] = rng.random() < 0.5
            else:
                x["nth"] = 1
            f["faults"].append(x)
    return f


def disk_of(root, doc, f):
    n = doc.approx_length()
    faults = [x | {"at": int(x["frac"] * n)} if "frac" in x else x for x in f["faults"]]
    short = max(f["short"], n // 20000) if f["short"] else 0         # at most some 20,000 writes a save
    return seams.Disk(root, faults, short, f["bufsize"], f["chunk"], f["encoding"])


class Saving(Check):
    real = ["celest.file_save", "save_text_file of coordinates, attitudes, satellites and window collections",
            "io.BufferedWriter, io.TextIOWrapper"]
    stubs = ["raw files (simulated disk over a private scratch directory)", "default encoding", "clocks, entropy"]
    assumptions = ["the layout is compared up to blank lines and column padding; integers may be printed as integers",
                   "unit names come from str(unit) of the code under test"]
    measure = "distinct (document kind, outcome, faults fired, disk operations) tuples"
    hard_share = 0.5
    odd_text = 0.0
    nowhere = 0.0
    budget = 30_000_000

    def gen(self, rng, tier, i):
        doc = gen_doc(rng, self.odd_text)
        if rng.random() < self.nowhere:
            doc["name"] = rng.choice(NOWHERE)
        saves = [gen_faults(rng, 0, rng.random() < self.hard_share) for _ in range(rng.choice([1, 1, 2, 3]))]
        return {"doc": doc, "saves": saves, "old": rng.choice([None, "short", "long", "near", "near"]),
                "relative": rng.random() < 0.4}

    def execute(self, plan, res):
        seams.clock[0] = seams.SimClock(1e9, 1)
        seams.entropy[0] = core.REAL_RANDOM(5)
        seams.set_random(seams.SimRandom(5))
        np.random.seed(5)
        doc = Doc(plan["doc"])
        sc = Scratch()
        try:
            if plan["old"] == "near":
                self.near(plan, doc, sc)
            elif plan["old"] and plan["doc"]["name"] not in NOWHERE:
                sc.put(doc.path(), b"OLD CONTENT\n" * (2 if plan["old"] == "short" else 4000))
            os.chdir(sc.root)
            name = plan["doc"]["name"] if plan["relative"] else os.path.join(sc.root, plan["doc"]["name"])
            self.judge(plan, doc, sc, name, res)
            if os.path.realpath(os.getcwd()) != os.path.realpath(sc.root):
                res.fail("directory-changed", f"the working directory is {os.getcwd()} after {plan['doc']['kind']} saves")
        finally:
            sc.close()
        res.nontrivial = True

    @staticmethod
    def near(plan, doc, sc):
        """An older edition of the document under its name: the same but for a few characters, often of the same length."""
        if plan["doc"]["name"] in NOWHERE:
            return
        try:
            doc.save(os.path.join(sc.root, plan["doc"]["name"]))
        except Exception:
            return
        raw = sc.get(doc.path())
        if not raw:
            return
        rng = core.REAL_RANDOM(f"near/{plan['doc']['seed']}")
        marks = [k for k, c in enumerate(raw) if chr(c).isdigit()] or [k for k, c in enumerate(raw) if 97 <= c < 123]
        how = rng.choice(["last", "last", "some", "cut", "more"])
        new = bytearray(raw)
        if how in ("last", "some") and marks:
            for k in marks[-1:] if how == "last" else rng.sample(marks, min(len(marks), 3)):
                new[k] = new[k] + 1 if chr(new[k]) not in "9z" else new[k] - 1
        elif how == "cut":
            new = new[:-rng.choice([1, 2, 10])]
        else:
            new += rng.choice([b"\n", b" ", b"\n\nOLD 1.0\n"])
        sc.put(doc.path(), bytes(new))

    def attempt(self, doc, sc, name, f, res):
        """(error or None, disk)"""
        seams.disk[0] = d = disk_of(sc.root, doc, f)
        err = None
        try:
            doc.save(name)
        except seams.StatementBudget:
            raise
        except BaseException as e:
            err = e
        self.open_at_return = len(d.open_handles) + len(d.fds)
        seams.disk[0] = None
        for k in d.fired:
            res.hit(k)
        if f["encoding"]:
            res.hit("foreign-default-encoding")
        res.event("save", name, "->", repr(err), d.fired[:6])
        return err, d

    def shrink(self, plan):
        yield from core.drop_each(plan, "saves", 1)
        for i, s in enumerate(plan["saves"]):
            put = lambda x: plan | {"saves": plan["saves"][:i] + [x] + plan["saves"][i + 1:]}
            for j in range(len(s["faults"])):
                yield put(s | {"faults": s["faults"][:j] + s["faults"][j + 1:]})
            for k in ("short", "bufsize", "chunk", "encoding"):
                if s[k]:
                    yield put(s | {k: None if k == "encoding" else 0})
        d = plan["doc"]
        if d["n"] > 1 and d["kind"] != "custom":
            yield plan | {"doc": d | {"n": 1}}
            yield plan | {"doc": d | {"n": d["n"] // 2}}
        if d["kind"] == "custom":
            for i in range(len(d["layers"])):
                yield plan | {"doc": d | {"layers": d["layers"][:i] + d["layers"][i + 1:]}}
            for i, la in enumerate(d["layers"]):
                put = lambda x: plan | {"doc": d | {"layers": d["layers"][:i] + [x] + d["layers"][i + 1:]}}
                for k in ("sub", "params", "cols"):
                    if la[k] is not None and sum(la[q] is not None for q in ("sub", "params", "cols")) > 1:
                        yield put(la | {k: None})
                if la["cols"]:
                    for j in range(len(la["cols"])):
                        if len(la["cols"]) > 1:
                            yield put(la | {"cols": la["cols"][:j] + la["cols"][j + 1:]})
                    if len(la["cols"][0]["values"]) > 1:
                        yield put(la | {"cols": [c | {"values": c["values"][:1]} for c in la["cols"]]})
        if plan["old"]:
            yield plan | {"old": None}
        if d["name"] != "out.txt":
            yield plan | {"doc": d | {"name": "out.txt"}}


class C12(Saving):
    id = "C12"
    hard_share = 0.4
    odd_text = 0.01
    rule = ("random objects and documents saved onto a simulated disk with short, torn, interrupted and failing writes, "
            "failing open and close, tiny buffers and foreign default encodings; whenever the save returns, the file is "
            "parsed independently and must hold everything")
    tiers = {"quick": {"runs": 30000, "wall": 30, "limit": 40, "shrink": 15},
             "thorough": {"runs": 500000, "wall": 500, "limit": 40, "shrink": 40}}

    def judge(self, plan, doc, sc, name, res):
        trace = []
        for f in plan["saves"]:
            err, d = self.attempt(doc, sc, name, f, res)
            if err is None:
                raw = sc.get(doc.path())
                why = "no such file" if raw is None else doc.wrong(raw)
                if why:
                    res.fail("incomplete-save", f"{plan['doc']['kind']} {plan['doc']['name']!r} after {d.fired[:5]}: {why}")
                res.hit("saves-returned")
                if d.hard:
                    res.hit("returned-after-error")
            else:
                res.hit("saves-raised")
            trace.append((plan["doc"]["kind"], type(err).__name__, d.fired, d.trace))
        res.digest = digest((trace, sc.get(doc.path())))
        res.sig = digest(trace)


class C13(Saving):
    id = "C13"
    hard_share = 0.85
    nowhere = 0.05
    rule = ("as C12 with an error injected into most saves, repeatedly; checks the error that arrives, open handles at "
            "that moment, every other file of the directory, the object, and a final save on the healed disk")
    tiers = {"quick": {"runs": 30000, "wall": 40, "limit": 40, "shrink": 15},
             "thorough": {"runs": 500000, "wall": 500, "limit": 40, "shrink": 40}}

    def judge(self, plan, doc, sc, name, res):
        before, mine = doc.fingerprint(), os.path.normpath(doc.path())
        others = {k: v for k, v in sc.listing().items() if k != mine}
        trace = []
        who = f"{plan['doc']['kind']} {plan['doc']['name']!r}"
        clean = {"short": 0, "bufsize": 0, "chunk": 0, "encoding": None, "faults": []}
        for n, f in enumerate(plan["saves"] + [clean]):
            err, d = self.attempt(doc, sc, name, f, res)
            last = n == len(plan["saves"])
            trace.append((plan["doc"]["kind"], type(err).__name__, d.fired, d.trace))
            if plan["doc"]["name"] in NOWHERE:       # the named file cannot exist
                res.hit("impossible-names")
                if not isinstance(err, OSError):
                    res.fail("error-swallowed", f"{who}: {err!r} although there is no such place")
            elif d.hard:
                res.hit("failed-saves")
                if err is None:
                    res.fail("error-swallowed", f"{who}: returned although {d.fired} happened")
                elif not any(in_chain(err, h) for h in d.hard):
                    res.fail("error-replaced", f"{who}: {err!r} arrived without a trace of {d.hard[0]!r}")
            elif err is not None:
                res.fail("retry-failed" if n else "save-failed", f"{who}: {type(err).__name__}: {err} though nothing was "
                         f"refused (fired {d.fired}) after {[t[1] for t in trace[:-1]]}")
            if self.open_at_return:
                res.fail("handle-left-open", f"{who}: {self.open_at_return} open after {d.fired}, {err!r}")
            if d.escapes:
                res.fail("other-files-touched", f"{who}: {d.escapes[:3]}")
            now = {k: v for k, v in sc.listing().items() if k != mine}
            if now != others:
                diff = sorted(k for k in set(now) | set(others) if now.get(k) != others.get(k))
                res.fail("other-files-touched", f"{who}: {diff} differ after {d.fired}")
            if doc.fingerprint() != before:
                res.fail("object-changed", f"{who}: after {d.fired}")
            if last and not res.violations and plan["doc"]["name"] not in NOWHERE:
                raw = sc.get(mine)
                why = "no such file" if raw is None else doc.wrong(raw)
                if why:
                    res.fail("retry-incomplete", f"{who}: {why}")
            err = None
            if res.violations:
                break
        res.digest = digest(trace)
        res.sig = digest(trace)


def in_chain(exc, target):
    seen, todo = set(), [exc]
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        if e is target:
            return True
        todo += [e.__cause__, e.__context__]
    return False


CHECKS = [C12, C13]
