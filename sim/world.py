"""Fabricated worlds: tracks, sites, requests, suns - and geometry independent of celest to judge by.

A world is plain JSON. A track is given by sub-satellite points, so any window structure can be made.
"""
import math
import struct

import numpy as np

A, F = 6378.137, 1 / 298.257223563          # WGS84
E2 = F * (2 - F)
SEC = 86400.0


# ------------------------------------------------------------------------------------ independent geometry
def ecef(lat, lon, h_km):
    la, lo = math.radians(lat), math.radians(lon)
    n = A / math.sqrt(1 - E2 * math.sin(la) ** 2)
    return np.array([(n + h_km) * math.cos(la) * math.cos(lo), (n + h_km) * math.cos(la) * math.sin(lo),
                     (n * (1 - E2) + h_km) * math.sin(la)])


def elevations(pos, site):
    """Elevation (deg) of each position over the site: from the geocentric and from the geodetic vertical."""
    p = ecef(site["lat"], site["lon"], site["h"])
    d = pos - p
    d = d / np.linalg.norm(d, axis=1)[:, None]
    la, lo = math.radians(site["lat"]), math.radians(site["lon"])
    up1 = p / np.linalg.norm(p)
    up2 = np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)])
    e1 = np.degrees(np.arcsin(np.clip(d @ up1, -1, 1)))
    e2 = np.degrees(np.arcsin(np.clip(d @ up2, -1, 1)))
    return e1, e2


def destination(lat, lon, bearing, dist):
    """Great-circle destination, degrees."""
    la, lo, b, d = map(math.radians, (lat, lon, bearing, dist))
    la2 = math.asin(max(-1, min(1, math.sin(la) * math.cos(d) + math.cos(la) * math.sin(d) * math.cos(b))))
    lo2 = lo + math.atan2(math.sin(b) * math.sin(d) * math.cos(la), math.cos(d) - math.sin(la) * math.sin(la2))
    return math.degrees(la2), (math.degrees(lo2) + 180) % 360 - 180


def times_of(w):
    if w.get("instants"):
        return np.array(w["instants"])
    n = sum(b["n"] for b in w["blocks"])
    t, out = w.get("start", 0.0) * SEC, []
    steps = w.get("dts") or [w["dt"]]
    jump, k = {}, 0
    for b in w["blocks"]:                           # "gap": seconds between the block before and this one
        jump[k] = b.get("gap", 0.0)
        k += b["n"]
    for i in range(n):
        t += jump.get(i, 0.0)
        out.append(w["t0"] + t / SEC)
        t += steps[i % len(steps)]
    return np.array(out)


def track_of(w):
    """Positions (km, Earth fixed) sample by sample."""
    pts, over = [], {}
    for b in w["blocks"]:
        n = b["n"]
        if b["kind"] == "pass":
            s = w["sites"][b["site"]]
            for k in range(n):
                x = b["from"] + (b["to"] - b["from"]) * (k / (n - 1) if n > 1 else 0.0)
                la, lo = destination(s["lat"], s["lon"], b["heading"], abs(x)) if x >= 0 else \
                    destination(s["lat"], s["lon"], b["heading"] + 180, abs(x))
                la, lo = destination(la, lo, b["heading"] + 90, b["cross"])
                if k == b.get("zen"):                   # exactly overhead, along the geocentric vertical
                    p = ecef(s["lat"], s["lon"], s["h"])
                    over[len(pts)] = p * (1 + w["alt"] / float(np.linalg.norm(p)))
                pts.append((la, lo, w["alt"]))
        else:                                       # far away: other side of the Earth
            s = w["sites"][0]
            for k in range(n):
                la, lo = destination(s["lat"], s["lon"], b["heading"], 150 + (k % 7) * 3.1 + 0.01 * k)
                pts.append((la, lo, w["alt"]))
    out = np.empty((len(pts), 3))
    for i, (la, lo, alt) in enumerate(pts):
        cl = math.cos(math.radians(la))
        r = 6371.0 + alt
        out[i] = (r * cl * math.cos(math.radians(lo)), r * cl * math.sin(math.radians(lo)),
                  r * math.sin(math.radians(la)))
    for i, p in over.items():
        out[i] = p
    return out


def velocity_of(w, pos, t):
    """A velocity for each sample: finite differences, never zero nor parallel to the position."""
    d = np.gradient(pos, axis=0)
    v = np.empty_like(pos)
    for i in range(len(pos)):
        r = pos[i] / np.linalg.norm(pos[i])
        h = d[i] - r * (d[i] @ r)
        n = np.linalg.norm(h)
        if not n > 1e-6:
            h = np.cross(r, [0.3, -0.5, 0.81])
            n = np.linalg.norm(h)
        v[i] = h / n * 7.6
    return v


def attitudes(pos, vel, site):
    """Roll, pitch and yaw (deg) that turn nadir onto the site by the smallest rotation, from the LVLH frame.

    LVLH: z to the geocentre, y against the orbit normal, x along the flight. The frame does not depend on the
    system the inputs are given in, so the Earth-fixed vectors serve directly.
    """
    z = -pos / np.linalg.norm(pos, axis=1)[:, None]
    y = -np.cross(pos, vel)
    y = y / np.linalg.norm(y, axis=1)[:, None]
    x = np.cross(y, z)
    d = ecef(site["lat"], site["lon"], site["h"]) - pos
    d = d / np.linalg.norm(d, axis=1)[:, None]
    g1, g2, c = (d * x).sum(axis=1), (d * y).sum(axis=1), (d * z).sum(axis=1)
    # the rotation carrying (0, 0, 1) to (g1, g2, c) about (0, 0, 1) x g, entry by entry
    k = 1 / (1 + c)
    roll = np.arcsin(g2)
    pitch = np.arctan2(-g1, c)
    yaw = np.arctan2(-g1 * g2 * k, 1 - g2 * g2 * k)
    return np.degrees(roll), np.degrees(pitch), np.degrees(yaw)


# ------------------------------------------------------------------------------------ the sun
def precession(jd):
    t = (jd - 2451545.0) / 36525.0
    asec = math.pi / 180 / 3600
    z1 = (2306.2181 * t + 0.30188 * t * t) * asec
    z2 = (2306.2181 * t + 1.09468 * t * t) * asec
    th = (2004.3109 * t - 0.42665 * t * t) * asec

    def rz(a):
        return np.array([[math.cos(a), math.sin(a), 0], [-math.sin(a), math.cos(a), 0], [0, 0, 1]])

    def ry(a):
        return np.array([[math.cos(a), 0, -math.sin(a)], [0, 1, 0], [math.sin(a), 0, math.cos(a)]])
    return rz(-z2) @ ry(th) @ rz(-z1)


def gmst_deg(jd):
    d = jd - 2451545.0
    return (280.46061837 + 360.98564736629 * d) % 360


def sun_vector(sun, t0, jd):
    """Geocentric sun position (km, GCRS) at jd, as the plan has it."""
    a = np.array(sun["e2sun"])
    b = np.array(sun["rate"])                      # km/day
    return a[None, :] + (np.asarray(jd)[:, None] - t0) * b[None, :]


def sun_elevations(sun, t0, jd, site):
    """Elevation (deg) of the sun over the site: from the geocentric and from the geodetic vertical."""
    v = sun_vector(sun, t0, jd)
    p = ecef(site["lat"], site["lon"], site["h"])
    out = np.empty((2, len(jd)))
    la, lo = math.radians(site["lat"]), math.radians(site["lon"])
    ups = (p / np.linalg.norm(p), np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)]))
    pm = precession(t0)
    for i, j in enumerate(jd):
        g = math.radians(gmst_deg(j))
        m = pm @ v[i]
        e = np.array([math.cos(g) * m[0] + math.sin(g) * m[1], -math.sin(g) * m[0] + math.cos(g) * m[1], m[2]]) - p
        for k in (0, 1):
            out[k, i] = math.degrees(math.asin(np.clip(e @ ups[k] / np.linalg.norm(e), -1, 1)))
    return out


def spk_bytes(sun, t0, span_before=40.0, span_after=40.0, order=("sun", "emb", "earth"), endian="<", pad=0,
              rec_days=16.0, begin=None, nrec=None):
    """A little SPK (type 2) kernel with segments 0->10, 0->3 and 3->399 giving the plan's sun.

    The kernel is linear in time; epochs are TDB seconds past J2000. With `begin` (a Julian day) and `nrec` it
    covers nrec * rec_days from there.
    """
    start = math.floor((t0 - span_before - 2451545.0) / rec_days) * rec_days
    if begin is not None:
        start = begin - 2451545.0
    if nrec is None:
        nrec = int(math.ceil((span_before + span_after) / rec_days)) + 1
    A0, A1 = np.array(sun["ssb2sun"]), np.array(sun["ssb2sun_rate"])
    C0, C1 = np.array(sun["emb2e"]), np.array(sun["emb2e_rate"])
    S0, S1 = np.array(sun["e2sun"]), np.array(sun["rate"])
    B0, B1 = A0 - C0 - S0, A1 - C1 - S1
    segs = {"sun": (10, 0, A0, A1), "emb": (3, 0, B0, B1), "earth": (399, 3, C0, C1)}
    words, summaries, names = [], [], []
    word = 3 * 128 + 1
    for nm in order:
        target, center, p0, p1 = segs[nm]
        data = []
        for k in range(nrec):
            mid = start + (k + 0.5) * rec_days          # days past J2000
            rad = rec_days / 2
            c0 = p0 + p1 * (mid + 2451545.0 - t0)
            c1 = p1 * rad
            data += [mid * SEC, rad * SEC]
            for ax in range(3):
                data += [c0[ax], c1[ax], 0.0]
        rsize = 2 + 9
        data += [start * SEC, rec_days * SEC, float(rsize), float(nrec)]
        s0, s1 = start * SEC, (start + nrec * rec_days) * SEC
        summaries.append(struct.pack(endian + "dd6i", s0, s1, target, center, 1, 2, word, word + len(data) - 1))
        names.append(nm.encode().ljust(40, b" "))
        words += data
        word += len(data)
    fmt = b"LTL-IEEE" if endian == "<" else b"BIG-IEEE"
    ftp = b"FTPSTR:\r:\n:\r\n:\r\x00:\x81:\x10\xce:ENDFTP"
    rec1 = struct.pack(endian + "8sII60sIII8s603s28s297s", b"DAF/SPK ", 2, 6, b"SIM".ljust(60), 2, 2, word, fmt,
                       b"\0" * 603, ftp, b"\0" * 297)
    rec2 = struct.pack(endian + "ddd", 0.0, 0.0, float(len(summaries))) + b"".join(summaries)
    rec3 = b"".join(names)
    body = struct.pack(f"{endian}{len(words)}d", *words)
    return rec1.ljust(1024, b"\0") + rec2.ljust(1024, b"\0") + rec3.ljust(1024, b" ") + body + b"\0" * pad


def make_sun(rng, t0, site, want=None):
    """A sun whose elevation at t0 over `site` is near `want` degrees (any if None)."""
    el = want if want is not None else rng.uniform(-85, 85)
    az = rng.uniform(0, 360)
    la, lo = math.radians(site["lat"]), math.radians(site["lon"])
    up = np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)])
    east = np.array([-math.sin(lo), math.cos(lo), 0])
    north = np.cross(up, east)
    e, a = math.radians(el), math.radians(az)
    d = up * math.sin(e) + (north * math.cos(a) + east * math.sin(a)) * math.cos(e)
    g = math.radians(gmst_deg(t0))
    m = np.array([math.cos(g) * d[0] - math.sin(g) * d[1], math.sin(g) * d[0] + math.cos(g) * d[1], d[2]])
    v = precession(t0).T @ m
    dist = 1.496e8
    rate = np.cross([0, 0, 1.0], v) * (dist * 0.0172)

    def rnd(s):
        return [round(rng.uniform(-s, s), 3) for _ in range(3)]
    return {"e2sun": [round(float(x) * dist, 3) for x in v], "rate": [round(float(x), 3) for x in rate],
            "ssb2sun": rnd(3e7), "ssb2sun_rate": rnd(1e4), "emb2e": rnd(4e7), "emb2e_rate": rnd(1e4)}


# ------------------------------------------------------------------------------------ windows
def classify(w, site, thr, lighting, times=None, pos=None):
    """Per sample +1 visible, 0 too close to call, -1 not visible."""
    t = times_of(w) if times is None else times
    p = track_of(w) if pos is None else pos
    e1, e2 = elevations(p, site)
    lo, hi = np.minimum(e1, e2), np.maximum(e1, e2)
    c = np.where(lo > thr + 0.02, 1, np.where(hi < thr - 0.02, -1, 0))
    if lighting != "ANYTIME":
        s = sun_elevations(w["sun"], w["t0"], t, site)
        if lighting == "NIGHTTIME":
            s = -s
        ls = np.where(s.min(axis=0) > 0.03, 1, np.where(s.max(axis=0) < -0.03, -1, 0))
        c = np.minimum(c, ls)
    return c


def runs_of(flags):
    """[(first, last)] of maximal runs of True."""
    out, start = [], None
    for i, f in enumerate(flags):
        if f and start is None:
            start = i
        if not f and start is not None:
            out.append((start, i - 1))
            start = None
    if start is not None:
        out.append((start, len(flags) - 1))
    return out


def reference_windows(t, c):
    """Windows (rise, set) if no sample is too close to call, else None."""
    if (c == 0).any():
        return None
    return [(t[max(a - 1, 0)], t[b]) for a, b in runs_of(c > 0)]


# ------------------------------------------------------------------------------------ generation
def gen_world(rng, size="small", lighting=True, exact=False, nsites=None, npass=None, spread=14):
    """Tracks made of passes over the sites and of stretches on the other side of the Earth.

    exact: the time grid is dyadic (1/4096 day), so that window edges, midpoints and sums are exact floats.
    """
    nsites = nsites or rng.choice([1, 1, 2, 2, 3, 4])
    lat0, lon0 = rng.uniform(-70, 70), rng.uniform(-179, 179)
    sites = []
    for _ in range(nsites):
        how = rng.random()
        if sites and how < 0.15 and spread < 30:
            sites.append(dict(sites[0]))                            # co-located, perhaps at another height
            if rng.random() < 0.5:
                sites[-1]["h"] = round(sites[0]["h"] + rng.choice([0.02, 1.1, 3.0]), 3)
            elif rng.random() < 0.5:                                 # or a few centimetres away
                sites[-1]["lon"] = round(sites[0]["lon"] + 5e-7 * (-1 if sites[0]["lon"] > 0 else 1), 7)
            continue
        if sites and how < 0.3:                                      # mirrored: far away
            la, lo = -lat0, (lon0 + 180 + 180) % 360 - 180
        else:
            la, lo = destination(lat0, lon0, rng.uniform(0, 360), rng.uniform(0, spread) if sites else 0)
        if rng.random() < 0.08:                                      # poles, equator, date line
            la, lo = rng.choice([(0.0, lo), (90.0, lo), (-90.0, lo), (la, 180.0), (la, -180.0), (la, 0.0), (0.0, 0.0)])
        sites.append({"lat": round(la, 4), "lon": round(lo, 4), "h": round(rng.choice([0, 0.076, 1.5, 4.0]), 3)})
    thr = rng.choice([0, 5, 10, 10, 20, 30, 45, 60, rng.uniform(0, 80)])
    alt = rng.choice([400.0, 500.0, 600.0, 1200.0])
    dt = rng.choice([5.0, 10.0, 20.0, 30.0, 60.0, 240.0])
    if rng.random() < 0.08:                         # slow passes, as from high orbits: hours, not minutes
        dt = rng.choice([900.0, 3600.0])
    w = {"t0": round(rng.choice([2459000.5, 2460467.3, 2451545.0, 2456789.123]) + rng.uniform(0, 300), 4),
         "dt": dt, "alt": alt, "thr": round(float(thr), 3), "sites": sites, "exact": exact}
    if exact:
        w["t0"], w["dt"] = 2459000.5 + rng.randint(0, 800) / 4, 86400 / 4096
    elif rng.random() < 0.2:
        w["dts"] = [round(dt * rng.uniform(0.5, 1.5), 3) for _ in range(rng.choice([2, 3, 5]))]
    blocks = []
    npass = npass or rng.choice([1, 2, 3, 3, 4, 5])
    lo, hi = (6, 22) if size == "small" else (8, 40)

    def far():
        return {"kind": "far", "n": rng.randint(1, 6), "heading": round(rng.uniform(0, 360), 1)}
    if rng.random() < 0.6:
        blocks.append(far())
    for k in range(npass):
        r = rng.choice([6, 10, 15, 22])
        a, b = -r, r
        style = rng.random()
        if style < 0.1:
            a, b = -rng.uniform(0, 5), r             # starts inside
        elif style < 0.2:
            a, b = -r, rng.uniform(0, 5)             # ends inside
        n = rng.randint(lo, hi)
        if rng.random() < 0.08:
            n = rng.randint(1, 3)
        site = k if k < nsites and rng.random() < 0.7 else rng.randrange(nsites)
        blocks.append({"kind": "pass", "site": site, "n": n, "from": round(a, 3), "to": round(b, 3),
                       "heading": round(rng.uniform(0, 360), 1), "cross": round(rng.choice([0, 0.5, 2, 5]) *
                                                                              rng.uniform(-1, 1), 3)})
        if rng.random() < 0.15:
            blocks[-1]["zen"] = n // 2
        if rng.random() < 0.75:
            blocks.append(far())
    if rng.random() < 0.04:                         # a long track
        blocks.insert(rng.randrange(len(blocks)), {"kind": "far", "n": rng.choice([100, 130, 256]), "heading": 40.0})
    if rng.random() < 0.012 and not exact:          # a very long one
        w["dt"] = min(w["dt"], 60.0)
        w.pop("dts", None)
        blocks.insert(rng.randrange(len(blocks)), {"kind": "far", "n": rng.choice([520, 1030, 2100]), "heading": 40.0})
    w["blocks"] = blocks
    if sum(b["n"] for b in blocks) < 3:
        blocks.append({"kind": "far", "n": 3, "heading": 10.0})
    w["sun"] = gen_sun(rng, w) if lighting else None
    return w


def gen_sun(rng, w):
    """A sun anywhere, near a site's horizon at the start, or at the horizon during one of the passes."""
    passes = [(k, b) for k, b in enumerate(w["blocks"]) if b["kind"] == "pass"]
    if passes and rng.random() < 0.5:
        k, b = rng.choice(passes)
        at = sum(x["n"] for x in w["blocks"][:k]) + rng.randint(b["n"] // 4, max(b["n"] // 4, 3 * b["n"] // 4))
        at = min(at, sum(x["n"] for x in w["blocks"]) - 1)
        when = float(times_of(w)[at])
        sun = make_sun(rng, when, w["sites"][b["site"]], rng.uniform(-0.3, 0.3))
        back = [round(x - r * (when - w["t0"]), 3) for x, r in zip(sun["e2sun"], sun["rate"])]
        return sun | {"e2sun": back}
    return make_sun(rng, w["t0"], rng.choice(w["sites"]), rng.choice([None, None, 0.0, rng.uniform(-3, 3), 30, -30]))


class Geometry:
    """Reference windows of a world, by site and lighting, computed independently of celest."""

    def __init__(self, w):
        self.w, self.t, self.pos = w, times_of(w), track_of(w)
        self._c = {}

    def classes(self, si, light):
        s = self.w["sites"][si]
        k = (s["lat"], s["lon"], s["h"], light)
        if k not in self._c:
            self._c[k] = classify(self.w, s, self.w["thr"], light, self.t, self.pos)
        return self._c[k]

    def windows(self, si, light, lenient=True):
        """[(rise, set)]; lenient windows contain every sample that may be visible."""
        c = self.classes(si, light)
        return [(float(self.t[max(a - 1, 0)]), float(self.t[b])) for a, b in runs_of(c >= 0 if lenient else c > 0)]

    def sure(self, si, light):
        return not (self.classes(si, light) == 0).any()


FRACTIONS = [0.004, 0.01, 0.02, 0.03, 0.05, 0.08, 0.1, 0.15, 0.2, 0.249, 0.3, 0.33, 0.3334, 0.4, 0.6, 1.0, 1.2]


def gen_requests(rng, w, n, lightings=("ANYTIME",), lookangles=0.15, comfort=0.5):
    """Requests of unique durations aimed at the edges of what the world allows."""
    g = Geometry(w)
    t = g.t
    span = (t[-1] - t[0]) * SEC
    has = [i for i in range(len(w["sites"])) if g.windows(i, "ANYTIME")]
    reqs, seen = [], set()
    for i in range(n):
        si = rng.choice(has) if has and rng.random() < 0.9 else rng.randrange(len(w["sites"]))
        li = rng.choice(lightings)
        wins = g.windows(si, li)
        wd, at = span / 5, None
        if wins:
            at = rng.choice(wins)
            wd = (at[1] - at[0]) * SEC or wd
        easy = rng.random() < comfort
        if w.get("exact"):
            f = rng.choice([1 / 64, 1 / 32, 1 / 16, 1 / 8, 3 / 16] + ([] if easy else [1 / 3, 1 / 3, 1 / 9, 2 / 9, 1 / 4]))
        else:
            f = rng.choice(FRACTIONS[:9] if easy else FRACTIONS) * rng.choice([1, rng.uniform(0.8, 1.2)])
        dur = max(0.02, wd * f)
        if w.get("exact"):
            q = 86400 / 2 ** 24                    # keeps sums of edges and halves of durations exact
            dur = max(1, round(dur / q)) * q
            while dur in seen:
                dur += q
        else:
            dur = round(dur, 3) + (i + 1) * 1e-4
        seen.add(dur)
        r = rng.random()
        if easy or at is None or r < 0.3:
            dl = float(t[-1]) + rng.uniform(0.001, 5)
        else:
            mid = (at[0] + at[1]) / 2
            end = mid + dur / SEC / 2 + dur / SEC
            dl = rng.choice([end, end, mid + dur / SEC, mid + dur / SEC * 1.5000001, end + 1e-6, end - 1e-6, at[1], mid,
                             at[0] + rng.random() * (at[1] - at[0]), float(t[0]) - 1])
        look = None
        if lookangles and rng.random() < lookangles:
            look = round(rng.choice([0, 5, -5, 10, -10, 20, -20, 40, rng.uniform(-60, 60)]), 3)
            if rng.random() < 0.35 and not w.get("exact"):      # about the largest pitch a pass can show
                edge = math.degrees(math.asin(6371 * math.cos(math.radians(min(89, w["thr"]))) / (6371 + w["alt"])))
                look = round(rng.choice([-1, 1]) * (edge + rng.uniform(-2, 3)), 3)
                if rng.random() < 0.6:
                    dur, easy = round(w["dt"] * rng.uniform(0.05, 0.9), 3) + (i + 1) * 1e-4, False
                    seen.add(dur)
                    reqs.append({"site": si, "deadline": float(t[-1]) + 1.0, "dur": dur, "prio": rng.randint(1, 10),
                                 "qual": 1, "look": look, "light": li})
                    continue
        natural = 10 - 9 * dur / wd
        qual = rng.randint(1, 5) if easy else rng.choice([1, 5, 8, 9, 10, math.floor(natural), math.floor(natural) + 1])
        reqs.append({"site": si, "deadline": float(dl), "dur": dur,
                     "prio": rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]),
                     "qual": int(min(10, max(1, qual))), "look": look, "light": li})
    return reqs


def gen_params(rng, max_iter=40):
    return {"iters": min(max_iter, rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, max_iter])),
            "p": rng.choice([0.0, 0.2, 0.5, 0.8, 0.95, 0.999, 1.0]),
            "l": rng.choice([0.0, 0.1, 0.3, 0.5, 0.9, 1.0]), "rs": rng.getrandbits(32),
            "mode": rng.choice(["plain", "plain", "plain", "mixed", "low", "high"])}


def gen_plan(rng, profile=None, max_iter=40, nreq=None):
    """A world, its requests and planner parameters."""
    profile = profile or rng.choice(["contended"] * 5 + ["general"] * 3 + ["isolated"] * 2 + ["exact"] * 3 +
                                    ["lit"] * 2 + ["degenerate"] + ["looks", "hopeless"])
    light = profile == "lit" or (profile in ("general", "degenerate") and rng.random() < 0.3)
    lights = ("ANYTIME", "DAYTIME", "NIGHTTIME") if light else ("ANYTIME",)
    kw = {"lighting": light}
    if profile == "contended":
        kw |= {"nsites": rng.choice([1, 2, 2, 3]), "npass": rng.choice([1, 2, 3]), "spread": rng.choice([0.5, 3, 8])}
        n, comfort = rng.randint(4, 11), rng.choice([0.5, 0.8, 1.0])
    elif profile == "isolated":
        kw |= {"nsites": rng.choice([2, 3, 4]), "spread": rng.choice([60, 90]), "npass": rng.choice([3, 4, 5, 6])}
        n, comfort = rng.randint(2, 6), 0.8
    elif profile == "looks":
        kw |= {"nsites": rng.choice([1, 2]), "npass": rng.choice([1, 2, 3]), "spread": 20}
        n, comfort = rng.randint(2, 8), 0.5
    elif profile == "exact":
        kw |= {"exact": True, "nsites": rng.choice([1, 2]), "npass": rng.choice([1, 2, 3]), "spread": 4}
        n, comfort = rng.randint(2, 9), 0.4
    elif profile == "hopeless":
        n, comfort = rng.randint(3, 6), 0.9
    else:
        n, comfort = rng.randint(1, 9), 0.5
    w = gen_world(rng, **kw)
    if profile == "isolated":
        w["thr"] = max(w["thr"], rng.choice([10, 25]))
    if profile == "degenerate":
        how = rng.randrange(6)
        if how == 5:                                # visible at the very first instant only, then perhaps again
            w["blocks"] = [{"kind": "pass", "site": 0, "n": rng.choice([1, 1, 2]), "from": 0.0, "to": 0.5,
                            "heading": 20.0, "cross": 0.0}, {"kind": "far", "n": rng.randint(3, 5), "heading": 5.0}] + \
                [b for b in w["blocks"] if b["kind"] == "pass"][:rng.choice([0, 1])]
            w["thr"] = min(w["thr"], 60)
        elif how == 0:
            w["thr"] = 90.0
        elif how == 1:
            w["blocks"] = [b for b in w["blocks"] if b["kind"] == "far"] or [{"kind": "far", "n": 4, "heading": 5.0}]
            w["blocks"][0]["n"] = max(3, w["blocks"][0]["n"])
        elif how == 2:
            for b in w["blocks"]:
                b["n"] = min(b["n"], 3)
            w["blocks"].append({"kind": "far", "n": 3, "heading": 5.0})
        elif how == 3:                              # visible from the first to the last sample
            w["blocks"] = [b | {"from": -3.0, "to": 3.0} for b in w["blocks"] if b["kind"] == "pass"][:1]
            w["blocks"][0]["n"] = max(4, w["blocks"][0]["n"])
            w["thr"] = min(w["thr"], 20)
        else:
            n, comfort = rng.randint(1, 3), 0.0
    reqs = gen_requests(rng, w, nreq or n, lights, comfort=comfort, lookangles=0.8 if profile == "looks" else 0.15)
    if profile == "isolated":                       # most sites get one request only
        seen, keep = set(), []
        for r in reqs:
            if r["site"] not in seen or rng.random() < 0.25:
                keep.append(r)
            seen.add(r["site"])
        reqs = keep
    if profile == "hopeless":                       # many important requests that nothing can serve, few that can be
        reqs = [r | {"prio": rng.randint(1, 4)} for r in reqs]
        for _ in range(rng.choice([3, 5, 8, 12])):
            r = dict(rng.choice(reqs))
            how = rng.choice(["late", "late", "long", "look"])
            r |= {"late": {"deadline": float(w["t0"]) - rng.random()}, "look": {"look": rng.choice([89.0, -89.0])},
                  "long": {"dur": 86400.0}}[how] | {"prio": rng.choice([10, 10, 9, 5])}
            r["dur"] = round(r["dur"] + 0.0501 + len(reqs) * 1e-4, 4)
            reqs.insert(rng.randrange(len(reqs) + 1), r)
    if profile == "degenerate" and rng.random() < 0.3:
        for r in reqs:
            r["deadline"] = float(w["t0"]) - 1
    return {"profile": profile, "world": w, "reqs": reqs} | gen_params(rng, max_iter)


def shrink_world(plan):
    """Plans with a smaller world or fewer requests; the rest of the plan is kept."""
    w = plan["world"]
    rs = plan.get("reqs")
    if rs:
        for i in reversed(range(len(rs))):
            if len(rs) > 1:
                yield plan | {"reqs": rs[:i] + rs[i + 1:]}
    bl = w["blocks"]
    for i in reversed(range(len(bl))):
        rest = bl[:i] + bl[i + 1:]
        if sum(b["n"] for b in rest) >= 3:
            yield plan | {"world": w | {"blocks": rest}}
    for i, b in enumerate(bl):
        if b["kind"] == "far" and b["n"] > 1 and sum(x["n"] for x in bl) > 3:
            yield plan | {"world": w | {"blocks": bl[:i] + [b | {"n": 1}] + bl[i + 1:]}}
    if w.get("dts"):
        yield plan | {"world": {k: v for k, v in w.items() if k != "dts"}}
    if rs:
        for i, r in enumerate(rs):
            if r["look"] is not None:
                yield plan | {"reqs": rs[:i] + [r | {"look": None}] + rs[i + 1:]}
            if r["light"] != "ANYTIME":
                yield plan | {"reqs": rs[:i] + [r | {"light": "ANYTIME"}] + rs[i + 1:]}
            if r["prio"] != 1:
                yield plan | {"reqs": rs[:i] + [r | {"prio": 1}] + rs[i + 1:]}
    if plan.get("mode", "plain") != "plain":
        yield plan | {"mode": "plain"}


# ------------------------------------------------------------------------------------ celest objects
def build_satellite(w):
    from celest.coordinates.frames.itrs import ITRS
    from celest.satellite import Satellite
    from celest import units as u
    t, pos = times_of(w), track_of(w)
    v = velocity_of(w, pos, t)
    p = ITRS(t.copy(), pos[:, 0].copy(), pos[:, 1].copy(), pos[:, 2].copy(), u.km)
    vel = ITRS(t.copy(), v[:, 0].copy(), v[:, 1].copy(), v[:, 2].copy(), u.km / u.s)
    return Satellite(p, vel)


def build_site(s):
    from celest.coordinates.ground_location import GroundLocation
    from celest import units as u
    return GroundLocation(s["lat"], s["lon"], s["h"], u.deg, u.km)


def lighting(name):
    from celest.encounter.window_generator import Lighting
    return Lighting[name]


def site_key(loc):
    from celest import units as u
    return (round(float(loc.latitude.to(u.deg)), 9), round(float(loc.longitude.to(u.deg)), 9),
            round(float(loc.height.to(u.km)), 9))


def add_request(sched, w, r, locs=None):
    loc = locs[r["site"]] if locs is not None else build_site(w["sites"][r["site"]])
    args = (loc, r["deadline"], r["dur"], r["prio"], r["qual"])
    if r["light"] == "DAYTIME" and r["prio"] % 2:   # the default
        sched.add_request(*args, look_ang=r["look"]) if r["look"] is not None else sched.add_request(*args)
    else:
        sched.add_request(*args, r["look"], lighting(r["light"]))


def observations(coll):
    """Schedule -> plain data through the public attributes."""
    from celest import units as u
    out = []
    for ow in coll:
        at = ow.attitude
        out.append({"start": float(ow.start_time.to(u.jd2000)), "dur": float(ow.duration.to(u.s)),
                    "loc": site_key(ow.location),
                    "t": [float(x) for x in np.atleast_1d(at.time.to(u.jd2000))],
                    "rpy": [[float(x) for x in np.atleast_1d(q.to(u.deg))] for q in (at.roll, at.pitch, at.yaw)],
                    "aloc": site_key(at.location)})
    return out


def canon(obs, nd=9):
    """Order-free comparable form of a schedule."""
    return sorted((round(o["start"], nd), round(o["dur"], 6), o["loc"],
                   tuple(tuple(round(x, 6) for x in a) for a in o["rpy"])) for o in obs)
