"""C04 matching of two datasets"""
import numpy as np

from harness import gen
from harness.checks.c03 import expected, ref_scores
from harness.core import Check
from harness.ref import wrap180

CHECK = Check("C04", "two random sets of eddies, the second partly made of moved, resized or other-branch copies of the "
              "first; non trivial when at least one pair overlaps",
              ["scores stored in float32 contours: tolerance 5e-3 across branches, thresholds closer are not judged"])


def two_sets(rng, star=None):
    n0 = int(rng.integers(1, 16))
    base = rng.choice([0.0, 180.0, 360.0, rng.uniform(0, 360)])
    lat = rng.uniform(-60, 60)
    s = int(rng.integers(8, 24))
    spread = rng.choice([1.5, 4])
    star = rng.random() < 0.6 if star is None else star
    a = gen.eddies(rng, n0, lon=base + rng.uniform(-spread, spread, n0), lat=lat + rng.uniform(-spread, spread, n0),
                   sampling=s, star=star)
    n1 = int(rng.integers(1, 16))
    k = rng.integers(0, n0, n1)
    b = gen.eddies(rng, n1, lon=a.lon[k] + rng.normal(0, 0.3, n1), lat=a.lat[k] + rng.normal(0, 0.3, n1), sampling=s, star=star)
    same = np.flatnonzero(rng.random(n1) < 0.2)
    for i in same:
        b.obs[i] = a.obs[k[i]]
    for e in (a, b):
        turn = 360 * rng.integers(-1, 2, len(e))
        for f in ("lon",):
            e.obs[f] += turn
        for f in ("contour_lon_e", "contour_lon_s"):
            e.obs[f] += turn[:, None]
    return a, b


def table(a, b, intern):
    """intersection, area, area for each pair (zero when far)"""
    s = "s" if intern else "e"
    xa, ya = a.obs["contour_lon_" + s].astype("f8"), a.obs["contour_lat_" + s].astype("f8")
    xb, yb = b.obs["contour_lon_" + s].astype("f8"), b.obs["contour_lat_" + s].astype("f8")
    out = {}
    for i in range(len(a)):
        for j in range(len(b)):
            # whole turn that brings the first vertices together
            k = round((xa[i, 0] - xb[j, 0]) / 360)
            x = xb[j] + 360 * k
            if x.max() < xa[i].min() or x.min() > xa[i].max() or yb[j].max() < ya[i].min() or yb[j].min() > ya[i].max():
                continue
            r = ref_scores(xa[i], ya[i], x, yb[j])
            if r[0] > 0:
                out[i, j] = r
    return out


def judge(c, got, t, cmin, o, what, tol=5e-3):
    i, j, s = got
    pairs = dict()
    for a, b, v in zip(i.tolist(), j.tolist(), s.tolist()):
        c.check((a, b) not in pairs, f"{what}: pair {a},{b} returned twice")
        pairs[a, b] = v
    n = 0
    for p in set(t) | set(pairs):
        e, margin = expected(*t[p], **o) if p in t else (0.0, np.inf)
        margin = min(margin, abs(e - cmin) if cmin else np.inf)
        if margin < tol:
            continue
        want = e > 0 and e >= cmin
        if want:
            n += 1
            c.check(p in pairs, f"{what}: overlapping pair {p} of score {e} not returned (cmin={cmin}, {o})")
        if p in pairs:
            v = pairs[p]
            if not want:
                # without minimum, candidates with a null score may come along, with that null score
                c.check(cmin == 0 and v == 0, f"{what}: pair {p} returned with score {v}, expected {e} (cmin={cmin}, {o})")
                c.count("null_scores")
            else:
                c.check(abs(v - e) < tol, f"{what}: pair {p} score {v} instead of {e}")
    c.count("pairs", n)
    return n


@CHECK.group("match", quick=120, thorough=2000, jobs=2)
def match(c):
    """match() returns all pairs and only pairs above the minimum, with index and score; swapped datasets swap the pairs"""
    rng = c.rng
    a, b = two_sets(rng)
    before = a.obs.copy(), b.obs.copy()
    tot = 0
    for intern in (False, True):
        t = table(a, b, intern)
        for o in (dict(), dict(minimal_area=True), dict(min_overlap=0.2), dict(hybrid_area=True, min_overlap=0.3)):
            cmin = float(rng.choice([0, 0.05, 0.2, 0.5]))
            if "min_overlap" in o and rng.random() < 0.5:
                cmin = 1e-9
            got = a.match(b, intern=intern, cmin=cmin, **o)
            tot += judge(c, got, t, cmin, o, f"match intern={intern}")
            rev = b.match(a, intern=intern, cmin=cmin, **o)
            f = {(p, q): v for p, q, v in zip(*map(np.ndarray.tolist, got))}
            r = {(q, p): v for p, q, v in zip(*map(np.ndarray.tolist, rev))}
            for p in set(f) | set(r):
                v, w = f.get(p, 0), r.get(p, 0)
                if min(abs(v - cmin), abs(w - cmin), abs(max(v, w) - o.get("min_overlap", -1))) < 5e-3:
                    continue
                c.check(abs(v - w) < 5e-3, f"swapping datasets changes pair {p}: {v} and {w}")
    c.equal(a.obs, before[0], "source modified")
    c.equal(b.obs, before[1], "source modified")
    if tot:
        c.nontrivial(a.obs["contour_lon_e"], b.obs["contour_lon_e"], sample=dict(n=[len(a), len(b)], pairs=tot))


@CHECK.group("subset", quick=80, thorough=1000)
def subset(c):
    """match on sub-selections, re_reference_index translates to the full datasets"""
    rng = c.rng
    a, b = two_sets(rng)
    t = table(a, b, False)

    def selection(n):
        k = rng.integers(0, 4)
        if k == 0:
            return None, np.arange(n), None
        if k == 1:
            m = rng.random(n) < 0.6
            return m, np.flatnonzero(m), None
        if k == 2:
            i = np.sort(rng.choice(n, int(rng.integers(1, n + 1)), replace=False))
            rng.shuffle(i)
            return i, i, i
        s = int(rng.integers(0, n))
        e = int(rng.integers(s + 1, n + 1))
        return slice(s, e), np.arange(s, e), slice(s, e)

    si, ii, ri = selection(len(a))
    sj, jj, rj = selection(len(b))
    if len(ii) == 0 or len(jj) == 0:
        return
    cmin = float(rng.choice([1e-9, 0.1, 0.3]))
    i, j, s = a.match(b, i_self=si, i_other=sj, cmin=cmin)
    sub = {(p, q): t[ii[p], jj[q]] for p in range(len(ii)) for q in range(len(jj)) if (ii[p], jj[q]) in t}
    n = judge(c, (i, j, s), sub, cmin, dict(), "match of sub selections")
    for idx, ref, full in ((i, ri, ii), (j, rj, jj)):
        if ref is not None and len(idx):
            c.equal(a.re_reference_index(idx, ref), full[idx], "re_reference_index")
            c.count("re_referenced", len(idx))
    if n:
        c.nontrivial(a.obs["contour_lon_e"], b.obs["contour_lon_e"], ii, jj)


@CHECK.group("close_center", quick=60, thorough=600)
def close_center(c):
    """close_center links and distances"""
    rng = c.rng
    a, b = two_sets(rng)
    d = float(rng.choice([0.05, 0.1, 0.5, 1]))
    i, j, s = a.match(b, method="close_center", delta=d)
    got = list(zip(np.asarray(i).astype(int).tolist(), np.asarray(j).astype(int).tolist()))
    c.check(len(set(got)) == len(got), "pair returned twice")
    dx = np.abs(wrap180(a.lon[:, None] - b.lon[None]))
    dy = np.abs(a.lat[:, None] - b.lat[None])
    m = (dx <= d) & (dy <= d)
    tie = (np.abs(dx - d) < 1e-9) | (np.abs(dy - d) < 1e-9)
    g = np.zeros(m.shape, bool)
    for p in got:
        g[p] = True
    c.equal(g[~tie], m[~tie], "pairs of close centres", lon0=a.lon, lon1=b.lon, lat0=a.lat, lat1=b.lat)
    c.check((np.asarray(s) == 1).all(), "score of close centres")
    if m.any():
        c.nontrivial(a.lon, b.lon, d)


@CHECK.group("area_tracker", quick=60, thorough=800)
def area_tracker(c):
    """links made by the overlap tracker are one to one and taken in the overlapping pairs"""
    from py_eddy_tracker.featured_tracking.area_tracker import AreaTracker

    rng = c.rng
    a, b = two_sets(rng)
    cls = AreaTracker
    cmin = float(rng.choice([0.1, 0.2, 0.4]))
    A, B = (cls.__new__(cls) for _ in range(2))
    A, B = cls(len(a), cmin=cmin, track_array_variables=a.track_array_variables, array_variables=a.array_variables), \
        cls(len(b), cmin=cmin, track_array_variables=b.track_array_variables, array_variables=b.array_variables)
    A.obs[:], B.obs[:] = a.obs, b.obs
    i, j, cost = A.tracking(B)
    c.check(len(set(i.tolist())) == len(i) and len(set(j.tolist())) == len(j), "link is not one to one", i=i, j=j)
    t = table(a, b, False)
    for p, q in zip(i.tolist(), j.tolist()):
        c.check((p, q) in t, f"link {p},{q} between eddies that do not overlap")
        e, margin = expected(*t[p, q])
        c.check(e > cmin - 5e-3, f"link {p},{q} with an overlap of {e} under {cmin}")
    c.count("links", len(i))
    if len(i):
        c.nontrivial(a.obs["contour_lon_e"], b.obs["contour_lon_e"], cmin)
