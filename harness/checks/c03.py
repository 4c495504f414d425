"""C03 overlap scores"""
import numpy as np

from harness import gen
from harness.core import Check
from harness.ref import inter_area, shoelace

CHECK = Check("C03", "pairs of simple polygons from disjoint to nested and identical, both orientations, every "
              "longitude branch, float32 and float64; non trivial when the pair overlaps partially",
              ["areas in degree plane, exact slab decomposition as oracle",
               "scores within 1e-6 (float64) or 5e-4 (float32, other branch) of a threshold are not judged against it"])


def pair(rng, kind=None):
    """two polygons and how they sit"""
    kind = rng.choice(["near", "nested", "same", "disjoint", "touch_bbox"]) if kind is None else kind
    r = rng.uniform(0.2, 4)
    base = rng.choice([0.0, 180.0, 360.0, rng.uniform(0, 360)])
    lat = rng.uniform(-60, 60)
    n0, n1 = rng.integers(3, 30, 2)
    x0, y0 = gen.star_polygon(rng, int(n0), base, lat, r, rng.uniform(0, 0.6))
    if kind == "same":
        x1, y1 = x0.copy(), y0.copy()
        k = int(rng.integers(0, n0))
        x1, y1 = np.roll(x1[:-1], k), np.roll(y1[:-1], k)
        x1, y1 = np.append(x1, x1[0]), np.append(y1, y1[0])
    elif kind == "nested":
        f = rng.uniform(0.05, 0.3)
        x1, y1 = gen.star_polygon(rng, int(n1), base, lat, r * f, 0.3)
    elif kind == "disjoint":
        x1, y1 = gen.star_polygon(rng, int(n1), base + rng.choice([-1, 1]) * 2.2 * r, lat + rng.normal(0, r), r * 0.9, 0.3)
    elif kind == "touch_bbox":
        x1, y1 = gen.star_polygon(rng, int(n1), base + 1.5 * r, lat + 1.5 * r, r * 0.9, 0.5)
    else:
        x1, y1 = gen.star_polygon(rng, int(n1), base + rng.normal(0, 0.5) * r, lat + rng.normal(0, 0.5) * r,
                                  r * rng.uniform(0.5, 1.5), rng.uniform(0, 0.6))
    return kind, (x0, y0), (x1, y1)


def stack(contours, rng, dtype="f8", size=None):
    size = size or max(len(x) for x, _ in contours) + int(rng.integers(0, 5))
    out = [gen.pad_ring(x, y, size) for x, y in contours]
    return np.array([o[0] for o in out], dtype), np.array([o[1] for o in out], dtype)


def ref_scores(x0, y0, x1, y1):
    a0, a1 = abs(shoelace(x0, y0)), abs(shoelace(x1, y1))
    i = inter_area(x0, y0, x1, y1)
    return i, a0, a1


def expected(i, a0, a1, minimal_area=False, p1_area=False, hybrid_area=False, min_overlap=0):
    if i <= 0:
        return 0.0, np.inf
    if minimal_area:
        s = i / min(a0, a1)
    elif p1_area:
        s = i / a1
    else:
        s = i / (a0 + a1 - i)
    margin = abs(s - min_overlap)
    if s >= min_overlap:
        return s, margin
    if hybrid_area:
        margin = min(margin, abs(i / min(a0, a1) - 0.99))
        if i / min(a0, a1) > 0.99:
            return s, margin
    return 0.0, margin


OPTIONS = [dict(), dict(minimal_area=True), dict(p1_area=True), dict(hybrid_area=True)]


@CHECK.group("scores", quick=150, thorough=3000, jobs=2)
def scores(c):
    """vertice_overlap in its three modes against an exact slab decomposition; range, identity, symmetry, thresholds, branches"""
    from py_eddy_tracker.poly import vertice_overlap

    rng = c.rng
    n = int(rng.integers(1, 8))
    pairs = [pair(rng) for _ in range(n)]
    dtype = "f8" if rng.random() < 0.6 else "f4"
    x0, y0 = stack([p[1] for p in pairs], rng, dtype)
    x1, y1 = stack([p[2] for p in pairs], rng, dtype)
    ref = [ref_scores(x0[k], y0[k], x1[k], y1[k]) for k in range(n)]
    branch = (360 * rng.integers(-1, 2, (2, n, 1))).astype(dtype)
    t_min = float(rng.choice([0, 0.1, 0.2, 0.5, 0.9]))
    data = dict(x0=x0, y0=y0, x1=x1, y1=y1)
    for o in OPTIONS:
        o = dict(o, min_overlap=t_min)
        for moved in (False, True):
            xa, xb = (x0 + branch[0], x1 + branch[1]) if moved else (x0, x1)
            tol = 1e-6 if dtype == "f8" else (5e-3 if moved else 1e-5)
            for swap in (False, True):
                if swap:
                    got = vertice_overlap(xb, y1, xa, y0, **o)
                    r = [(i, b, a) for i, a, b in ref]
                else:
                    got = vertice_overlap(xa, y0, xb, y1, **o)
                    r = ref
                for k in range(n):
                    e, margin = expected(*r[k], **o)
                    if margin < tol:
                        c.count("threshold_ties")
                        continue
                    c.check(0 <= got[k] <= 1 + 1e-9, f"score {got[k]} outside [0, 1]", **data)
                    if pairs[k][0] == "same" and o["min_overlap"] < 0.99:
                        c.check(abs(got[k] - 1) < tol, f"identical contours score {got[k]}", **data)
                    c.check(abs(got[k] - e) <= tol, f"score {got[k]} instead of {e} ({pairs[k][0]}, {o}, moved={moved}, swap={swap})",
                            k=k, **data)
    c.count("pairs", n)
    c.count("overlapping", sum(r[0] > 0 for r in ref))
    if any(p[0] == "near" for p in pairs):
        c.nontrivial(x0, x1, sample=dict(kinds=[p[0] for p in pairs], dtype=dtype, min_overlap=t_min))


@CHECK.group("antipodal", quick=60, thorough=600)
def antipodal(c):
    """contours half a turn apart: never any overlap, whatever the branch"""
    from py_eddy_tracker.poly import vertice_overlap

    rng = c.rng
    lon = rng.uniform(0, 360)
    r = rng.uniform(0.3, 5)
    lat = rng.uniform(-50, 50)
    a = gen.star_polygon(rng, None, lon, lat, r)
    b = gen.star_polygon(rng, None, lon + 180 + rng.normal(0, 1) * r, lat, r * rng.uniform(0.5, 2))
    x0, y0 = stack([a], rng)
    x1, y1 = stack([b], rng)
    for k0 in (0, 360.0, -360.0):
        for k1 in (0, 360.0, -360.0):
            s = vertice_overlap(x0 + k0, y0, x1 + k1, y1)[0]
            c.check(s == 0, f"contours on opposite sides of the Earth have score {s}", x0=x0 + k0, y0=y0, x1=x1 + k1, y1=y1)
    c.nontrivial(x0, x1)


@CHECK.group("polygon_list", quick=60, thorough=600)
def polygon_list(c):
    """overlap of one polygon with each of a list"""
    from Polygon import Polygon

    from py_eddy_tracker.poly import create_vertice, polygon_overlap

    rng = c.rng
    _, p0, p1 = pair(rng)
    others = [p1] + [pair(rng)[2] for _ in range(int(rng.integers(0, 3)))]
    for mini in (False, True):
        got = polygon_overlap(Polygon(create_vertice(*p0)), [Polygon(create_vertice(*p)) for p in others], minimal_area=mini)
        e = [expected(*ref_scores(*p0, *p), minimal_area=mini)[0] for p in others]
        c.close(got, e, f"polygon_overlap(minimal_area={mini})", rtol=1e-6, atol=1e-9, p0=p0, others=others)
    c.nontrivial(p0, p1)


@CHECK.group("bbox", quick=120, thorough=2000, jobs=2)
def bbox(c):
    """bbox_intersection never drops a pair which intersects, on any branch"""
    from py_eddy_tracker.poly import bbox_intersection

    rng = c.rng
    dtype = "f8" if rng.random() < 0.6 else "f4"
    n0, n1 = rng.integers(1, 14, 2)
    base, lat = rng.choice([0.0, 180.0, 360.0, rng.uniform(0, 360)]), rng.uniform(-60, 60)
    spread = rng.choice([1.0, 4.0, 90.0])
    lists = []
    for n in (n0, n1):
        lists.append(stack([gen.star_polygon(rng, None, base + rng.normal(0, spread), lat + rng.normal(0, min(spread, 4)),
                                             rng.uniform(0.2, 4)) for _ in range(n)], rng, dtype))
    (x0, y0), (x1, y1) = lists
    if rng.random() < 0.3:  # copies
        k = min(n0, n1)
        w = min(x0.shape[1], x1.shape[1])
        x1, y1 = x0[:k, :].copy(), y0[:k, :].copy()
        n1 = k
    b0, b1 = 360 * rng.integers(-1, 2, n0), 360 * rng.integers(-1, 2, n1)
    xa, xb = (x0 + b0[:, None]).astype(dtype), (x1 + b1[:, None]).astype(dtype)
    i, j = bbox_intersection(xa, y0, xb, y1)
    got = set(zip(i.tolist(), j.tolist()))
    c.check(len(got) == len(i), "pair listed twice")
    c.check(all(0 <= a < n0 and 0 <= b < n1 for a, b in got), "index out of range")
    nb = 0
    for a in range(n0):
        for b in range(n1):
            best = 0
            for k in (-1, 0, 1):
                xs = x1[b].astype("f8") + 360 * k
                if xs.max() < x0[a].min() or xs.min() > x0[a].max():
                    continue
                best = max(best, inter_area(x0[a], y0[a], xs, y1[b]))
            if best > 1e-3:
                nb += 1
                c.check((a, b) in got, f"pair {a},{b} intersecting on {best} square degrees is not selected",
                        xa=xa, y0=y0, xb=xb, y1=y1)
    c.count("intersecting_pairs", nb)
    c.count("candidate_pairs", len(got))
    if nb:
        c.nontrivial(xa, xb, sample=dict(n=[int(n0), int(n1)], intersecting=nb, candidates=len(got)))
