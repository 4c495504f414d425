"""C06 simplification and resampling of contours and lines"""
import numpy as np

from harness import gen
from harness.core import Check
from harness.ref import close_ring, haversine

CHECK = Check("C06", "random closed contours and open lines, with repeated points, invalid points, lines crossing the "
              "reference meridian, empty and one point lines; non trivial: new curve",
              ["Visvalingam runs whose smallest areas tie are only judged on the invariants"])


def contour(rng):
    x, y = gen.star_polygon(rng, int(rng.integers(5, 80)), *rng.uniform(-50, 50, 2), rng.uniform(0.1, 5), rng.uniform(0, 0.8))
    return x, y


def greedy(x, y, keep):
    """Visvalingam on distinct cyclic points: indices kept, and smallest gap between the two first candidates"""
    idx = list(range(len(x)))
    gap = np.inf
    scale = (np.ptp(x) + np.ptp(y)) ** 2
    while len(idx) > keep:
        n = len(idx)
        a = np.array(idx)
        p, q = np.roll(a, 1), np.roll(a, -1)
        area = np.abs((x[a] - x[p]) * (y[q] - y[p]) - (x[q] - x[p]) * (y[a] - y[p]))
        o = np.argsort(area)
        if n > 1:
            gap = min(gap, (area[o[1]] - area[o[0]]) / scale)
        del idx[o[0]]
    return idx, gap


def is_cyclic_subsequence(sub, full):
    """points of sub (k,2) are points of full (n,2), in cyclic order"""
    look = {}
    for i, p in enumerate(map(tuple, full.tolist())):
        look.setdefault(p, i)
    ids = []
    for p in map(tuple, sub.tolist()):
        if p not in look:
            return False
        ids.append(look[p])
    if len(ids) < 2:
        return True
    d = (np.roll(ids, -1) - np.array(ids)) % len(full)
    return bool((d > 0).all() and d.sum() == len(full))


@CHECK.group("visvalingam", quick=300, thorough=6000)
def visvalingam(c):
    """the vertices kept are those of the elimination by smallest area; bounds kept"""
    from py_eddy_tracker.poly import visvalingam

    rng = c.rng
    x, y = contour(rng)
    u, v = close_ring(x, y)
    n = len(u)
    size = int(rng.integers(4, n + 8))
    gx, gy = visvalingam(x, y, fixed_size=size)
    c.check(len(gx) == size and len(gy) == size, f"{len(gx)} points instead of {size}")
    c.check(gx[0] == gx[-1] and gy[0] == gy[-1], "first point is not the last", x=x, y=y, size=size)
    ru, rv = close_ring(gx, gy)
    keep = min(size - 1, n)
    c.check(len(ru) == keep, f"{len(ru)} distinct points instead of {keep}", x=x, y=y, size=size)
    c.check(is_cyclic_subsequence(np.array([ru, rv]).T, np.array([u, v]).T), "points moved or out of order", x=x, y=y, size=size)
    ref, gap = greedy(u, v, keep)
    if gap > 1e-12:
        exp = sorted(zip(u[ref].tolist(), v[ref].tolist()))
        got = sorted(zip(ru.tolist(), rv.tolist()))
        c.check(got == exp, "a removed vertex was not the one of smallest triangle", x=x, y=y, size=size, got=got, expected=exp)
        c.count("full_order_checked")
    c.count("vertices_removed", n - keep)
    c.nontrivial(x, y, size, sample=dict(n=n, size=size))


@CHECK.group("resample", quick=250, thorough=5000)
def resample(c):
    """uniform_resample: points on the curve at equal arc length, ends kept, masked points not used"""
    from py_eddy_tracker.generic import uniform_resample

    rng = c.rng
    if rng.random() < 0.6:
        x, y = contour(rng)
    else:
        n = int(rng.integers(2, 50))
        x, y = np.cumsum(rng.normal(0, 0.3, n)) + rng.uniform(-180, 360), np.clip(np.cumsum(rng.normal(0, 0.3, n)), -60, 60)
    if rng.random() < 0.3:  # repeated points
        k = np.sort(np.concatenate([np.arange(len(x)), rng.integers(0, len(x), 3)]))
        x, y = x[k], y[k]
    if rng.random() < 0.5:
        size = int(rng.integers(2, 120))
        gx, gy = uniform_resample(x, y, fixed_size=size)
    else:
        f = int(rng.integers(1, 5))
        size = len(x) * f
        gx, gy = uniform_resample(x, y, num_fac=f)
    c.check(len(gx) == size and len(gy) == size, f"{len(gx)} points instead of {size}")
    c.close([gx[0], gy[0], gx[-1], gy[-1]], [x[0], y[0], x[-1], y[-1]], "ends of the line moved", atol=1e-9)
    d = np.append(0, np.cumsum(np.maximum(haversine(x[:-1], y[:-1], x[1:], y[1:]), 1e-3)))
    s = np.linspace(0, d[-1], size)
    c.close(gx, np.interp(s, d, x), "resampled x", rtol=1e-7, atol=1e-6, x=x, y=y, size=size)
    c.close(gy, np.interp(s, d, y), "resampled y", rtol=1e-7, atol=1e-6, x=x, y=y, size=size)
    c.nontrivial(x, y, size)


@CHECK.group("resample_stack", quick=60, thorough=600)
def resample_stack(c):
    """resampled stacks of contours are each the resampled contour"""
    from py_eddy_tracker.dataset import grid

    rng = c.rng
    x, y = contour(rng)
    size = int(rng.integers(5, 60))
    v = np.array([x, y]).T.copy()
    d = np.append(0, np.cumsum(np.maximum(haversine(x[:-1], y[:-1], x[1:], y[1:]), 1e-3)))
    s = np.linspace(0, d[-1], size)
    e = np.array([np.interp(s, d, x), np.interp(s, d, y)]).T
    c.close(grid.uniform_resample_stack(v, fixed_size=size), e, "uniform_resample_stack", rtol=1e-7, atol=1e-6)
    c.nontrivial(x, y, size)


@CHECK.group("simplify", quick=250, thorough=5000)
def simplify(c):
    """simplify: ends kept, points kept are at least at the asked distance, invalid points stay separators"""
    from py_eddy_tracker.generic import simplify

    rng = c.rng
    n = int(rng.integers(1, 40))
    x, y = np.cumsum(rng.normal(0, 0.3, n)), np.cumsum(rng.normal(0, 0.3, n))
    mode = rng.integers(0, 4)
    if mode:
        k = rng.random(n) < (0, 0.1, 0.5, 0.95)[mode]
        x[k] = np.nan
        k2 = k & (rng.random(n) < 0.5)
        y[k2] = np.nan
        if rng.random() < 0.3:
            y[rng.random(n) < 0.1] = np.nan
    p = float(rng.choice([0.01, 0.1, 0.5, 2]))
    gx, gy = simplify(x, y, precision=p)
    bad = np.isnan(x) | np.isnan(y)
    # the rule, point by point
    keep, last, prev_bad = [], None, False
    for i in range(n):
        if bad[i]:
            if last is not None and not prev_bad:
                keep.append(i)
            prev_bad = True
            continue
        if last is None or np.hypot(x[i] - x[last], y[i] - y[last]) > p:
            keep.append(i)
            last = i
        prev_bad = False
    c.equal(gx, x[keep], "points kept by the simplification (x)", x=x, y=y, precision=p)
    c.equal(gy, y[keep], "points kept by the simplification (y)", x=x, y=y, precision=p)
    c.count("points_dropped", n - len(keep))
    c.nontrivial(x, y, p)


@CHECK.group("flatten_split", quick=200, thorough=3000)
def flatten_split(c):
    """flatten_line_matrix and split_line conserve pieces"""
    from py_eddy_tracker.generic import flatten_line_matrix, split_line
    from py_eddy_tracker.poly import reduce_size

    rng = c.rng
    m = rng.normal(size=(int(rng.integers(1, 12)), int(rng.integers(1, 12))))
    if rng.random() < 0.3:
        m = m.astype("f4")
    out = flatten_line_matrix(m)
    nan = np.full((m.shape[0], 1), np.nan, m.dtype)
    c.equal(out, np.concatenate([m, nan], axis=1).ravel()[:-1], "flatten_line_matrix", m=m)
    c.check(np.isnan(flatten_line_matrix(np.empty((0, 3)))).all(), "flatten of nothing")
    n = int(rng.integers(1, 40))
    x, y = rng.normal(size=n), rng.normal(size=n)
    g = np.repeat(np.arange(n), rng.integers(1, 6, n))[:n]
    if rng.random() < 0.3:
        g = rng.integers(0, 3, n)
    g = g.astype(rng.choice(["u4", "i8", "u2"]))
    gx, gy = split_line(x, y, g)
    ex, ey = [], []
    for k in range(n):
        if k and g[k] != g[k - 1]:
            ex.append(np.nan), ey.append(np.nan)
        ex.append(x[k]), ey.append(y[k])
    c.equal(gx, np.array(ex), "split_line x", g=g)
    c.equal(gy, np.array(ey), "split_line y", g=g)
    # padding
    a, b = contour(rng)
    pa, pb = gen.pad_ring(a, b, len(a) + int(rng.integers(0, 10)))
    ra, rb = reduce_size(pa, pb)
    ua, ub = close_ring(a, b)
    c.equal(ra, ua, "reduce_size lost or kept a vertex")
    c.equal(rb, ub, "reduce_size lost or kept a vertex")
    k = int(rng.integers(3, 10))
    ra, rb = reduce_size(np.full(k, a[0]), np.full(k, b[0]))
    c.check(len(ra) == 3 and (ra == a[0]).all() and (rb == b[0]).all(), "reduce_size of a single position")
    c.nontrivial(m, x, g)


@CHECK.group("wrap", quick=250, thorough=4000)
def wrap(c):
    """wrap_longitude keeps places and cuts where the reference meridian is crossed"""
    from py_eddy_tracker.generic import wrap_longitude

    rng = c.rng
    ref = float(rng.choice([-180, 0, 20, -100.5]))
    lines = []
    for _ in range(int(rng.integers(1, 4))):
        n = int(rng.integers(1, 40))
        x = rng.choice([ref, ref + 360, rng.uniform(-180, 540)]) + np.cumsum(rng.normal(0, rng.choice([0.1, 2, 15]), n))
        lines.append((x, np.cumsum(rng.normal(0, 0.3, n))))
    # lines separated by an invalid point
    x = np.concatenate([np.append(a, np.nan) for a, _ in lines])[:-1]
    y = np.concatenate([np.append(b, np.nan) for _, b in lines])[:-1]
    if rng.random() < 0.2:
        x = np.append(np.nan, x)
        y = np.append(np.nan, y)
    dtype = "f8" if rng.random() < 0.7 else "f4"
    x = x.astype(dtype)
    gx, gy = wrap_longitude(x, y, ref)
    ok = ~np.isnan(x)
    c.equal(gy, y, "latitude changed by wrapping")
    c.check(bool((gx[ok] >= ref - 1e-4).all() and (gx[ok] <= ref + 360 + 1e-4).all()), "wrapped longitude out of bounds", x=x, ref=ref)
    turns = (gx[ok].astype("f8") - x[ok]) / 360
    c.close(turns, np.round(turns), "wrapped longitude is another place", atol=1e-6)
    # cut
    gx, gy = wrap_longitude(x, y, ref, cut=True)
    xd = x.astype("f8")
    k = np.floor((xd - ref) / 360)
    ex, ey = [], []
    for i in range(len(x)):
        if i and ok[i] and ok[i - 1] and k[i] != k[i - 1]:
            ex += [xd[i] - 360 * k[i - 1], np.nan, xd[i - 1] - 360 * k[i]]
            ey += [y[i], np.nan, y[i - 1]]
            c.count("cuts")
        ex.append(xd[i] - 360 * k[i])
        ey.append(y[i])
    near = np.abs((xd[ok] - ref) / 360 - np.round((xd[ok] - ref) / 360)).min() < 1e-6
    if near:
        return
    c.close(gx, np.array(ex), "cut line x", atol=1e-3 if dtype == "f4" else 1e-9, x=x, y=y, ref=ref)
    c.close(gy, np.array(ey), "cut line y", atol=1e-12, x=x, y=y, ref=ref)
    c.nontrivial(x, y, ref)
