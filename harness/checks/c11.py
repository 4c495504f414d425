"""C11 maps and histograms"""
import numpy as np

from harness import gen
from harness.checks.c10 import datasets, expected
from harness.core import Check
from harness.ref import dist_to_poly

CHECK = Check("C11", "random eddies around regional and global bins, on any longitude branch, with filters and masked data; "
              "non trivial: new dataset and bins",
              ["cells whose centre is closer than 1e-4 to a (single precision) contour and values on a bin edge are not judged"])


def near(g, e, k, sfx):
    x, y = e[f"contour_lon_{sfx}"][k].astype("f8"), e[f"contour_lat_{sfx}"][k].astype("f8")
    mid = (x.min() + x.max()) / 2
    X, Y = np.meshgrid(g.x_c + np.floor((mid - g.x_c) / 360 + 0.5) * 360, g.y_c, indexing="ij")
    m = (X > x.min() - 0.1) & (X < x.max() + 0.1) & (Y > y.min() - 0.1) & (Y < y.max() + 0.1)
    return m.any() and (dist_to_poly(X[m], Y[m], x, y) < 1e-4).any()


def bins(rng):
    """bins of step a power of two covering the circle or a region"""
    if rng.random() < 0.5:
        s = float(rng.choice([5, 10, 20]))
        x0 = float(rng.choice([0, -180, 20]))
        bx = (x0, x0 + 360 + s / 2, s)
    else:
        s = float(rng.choice([0.5, 1, 2]))
        x0 = float(rng.integers(-180, 360))
        bx = (x0, x0 + s * int(rng.integers(8, 30)) + s / 2, s)
    y0 = float(rng.integers(-60, 30))
    by = (y0, y0 + s * int(rng.integers(6, 16)) + s / 2, s)
    return bx, by, s


@CHECK.group("count_in_contours", quick=100, thorough=1500, jobs=2)
def count_in_contours(c):
    """grid_count: each cell counts the contours which contain its centre"""
    from types import SimpleNamespace

    rng = c.rng
    bx, by, s = bins(rng)
    X, Y = np.arange(*bx), np.arange(*by)
    ref = SimpleNamespace(x_c=(X[1:] + X[:-1]) / 2, y_c=(Y[1:] + Y[:-1]) / 2, x_bounds=X, y_bounds=Y)
    e = datasets(rng, ref, 10)
    intern = bool(rng.random() < 0.3)
    sfx = "s" if intern else "e"
    # contours around their centre
    flt = None
    if rng.random() < 0.5:
        flt = rng.random(len(e)) < 0.6
    g = e.grid_count((bx, by), intern=intern, **({} if flt is None else dict(filter=flt)))
    z = g.grid("count")
    c.check(z.shape == (X.size - 1, Y.size - 1), f"shape {z.shape}")
    c.close(g.x_c, ref.x_c, "x of the grid"), c.close(g.y_c, ref.y_c, "y of the grid")
    lo, hi = np.zeros(z.shape, int), np.zeros(z.shape, int)
    for k in range(len(e)):
        if flt is not None and flt.any() and not flt[k]:
            continue
        if flt is not None and not flt.any():
            continue
        x, y = e[f"contour_lon_{sfx}"][k].astype("f8"), e[f"contour_lat_{sfx}"][k].astype("f8")
        ins, amb = expected(ref, x, y)
        if near(ref, e, k, sfx):
            hi += (Xnear(ref, x, y) | ins)
            lo += ins & ~Xnear(ref, x, y)
        else:
            hi += ins
            lo += ins
    got = z.data.astype(int)
    c.check(bool(((got >= lo) & (got <= hi)).all()), "number of contours per cell", got=got, lo=lo, hi=hi, bins=[bx, by])
    c.equal(np.ma.getmaskarray(z), got == 0, "empty cells are masked")
    c.count("hits", got.sum())
    c.nontrivial(got, e.lon)


def Xnear(g, x, y):
    mid = (x.min() + x.max()) / 2
    X, Y = np.meshgrid(g.x_c + np.floor((mid - g.x_c) / 360 + 0.5) * 360, g.y_c, indexing="ij")
    return (dist_to_poly(X.ravel(), Y.ravel(), x, y) < 1e-4).reshape(X.shape)


@CHECK.group("box_statistics", quick=120, thorough=2000)
def box_statistics(c):
    """grid_box_stat / grid_stat against loops"""
    rng = c.rng
    bx, by, s = bins(rng)
    X, Y = np.arange(*bx), np.arange(*by)
    n = int(rng.integers(1, 120))
    few = rng.random() < 0.5
    lon = rng.uniform(X[0], X[-1] if not few else min(X[-1], X[0] + 4 * s), n) + 360 * rng.integers(-1, 2, n)
    lat = rng.uniform(Y[0], Y[-1] if not few else min(Y[-1], Y[0] + 3 * s), n)
    e = gen.eddies(rng, n, lon=lon, lat=lat, sampling=5)
    i = np.floor(((lon - X[0]) % 360) / s).astype(int)
    j = np.floor((lat - Y[0]) / s).astype(int)
    amb = (np.abs(((lon - X[0]) / s) % 1 - 0.5) > 0.5 - 1e-9).any() or (np.abs(((lat - Y[0]) / s) % 1 - 0.5) > 0.5 - 1e-9).any()
    if amb:
        return
    data = None
    val = e.amplitude.astype("f8")
    if rng.random() < 0.5:
        val = rng.normal(size=n)
        data = np.ma.array(val, mask=rng.random(n) < 0.2) if rng.random() < 0.5 else val
    bad = np.ma.getmaskarray(data) if data is not None else np.zeros(n, bool)
    groups = {}
    for k in range(n):
        if not bad[k]:
            groups.setdefault((i[k], j[k]), []).append(val[k])
    shape = (X.size - 1, Y.size - 1)

    def compare(z, f, what):
        c.check(z.shape == shape, f"{what}: shape {z.shape}")
        m = np.ma.getmaskarray(z)
        for q in np.ndindex(shape):
            if q in groups:
                c.check(not m[q], f"{what}: box {q} with data is masked")
                c.close(float(z.data[q]), f(groups[q]), f"{what} of box {q}", rtol=1e-5, atol=1e-6)
            else:
                c.check(bool(m[q]), f"{what}: empty box {q} has a value", n=n)

    g = e.grid_stat((bx, by), "amplitude", data=data)
    c.close(g.x_c, (X[1:] + X[:-1]) / 2, "x of boxes"), c.close(g.y_c, (Y[1:] + Y[:-1]) / 2, "y of boxes")
    compare(g.grid("amplitude"), np.mean, "mean")
    p = float(rng.choice([0, 50, 100, 25]))
    if not bad.all():
        g = e.grid_box_stat((bx, by), "amplitude", method=p, data=data)
        compare(g.grid("amplitude"), lambda v: np.percentile(v, p), f"percentile {p}")
    if data is None:
        g = e.grid_count((bx, by), center=True)
        compare(g.grid("count"), len, "count of centres")
    c.count("boxes", len(groups))
    c.nontrivial(lon, lat, p)


@CHECK.group("histograms", quick=150, thorough=2000)
def histograms(c):
    """bins_stat, hist and numba histogram partition the observations"""
    from py_eddy_tracker.generic import hist_numba

    rng = c.rng
    n = int(rng.integers(1, 200))
    e = gen.eddies(rng, n, sampling=5)
    var = str(rng.choice(["lon", "lat", "amplitude", "time", "radius_s"]))
    v = e[var].astype("f8")
    if rng.random() < 0.5:
        edges = np.unique(np.round(np.sort(rng.uniform(v.min() - 1, v.max() + 1, int(rng.integers(2, 20)))), 3))
    else:
        edges = np.linspace(v.min() - 0.5, v.max() + 0.5, int(rng.integers(2, 20)))
    if edges.size < 2 or np.isin(v, edges).any():
        return
    m = rng.random(n) < 0.6 if rng.random() < 0.5 else None
    s = np.ones(n, bool) if m is None else m
    if not s.any():
        return
    k = np.searchsorted(edges, v, side="right") - 1
    ok = (k >= 0) & (k < edges.size - 1) & s
    cnt = np.bincount(k[ok], minlength=edges.size - 1)
    x, y = e.bins_stat(var, bins=edges, mask=m)
    c.close(x, (edges[1:] + edges[:-1]) / 2, "centres of bins", rtol=1e-9)
    c.equal(y, cnt, f"count of {var} per bin", bins=edges)
    x, y = e.bins_stat(var, bins=edges, yname="radius_e", method="mean", mask=m)
    w = np.bincount(k[ok], weights=e.radius_e[ok].astype("f8"), minlength=edges.size - 1)
    with np.errstate(all="ignore"):
        c.close(y, w / cnt, "mean per bin", rtol=1e-5)
        x, y = e.bins_stat(var, bins=edges, yname="radius_e", method="std", mask=m)
        z = e.radius_e.astype("f8")
        w = [z[ok & (k == b)].std() if cnt[b] else np.nan for b in range(edges.size - 1)]
        c.close(y, w, "standard deviation per bin", rtol=1e-4, atol=1e-4 * (z.std() + 1e-3))
    # unit bins by default
    x, y = e.bins_stat(var, mask=m)
    sel = v[s]
    lo = sel.min()
    c.check(int(np.sum(y)) == sel.size, f"default bins hold {int(np.sum(y))} of {sel.size} observations", var=var)
    c.close(x[:1], [lo + 0.5], "first default bin")
    h, b = hist_numba(v, edges)
    c.equal(h, np.histogram(v, edges)[0], "hist_numba")
    c.count("values", int(ok.sum()))
    c.nontrivial(v, edges)


@CHECK.group("track_histograms", quick=80, thorough=1000)
def track_histograms(c):
    """GroupEddiesObservations.hist and box histograms by observation"""
    rng = c.rng
    e = gen.tracks(rng, int(rng.integers(1, 15)), max_len=15, sampling=5)
    var = str(rng.choice(["lon", "lat", "amplitude"]))
    x = e[var].astype("f8")
    edges = np.linspace(x.min() - 0.5, x.max() + 0.5, int(rng.integers(3, 12)))
    if np.isin(x, edges).any():
        return
    k = np.searchsorted(edges, x, side="right") - 1
    r = e.radius_e.astype("f8")
    nb = np.array([(k == i).sum() for i in range(edges.size - 1)])
    tot = np.array([r[k == i].sum() for i in range(edges.size - 1)])
    with np.errstate(all="ignore"):
        c.close(e.hist("radius_e", var, edges), tot, "sum per bin", rtol=1e-5)
        c.equal(e.hist("radius_e", var, edges, nb=True), nb, "count per bin")
        c.close(e.hist("radius_e", var, edges, mean=True), tot / nb, "mean per bin", rtol=1e-5)
        c.close(e.hist("radius_e", var, edges, percent=True), tot / tot.sum() * 100, "percentage per bin", rtol=1e-4)
        c.close(e.hist(r, x, edges), tot, "sum of an array per bin", rtol=1e-5)
    c.count("values", int(nb.sum()))
    c.nontrivial(x, edges)
