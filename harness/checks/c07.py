"""C07 grid interpolation"""
import numpy as np

from harness import gen
from harness.core import Check
from harness.ref import bilinear

CHECK = Check("C07", "random regular grids (circular or regional, masked with garbage under the mask), positions inside, "
              "on nodes, on the borders, outside and a whole turn away; non trivial: new grid and positions",
              ["positions closer than 1e-6 cell to the border of the valid domain or to the middle of two nodes are not judged"])


def positions(rng, g, n):
    x, y = g.x_c, g.y_c
    dx, dy = x[1] - x[0], y[1] - y[0]
    px = rng.uniform(x[0] - 2 * dx, x[-1] + 2 * dx, n)
    py = rng.uniform(y[0] - 2 * dy, y[-1] + 2 * dy, n)
    # on nodes
    k = rng.random(n) < 0.2
    px[k] = x[rng.integers(0, x.size, int(k.sum()))]
    py[k] = y[rng.integers(0, y.size, int(k.sum()))]
    # neighbours share a cell: the kernel keeps the corners of the previous position
    k = rng.integers(0, n - 1, n // 4)
    px[k + 1], py[k + 1] = px[k] + dx * rng.uniform(0, 0.2, k.size), py[k]
    return px, py


def frac_border(g, px, py):
    """distance in cells to the closest grid line"""
    fx, fy = (px - g.x_c[0]) / (g.x_c[1] - g.x_c[0]), (py - g.y_c[0]) / (g.y_c[1] - g.y_c[0])
    return np.abs(fx - np.round(fx)), np.abs(fy - np.round(fy)), fx, fy


@CHECK.group("bilinear", quick=200, thorough=4000)
def bilin(c):
    """bilinear interpolation against an exact formula; nan outside and next to masks; garbage under the mask without influence"""
    rng = c.rng
    g, circ = gen.grid(rng, mask=float(rng.choice([0, 0.1, 0.4])))
    px, py = positions(rng, g, 60)
    turn = 360.0 * int(rng.integers(-2, 3)) if circ else 0.0
    got = g.interp("z", px + turn, py)
    ex = bilinear(g.x_c, g.y_c, g.vars["z"], px, py, circ)
    ax, ay, fx, fy = frac_border(g, px, py)
    # rounding may move a position to the neighbouring cell: same value if both are valid
    node = (ax < 1e-6) | (ay < 1e-6)
    ok = ~node
    c.check(bool((np.isnan(got[ok]) == np.isnan(ex[ok])).all()), "valid and invalid positions are not the expected ones",
            px=px + turn, py=py, got=got, expected=ex, circular=circ)
    j = ~np.isnan(got) & ~np.isnan(ex)
    c.close(got[j], ex[j], "bilinear value", rtol=1e-6, atol=1e-9)
    # at nodes: whenever a value is given it is the one of the node, up to rounding of the weights
    c.check(bool((np.abs(got[~np.isnan(got)]) < 100).all()), "a masked value leaked", got=got)
    c.count("interpolated", j.sum()), c.count("invalid", int(np.isnan(got).sum())), c.count("turned", int(turn != 0))
    # positions one after the other: no state shared between positions
    k = rng.permutation(px.size)
    c.equal(g.interp("z", px[k] + turn, py[k]), got[k], "result depends on the order of the positions")
    c.nontrivial(px, py, g.vars["z"], sample=dict(shape=g.vars["z"].shape, circular=circ, turn=turn))


@CHECK.group("nodes", quick=60, thorough=600)
def nodes(c):
    """values of nodes are returned at nodes"""
    rng = c.rng
    g, circ = gen.grid(rng, mask=0)
    # powers of two steps: exact arithmetic
    nx, ny = g.x_c.size, g.y_c.size
    i, j = np.meshgrid(np.arange(nx if circ else nx - 1), np.arange(ny - 1), indexing="ij")
    got = g.interp("z", g.x_c[i].ravel(), g.y_c[j].ravel())
    c.close(got, g.vars["z"].data[i, j].ravel(), "value at a node", rtol=1e-6, atol=1e-6)
    near = g.interp("z", g.x_c[i].ravel(), g.y_c[j].ravel(), method="nearest")
    c.equal(near, g.vars["z"].data[i, j].ravel(), "nearest value at a node")
    # range
    px, py = positions(rng, g, 80)
    v = g.interp("z", px, py)
    _, _, fx, fy = frac_border(g, px, py)
    z = g.vars["z"].data
    for k in np.flatnonzero(~np.isnan(v)):
        a, b = int(np.floor(fx[k] + 1e-9)), int(np.floor(fy[k] + 1e-9))
        q = z[np.array([a - 1, a, a + 1, a + 2])[:, None] % nx if circ else np.clip([a - 1, a, a + 1], 0, nx - 1)[:, None],
              np.clip([b - 1, b, b + 1], 0, ny - 1)[None]]
        c.check(q.min() - 1e-9 <= v[k] <= q.max() + 1e-9, "outside the range of neighbours", px=px[k], py=py[k])
    c.nontrivial(g.vars["z"])


@CHECK.group("nearest", quick=150, thorough=2000)
def nearest(c):
    """nearest interpolation"""
    rng = c.rng
    g, circ = gen.grid(rng, mask=float(rng.choice([0, 0.1, 0.4])))
    px, py = positions(rng, g, 60)
    turn = 360.0 * int(rng.integers(-2, 3)) if circ else 0.0
    got = g.interp("z", px + turn, py, method="nearest")
    _, _, fx, fy = frac_border(g, px, py)
    tie = (np.abs(fx % 1 - 0.5) < 1e-6) | (np.abs(fy % 1 - 0.5) < 1e-6)
    i, j = np.round(fx).astype(int), np.round(fy).astype(int)
    nx, ny = g.vars["z"].shape
    if circ:
        i %= nx
    out = (i < 0) | (i >= nx) | (j < 0) | (j >= ny)
    ex = np.full(px.size, np.nan)
    ex[~out] = g.vars["z"].filled(np.nan)[i[~out], j[~out]]
    c.equal(got[~tie], ex[~tie], "nearest value", px=px, py=py, turn=turn, circular=circ)
    c.count("invalid", int(np.isnan(ex).sum()))
    c.nontrivial(px, py, g.vars["z"])


@CHECK.group("collection", quick=80, thorough=1000)
def collection(c):
    """GridCollection.interp in time and space"""
    from py_eddy_tracker.dataset.grid import GridCollection, RegularGridDataset

    rng = c.rng
    g0, circ = gen.grid(rng, mask=0.1)
    col = GridCollection()
    t0 = int(rng.integers(0, 30000))
    ds = [g0]
    for k in range(2):
        ds.append(RegularGridDataset.with_array(("lon", "lat"), dict(lon=g0.x_c, lat=g0.y_c, z=gen.field(rng, g0.x_c, g0.y_c)), centered=True))
    col.datasets = [(t0 + k, d) for k, d in enumerate(ds)]
    px, py = positions(rng, g0, 30)
    k = int(rng.integers(0, 2))
    w = float(rng.choice([0, 0.25, 0.5, rng.uniform(0, 1)]))
    for method in ("bilinear", "nearest"):
        got = col.interp("z", t0 + k + w, px, py, method=method)
        v0, v1 = (ds[k + q].interp("z", px, py, method=method) for q in (0, 1))
        w_ = (t0 + k + w) - (t0 + k)
        c.close(got, v0 * (1 - w_) + v1 * w_, "value in time", rtol=1e-9, atol=1e-9, w=w, method=method)
    c.raises(lambda: col.interp("z", t0 + 2.5, px, py), "no error after the last date", exc=KeyError)
    c.nontrivial(px, py, w)


@CHECK.group("regrid", quick=80, thorough=1000)
def regrid(c):
    """interpolation of a grid on another"""
    rng = c.rng
    src, circ = gen.grid(rng, mask=0.1)
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    n, m = int(rng.integers(5, 15)), int(rng.integers(5, 15))
    x = src.x_c[0] + np.arange(n) * rng.uniform(0.3, 1.5) * (src.x_c[1] - src.x_c[0]) - rng.uniform(0, 2)
    y = src.y_c[0] + np.arange(m) * rng.uniform(0.3, 1.5) * (src.y_c[1] - src.y_c[0]) - rng.uniform(0, 1)
    dst = RegularGridDataset.with_array(("lon", "lat"), dict(lon=x, lat=y, other=gen.field(rng, x, y)), centered=True)
    before = dst.vars["other"].copy()
    zs = src.vars["z"].copy()
    name = None if rng.random() < 0.5 else "new"
    dst.regrid(src, "z", name)
    got = dst.grid(name or "z")
    ex = bilinear(src.x_c, src.y_c, zs, *np.meshgrid(x, y, indexing="ij"), circ)
    fx, fy = (x - src.x_c[0]) / (src.x_c[1] - src.x_c[0]), (y - src.y_c[0]) / (src.y_c[1] - src.y_c[0])
    ok = ((np.abs(fx - np.round(fx)) > 1e-6)[:, None] & (np.abs(fy - np.round(fy)) > 1e-6)[None, :])
    c.check(got.shape == (n, m), f"shape {got.shape}")
    gm = np.ma.getmaskarray(got)
    c.equal(gm[ok], np.isnan(ex)[ok], "mask of the new grid")
    k = ~gm & ~np.isnan(ex)
    c.close(got.data[k], ex[k], "regridded value", rtol=1e-6, atol=1e-9)
    c.equal(dst.vars["other"].filled(0), before.filled(0), "another variable changed")
    c.equal(src.vars["z"].filled(0), zs.filled(0), "the source changed")
    c.nontrivial(x, y, zs)


@CHECK.group("observations", quick=60, thorough=600)
def observations(c):
    """interpolation at the centre of eddies"""
    rng = c.rng
    g, circ = gen.grid(rng, mask=0.1)
    n = 20
    e = gen.eddies(rng, n, lon=rng.uniform(g.x_c[0], g.x_c[-1], n), lat=rng.uniform(g.y_c[0], g.y_c[-1], n))
    i = None if rng.random() < 0.5 else np.sort(rng.permutation(n)[:7])
    sl = slice(None) if i is None else i
    for m in ("center", "nearest"):
        got = e.interp_grid(g, "z", i=i, method=m)
        ex = g.interp("z", e.lon[sl], e.lat[sl], method="nearest" if m == "nearest" else "bilinear")
        c.equal(got, ex, f"interp_grid {m}")
    ex = bilinear(g.x_c, g.y_c, g.vars["z"], e.lon[sl], e.lat[sl], circ)
    c.close(e.interp_grid(g, "z", i=i), ex, "centre value", rtol=1e-6, atol=1e-9)
    c.nontrivial(e.lon, g.vars["z"])
