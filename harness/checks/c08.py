"""C08 derivatives and geostrophic velocities"""
import numpy as np

from harness import gen
from harness.core import Check

CHECK = Check("C08", "random height fields, masks with garbage below, regional and circular grids, stencil half widths 1-4; "
              "non trivial: new field, mask and width",
              ["the equator and poles (division by zero) are not judged", "grids have at least 2 cells on each axis, 4 around the earth"])
A = 6370997.0
COEF = {1: [1 / 2], 2: [8 / 12, -1 / 12], 3: [45 / 60, -9 / 60, 1 / 60], 4: [672 / 840, -168 / 840, 32 / 840, -3 / 840]}


def derive(z, m, width, wrap, step):
    """reference on axis 0, per index unit: value, mask, width used (0: one sided)"""
    n = z.shape[0]
    val, mask, used = np.full(z.shape, np.nan), np.ones(z.shape, bool), np.zeros(z.shape, int)

    def get(i, j):
        if wrap:
            i %= n
        if i < 0 or i >= n or m[i, j]:
            return None
        return z[i, j]

    for i, j in np.ndindex(z.shape):
        if m[i, j]:
            continue
        nb = [(get(i + k, j), get(i - k, j)) for k in range(1, 5)]
        a, b = nb[0]
        if a is None and b is None:
            continue
        mask[i, j] = False
        if a is None or b is None:
            val[i, j] = (a - z[i, j]) if b is None else (z[i, j] - b)
            continue
        w = 1
        while w < width and nb[w][0] is not None and nb[w][1] is not None:
            w += 1
        used[i, j] = w
        val[i, j] = sum(c * (nb[k][0] - nb[k][1]) for k, c in enumerate(COEF[w]))
    return val / step, mask, used


def lengths(g, vertical):
    """metres per cell, broadcast on the grid"""
    d = np.pi * A / 180
    if vertical:
        return np.full(g.vars["z"].shape, (g.y_c[1] - g.y_c[0]) * d)
    return (g.x_c[1] - g.x_c[0]) * d * np.cos(np.radians(g.y_c))[None] * np.ones((g.x_c.size, 1))


def make(rng, smooth=False, **kw):
    m = kw.pop("mask", None)
    return gen.grid(rng, mask=float(rng.choice([0, 0.05, 0.3, 0.6])) if m is None else m, smooth=smooth,
                    lat_range=kw.pop("lat_range", (-80, 80)), **kw)


@CHECK.group("stencil", quick=150, thorough=3000, jobs=2)
def stencil(c):
    """compute_stencil against direct finite differences, one sided at borders and masks"""
    rng = c.rng
    dtype = "f8" if rng.random() < 0.7 else "f4"
    small = dict(circular=False, **{k: int(rng.integers(2, 5)) for k in ("nx", "ny") if rng.random() < 0.7}) if rng.random() < 0.2 else {}
    g, circ = make(rng, dtype=dtype, **small)
    z = g.vars["z"]
    width = int(rng.integers(1, 5))
    for vertical in (False, True):
        got = g.compute_stencil(z, stencil_halfwidth=width, vertical=vertical)
        c.check(got.shape == z.shape and got.dtype == z.dtype, "shape or type changed")
        d, m = np.ma.getdata(z).astype("f8"), np.ma.getmaskarray(z)
        if vertical:
            ex, em, used = (q.T for q in derive(d.T, m.T, width, False, 1.0))
        else:
            ex, em, used = derive(d, m, width, circ, 1.0)
        ex = ex / lengths(g, vertical)
        c.equal(np.ma.getmaskarray(got), em, "mask of the derivative", vertical=vertical, width=width, circular=circ)
        tol = 1e-9 if dtype == "f8" else 2e-5
        scale = np.abs(ex[~em]).max() if (~em).any() else 1
        c.close(got.data[~em] / scale, ex[~em] / scale, "derivative", rtol=tol, atol=tol * 1e-1, vertical=vertical, width=width)
        for k in range(5):
            c.count(f"width_{k}", int(((used == k) & ~em).sum()))
        # garbage under the mask is never used
        z2 = z.copy()
        z2.data[m] = rng.normal(size=int(m.sum())) * 1e3
        if m.any():
            g2 = g.compute_stencil(z2, stencil_halfwidth=width, vertical=vertical)
            c.equal(g2.data[~em], got.data[~em], "values under the mask are used")
    c.nontrivial(np.ma.getdata(z), m, width, sample=dict(shape=z.shape, width=width, circular=circ))


@CHECK.group("polynomial", quick=60, thorough=1000)
def polynomial(c):
    """exactness for polynomials of the stencil's degree (2 * width) away from borders, degree 1 next to them"""
    rng = c.rng
    g, circ = make(rng, circular=False, mask=0, ny=int(rng.integers(9, 20)), nx=int(rng.integers(9, 20)))
    width = int(rng.integers(1, 5))
    for vertical in (False, True):
        ax = g.y_c if vertical else g.x_c
        t = (ax - ax.mean()) / np.ptp(ax) * 2
        p = np.polynomial.Polynomial(rng.normal(size=2 * width + 1))
        v, dv = p(t), p.deriv()(t) * 2 / np.ptp(ax)
        z = np.ma.array(np.broadcast_to(v if vertical else v[:, None], g.vars["z"].shape).copy(), mask=False)
        z = np.ma.array(z.data, mask=np.zeros(z.shape, bool))
        got = g.compute_stencil(z, stencil_halfwidth=width, vertical=vertical)
        step = ax[1] - ax[0]
        ex = np.broadcast_to(dv if vertical else dv[:, None], z.shape) * step / lengths(g, vertical)
        s = (slice(None), slice(width, -width)) if vertical else (slice(width, -width), slice(None))
        c.close(got.data[s] * lengths(g, vertical)[s], ex[s] * lengths(g, vertical)[s], "derivative of a polynomial", rtol=1e-7, atol=1e-8,
                width=width, vertical=vertical)
        # straight line: exact everywhere
        a, b = rng.normal(size=2)
        z = np.ma.array(np.broadcast_to(a + b * ax if vertical else (a + b * ax)[:, None], z.shape).copy(), mask=np.zeros(z.shape, bool))
        got = g.compute_stencil(z, stencil_halfwidth=width, vertical=vertical)
        c.close(got.data * lengths(g, vertical), np.full(z.shape, b * step), "derivative of a line", rtol=1e-6, atol=1e-9, width=width,
                vertical=vertical)
        c.check(not np.ma.getmaskarray(got).any(), "masked cells in a full field")
    c.nontrivial(g.x_c, g.y_c, width)


@CHECK.group("velocities", quick=120, thorough=2000)
def velocities(c):
    """u, v from height: geostrophic formula, masks are exactly the cells the stencil can't reach"""
    rng = c.rng
    unit = str(rng.choice(["m", "cm"]))
    g, circ = make(rng, smooth=True, units=unit)
    z = g.vars["z"].copy()
    width = int(rng.integers(1, 5))
    un, vn = ("u", "v") if rng.random() < 0.5 else ("ugos", "vgos")
    g.add_uv("z", un, vn, stencil_halfwidth=width)
    c.equal(g.vars["z"].filled(0), z.filled(0), "height changed")
    c.equal(np.ma.getmaskarray(g.vars["z"]), np.ma.getmaskarray(z), "mask of height changed")
    for k in (un, vn):
        c.check(g.units(k) == unit + "/s", f"units {g.units(k)!r} of {k}, height in {unit!r}")
    c.check(g.units("z") == unit, "units of the height changed")
    f = 4 * np.pi / 86164.1 * np.sin(np.radians(g.y_c))
    gof = 9.807 / f
    d, m = np.ma.getdata(z), np.ma.getmaskarray(z)
    dy, my, _ = (q.T for q in derive(d.T, m.T, width, False, 1.0))
    dx, mx, _ = derive(d, m, width, circ, 1.0)
    eu, ev = -gof[None] * dy / lengths(g, True), gof[None] * dx / lengths(g, False)
    okl = np.broadcast_to(np.abs(g.y_c) > 1e-3, d.shape)
    for k, ex, em in ((un, eu, my), (vn, ev, mx)):
        got = g.grid(k)
        gm = np.ma.getmaskarray(got)
        c.equal(gm[okl], em[okl], f"mask of {k}")
        s = okl & ~em
        c.close(got.data[s], ex[s], f"velocity {k}", rtol=1e-7, atol=1e-9 * (np.abs(ex[s]).max() if s.any() else 1))
    c.nontrivial(d, m, width)


@CHECK.group("shift", quick=60, thorough=800)
def shift(c):
    """turning the field around the axis turns the velocities"""
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    rng = c.rng
    g, circ = make(rng, circular=True)
    k = int(rng.integers(1, g.x_c.size))
    # the same numbers, rolled, seen by the same longitudes
    g2 = RegularGridDataset.with_array(("lon", "lat"), dict(lon=g.x_c, lat=g.y_c, z=np.ma.array(
        np.roll(g.vars["z"].data, k, 0), mask=np.roll(g.vars["z"].mask, k, 0))), centered=True)
    for q in (g, g2):
        q.add_uv("z", "u", "v")
    for n in ("u", "v"):
        a, b = g.grid(n), g2.grid(n)
        ma_, mb = np.roll(np.ma.getmaskarray(a), k, 0), np.ma.getmaskarray(b)
        ok = np.broadcast_to(np.abs(g.y_c) > 1e-3, a.shape)
        c.equal(mb[ok], ma_[ok], f"mask of {n} after a shift")
        s = ok & ~mb
        c.close(b.data[s], np.roll(a.data, k, 0)[s], f"{n} after a shift", rtol=1e-9)
    # adding a constant, linearity
    g3 = RegularGridDataset.with_array(("lon", "lat"), dict(lon=g.x_c, lat=g.y_c, z=g.vars["z"] * 3 + 7), centered=True)
    g3.add_uv("z", "u", "v")
    s = np.broadcast_to(np.abs(g.y_c) > 1e-3, a.shape) & ~np.ma.getmaskarray(g.grid("u"))
    sc = np.abs(g.grid("u").data[s]).max() if s.any() else 1
    c.close(g3.grid("u").data[s] / sc, g.grid("u").data[s] * 3 / sc, "u is not linear in the height", rtol=1e-7, atol=1e-7)
    c.nontrivial(g.vars["z"], k)


@CHECK.group("finite_difference", quick=60, thorough=800)
def finite_difference(c):
    """compute_finite_difference on both axes"""
    rng = c.rng
    g, circ = make(rng, mask=0)
    z = g.vars["z"].data
    n = min(z.shape)
    schema = int(rng.integers(1, max(2, n // 2 - 1)))
    for vertical in (False, True):
        wrap = circ and not vertical
        got = g.compute_finite_difference(z, schema=schema, mode="wrap" if wrap else "reflect", vertical=vertical)
        w = z.T if vertical else z
        ex = np.full(w.shape, np.nan)
        if wrap:
            ex = np.roll(w, -schema, 0) - np.roll(w, schema, 0)
        else:
            ex[schema:-schema] = w[2 * schema:] - w[:-2 * schema]
        ex = (ex.T if vertical else ex) / (2 * schema) / lengths(g, vertical)
        c.close(got, ex, "finite difference", rtol=1e-7, atol=0, schema=schema, vertical=vertical)
    c.nontrivial(z, schema)
