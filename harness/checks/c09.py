"""C09 spatial filters"""
import numpy as np
from scipy.special import j1

from harness import gen
from harness.core import Check
from harness.ref import haversine

CHECK = Check("C09", "random fields, masks with garbage below, regional and circular grids, kernels (bessel, lanczos, loess), "
              "orders, wavelengths, latitude limits, extension ratios; non trivial: new field, mask and settings",
              ["cells where the sum of weights nearly cancels are compared with a tolerance scaled accordingly",
               "kernels do not wrap around the circle more than once"])


def weight(name, d, order):
    with np.errstate(all="ignore"):
        if name == "bessel":
            k = np.sinc(d / order) * np.where(d == 0, np.pi, j1(2 * np.pi * d) / d)
        elif name == "lanczos":
            k = np.sinc(d / order) * np.sinc(d)
        else:
            k = (1 - d ** 3) ** 3
    k[d > order] = 0
    return k


def kernel(g, name, lat, wl, order):
    """offsets and weights (2D) of the neighbourhood of a cell"""
    dx, dy = g.x_c[1] - g.x_c[0], g.y_c[1] - g.y_c[0]
    sx, sy = haversine(0, lat, 1, lat) / 1e3 * dx, haversine(0, 0, 0, 1) / 1e3 * dy
    hx, hy = int(np.ceil(wl / sx)) * order, int(np.ceil(wl / sy)) * order
    a, b = np.arange(-hx, hx + 1), np.arange(-hy, hy + 1)
    d = haversine(0, lat, a[:, None] * dx, lat + b[None] * dy) / 1e3 / wl
    return a, b, weight(name, d, order)


def filtered(g, circ, z, name, wl, order, lat_max, extend):
    """reference: value, mask, conditioning"""
    d, m = np.ma.getdata(z).astype("f8"), np.ma.getmaskarray(z)
    nx, ny = d.shape
    v0 = np.where(m, 0, d)
    val, msk, cond = np.zeros(d.shape), np.ones(d.shape, bool), np.ones(d.shape)
    amb = np.zeros(d.shape, bool)
    for j, lat in enumerate(g.y_c):
        if abs(lat) > lat_max or m[:, j].all():
            continue
        a, b, k = kernel(g, name, lat, wl, order)
        vs, ks = np.zeros(nx), np.zeros(nx)
        for q, db in enumerate(b):
            jj = j + db
            if not 0 <= jj < ny:
                continue
            for p, da in enumerate(a):
                w = k[p, q]
                if w == 0:
                    continue
                i = np.arange(nx) + da
                if circ:
                    ii, ok = i % nx, np.ones(nx, bool)
                else:
                    ok = (i >= 0) & (i < nx)
                    ii = np.clip(i, 0, nx - 1)
                ok = ok & ~m[ii, jj]
                vs += np.where(ok, w * v0[ii, jj], 0)
                ks += w * ok
        with np.errstate(all="ignore"):
            val[:, j] = vs / ks
        cond[:, j] = np.abs(k).sum() / np.maximum(np.abs(ks), 1e-30)
        if extend:
            msk[:, j] = ks < extend * k.sum()
            amb[:, j] = np.abs(ks - extend * k.sum()) < 1e-6 * np.abs(k).sum()
        else:
            msk[:, j] = m[:, j]
    return val, msk, cond, amb


def settings(rng, g, lat_max=85):
    dx, dy = g.x_c[1] - g.x_c[0], g.y_c[1] - g.y_c[0]
    sx = max(haversine(0, lat, 1, lat) / 1e3 * dx for lat in g.y_c if abs(lat) <= lat_max)
    mini = 2 * max(sx, haversine(0, 0, 0, 1) / 1e3 * dy)
    order = int(rng.choice([1, 1, 1, 2]))
    return mini * rng.uniform(1.02, 1.8), order


def usable(g, circ, wl, order, lat_max):
    if not circ:
        return True
    dx = g.x_c[1] - g.x_c[0]
    lat = max([abs(v) for v in g.y_c if abs(v) <= lat_max], default=None)
    return lat is None or np.ceil(wl / (haversine(0, lat, 1, lat) / 1e3 * dx)) * order < g.x_c.size / 2


def make(rng, **kw):
    while True:
        # shape of the kernel is the same for many lines of a fine grid
        fine = float(rng.choice([1 / 12, 1 / 24, 1 / 60])) if rng.random() < 0.25 else None
        if fine:
            kw.update(xstep=fine, ystep=fine * float(rng.choice([1, 0.5])), circular=False)
        g, circ = gen.grid(rng, mask=kw.pop("mask", float(rng.choice([0, 0.1, 0.5]))), nx=int(rng.integers(6, 16)), ny=int(rng.integers(5, 12)),
                           lat_range=(-70, 70), **kw)
        if circ and g.x_c.size > 36:
            continue
        # cells are not too anisotropic, for the size of kernels
        lat_max = 85.0 if rng.random() < 0.6 else float(np.abs(g.y_c).max() - rng.uniform(0, 3))
        if not (np.abs(g.y_c) <= lat_max).any():
            continue
        wl, order = settings(rng, g, lat_max)
        if usable(g, circ, wl, order, lat_max):
            return g, circ, wl, order, lat_max


def compare(c, got, ex, what, z, lat_max=None):
    val, msk, cond, amb = ex
    m = np.ma.getmaskarray(got)
    c.equal(m[~amb], msk[~amb], f"{what}: mask")
    s = ~m & ~msk & ~amb
    sc = np.abs(np.ma.getdata(z)[~np.ma.getmaskarray(z)]).max(initial=1e-300)
    e = np.abs(np.ma.getdata(got)[s] - val[s]) / (sc * np.maximum(cond[s], 1))
    c.check(not (e > 1e-9).any() and not np.isnan(e).any(), f"{what}: relative error {e.max(initial=0):.3g}")
    c.count("cells_compared", int(s.sum()))


@CHECK.group("mean", quick=70, thorough=1200, jobs=3)
def mean(c):
    """filtered field equals the weighted mean of unmasked cells under the kernel"""
    rng = c.rng
    g, circ, wl, order, lat_max = make(rng)
    name = str(rng.choice(["bessel", "bessel", "lanczos", "loess"]))
    extend = False if rng.random() < 0.6 else float(rng.choice([0.1, 0.3, 0.6]))
    z = g.vars["z"].copy()
    got = g.convolve_filter_with_dynamic_kernel("z", getattr(g, "kernel_" + name), lat_max=lat_max, extend=extend, wave_length=wl, order=order)
    c.equal(g.vars["z"].filled(0), z.filled(0), "input changed")
    compare(c, got, filtered(g, circ, z, name, wl, order, lat_max, extend), f"{name} order {order} extend {extend}", z)
    c.count(name), c.count("circular", int(circ)), c.count("extended", int(bool(extend)))
    c.nontrivial(z, wl, order, name, extend, sample=dict(shape=z.shape, kernel=name, order=order, extend=extend, circular=circ))
    # the same given as an array
    got2 = g.convolve_filter_with_dynamic_kernel(z, getattr(g, "kernel_" + name), lat_max=lat_max, extend=extend, wave_length=wl, order=order)
    c.equal(got2.filled(0), got.filled(0), "array or name of grid")


@CHECK.group("split", quick=60, thorough=1000, jobs=2)
def split(c):
    """high + low = input and the methods of the class"""
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    rng = c.rng
    g, circ, wl, order, lat_max = make(rng)
    z = g.vars["z"].copy()
    other = gen.field(rng, g.x_c, g.y_c)

    def fresh():
        return RegularGridDataset.with_array(("lon", "lat"), dict(lon=g.x_c, lat=g.y_c, z=z.copy(), other=other.copy()), centered=True)

    m = np.ma.getmaskarray(z)
    sc = np.abs(z.data[~m]).max(initial=1e-300)
    for kind in ("bessel", "lanczos", "generic"):
        kw = dict(wave_length=wl, order=order, lat_max=lat_max)
        lo, hi = fresh(), fresh()
        if kind == "generic":
            kw = dict(w_cut=wl, order=order, lat_max=lat_max)
            lo.low_filter("z", **kw), hi.high_filter("z", **kw)
        else:
            getattr(lo, kind + "_low_filter")("z", **kw), getattr(hi, kind + "_high_filter")("z", **kw)
        name = "bessel" if kind == "generic" else kind
        ex = filtered(g, circ, z, name, wl, order, lat_max, False)
        compare(c, lo.grid("z"), ex, f"{kind} low", z)
        a, b = lo.grid("z"), hi.grid("z")
        ma_, mb = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
        c.equal(ma_, mb, "cells kept by low and high filters")
        c.equal(mb, ex[1], "mask of the high filter")
        s = ~mb
        c.close((a.data + b.data)[s] / np.maximum(sc, np.abs(a.data[s])), z.data[s] / np.maximum(sc, np.abs(a.data[s])), f"{kind}: low + high is not the input", rtol=1e-9, atol=1e-9)
        for q in (lo, hi):
            c.equal(q.grid("other").filled(0), other.filled(0), "another field changed")
            c.equal(np.ma.getmaskarray(q.grid("other")), np.ma.getmaskarray(other), "mask of another field changed")
    # band
    wl2 = wl * 1.3
    if usable(g, circ, wl2, order, 85) and (np.abs(g.y_c) <= 85).all() and settings_ok(g, wl):
        q = fresh()
        q.bessel_band_filter("z", wl, wl2, order=order)
        l1 = filtered(g, circ, z, "bessel", wl, order, 85, False)
        z1 = np.ma.array(l1[0], mask=l1[1])
        l2 = filtered(g, circ, z1, "bessel", wl2, order, 85, False)
        got = q.grid("z")
        c.equal(np.ma.getmaskarray(got), m, "mask of the band filter")
        s = ~m & (l1[2] < 1e3) & (l2[2] < 1e3)
        if l1[2][~m].max(initial=0) < 1e3:
            c.close(got.data[s] / sc, (l1[0] - l2[0])[s] / sc, "band filter", rtol=1e-6, atol=1e-6)
            c.count("band")
    c.nontrivial(z, wl, order)


def settings_ok(g, wl):
    dx = g.x_c[1] - g.x_c[0]
    return wl > 2 * max(haversine(0, lat, 1, lat) / 1e3 * dx for lat in g.y_c) * 1.001


@CHECK.group("laws", quick=60, thorough=1000, jobs=2)
def laws(c):
    """constants, linearity, garbage under the mask, zonal shifts, too short wavelengths"""
    rng = c.rng
    g, circ, wl, order, lat_max = make(rng)
    z = g.vars["z"].copy()
    m = np.ma.getmaskarray(z)
    extend = False if rng.random() < 0.5 else 0.2
    kw = dict(lat_max=lat_max, extend=extend, wave_length=wl, order=order)

    def f(a):
        return g.convolve_filter_with_dynamic_kernel(a, g.kernel_bessel, **kw)

    ref = f(z)
    val, msk, cond, amb = filtered(g, circ, z, "bessel", wl, order, lat_max, extend)
    mr = np.ma.getmaskarray(ref)
    s = ~mr & ~amb & (cond < 1e3)
    k = f(np.ma.array(np.full(z.shape, 3.5), mask=m))
    c.close(k.data[s], np.full(int(s.sum()), 3.5), "a constant is changed", rtol=1e-7)
    z2 = np.ma.array(rng.normal(size=z.shape), mask=m)
    sc = np.abs(z.data[~m]).max(initial=1e-300) + 5
    mix = f(np.ma.array(np.where(m, 0, 2 * z.data - 3 * z2.data), mask=m))
    c.close(mix.data[s] / sc, (2 * ref.data - 3 * f(z2).data)[s] / sc, "not linear", rtol=1e-6, atol=1e-6)
    z3 = z.copy()
    z3.data[m] = rng.choice([0, 1e10, np.nan], int(m.sum()))
    g3 = f(z3)
    c.equal(np.ma.getmaskarray(g3), mr, "mask depends on values under the mask")
    c.equal(g3.data[s], ref.data[s], "values under the mask are used")
    if circ:
        r = int(rng.integers(1, z.shape[0]))
        zs = f(np.ma.array(np.roll(z.data, r, 0), mask=np.roll(m, r, 0)))
        ss = np.roll(s, r, 0)
        c.close(zs.data[ss] / sc, np.roll(ref.data, r, 0)[ss] / sc, "zonal shift", rtol=1e-7, atol=1e-7)
        c.count("shifted")
    short = 2 * haversine(0, 0, 0, 1) / 1e3 * (g.y_c[1] - g.y_c[0]) * 0.98
    if not m.all():
        c.raises(lambda: g.convolve_filter_with_dynamic_kernel("z", g.kernel_bessel, lat_max=lat_max, wave_length=short)
                 if (~m[:, np.abs(g.y_c) <= lat_max]).any() else 1 / 0, "a wavelength too short for the grid is accepted")
    c.nontrivial(z, wl, order, extend)


@CHECK.group("unregular", quick=30, thorough=600)
def unregular(c):
    """filters of an unregular grid: means on a regular mesh, filtered and put back on each cell; low + high = input, masks are kept, constants too"""
    import os

    from netCDF4 import Dataset

    from py_eddy_tracker.dataset.grid import RegularGridDataset, UnRegularGridDataset

    rng = c.rng
    nx, ny = (int(v) for v in rng.integers(18, 36, 2))
    x0, y0, dx, dy = rng.uniform(-170, 150), float(rng.choice([rng.uniform(-60, 40), rng.uniform(66, 71)])), rng.uniform(0.3, 0.8), rng.uniform(0.3, 0.6)
    i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing="ij")
    a = rng.uniform(-0.3, 0.3)
    x = x0 + dx * (i + a * j + rng.uniform(-0.2, 0.2, i.shape))
    y = y0 + dy * (j - a * i * 0.4 + rng.uniform(-0.2, 0.2, i.shape))
    z = rng.uniform(-1, 1) + 0.5 * np.sin(i / 3 + j / 5) + rng.normal(0, 0.1, i.shape)
    m = rng.random(z.shape) < rng.choice([0, 0, 0.05, 0.3])
    if rng.random() < 0.5:
        p = rng.integers(0, 12, 2)
        m[p[0]:p[0] + 6, p[1]:p[1] + 6] = True
    f = os.path.join(c.tmp, "u.nc")
    with Dataset(f, "w") as h:
        h.createDimension("i", nx), h.createDimension("j", ny)
        for n, v in (("lon", x), ("lat", y), ("z", np.ma.array(z, mask=m)), ("one", np.ma.array(z * 0 + 3.25, mask=m))):
            h.createVariable(n, "f8", ("i", "j"), fill_value=-1e9)[:] = v
    wl = float(rng.uniform(120, 400))
    kw = {} if rng.random() < 0.5 else dict(factor=float(rng.choice([3, 4, 6])))
    low, high = UnRegularGridDataset(f, "lon", "lat", centered=True), UnRegularGridDataset(f, "lon", "lat", centered=True)
    low.low_filter("z", wl, **kw), high.high_filter("z", wl, **kw)
    lo, hi = low.grid("z"), high.grid("z")
    c.equal(np.ma.getmaskarray(lo), np.ma.getmaskarray(hi), "masks of low and high")
    ok = ~np.ma.getmaskarray(lo)
    c.check(not (ok & m).any(), "a masked cell got a value")
    c.close(lo.data[ok] + hi.data[ok], z[ok], "low + high", rtol=1e-9, atol=1e-9)
    # reference: mean of each mesh, filter of the regular mesh, linear interpolation
    step = wl / 111.0 / kw.get("factor", 8.0)
    bx, by = np.arange(x.min(), x.max() + step, step), np.arange(y.min(), min(y.max() + step, 89), step)
    s, k = np.zeros((len(bx) - 1, len(by) - 1)), np.zeros((len(bx) - 1, len(by) - 1))
    for u, v, w in zip(x[~m], y[~m], z[~m]):
        p, q = np.searchsorted(bx, u, "right") - 1, np.searchsorted(by, v, "right") - 1
        if 0 <= p < s.shape[0] and 0 <= q < s.shape[1]:
            s[p, q] += w
            k[p, q] += 1
    g = RegularGridDataset.with_array(("lon", "lat"), dict(lon=bx[:-1], lat=by[:-1], z=np.ma.array(s / np.maximum(k, 1), mask=k == 0)), centered=False)
    g.bessel_low_filter("z", wl, order=1)
    r = g.grid("z")
    rm = np.ma.getmaskarray(r)
    rd = np.where(rm, 0, r.data)
    cx, cy = (bx[1:] + bx[:-1]) / 2, (by[1:] + by[:-1]) / 2
    p, q = np.clip(np.searchsorted(cx, x) - 1, 0, len(cx) - 2), np.clip(np.searchsorted(cy, y) - 1, 0, len(cy) - 2)
    tx, ty = np.clip((x - cx[p]) / (cx[p + 1] - cx[p]), 0, 1), np.clip((y - cy[q]) / (cy[q + 1] - cy[q]), 0, 1)

    def bilinear(a):
        return a[p, q] * (1 - tx) * (1 - ty) + a[p + 1, q] * tx * (1 - ty) + a[p, q + 1] * (1 - tx) * ty + a[p + 1, q + 1] * tx * ty

    em = bilinear(rm.astype("f8"))
    sure = np.abs(em - 1e-5) > 1e-7
    c.equal(~ok[sure], (m | (em > 1e-5))[sure], "mask of the filtered field")
    s = ok & sure
    c.close(lo.data[s], bilinear(rd)[s], "filtered field", rtol=1e-7, atol=1e-9)
    one = UnRegularGridDataset(f, "lon", "lat", centered=True)
    one.low_filter("one", wl, **kw)
    o = one.grid("one")
    v = o.data[~np.ma.getmaskarray(o)]
    c.close(v, np.full(v.shape, 3.25), "constant field", rtol=1e-4)
    c.count("unregular_cells", int(s.sum()))
    if s.sum() > 20:
        c.nontrivial(z, m, wl)
