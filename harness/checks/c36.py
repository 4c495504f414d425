"""C36 spectra of grids"""
import numpy as np

from harness import gen
from harness.core import Check
from harness.ref import haversine

CHECK = Check("C36", "random fields (noise, waves of known length), masks with garbage below over some rows and columns, regional and circular grids, "
              "sub-areas on any branch of longitude, segment lengths, windows and scalings, ratio with a reference grid; each spectrum is compared with "
              "a Welch estimate made of plain sums; non trivial: new field and area",
              ["areas hold at least one row and one column without masked cell, and do not cross the border of the grid"])


def welch(z, fs, nperseg, scaling, window):
    """mean of the periodograms of half overlapping windowed segments"""
    n = min(nperseg or 256, len(z))
    k = np.arange(n)
    w = 0.5 - 0.5 * np.cos(2 * np.pi * k / n) if window == "hann" else np.ones(n)
    out, i = [], 0
    f = np.arange(n // 2 + 1)
    basis = np.exp(-2j * np.pi * f[:, None] * k[None] / n)
    while i + n <= len(z):
        s = z[i:i + n] - z[i:i + n].mean()
        p = np.abs(basis @ (s * w)) ** 2 / (fs * (w**2).sum() if scaling == "density" else w.sum() ** 2)
        p[1:(-1 if n % 2 == 0 else None)] *= 2
        out.append(p)
        i += n - n // 2
    return f * fs / n, np.mean(out, axis=0)


def spectrum(g, z, sx, sy, **kw):
    z = np.where(np.ma.getmaskarray(z), np.nan, np.ma.getdata(z).astype("f8"))
    dx, dy = float(g.x_c[1] - g.x_c[0]), float(g.y_c[1] - g.y_c[0])
    lats = []
    step = dy * haversine(0, 0, 0, 1) / 1e3
    for i in range(*sx):
        f, p = welch(z[i, slice(*sy)], 1 / step, **kw)
        if np.isfinite(p).all():  # no masked cell in the segments
            fy = f
            lats.append(p)
    lons, fs = [], []
    for j in range(*sy):
        f, p = welch(z[slice(*sx), j], 1 / (dx * haversine(0, float(g.y_c[j]), 1, float(g.y_c[j])) / 1e3), **kw)
        if np.isfinite(p).all():
            lons.append(p), fs.append(f)
    if not lats or not lons:
        return None
    fx = np.linspace(0, min(f[-1] for f in fs), len(fs[-1]))
    lon = np.mean([np.interp(fx, f, p) for f, p in zip(fs, lons)], axis=0)
    with np.errstate(divide="ignore"):
        return (1 / fx, lon), (1 / fy, np.mean(lats, axis=0)), len(lats), len(lons)


@CHECK.group("spectrum", quick=120, thorough=2500, min_nontrivial=60)
def spectra(c):
    """zonal and meridional spectra of an area, ratio with a reference"""
    rng = c.rng
    n = int(rng.integers(20, 90))
    g, circ = gen.grid(rng, mask=0, names=("z", "r"), nx=None if rng.random() < 0.5 else n, ny=int(rng.integers(14, 60)), ystep=float(rng.choice([0.25, 0.5])),
                       dtype=str(rng.choice(["f8", "f4"])))
    nx, ny = g.x_c.size, g.y_c.size
    dx, dy = g.x_c[1] - g.x_c[0], g.y_c[1] - g.y_c[0]
    if rng.random() < 0.6:  # land over some rows and columns
        m = np.zeros((nx, ny), bool)
        m[rng.integers(0, nx, int(rng.integers(1, 4))), rng.integers(0, ny, int(rng.integers(1, 4)))[0]] = True
        m[rng.integers(0, nx), rng.integers(0, ny)] = True
        for k in ("z", "r"):
            d = np.ma.getdata(g.vars[k]).copy()
            d[m] = rng.choice([1e6, -214748.3647, 3.0, np.nan])
            g.vars[k] = np.ma.array(d, mask=m)
    i, j = np.sort(rng.integers(0, nx, 2)), np.sort(rng.integers(0, ny, 2))
    if i[1] - i[0] < 8 or j[1] - j[0] < 8:
        i, j = (0, nx - 1), (0, ny - 1)
    turn = 360 * int(rng.integers(-1, 2))
    e = rng.uniform(-0.4, 0.4, 4) if i[0] else np.array([0.2, -0.2, 0.2, -0.2])
    x0, y0 = float(g.x_c[0]) - dx / 2, float(g.y_c[0]) - dy / 2
    area = dict(llcrnrlon=x0 + (i[0] + e[0]) * dx + turn, urcrnrlon=x0 + (i[1] + e[1]) * dx + turn, llcrnrlat=y0 + (j[0] + e[2]) * dy,
                urcrnrlat=y0 + (j[1] + e[3]) * dy)
    kw = dict(scaling=str(rng.choice(["density", "spectrum"])))
    if rng.random() < 0.5:
        kw["nperseg"] = int(rng.integers(6, 40))
    opt = dict(nperseg=kw.get("nperseg"), scaling=kw["scaling"], window="hann")
    if rng.random() < 0.3:
        kw["window"] = opt["window"] = "boxcar"
    if kw["scaling"] == "density" and rng.random() < 0.5:
        kw.pop("scaling")
    exp = spectrum(g, g.grid("z"), i, j, **opt)
    if exp is None:
        return c.count("no_valid_line")
    before = {k: np.ma.getdata(g.grid(k)).tobytes() for k in ("z", "r")}
    got = g.spectrum_lonlat("z", area=dict(area), **kw)
    for s, p, q in zip(("zonal", "meridional"), got, exp):
        c.close(p[0], q[0], f"{s} wavelengths (km)", rtol=1e-5, data=[area, kw])
        c.close(p[1], q[1], f"{s} power", rtol=2e-3, atol=1e-4 * np.max(q[1]), data=[area, kw])
    for k, v in before.items():
        c.check(np.ma.getdata(g.grid(k)).tobytes() == v, "the field is modified")
    # share of the energy of a reference
    other = spectrum(g, g.grid("r"), i, j, **opt)
    name = str(rng.choice(["z", "r"]))
    got2 = g.spectrum_lonlat("z", area=dict(area), ref=g, **(dict(ref_grid_name=name) if name == "r" or rng.random() < 0.5 else {}), **kw)
    for s, p, q, r in zip(("zonal", "meridional"), got2, exp, exp if name == "z" else other):
        c.close(p[0], q[0], f"{s} wavelengths of the ratio", rtol=1e-5)
        ok = (r[1] > 1e-3 * r[1].max()) & (q[1] > 1e-3 * q[1].max())
        c.close(p[1][ok], (q[1] / r[1])[ok], f"{s} ratio with {name}", rtol=1e-2, data=[area, kw])
    c.nontrivial(np.ma.getdata(g.grid("z")), i, j, kw, sample=dict(shape=[nx, ny], columns=exp[2], rows=exp[3], options=kw))
    c.count("columns", exp[2]), c.count("rows", exp[3])


@CHECK.group("wave", quick=40, thorough=600)
def wave(c):
    """a wave of known length and amplitude: place and height of the peak"""
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    rng = c.rng
    dx, dy = (float(v) for v in rng.choice([0.125, 0.25, 0.5], 2))
    nx, ny = (int(v) for v in rng.integers(40, 120, 2))
    x, y = np.round(rng.uniform(0, 300)) + dx * np.arange(nx), -dy * ny / 2 + dy * np.arange(ny)
    y = y + np.round(rng.uniform(-30, 30) * 8) / 8
    step = dy * haversine(0, 0, 0, 1) / 1e3
    k = int(rng.integers(3, ny // 3))  # periods in the area
    a = float(rng.uniform(0.1, 2))
    z = a * np.sin(2 * np.pi * (k * np.arange(ny) / ny + rng.random()))[None] * np.ones((nx, 1)) + 5
    g = RegularGridDataset.with_array(("lon", "lat"), dict(lon=x, lat=y, z=np.ma.array(z, mask=np.zeros(z.shape, bool))), centered=True)
    area = dict(llcrnrlon=x[0] - dx / 2 + dx * 0.1, urcrnrlon=x[-1] + dx / 2 - dx * 0.1, llcrnrlat=y[0] - dy / 2 + dy * 0.1, urcrnrlat=y[-1] + dy / 2 - dy * 0.1)
    (lx, px), (ly, py) = g.spectrum_lonlat("z", area=area, scaling="spectrum", nperseg=500)
    m = int(np.argmax(py))
    c.close(ly[m], ny * step / k, "length of the strongest wave (km)", rtol=1e-4)
    c.close(py[m], a**2 / 2, "power of the wave", rtol=1e-3)
    c.check(bool(np.max(px) < 1e-6 * a**2), "zonal power of a meridional wave")
    c.nontrivial(z)
