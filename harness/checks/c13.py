"""C13 eddies do not share cells, clear eddies are found"""
import os

import numpy as np

from harness import ident
from harness.core import Check
from harness.ref import haversine, wrap180

CHECK = Check("C13", "separated Gaussian eddies of both signs, any place (seam of circular grids included), size, amplitude and grid; "
              "random oceans for the sharing of cells; non trivial: new set of eddies",
              ["eddies at least 3 cells of e-folding radius and 5 isoline steps of amplitude, separated by 3.3 L1 + 4.5 L2"])


def bumps(rng, x, y, circular, n):
    """list of (lon, lat, L in m, amplitude in steps)"""
    dx, dy = x[1] - x[0], y[1] - y[0]
    out = []
    for _ in range(400):
        if len(out) >= n:
            break
        lat = rng.uniform(y[0], y[-1])
        cell = max(dx, dy) * 111e3
        L = cell * rng.uniform(3, 4.5)
        lon = rng.uniform(x[0], x[0] + 360) if circular else rng.uniform(x[0], x[-1])
        if circular and rng.random() < 0.4:
            lon = x[0] + rng.uniform(-3, 3) * dx
        m = 3.6 * L / 111e3
        if abs(lat) + m > 72:
            continue
        if lat - m < y[0] or lat + m > y[-1]:
            continue
        mx = m / np.cos(np.radians(abs(lat) + m))
        if not circular and (lon - mx < x[0] or lon + mx > x[-1]):
            continue
        if circular and mx > 75:
            continue
        if all(haversine(lon, lat, b[0], b[1]) > max(3.3 * L + 4.5 * b[2], 4.5 * L + 3.3 * b[2]) for b in out):
            out.append((lon, lat, L, rng.uniform(5, 25) * rng.choice([-1, 1])))
    return out


def world(rng):
    circular = bool(rng.random() < 0.6)
    if circular:
        st = float(rng.choice([1.0, 1.5, 2.0]))
        x = float(rng.choice([0.0, -180.0, 20.25])) + st * np.arange(int(360 / st))
        y = -66 + st * np.arange(int(132 / st))
    else:
        st = float(rng.choice([0.25, 0.5]))
        x = float(rng.choice([0.0, 345.0, -190.0, 100.0])) + st * np.arange(int(rng.integers(60, 110)))
        y = float(rng.uniform(-55, 55 - 80 * st)) + st * np.arange(int(rng.integers(60, 80)))
    step = 2.0 ** -7 if rng.random() < 0.3 else float(rng.choice([0.005, 0.01, 0.002]))
    bg = (int(rng.integers(-50, 50)) + rng.uniform(0.25, 0.75)) * step
    b = bumps(rng, x, y, circular, int(rng.integers(1, 9)))
    return circular, x, y, step, bg, b


def fields(X, Y, bg, step, b):
    h, sp = np.zeros(X.shape) + bg, np.full(X.shape, 1e-3)
    for lon, lat, L, a in b:
        r = haversine(lon, lat, X, Y)
        h += a * step * np.exp(-r**2 / 2 / L**2)
        sp = np.maximum(sp, r / L * np.exp(0.5 - r**2 / 2 / L**2) * 0.02 * abs(a))
    return h, sp


def judge(c, got, b, step, bg, cell_km, sign):
    b = [q for q in b if np.sign(q[3]) == sign]
    c.check(len(got) == len(b), f"{len(got)} eddies of sign {sign} for {len(b)} true ones", bumps=b, lon=got.lon, lat=got.lat)
    k = np.floor(bg / step)
    lev = (k + 1) * step if sign == 1 else k * step
    off = sign * (lev - bg)
    for lon, lat, L, a in b:
        d = haversine(lon, lat, got.lon, got.lat)
        i = int(np.argmin(d))
        cell = cell_km * 1e3
        c.check(d[i] < cell, f"centre at {d[i] / 1e3} km from the true one", true=(lon, lat), cell=cell)
        c.check(haversine(lon, lat, got.lon_max[i], got.lat_max[i]) < 1.5 * cell, "position of the extremum")
        c.check(abs(got.height_external_contour[i] - lev) < 1e-5 + 1e-4 * step,
                f"outermost level {got.height_external_contour[i]} instead of {lev}", bumps=b)
        A = abs(a) * step
        loss = 1 - np.exp(-(0.75 * cell) ** 2 / 2 / L**2)
        c.check(A - off - A * loss - 1e-4 <= got.amplitude[i] <= A - off + 1e-4 + 1e-3 * A,
                f"amplitude {got.amplitude[i]} instead of {A - off}")
        r = L * np.sqrt(2 * np.log(A / off))
        c.check(abs(got.radius_e[i] - r) < 0.35 * cell + 0.02 * r, f"effective radius {got.radius_e[i]} instead of {r}")
        c.check(abs(got.effective_area[i] - np.pi * r**2) < 0.12 * np.pi * r**2, "effective area")
        c.check(got.shape_error_e[i] < 12, f"shape error {got.shape_error_e[i]} of a round eddy")
        # speed: best isoline of the profile
        hs = off + step * np.arange(int((A * (1 - loss) - off) / step + 1))
        rk = L * np.sqrt(2 * np.log(A / hs[hs < A]))
        V = 0.02 * abs(a)
        s = rk / L * np.exp(0.5 - rk**2 / 2 / L**2) * V
        s = s[rk > 1.6 * cell]
        c.check(got.speed_average[i] < 1.02 * V and got.speed_average[i] > 0.9 * s.max(), f"speed {got.speed_average[i]} instead of {s.max()}")
        q = got.radius_s[i] / L
        c.check(q * np.exp(0.5 - q * q / 2) > 0.85 * s.max() / V, f"speed radius {got.radius_s[i]} for {L}")
        c.count("eddies")


@CHECK.group("separated", quick=40, thorough=1000, jobs=6, min_nontrivial=10, warm=True)
def separated(c):
    """each isolated eddy is found once, at its place with its sign, and nothing else"""
    rng = c.rng
    circular, x, y, step, bg, b = world(rng)
    if not b:
        return
    X, Y = np.meshgrid(x, y, indexing="ij")
    h, sp = fields(X, Y, bg, step, b)
    th = rng.uniform(0, 6)
    m = np.zeros(h.shape, bool)
    s = dict(x=x, y=y, h=h, m=m, u=sp * np.cos(th), v=sp * np.sin(th), mu=m, circular=circular)
    fh, uh = ((1.0, "m"), (100.0, "cm"), (1000.0, "mm"))[int(rng.integers(0, 3))]
    g = ident.make_grid(s, hunit=uh, hfac=fh)
    p = dict(step=step, pixel_limit=(4, 4000), sampling=int(rng.choice([20, 40])))
    a, cy = g.eddy_identification("h", "u", "v", ident.DATE, **p)
    cell = (x[1] - x[0]) * 111
    judge(c, a, b, step, bg, cell, 1), judge(c, cy, b, step, bg, cell, -1)
    c.count("on_the_seam", sum(circular and abs(wrap180(q[0] - x[0])) < 3.3 * q[2] / 111e3 for q in b))
    c.nontrivial(b, sample=dict(eddies=len(b), circular=circular, step=step, shape=h.shape))


@CHECK.group("curvilinear", quick=6, thorough=80, jobs=2)
def curvilinear(c):
    """same on two dimensional coordinates"""
    from netCDF4 import Dataset

    from py_eddy_tracker.dataset.grid import UnRegularGridDataset

    rng = c.rng
    st = 0.25
    x, y = 30 + st * np.arange(80), rng.uniform(-40, 20) + st * np.arange(70)
    step, bg = 0.01, rng.uniform(0.3, 0.7) * 0.01
    b = bumps(rng, x[10:-10], y[8:-8], False, 3)
    if not b:
        return
    X, Y = np.meshgrid(x, y, indexing="ij")
    sh = rng.uniform(-0.1, 0.1)
    X, Y = X + sh * (Y - Y.mean()), Y + rng.uniform(-0.05, 0.05) * (X - X.mean())
    h, sp = fields(X, Y, bg, step, b)
    f = os.path.join(c.tmp, "u.nc")
    with Dataset(f, "w") as d:
        d.createDimension("i", X.shape[0]), d.createDimension("j", X.shape[1])
        for n, z in (("lon", X), ("lat", Y), ("h", h), ("u", sp), ("v", 0 * sp)):
            w = d.createVariable(n, "f8", ("i", "j"))
            w[:] = z
            w.units = "m" if n == "h" else "m/s"
    g = UnRegularGridDataset(f, "lon", "lat", centered=True)
    a, cy = g.eddy_identification("h", "u", "v", ident.DATE, step=step, pixel_limit=(4, 4000))
    judge(c, a, b, step, bg, st * 111 * 1.05, 1), judge(c, cy, b, step, bg, st * 111 * 1.05, -1)
    c.nontrivial(b)


@CHECK.group("sharing", quick=50, thorough=1000, jobs=4, min_nontrivial=10)
def sharing(c):
    """no cell belongs to the effective contours of two eddies of one sign"""
    rng = c.rng
    s = ident.scene(rng, scale=rng.uniform(1.2, 2.5))
    p = ident.params(rng, s)
    p["sampling"] = 60
    if rng.random() < 0.3:
        p["precision"] = p["step"] / 3.7
    g = ident.make_grid(s)
    both = g.eddy_identification("h", "u", "v", ident.DATE, **p)
    n = 0
    for got, sign in zip(both, (1, -1)):
        paths = ident.find_paths(g, got)
        owner = np.full(s["h"].shape, -1)
        for k, v in enumerate(paths):
            if v is None:
                c.count("contour_not_identified")
                continue
            pix = ident.pixels(s, v)
            if (owner[pix] >= 0).any():
                o = owner[pix][owner[pix] >= 0][0]
                c.check(False, f"eddies {o} and {k} of sign {sign} share {int((owner[pix] >= 0).sum())} cells", params=p)
            owner[pix] = k
            n += 1
        c.count("oracle_decisions", len(got))
        # the extremum inside belongs to a single contour
        for k, v in enumerate(paths):
            if v is None:
                continue
            pix = ident.pixels(s, v)
            i = np.unravel_index(np.argmax(np.where(pix, sign * s["h"], -np.inf)), pix.shape)
            inside = [q for q, w in enumerate(paths) if w is not None and ident.pixels(s, w)[i]]
            c.check(inside == [k], "the extremum of an eddy is inside another")
    c.count("eddies", n)
    if n > 1:
        c.nontrivial(s["h"], p)
