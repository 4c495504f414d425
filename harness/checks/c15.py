"""C15 particle advection"""
import numpy as np

from harness import gen
from harness.core import Check

CHECK = Check("C15", "random velocity fields with masks (garbage below), circular and regional grids, Euler and RK4, forward "
              "and backward, one grid or a time series started on or between dates; particles inside, on the edges, outside and "
              "invalid; non trivial: new field and particles",
              ["calls whose steps all lie between two consecutive grids", "positions closer than 1e-9 cell to a grid line are not judged"])
A = 6370997.0


class Field:
    """velocity in degrees per step at a time weight"""

    def __init__(self, g, us, circ, backward, time_step, factor=1.0):
        self.g, self.circ = g, circ
        coef = time_step * 180 / np.pi / A * factor * (-1 if backward else 1)
        self.layers = []
        for u, v in us:
            m = np.ma.getmaskarray(u) | np.ma.getmaskarray(v)
            self.layers.append((np.ma.getdata(u) * coef / np.cos(np.radians(g.y_c))[None], np.ma.getdata(v) * coef, m))
        self.near = 1.0

    def at(self, x, y, w):
        g = self.g
        fx = (x - g.x_c[0]) / (g.x_c[1] - g.x_c[0])
        fy = (y - g.y_c[0]) / (g.y_c[1] - g.y_c[0])
        self.near = min(self.near, abs(fx - round(fx)), abs(fy - round(fy)))
        i, j = int(np.floor(fx)), int(np.floor(fy))
        a, b = fx - i, fy - j
        nx, ny = self.layers[0][0].shape
        i1 = i + 1
        if self.circ:
            i, i1 = i % nx, i1 % nx
        if i < 0 or i1 >= nx or j < 0 or j + 1 >= ny:
            return None
        out = []
        for u, v, m in self.layers:
            if m[i, j] or m[i1, j] or m[i, j + 1] or m[i1, j + 1]:
                return None
            out.append([(1 - a) * (1 - b) * q[i, j] + a * (1 - b) * q[i1, j] + (1 - a) * b * q[i, j + 1] + a * b * q[i1, j + 1] for q in (u, v)])
        if len(out) == 1:
            return np.array(out[0])
        return np.array(out[0]) * w + np.array(out[1]) * (1 - w)


def step(f, p, w, dw, rk4):
    if p is None:
        return None
    k1 = f.at(*p, w)
    if k1 is None:
        return None
    if not rk4:
        return p + k1
    k2 = f.at(*(p + k1 / 2), w - dw / 2)
    if k2 is None:
        return None
    k3 = f.at(*(p + k2 / 2), w - dw / 2)
    if k3 is None:
        return None
    k4 = f.at(*(p + k3), w - dw)
    if k4 is None:
        return None
    return p + (k1 + 2 * k2 + 2 * k3 + k4) / 6


def make(rng, nt=1):
    g, circ = gen.grid(rng, mask=0, nx=int(rng.integers(8, 25)), ny=int(rng.integers(6, 20)), lat_range=(-70, 70))
    # cells crossed in a few steps
    cell = min(g.x_c[1] - g.x_c[0], g.y_c[1] - g.y_c[0])
    ts = float(rng.choice([600, 3600, 7200]))
    speed = cell * rng.uniform(0.05, 0.6) * np.pi / 180 * A / ts
    us = []
    mask = float(rng.choice([0, 0.02, 0.1]))
    for _ in range(nt):
        u, v = (gen.field(rng, g.x_c, g.y_c, circ, mask, smooth=rng.random() < 0.5) for _ in range(2))
        for q in (u, v):
            s = ~q.mask
            q.data[s] *= speed / 2
        us.append((u, v))
    return g, circ, us, ts


def particles(rng, g, n):
    dx, dy = g.x_c[1] - g.x_c[0], g.y_c[1] - g.y_c[0]
    x = rng.uniform(g.x_c[0] - dx, g.x_c[-1] + dx, n)
    y = rng.uniform(g.y_c[0] - dy, g.y_c[-1] + dy, n)
    k = rng.random(n) < 0.3  # next to the borders
    y[k] = np.where(rng.random(int(k.sum())) < 0.5, g.y_c[0], g.y_c[-1]) + rng.uniform(-0.3, 0.3, int(k.sum())) * dy
    x[rng.random(n) < 0.05] = np.nan
    y[rng.random(n) < 0.05] = np.nan
    return x, y


def track(f, x, y, weights, dw, rk4):
    """positions after every step; None once invalid"""
    out, near = [], []
    for a, b in zip(x, y):
        f.near = 1.0
        p = None if np.isnan(a) or np.isnan(b) else np.array([a, b])
        for w in weights:
            p = step(f, p, w, dw, rk4)
        out.append(p)
        near.append(f.near)
    return out, np.array(near)


def compare(c, x, y, ex, near, what, alive=None):
    ok = near > 1e-9
    for k in np.flatnonzero(ok):
        dead = np.isnan(x[k]) and np.isnan(y[k])
        if ex[k] is None:
            c.check(bool(np.isnan(x[k]) or np.isnan(y[k])), f"{what}: particle {k} should be invalid, is at {x[k]:.6f} {y[k]:.6f}")
            c.count("invalid")
        else:
            c.check(not dead, f"{what}: particle {k} is lost, expected {ex[k]}")
            c.close([x[k], y[k]], ex[k], f"{what}: position of particle {k}", rtol=0, atol=1e-7)
            c.count("positions")


@CHECK.group("one_grid", quick=100, thorough=2000, jobs=3)
def one_grid(c):
    """each step against an independent Euler or RK4; nan exactly once the stencil leaves the valid domain"""
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    rng = c.rng
    g, circ, us, ts = make(rng)
    u, v = us[0]
    g.vars["u"], g.vars["v"] = u.copy(), v.copy()
    rk4, back, factor = bool(rng.random() < 0.6), bool(rng.random() < 0.4), float(rng.choice([1, 1, 0.5]))
    nb = int(rng.integers(1, 8))
    x, y = particles(rng, g, 20)
    x0, y0 = x.copy(), y.copy()
    turn = 360.0 * int(rng.integers(-1, 2)) if circ else 0.0
    x += turn
    kw = dict(nb_step=nb, rk4=rk4, time_step=ts, backward=back, factor=factor)
    names = ("u", "v") if rng.random() < 0.7 else (u, v)
    it = g.advect(x, y, *names, **kw)
    f = Field(g, us, circ, back, ts, factor)
    ex = [None if np.isnan(a) or np.isnan(b) else np.array([a, b]) for a, b in zip(x0, y0)]
    near = np.ones(20)
    for call in range(3):
        gx, gy = next(it)
        c.check(gx is x and gy is y, "positions are updated in place")
        px = [np.nan if p is None else p[0] for p in ex]
        py = [np.nan if p is None else p[1] for p in ex]
        ex, nr = track(f, px, py, [1] * nb, 0, rk4)
        near = np.minimum(near, nr)
        compare(c, x - turn, y, ex, near, f"call {call} rk4={rk4} backward={back} circular={circ}")
    # independence of particles and of values under the mask
    k = rng.permutation(20)
    x2, y2 = (x0 + turn)[k], y0[k].copy()
    g.vars["u"].data[u.mask], g.vars["v"].data[v.mask] = 1e7, np.nan
    it = g.advect(x2, y2, "u", "v", **kw)
    for _ in range(3):
        next(it)
    c.equal(x2, x[k], "path depends on other particles or on masked values"), c.equal(y2, y[k], "path (y)")
    c.count("rk4" if rk4 else "euler"), c.count("backward", int(back))
    c.nontrivial(x0, y0, u, rk4, back, nb)


def collection(g, us, t0, dt=1):
    from py_eddy_tracker.dataset.grid import GridCollection, RegularGridDataset

    col = GridCollection()
    for k, (u, v) in enumerate(us):
        d = RegularGridDataset.with_array(("lon", "lat"), dict(lon=g.x_c, lat=g.y_c, u=u.copy(), v=v.copy()), centered=True)
        col.datasets.append((t0 + k * dt, d))
    return col


@CHECK.group("time_series", quick=100, thorough=2000, jobs=3)
def time_series(c):
    """time interpolation between grids, forward and backward"""
    rng = c.rng
    nt = 5
    g, circ, us, ts = make(rng, nt)
    t0, dt = int(rng.integers(100, 20000)), int(rng.choice([1, 1, 1, 2]))
    col = collection(g, us, t0, dt)
    rk4, back = bool(rng.random() < 0.6), bool(rng.random() < 0.4)
    # a call is a quarter of day or less, so that dates of grids fall between calls
    nb = int(rng.choice([k for k in (1, 2, 3, 6, 12, 24) if k * ts <= 86400 and 86400 % (k * ts) == 0]))
    n_days = int(rng.integers(0, nt * dt - 2))
    per_day = int(86400 / (nb * ts))
    sub = int(rng.integers(0, per_day)) if rng.random() < 0.5 else 0
    t_init = (t0 + n_days + sub / per_day) if not back else (t0 + (nt - 1) * dt - n_days - sub / per_day)
    left = int(round(((t0 + (nt - 1) * dt) - t_init if not back else t_init - t0) * per_day))
    calls = min(left, int(rng.integers(1, 2 * per_day + 2)), 8)
    if sub:
        c.count("started_between_dates")
    x, y = particles(rng, g, 12)
    x0, y0 = x.copy(), y.copy()
    mp = None
    if rng.random() < 0.3:
        mp = rng.random(12) < 0.3
    mp0 = np.zeros(12, bool) if mp is None else mp.copy()
    kw = dict(mask_particule=mp) if mp is not None else {}
    if rng.random() < 0.8:
        kw.update(u_name="u", v_name="v")
    else:
        # velocities from the height
        h = [gen.field(rng, g.x_c, g.y_c, circ, 0.02, smooth=True) for _ in us]
        us = []
        for (_, d), q in zip(col.datasets, h):
            d.vars.pop("u"), d.vars.pop("v")
            q.data[~q.mask] *= 0.02
            d.vars["h"] = q
            d.variables_description["h"] = d.variables_description["u"]
            d.variables_description["h"]["attrs"] = {}
            d.add_uv("h", "ug", "vg")
            us.append((d.vars.pop("ug"), d.vars.pop("vg")))
        kw.update(h_name="h", u_name=None, v_name=None)
        if (np.abs(g.y_c) < 2).any():
            return
        c.count("from_height")
    it = col.advect(x, y, t_init=t_init, nb_step=nb, time_step=ts, rk4=rk4, backward=back, **kw)
    ex = [None if np.isnan(a) or np.isnan(b) else np.array([a, b]) for a, b in zip(x0, y0)]
    near = np.ones(12)
    sg = -1 if back else 1
    t = t_init * 86400
    for call in range(calls):
        tg, gx, gy = next(it)
        # the two grids around the steps of this call
        q = (t / 86400 - t0) / dt
        k = int(np.floor(q + 1e-9)) if not back else int(np.ceil(q - 1e-9))
        k1 = k + sg
        ta, tb = (t0 + k * dt) * 86400, (t0 + k1 * dt) * 86400
        f = Field(g, [us[k], us[k1]], circ, back, ts)
        w = 1 - (t + sg * ts * np.arange(nb) - ta) / (tb - ta)
        px = [np.nan if p is None else p[0] for p in ex]
        py = [np.nan if p is None else p[1] for p in ex]
        ex, nr = track(f, px, py, w, sg * ts / (tb - ta), rk4)
        near = np.where(mp0, 1, np.minimum(near, nr))
        for j in np.flatnonzero(mp0):
            # particles masked from the start never move
            ex[j] = None if np.isnan(x0[j]) or np.isnan(y0[j]) else np.array([x0[j], y0[j]])
        t += sg * nb * ts
        c.close(tg, t, "time given", rtol=0, atol=1e-3)
        compare(c, gx, gy, ex, near, f"call {call} rk4={rk4} backward={back} t_init={t_init}")
    c.count("calls", calls)
    c.nontrivial(x0, y0, us[0][0], t_init, rk4, back)


@CHECK.group("filament", quick=50, thorough=600, jobs=2)
def filament(c):
    """filament series are the chained advections"""
    rng = c.rng
    series = rng.random() < 0.5
    g, circ, us, ts = make(rng, 4 if series else 1)
    ts = 3600.0
    n, size, nb = int(rng.integers(1, 10)), int(rng.integers(2, 7)), int(rng.choice([1, 3, 6]))
    x, y = particles(rng, g, n)
    x0, y0 = x.copy(), y.copy()
    rk4, back = bool(rng.random() < 0.5), bool(rng.random() < 0.4)
    kw = dict(nb_step=nb, time_step=ts, rk4=rk4, backward=back)
    if series:
        t0 = 1000
        t_init = t0 + 3 if back else t0
        fil = collection(g, us, t0).filament(x, y, "u", "v", t_init, filament_size=size, **kw)
        ref = collection(g, us, t0).advect(x0.copy(), y0.copy(), t_init=t_init, u_name="u", v_name="v", **kw)
    else:
        g.vars["u"], g.vars["v"] = us[0]
        fil = g.filament(x, y, "u", "v", filament_size=size, **kw)
        ref = g.advect(x0.copy(), y0.copy(), "u", "v", **kw)
    hx, hy = [x0.astype("f4")], [y0.astype("f4")]
    for call in range(size + 3):
        got, exp = next(fil), next(ref)
        if series:
            c.check(got[0] == exp[0], "time given")
        hx.insert(0, exp[-2].astype("f4")), hy.insert(0, exp[-1].astype("f4"))
        for h, o, name in ((hx, got[-2], "x"), (hy, got[-1], "y")):
            e = np.full((n, size + 1), np.nan, "f4")
            for q, col in enumerate(h[:size]):
                e[:, q] = col
            c.check(o.size == n * (size + 1), "size of the filament")
            c.equal(o.reshape(n, size + 1), e, f"filament {name} after {call + 1} calls", size=size)
    c.equal(x, x0, "particles of the caller moved")
    c.nontrivial(x0, y0, size, nb)


@CHECK.group("path", quick=30, thorough=300)
def path(c):
    """paths hold every step"""
    rng = c.rng
    g, circ, us, ts = make(rng, 4)
    x, y = particles(rng, g, 8)
    back = bool(rng.random() < 0.4)
    t_init = 53 if back else 50
    kw = dict(t_init=t_init, nb_step=6, time_step=3600, u_name="u", v_name="v", backward=back)
    n = int(rng.integers(1, 9))
    t, px, py = collection(g, us, 50).path(x, y, nb_time=n, **kw)
    a, b = x.copy(), y.copy()
    ref = collection(g, us, 50).advect(a, b, **kw)
    c.check(px.shape == (n + 1, 8) and t.shape == (n + 1,), "shape of the path")
    c.equal(px[0], x, "start"), c.equal(py[0], y, "start")
    for k in range(n):
        tr, xr, yr = next(ref)
        c.equal(px[k + 1], xr, f"path x at {k + 1}"), c.equal(py[k + 1], yr, f"path y at {k + 1}")
        c.check(t[k + 1] == tr, "time of the path")
    c.nontrivial(x, y, n)
