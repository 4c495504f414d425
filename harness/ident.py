"""Workloads and reference walk for the identification of eddies"""
from datetime import datetime

import numpy as np
from scipy.ndimage import gaussian_filter

from harness.checks.c05 import kasa, ref_error
from harness.ref import R, point_in_poly, wrap180

DATE = datetime(2003, 4, 11, 6)


# ------------------------------------------------------------------------------------------- workloads
def smooth(rng, nx, ny, circular, scale):
    z = rng.normal(size=(nx, ny))
    z = gaussian_filter(z, scale, mode=("wrap" if circular else "reflect", "reflect"))
    return z / z.std()


def axes(rng, circular, nx=None, ny=None):
    if circular:
        step = float(rng.choice([3.0, 4.0, 4.5, 5.0]))
        nx = int(round(360 / step))
        dy = float(rng.choice([1.0, 2.0, step]))
    else:
        step = float(rng.choice([0.125, 0.25, 0.5, 1.0]))
        nx = nx or int(rng.integers(28, 64))
        dy = float(rng.choice([1.0, 0.75])) * step
    ny = ny or int(rng.integers(22, 40))
    ny = min(ny, int(130 / dy))
    x = float(rng.choice([0.0, -180.0, -25.0, 100.0, 350.0, 181.125])) + step * np.arange(nx)
    lo, hi = -65.0, 65.0 - ny * dy
    y0 = np.round(rng.uniform(lo, max(hi, lo)) * 4) / 4
    return x, y0 + dy * np.arange(ny)


def blob_mask(rng, nx, ny):
    """land: a few blobs"""
    m = np.zeros((nx, ny), bool)
    i, j = np.ogrid[:nx, :ny]
    for _ in range(int(rng.integers(0, 4))):
        ci, cj, r = rng.integers(0, nx), rng.integers(0, ny), rng.uniform(0.6, 5)
        m |= (i - ci) ** 2 + (j - cj) ** 2 < r * r
    return m


def scene(rng, circular=None, mask=True, scale=None):
    """dict of arrays describing a random ocean; heights in m, velocities in m/s"""
    circular = bool(rng.random() < 0.4) if circular is None else circular
    x, y = axes(rng, circular)
    nx, ny = x.size, y.size
    h = 0.1 * smooth(rng, nx, ny, circular, scale or rng.uniform(1.5, 4))
    if rng.random() < 0.5:
        i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing="ij")
        for _ in range(int(rng.integers(1, 6))):
            ci, cj, r = rng.uniform(0, nx), rng.uniform(0, ny), rng.uniform(2, 6)
            d = i - ci
            if circular:
                d = (d + nx / 2) % nx - nx / 2
            h = h + rng.normal(0, 0.3) * np.exp(-(d**2 + (j - cj) ** 2) / (2 * r * r))
    if circular and rng.random() < 0.4:
        # an indented eddy whose isolines cross the seam several times
        i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing="ij")
        r = rng.uniform(4, 7)
        d = (i - rng.choice([-1, 1]) * r * rng.uniform(0.2, 1.3) + nx / 2) % nx - nx / 2
        e = j - rng.uniform(0.3, 0.7) * ny
        h = h * 0.3 + rng.choice([-1, 1]) * 0.4 * np.exp(-((np.hypot(d, e) / r / (1 + rng.uniform(0.1, 0.3) * np.cos(
            rng.integers(6, 15) * np.arctan2(e, d) + rng.uniform(0, 6)))) ** 2))
    h = h + rng.normal(0, 0.3)
    m = blob_mask(rng, nx, ny) if mask else np.zeros((nx, ny), bool)
    u, v = 0.3 * smooth(rng, nx, ny, circular, 2.0), 0.3 * smooth(rng, nx, ny, circular, 2.0)
    mu = m | (rng.random((nx, ny)) < (0.01 if mask else 0))
    return dict(x=x, y=y, h=h, m=m, u=u, v=v, mu=mu, circular=circular)


def make_grid(s, poison=True, hunit="m", uunit="m/s", hfac=1.0, ufac=1.0):
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    h, u, v = s["h"] * hfac, s["u"] * ufac, s["v"] * ufac
    if poison:
        h, u, v = h.copy(), u.copy(), v.copy()
        h[s["m"]], u[s["mu"]], v[s["mu"]] = 1e9, -1e9, 1e9
    return RegularGridDataset.with_array(
        ("lon", "lat"),
        dict(lon=s["x"].copy(), lat=s["y"].copy(), h=np.ma.array(h, mask=s["m"].copy()), u=np.ma.array(u, mask=s["mu"].copy()),
             v=np.ma.array(v, mask=s["mu"].copy())),
        dict(h=dict(units=hunit), u=dict(units=uunit), v=dict(units=uunit)), centered=True)


def params(rng, s):
    d = np.ptp(s["h"][~s["m"]])
    p = dict(step=float(d / rng.uniform(8, 40)), shape_error=float(rng.choice([25, 40, 55, 70, 90])),
             sampling=int(rng.choice([20, 50, 80])), sampling_method=str(rng.choice(["visvalingam", "uniform"])))
    if rng.random() < 0.5:
        p["pixel_limit"] = (int(rng.integers(1, 12)), int(rng.choice([40, 150, 1000, 2000])))
    if rng.random() < 0.5:
        p.update(mle=int(rng.integers(1, 4)), nb_step_min=int(rng.integers(1, 5)), nb_step_to_be_mle=int(rng.integers(0, 4)))
    return p


# ------------------------------------------------------------------------------------------- geometry
def local(lon, lat, lon0, lat0):
    """azimuthal equidistant projection"""
    la, lo, la0 = np.radians(lat), np.radians(np.asarray(lon) - lon0), np.radians(lat0)
    # components along east, north and up of the reference point
    e = np.cos(la) * np.sin(lo)
    n = np.sin(la) * np.cos(la0) - np.cos(la) * np.sin(la0) * np.cos(lo)
    h = np.hypot(e, n)
    chord = np.sqrt(e * e + n * n + (1 - np.sin(la) * np.sin(la0) - np.cos(la) * np.cos(la0) * np.cos(lo)) ** 2)
    d = 2 * R * np.arcsin(np.minimum(chord / 2, 1))
    f = np.where(h > 0, d / np.where(h > 0, h, 1), 0)
    return e * f, n * f


def unlocal(x, y, lon0, lat0):
    d = np.hypot(x, y) / R
    az = np.arctan2(x, y)
    la0 = np.radians(lat0)
    la = np.arcsin(np.sin(la0) * np.cos(d) + np.cos(la0) * np.sin(d) * np.cos(az))
    lo = np.arctan2(np.sin(az) * np.sin(d) * np.cos(la0), np.cos(d) - np.sin(la0) * np.sin(la))
    return lon0 + np.degrees(lo), np.degrees(la)


def fit(v):
    """circle fitted to a closed path: lon, lat, radius, error"""
    lon0, lat0 = v[1:].mean(axis=0)
    x, y = local(v[:, 0], v[:, 1], lon0, lat0)
    cx, cy, r = kasa(x[1:], y[1:])
    lon, lat = unlocal(cx, cy, lon0, lat0)
    return lon, lat, r, ref_error(x, y, cx, cy, r)


def resample(v, fac):
    """same number of points times fac, evenly spaced along the great circle distances"""
    from harness.ref import haversine

    d = haversine(v[:-1, 0], v[:-1, 1], v[1:, 0], v[1:, 1])
    d = np.concatenate([[0], np.maximum(d, 1e-3)]).cumsum()
    t = np.linspace(0, d[-1], len(v) * fac)
    return np.array([np.interp(t, d, v[:, 0]), np.interp(t, d, v[:, 1])]).T


def bilinear_v(xg, yg, z, m, x, y, circular):
    """vectorised; nan outside and where a corner is masked"""
    nx, ny = z.shape
    fx, fy = (x - xg[0]) / (xg[1] - xg[0]), (y - yg[0]) / (yg[1] - yg[0])
    i, j = np.floor(fx).astype(int), np.floor(fy).astype(int)
    a, b = fx - i, fy - j
    i1, j1 = i + 1, j + 1
    if circular:
        i, i1 = i % nx, i1 % nx
    bad = (i < 0) | (j < 0) | (i1 >= nx) | (j1 >= ny)
    i, i1, j, j1 = (np.where(bad, 0, k) for k in (i, i1, j, j1))
    bad |= m[i, j] | m[i, j1] | m[i1, j] | m[i1, j1]
    out = (1 - a) * (1 - b) * z[i, j] + a * (1 - b) * z[i1, j] + (1 - a) * b * z[i, j1] + a * b * z[i1, j1]
    return np.where(bad, np.nan, out)


def pixels(s, v):
    """bool grid of cells with their centre inside the path (whatever the branch), and distance flag of ambiguity"""
    x, y = s["x"], s["y"]
    mid = (v[:, 0].min() + v[:, 0].max()) / 2
    xs = x + np.floor((mid - x) / 360 + 0.5) * 360 if s["circular"] else x
    out = np.zeros((x.size, y.size), bool)
    i = np.flatnonzero((xs >= v[:, 0].min()) & (xs <= v[:, 0].max()))
    j = np.flatnonzero((y >= v[:, 1].min()) & (y <= v[:, 1].max()))
    if i.size and j.size:
        X, Y = np.meshgrid(xs[i], y[j], indexing="ij")
        out[np.ix_(i, j)] = point_in_poly(X.ravel(), Y.ravel(), v[:, 0], v[:, 1]).reshape(X.shape)
    return out


class Ambiguous(Exception):
    """a decision depends on rounding"""


# ------------------------------------------------------------------------------------------- isolines
def closed_loops(s, h, m, level):
    """closed isolines of a level: contourpy on the grid extended by one column, pieces joined by the seam"""
    import contourpy

    x, z, mm = s["x"], h, m
    if s["circular"]:
        x, z, mm = np.append(x, x[0] + 360), np.concatenate([z, z[:1]]), np.concatenate([mm, mm[:1]])
    gen = contourpy.contour_generator(x, s["y"], np.ma.array(z.T, mask=mm.T), name="mpl2014")
    lines = [np.asarray(l) for l in gen.lines(level)[0] if len(l)]
    loops, opened = [], []
    for l in lines:
        if len(l) > 1 and np.hypot(*(l[0] - l[-1])) < 1e-9:
            loops.append(l)
        else:
            opened.append(l)
    if s["circular"]:
        x0, x1 = x[0], x[-1]

        def key(p):
            return round(p[1], 8) if min(abs(p[0] - x0), abs(p[0] - x1)) < 1e-9 else None

        # pieces which start and end on the seam, chained end to start
        start = {}
        for k, l in enumerate(opened):
            if key(l[0]) is not None and key(l[-1]) is not None:
                start.setdefault(key(l[0]), []).append(k)
        used = set()
        for k, l in enumerate(opened):
            if k in used or key(l[0]) is None or key(l[-1]) is None:
                continue
            chain, cur, ok = [k], k, False
            while True:
                nxt = [q for q in start.get(key(opened[cur][-1]), [])
                       if abs(abs(opened[q][0, 0] - opened[cur][-1, 0]) - 360) < 1e-6]
                if not nxt:
                    break
                if len(nxt) > 1:
                    raise Ambiguous("several pieces start at the same place")
                if nxt[0] == k:
                    ok = True
                    break
                if nxt[0] in chain:
                    break
                chain.append(nxt[0])
                cur = nxt[0]
            if not ok:
                continue
            used |= set(chain)
            pts = opened[chain[0]].copy()
            for q in chain[1:]:
                o = opened[q]
                pts = np.concatenate([pts, o[1:] + [pts[-1, 0] - o[0, 0], 0]])
            if abs(pts[0, 0] - pts[-1, 0]) > 180:
                continue  # goes around the globe
            pts[-1] = pts[0]
            loops.append(pts)
    # nearly closed pieces are closed by the library
    for l in opened:
        if s["circular"] and any(l is opened[q] for q in used):
            continue
        if np.hypot(*(l[0] - l[-1])) <= 1e-2:
            l = l.copy()
            l[-1] = l[0]
            loops.append(l)
    return [l for l in loops if len(l) >= 4 and (np.ptp(l, axis=0) > 1e-8).all()]


# ------------------------------------------------------------------------------------------- reference walk
def extrema(h, hidden, pix, sign, circular):
    """cells of pix which are the extremum of their 8 neighbours (hidden cells do not compete)"""
    z = np.where(hidden, -np.inf, sign * h)
    mode = "wrap" if circular else "edge"
    p = np.pad(z, ((1, 1), (0, 0)), mode="wrap") if circular else np.pad(z, ((1, 1), (0, 0)), constant_values=-np.inf)
    p = np.pad(p, ((0, 0), (1, 1)), constant_values=-np.inf)
    nx, ny = h.shape
    best = np.max([p[a:a + nx, b:b + ny] for a in range(3) for b in range(3)], axis=0)
    return pix & ~hidden & (z >= best)


def walk(s, h, paths, levels, speed, mspeed, step, shape_error, pixel_limit=(4, 1000), mle=1, nb_step_min=2,
         nb_step_to_be_mle=2, flags=None):
    """reference identification

    h heights, paths: list (by level) of list of closed paths
    returns for both signs the list of eddies (dict); flags, if given, receives for each contour whether an eddy uses it and why it was refused"""
    flags = dict(used=set(), reject={}) if flags is None else flags
    claimed = s["m"].copy()
    cache = {}

    def info(l, k):
        if (l, k) not in cache:
            v = paths[l][k]
            cache[l, k] = dict(v=v, err=fit(v)[3], pix=pixels(s, v))
        return cache[l, k]

    def mean_speed(v):
        w = resample(v, 2)[1:]
        with np.errstate(all="ignore"):
            val = bilinear_v(s["x"], s["y"], speed, mspeed, w[:, 0], w[:, 1], s["circular"])
            ok = ~np.isnan(val)
            return val[ok].mean() if ok.any() else np.nan

    res = []
    for sign in (1, -1):
        out, used = [], set()
        order = range(len(levels)) if sign == 1 else range(len(levels) - 1, -1, -1)
        for l in order:
            for k in range(len(paths[l])):
                if (l, k) in used:
                    continue
                d = info(l, k)
                if abs(d["err"] - shape_error) < 1e-4:
                    raise Ambiguous("shape error")
                if not d["err"] <= shape_error:
                    flags["reject"][l, k] = 1
                    continue
                pix = d["pix"]
                if (pix & claimed).any():
                    flags["reject"].setdefault((l, k), 2)
                    continue
                if (sign * (h[pix] - levels[l]) < 0).any():
                    continue
                if not pixel_limit[0] <= pix.sum() <= pixel_limit[1]:
                    flags["reject"][l, k] = 3
                    continue
                flags["reject"][l, k] = 4
                ex = np.argwhere(extrema(h, claimed, pix, sign, s["circular"]))
                if len(ex) == 0:
                    continue
                a = sign * (h[tuple(ex.T)] - levels[l])
                if len(ex) > 1 and (np.abs(a - step * nb_step_to_be_mle) < 1e-9).any():
                    raise Ambiguous("secondary extremum")
                if len(ex) > 1 and (a >= step * nb_step_to_be_mle).sum() > mle:
                    continue
                b = int(np.argmax(a))
                amp = a[b]
                if abs(amp - step * nb_step_min) < 1e-9:
                    raise Ambiguous("amplitude")
                if amp < step * nb_step_min or amp == 0:
                    continue
                # nested contours
                cx, cy = s["x"][ex[b][0]], s["y"][ex[b][1]]
                sp = [mean_speed(d["v"])]
                best, ibest, lbest, inner = sp[0], (l, k), l, (l, k)
                chosen = [(l, k)]
                q = l
                while True:
                    q += sign
                    if not 0 <= q < len(levels):
                        break
                    cand = None
                    for kk, w in enumerate(paths[q]):
                        x_ = (cx - w[:, 0].min()) % 360 + w[:, 0].min()
                        if not (w[:, 1].min() <= cy <= w[:, 1].max() and x_ <= w[:, 0].max()):
                            continue
                        dd = ((w[:, 0] - x_) ** 2 + (w[:, 1] - cy) ** 2).min()
                        if cand is None or dd < cand[0]:
                            cand = (dd, kk)
                    if cand is None:
                        break
                    w = paths[q][cand[1]]
                    shift = np.round((d["v"][:, 0].mean() - w[:, 0].mean()) / 360) * 360
                    if not point_in_poly(w[:, 0] + shift, w[:, 1], d["v"][:, 0], d["v"][:, 1]).all():
                        break
                    ms = mean_speed(w)
                    sp.append(ms)
                    wi = info(q, cand[1])
                    if wi["pix"].sum() > pixel_limit[0]:
                        if abs(ms - best) < 1e-12 * max(abs(best), 1):
                            raise Ambiguous("mean speed")
                        if ms >= best:
                            best, ibest, lbest = ms, (q, cand[1]), q
                    inner = (q, cand[1])
                    chosen.append(inner)
                used |= set(chosen)
                flags["used"] |= set(chosen)
                claimed |= pix
                out.append(dict(sign=sign, level=l, height=levels[l], pix=pix, amplitude=amp, extremum=tuple(ex[b]), v=d["v"],
                                speed=best, vs=paths[ibest[0]][ibest[1]], hs=levels[lbest], vi=paths[inner[0]][inner[1]],
                                hi=levels[inner[0]], profile=np.array(sp), err=d["err"]))
        res.append(out)
    return res


def derived(e, fac=10):
    """values stored for an eddy of the reference walk"""
    xe, xs, xi = (resample(e[k], fac) for k in ("v", "vs", "vi"))
    lon, lat, rs, es = fit(xs)
    _, _, re_, ee = fit(xe)
    lm, am, _, _ = fit(xi)

    def area(v):
        from harness.ref import shoelace

        return abs(shoelace(*local(v[:, 0], v[:, 1], lon, lat)))

    return dict(lon=lon, lat=lat, radius_s=rs, shape_error_s=es, radius_e=re_, shape_error_e=ee, lon_max=lm, lat_max=am,
                speed_area=area(xs), effective_area=area(xe), amplitude=e["amplitude"], speed_average=e["speed"],
                height_external_contour=e["height"], height_max_speed_contour=e["hs"], height_inner_contour=e["hi"],
                num_point_e=len(e["v"]), num_point_s=len(e["vs"]), nb_contour_selected=len(e["profile"]))


def library_paths(g):
    return [[np.array(p.vertices) for p in coll.get_paths()] for coll in g.contours.contours.collections]


def find_paths(g, got, hfac=1.0):
    """isoline of each reported eddy: level, same number of vertices and same extent; None if not unique"""
    levels = np.asarray(g.contours.levels) / hfac
    colls = g.contours.contours.collections
    out = []
    for k in range(len(got)):
        l = int(np.argmin(np.abs(levels - got.height_external_contour[k])))
        x, y = got.contour_lon_e[k].astype("f8"), got.contour_lat_e[k].astype("f8")
        best = []
        for p in colls[l].get_paths():
            v = np.asarray(p.vertices)
            if len(v) != got.num_point_e[k]:
                continue
            dx = (v[:, 0].min() + v[:, 0].max() - x.min() - x.max()) / 2
            dx = abs((dx + 180) % 360 - 180)
            dy = abs(v[:, 1].min() + v[:, 1].max() - y.min() - y.max()) / 2
            if dx < 0.5 * np.ptp(x) and dy < 0.5 * np.ptp(y):
                best.append((dx + dy, v))
        best.sort(key=lambda t: t[0])
        ok = len(best) and (len(best) == 1 or best[1][0] > 10 * best[0][0] + 1e-6)
        out.append(best[0][1] if ok else None)
    return out
