"""Independent reference implementations (numpy only), used as oracles"""
import numpy as np

R = 6370997.0


def haversine(lon0, lat0, lon1, lat1):
    """great circle distance in m"""
    lon0, lat0, lon1, lat1 = np.broadcast_arrays(*(np.radians(np.asarray(v, "f8")) for v in (lon0, lat0, lon1, lat1)))
    # chord on the unit sphere: another route than the sine formula
    p0 = np.array([np.cos(lat0) * np.cos(lon0), np.cos(lat0) * np.sin(lon0), np.sin(lat0)])
    p1 = np.array([np.cos(lat1) * np.cos(lon1), np.cos(lat1) * np.sin(lon1), np.sin(lat1)])
    chord = np.sqrt(((p0 - p1) ** 2).sum(axis=0))
    return 2 * R * np.arcsin(np.minimum(chord / 2, 1))


def wrap180(x):
    return (np.asarray(x, "f8") + 180) % 360 - 180


def close_ring(x, y):
    """vertices without the closing or padding repetition"""
    x, y = np.asarray(x, "f8"), np.asarray(y, "f8")
    n = len(x)
    while n > 1 and x[n - 1] == x[0] and y[n - 1] == y[0]:
        n -= 1
    return x[:n], y[:n]


def shoelace(x, y):
    x, y = close_ring(x, y)
    return 0.5 * (x * np.roll(y, -1) - np.roll(x, -1) * y).sum()


def point_in_poly(px, py, x, y):
    """even-odd crossing test; px, py arrays -> bool"""
    x, y = close_ring(x, y)
    px, py = np.atleast_1d(np.asarray(px, "f8")), np.atleast_1d(np.asarray(py, "f8"))
    x1, y1 = np.roll(x, -1), np.roll(y, -1)
    inside = np.zeros(px.shape, bool)
    for xa, ya, xb, yb in zip(x, y, x1, y1):
        if ya == yb:
            continue
        c = (ya > py) != (yb > py)
        if not c.any():
            continue
        xi = xa + (py - ya) * (xb - xa) / (yb - ya)
        inside ^= c & (px < xi)
    return inside


def dist_to_poly(px, py, x, y):
    """distance from points to the polygon's boundary"""
    x, y = close_ring(x, y)
    px, py = np.atleast_1d(np.asarray(px, "f8")), np.atleast_1d(np.asarray(py, "f8"))
    d = np.full(px.shape, np.inf)
    for xa, ya, xb, yb in zip(x, y, np.roll(x, -1), np.roll(y, -1)):
        dx, dy = xb - xa, yb - ya
        l2 = dx * dx + dy * dy
        t = np.clip(((px - xa) * dx + (py - ya) * dy) / l2, 0, 1) if l2 else 0.0
        d = np.minimum(d, np.hypot(px - xa - t * dx, py - ya - t * dy))
    return d


def inter_area(xa, ya, xb, yb):
    """exact area of the intersection of two simple polygons by slab decomposition"""
    xa, ya = close_ring(xa, ya)
    xb, yb = close_ring(xb, yb)
    A = np.array([xa, ya, np.roll(xa, -1), np.roll(ya, -1)]).T
    B = np.array([xb, yb, np.roll(xb, -1), np.roll(yb, -1)]).T
    ys = [ya, yb]
    # edge intersections
    d1 = A[:, None, 2:] - A[:, None, :2]
    d2 = B[None, :, 2:] - B[None, :, :2]
    den = d1[..., 0] * d2[..., 1] - d1[..., 1] * d2[..., 0]
    r = B[None, :, :2] - A[:, None, :2]
    with np.errstate(all="ignore"):
        t = (r[..., 0] * d2[..., 1] - r[..., 1] * d2[..., 0]) / den
        u = (r[..., 0] * d1[..., 1] - r[..., 1] * d1[..., 0]) / den
        ok = (den != 0) & (t >= 0) & (t <= 1) & (u >= 0) & (u <= 1)
        yi = (A[:, None, 1] + t * d1[..., 1])[ok]
    ys = np.unique(np.concatenate([ya, yb, yi]))
    area = 0.0
    for y0, y1 in zip(ys[:-1], ys[1:]):
        h = y1 - y0
        if h <= 0:
            continue
        ym = 0.5 * (y0 + y1)
        itv = []
        for E in (A, B):
            c = (E[:, 1] > ym) != (E[:, 3] > ym)
            e = E[c]
            xs = np.sort(e[:, 0] + (ym - e[:, 1]) * (e[:, 2] - e[:, 0]) / (e[:, 3] - e[:, 1]))
            itv.append(xs.reshape(-1, 2))
        for a0, a1 in itv[0]:
            for b0, b1 in itv[1]:
                w = min(a1, b1) - max(a0, b0)
                if w > 0:
                    area += w * h
    return area


def bilinear(xg, yg, z, x, y, circular):
    """z (nx, ny) masked array; nan where a corner is masked or outside"""
    x, y = np.asarray(x, "f8"), np.asarray(y, "f8")
    out = np.full(x.shape, np.nan)
    m = np.ma.getmaskarray(z)
    d = np.ma.getdata(z).astype("f8")
    dx, dy = xg[1] - xg[0], yg[1] - yg[0]
    nx, ny = d.shape
    for k in np.ndindex(x.shape):
        fx, fy = (x[k] - xg[0]) / dx, (y[k] - yg[0]) / dy
        i, j = int(np.floor(fx)), int(np.floor(fy))
        a, b = fx - i, fy - j
        i1, j1 = i + 1, j + 1
        if circular:
            i, i1 = i % nx, i1 % nx
        if i < 0 or j < 0 or i1 >= nx or j1 >= ny:
            continue
        if m[i, j] or m[i, j1] or m[i1, j] or m[i1, j1]:
            continue
        out[k] = ((1 - a) * (1 - b) * d[i, j] + a * (1 - b) * d[i1, j] + (1 - a) * b * d[i, j1] + a * b * d[i1, j1])
    return out
