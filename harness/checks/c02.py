"""C02 point in contour"""
import numpy as np

from harness import gen
from harness.core import Check
from harness.ref import dist_to_poly, point_in_poly

CHECK = Check("C02", "random simple polygons (star shaped, convex, spiral, combs), closed, padded or open, both "
              "orientations and all longitude branches, with points at random, near the boundary and at vertex "
              "latitudes; non trivial when points are found both inside and outside",
              ["points closer than the margin (1e-9 plane, 1e-4 degree geographic) to the boundary are not judged"])


def comb(rng, x0, y0, r):
    """non convex, not star shaped polygon with teeth"""
    k = int(rng.integers(2, 6))
    xs = np.linspace(-r, r, 2 * k)
    y = np.where(np.arange(2 * k) % 2 == 0, rng.uniform(0.2, 1, 2 * k), rng.uniform(-0.7, 0, 2 * k)) * r
    x = np.concatenate([xs, [r, -r]])
    y = np.concatenate([y, [-r, -r]])
    return np.append(x, x[0]) + x0, np.append(y, y[0]) + y0


def spiral(rng, x0, y0, r):
    n = int(rng.integers(10, 40))
    a = np.linspace(0, rng.uniform(1, 3) * np.pi, n)
    ro = r * (0.4 + 0.6 * a / a[-1])
    ri = ro * 0.7
    x = np.concatenate([ro * np.cos(a), (ri * np.cos(a))[::-1]])
    y = np.concatenate([ro * np.sin(a), (ri * np.sin(a))[::-1]])
    # spirals with more than one turn need the arm thinner than the gap
    return np.append(x, x[0]) + x0, np.append(y, y[0]) + y0


def polygon(rng, x0=0.0, y0=0.0, r=1.0):
    k = rng.integers(0, 4)
    if k == 0:
        x, y = comb(rng, x0, y0, r)
    elif k == 1:
        x, y = gen.convex_polygon(rng, None, x0, y0, r)
    else:
        x, y = gen.star_polygon(rng, None, x0, y0, r, rng.uniform(0, 0.9))
    if rng.random() < 0.5:
        x, y = x[::-1].copy(), y[::-1].copy()
    k = int(rng.integers(0, len(x) - 1))  # any starting vertex
    x, y = np.roll(x[:-1], k), np.roll(y[:-1], k)
    return np.append(x, x[0]), np.append(y, y[0])


def queries(rng, x, y, n, margin):
    """points around a polygon, some at the latitude of vertices, away from the boundary"""
    w, h = np.ptp(x), np.ptp(y)
    px = rng.uniform(x.min() - 0.2 * w, x.max() + 0.2 * w, n)
    py = rng.uniform(y.min() - 0.2 * h, y.max() + 0.2 * h, n)
    k = rng.random(n) < 0.3
    py[k] = rng.choice(y, k.sum())
    k = rng.random(n) < 0.2
    px[k] = rng.choice(x, k.sum())
    # close to the boundary
    k = np.flatnonzero(rng.random(n) < 0.3)
    i = rng.integers(0, len(x) - 1, len(k))
    t = rng.random(len(k))
    px[k] = x[i] + t * (x[i + 1] - x[i]) + rng.normal(0, 0.01 * w, len(k))
    py[k] = y[i] + t * (y[i + 1] - y[i]) + rng.normal(0, 0.01 * h, len(k))
    ok = dist_to_poly(px, py, x, y) > margin
    return px[ok], py[ok]


@CHECK.group("winding", quick=300, thorough=6000)
def winding(c):
    """winding number and crossing test against an exact even-odd reference, both orientations, both branches"""
    from py_eddy_tracker.poly import create_vertice, create_vertice_from_2darray, winding_number_poly

    rng = c.rng
    x, y = polygon(rng, *rng.uniform(-100, 100, 2), 10 ** rng.uniform(-2, 2))
    px, py = queries(rng, x, y, 60, 1e-7 * np.ptp(x))
    form = rng.integers(0, 4)
    if form == 0:
        v = create_vertice(x, y)
    elif form == 1:
        v = create_vertice(x[:-1], y[:-1])
    elif form == 2:
        xp, yp = gen.pad_ring(x, y, len(x) + int(rng.integers(1, 20)))
        v = create_vertice(xp, yp)
    else:
        k = int(rng.integers(0, 3))
        xx, yy = np.zeros((3, len(x))), np.zeros((3, len(x)))
        xx[k], yy[k] = x, y
        v = create_vertice_from_2darray(xx, yy, k)
    got = np.array([winding_number_poly(a, b, v) != 0 for a, b in zip(px, py)], dtype=bool)
    ref = point_in_poly(px, py, x, y)
    c.equal(got, ref, "point in polygon", x=x, y=y, px=px, py=py)
    c.count("inside", ref.sum())
    c.count("outside", (~ref).sum())
    if ref.any() and not ref.all():
        c.nontrivial(x, y, px, sample=dict(x=x, y=y, px=px[:3], py=py[:3], inside=ref[:3]))


@CHECK.group("contains_poly", quick=300, thorough=6000)
def contains_poly(c):
    """a contour contained in another one"""
    from py_eddy_tracker.poly import create_vertice, poly_contain_poly

    rng = c.rng
    lon0 = rng.choice([0.0, 180.0, 360.0, rng.uniform(0, 360)])
    x, y = polygon(rng, lon0, rng.uniform(-60, 60), rng.uniform(0.2, 8))
    f = rng.uniform(0.05, 1.1)
    cx, cy = (x[:-1].mean(), y[:-1].mean()) if rng.random() < 0.7 else (x[0], y[0])
    x1, y1 = gen.star_polygon(rng, None, cx, cy, np.ptp(x) / 2 * f)
    keep = dist_to_poly(x1[:-1], y1[:-1], x, y) > 1e-6
    x1, y1 = x1[:-1][keep], y1[:-1][keep]
    if len(x1) < 3:
        return
    x1, y1 = np.append(x1, x1[0]), np.append(y1, y1[0])
    ref = bool(point_in_poly(x1, y1, x, y).all())
    for k0 in (0, -360, 360):
        for k1 in (0, -360, 360):
            got = bool(poly_contain_poly(create_vertice(x + k0, y), create_vertice(x1 + k1, y1)))
            c.check(got == ref, f"contour inclusion is {got} instead of {ref} for branches {k0} {k1}", x=x, y=y, x1=x1, y1=y1)
    c.count("included" if ref else "not_included")
    c.nontrivial(x, y, x1)


def day_contours(rng, n, sampling, overlap, dtype="f8"):
    """contours of a day, padded; some on other branches"""
    xs, ys = np.empty((n, sampling), dtype), np.empty((n, sampling), dtype)
    mode = rng.integers(0, 4)
    side = int(np.ceil(np.sqrt(n)))
    base = {0: rng.uniform(0, 360), 1: 180.0, 2: 0.0, 3: 360.0}[int(mode)]
    lat0 = rng.uniform(-60, 60)
    size = rng.uniform(0.3, 4)
    for i in range(n):
        if overlap:
            x0, y0 = base + rng.normal(0, 2 * size), lat0 + rng.normal(0, 2 * size)
        else:
            x0, y0 = base + (i % side - side / 2) * 2.1 * size, np.clip(lat0, -60, 60) + (i // side - side / 2) * 2.1 * size
        y0 = float(np.clip(y0, -84, 84))
        for _ in range(20):
            x, y = polygon(rng, x0, y0, min(size, 5))
            if len(x) <= sampling:
                break
        else:
            x, y = gen.star_polygon(rng, sampling - 1, x0, y0, min(size, 5))
        xs[i], ys[i] = gen.pad_ring(x, y, sampling)
    ys = np.clip(ys, -89.5, 89.5)
    return xs, ys


def expected_table(px, py, xs, ys, margin):
    """(n point, n contour) inside table, with the three branches tried, and a mask of near boundary points"""
    nc = len(xs)
    t = np.zeros((len(px), nc), bool)
    near = np.zeros(len(px), bool)
    for j in range(nc):
        x, y = xs[j].astype("f8"), ys[j].astype("f8")
        # every branch able to meet the contour
        k0, k1 = int(np.floor((x.min() - px.max()) / 360)), int(np.ceil((x.max() - px.min()) / 360))
        for k in range(k0, k1 + 1):
            q = px + 360 * k
            m = (q > x.min() - 1) & (q < x.max() + 1) & (py > y.min() - 1) & (py < y.max() + 1)
            if m.any():
                t[m, j] |= point_in_poly(q[m], py[m], x, y)
                near[m] |= dist_to_poly(q[m], py[m], x, y) < margin
    return t, near


def judge(c, idx, t, near, what, **data):
    """attribution of points to contours"""
    idx = np.asarray(idx)
    ok = ~near
    for k in np.flatnonzero(ok):
        if idx[k] == -1:
            c.check(not t[k].any(), f"{what}: point {k} is in contour {np.flatnonzero(t[k])} but attributed to none", **data)
        else:
            c.check(0 <= idx[k] < t.shape[1] and bool(t[k, idx[k]]),
                    f"{what}: point {k} attributed to contour {idx[k]} which does not contain it", **data)
    c.count("points_attributed", (idx[ok] >= 0).sum())
    c.count("points_outside", (idx[ok] == -1).sum())


def cloud(rng, xs, ys, n):
    i = rng.integers(0, len(xs), n)
    w = xs.max(axis=1) - xs.min(axis=1)
    px = xs.mean(axis=1)[i] + rng.normal(0, 0.5, n) * w[i]
    py = np.clip(ys.mean(axis=1)[i] + rng.normal(0, 0.5, n) * w[i], -89.9, 89.9)
    px = px + 360.0 * rng.integers(-1, 2, n)
    k = rng.random(n) < 0.1
    px[k], py[k] = rng.uniform(-180, 360, k.sum()), rng.uniform(-89, 89, k.sum())
    return px, py


@CHECK.group("day", quick=120, thorough=2500, jobs=2)
def day(c):
    """many points to the many contours of one day (box hashing): the contour found contains the point, -1 only if none does"""
    from py_eddy_tracker.poly import insidepoly, poly_indexs

    rng = c.rng
    nc, npt = int(rng.integers(1, 25)), int(rng.integers(1, 200))
    dtype = "f8" if rng.random() < 0.6 else "f4"
    xs, ys = day_contours(rng, nc, int(rng.integers(20, 45)), rng.random() < 0.4, dtype)
    xs += (360 * rng.integers(-1, 2, (nc, 1))).astype(dtype)
    px, py = cloud(rng, xs.astype("f8"), ys.astype("f8"), npt)
    t, near = expected_table(px, py, xs, ys, 1e-4)
    idx = poly_indexs(px, py, xs, ys)
    judge(c, idx, t, near, "poly_indexs", px=px, py=py, xs=xs, ys=ys)
    got = insidepoly(px, py, xs, ys)
    c.equal(got[~near], t.any(axis=1)[~near], "insidepoly", px=px, py=py, xs=xs, ys=ys)
    if t.any():
        c.nontrivial(px, py, xs, ys, sample=dict(contours=nc, points=npt, inside=int(t.any(axis=1).sum())))


@CHECK.group("wide", quick=60, thorough=1000)
def wide(c):
    """polygons given by users may be very wide"""
    from py_eddy_tracker.poly import insidepoly

    rng = c.rng
    w = rng.uniform(20, 175)
    x, y = gen.star_polygon(rng, int(rng.integers(4, 30)), rng.uniform(-180, 360), rng.uniform(-20, 20), 1, 0.4)
    x = x.mean() + (x - x.mean()) * w
    y = np.clip(y.mean() + (y - y.mean()) * 40, -85, 85)
    n = 150
    px, py = rng.uniform(-180, 540, n), rng.uniform(-89, 89, n)
    t, near = expected_table(px, py, x[None], y[None], 1e-4)
    got = insidepoly(px, py, x[None].copy(), y[None].copy())
    c.equal(got[~near], t[:, 0][~near], f"wide polygon ({np.ptp(x):.0f} degrees)", x=x, y=y, px=px, py=py)
    c.count("polygons_wider_than_180", np.ptp(x) > 180)
    if t.any():
        c.nontrivial(x, y, px, sample=dict(width=float(np.ptp(x))))


@CHECK.group("observations", quick=60, thorough=800)
def observations(c):
    """contains(), inside(), mask_from_polygons on datasets, days and branches mixed"""
    rng = c.rng
    n = int(rng.integers(1, 20))
    base = rng.choice([0, 180, 360, 77.0])
    e = gen.eddies(rng, n, lon=base + rng.uniform(-6, 6, n), lat=rng.uniform(-60, 60) + rng.uniform(-5, 5, n),
                   sampling=int(rng.integers(6, 25)), star=rng.random() < 0.5)
    shift = 360 * rng.integers(-1, 2, n)
    for s in "es":
        e.obs["contour_lon_" + s] += shift[:, None]
    npt = int(rng.integers(1, 120))
    for intern, s in ((False, "e"), (True, "s")):
        xs, ys = e.obs["contour_lon_" + s], e.obs["contour_lat_" + s]
        px, py = cloud(rng, xs.astype("f8"), ys.astype("f8"), npt)
        t, near = expected_table(px, py, xs, ys, 1e-4)
        got = e.inside(px, py, intern=intern)
        c.equal(got[~near], t.any(axis=1)[~near], f"inside(intern={intern})")
        bad = rng.random(npt) < 0.2
        px_, py_ = px.copy(), py.copy()
        px_[bad & (rng.random(npt) < 0.7)] = np.nan
        py_[bad & ~np.isnan(px_)] = np.nan
        idx = e.contains(px_, py_, intern=intern)
        c.check((idx[bad] == -1).all(), "invalid position attributed to a contour")
        judge(c, idx[~bad], t[~bad], near[~bad], f"contains(intern={intern})", px=px, py=py, xs=xs, ys=ys)
    c.check((e.contains(np.full(3, np.nan), np.full(3, np.nan)) == -1).all(), "all invalid positions")
    c.check(e.contains(np.zeros(0), np.zeros(0)).size == 0, "no position")
    # polygons
    polys, m, near = [], np.zeros(n, bool), np.zeros(n, bool)
    for _ in range(int(rng.integers(1, 5))):
        x, y = polygon(rng, float(rng.choice(e.lon)) + rng.normal(0, 2) + 360 * rng.integers(-1, 2),
                       float(rng.choice(e.lat)), rng.uniform(0.5, 8))
        polys.append((x, y))
        t, nr = expected_table(e.lon, e.lat, x[None], y[None], 1e-4)
        m |= t[:, 0]
        near |= nr
    got = e.mask_from_polygons(polys)
    c.equal(got[~near], m[~near], "mask_from_polygons", polygons=polys, lon=e.lon, lat=e.lat)
    c.count("selected_by_polygon", m.sum())
    c.nontrivial(e.obs["contour_lon_e"], px)


@CHECK.group("shape", quick=40, thorough=600)
def shape(c):
    """polygon which encloses a track: the points inside are those of its contours"""
    rng = c.rng
    lo = float(rng.choice([0.0, 170.0, 355.0, -180.0]))
    e = gen.tracks(rng, int(rng.integers(1, 6)), max_len=int(rng.integers(1, 9)), step=float(rng.choice([0.1, 0.5, 2])), lon_range=(lo, lo + 3), lat_range=(-60, 60),
                   arrays=["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"], sampling=int(rng.integers(6, 20)))
    intern = bool(rng.integers(0, 2))
    nx, ny = e.intern(intern)
    got = e.shape_polygon(intern=intern)
    ids = np.unique(e.track)
    got = [g for g in got]
    c.check(len(got) == len(ids), f"{len(got)} polygons for {len(ids)} tracks")
    both = 0
    for (x, y), t in zip(got, ids):
        cx, cy = (e.obs[n][e.track == t].astype("f8") for n in (nx, ny))
        n = 200
        i = rng.integers(0, len(cx), n)
        px = rng.uniform(cx.min() - 0.3, cx.max() + 0.3, n)
        py = rng.uniform(cy.min() - 0.3, cy.max() + 0.3, n)
        k = rng.random(n) < 0.5
        px[k], py[k] = cx[i].mean(1)[k] + rng.normal(0, 0.4, k.sum()), cy[i].mean(1)[k] + rng.normal(0, 0.4, k.sum())
        inside, near = np.zeros(n, bool), np.zeros(n, bool)
        for a, b in zip(cx, cy):
            inside |= point_in_poly(px, py, a, b)
            near |= dist_to_poly(px, py, a, b) < 1e-4
        # rings separated by nan: parity
        par, cut = np.zeros(n, bool), np.flatnonzero(np.isnan(x))
        c.check(bool(np.isnan(y[cut]).all()) and len(cut) and cut[0] == 0, "pieces are separated by nan")
        for s, f in zip(cut, list(cut[1:]) + [len(x)]):
            par ^= point_in_poly(px, py, x[s + 1:f], y[s + 1:f])
        c.equal(par[~near], inside[~near], "points in the polygon of a track", x=x, y=y)
        both += bool(inside.any() and not inside.all())
    if both:
        c.nontrivial(e.obs, intern)
