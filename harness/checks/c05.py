"""C05 contour shape measures"""
import numpy as np

from harness import gen
from harness.core import Check
from harness.ref import close_ring, inter_area, shoelace

CHECK = Check("C05", "random simple polygons (few to many vertices, star shaped, convex, near circles), both orientations, "
              "every starting vertex, padded; non trivial: new polygon",
              ["the best-fit circle is the algebraic least-squares circle of the distinct vertices",
               "the convexity test is specified for contours without repeated vertices and away from flat corners",
               "the shape error is the documented formula with the intersection taken by pulling outside vertices on the circle"])


def polygon(rng):
    k = rng.integers(0, 3)
    r = 10 ** rng.uniform(-1, 5)
    x0, y0 = rng.normal(0, 2, 2) * r
    if k == 0:
        x, y = gen.star_polygon(rng, None, x0, y0, r, rng.uniform(0, 0.8))
    elif k == 1:
        x, y = gen.convex_polygon(rng, None, x0, y0, r)
    else:  # wavy circle
        n = int(rng.integers(8, 120))
        a = np.linspace(0, 2 * np.pi, n, endpoint=False) * rng.choice([-1, 1])
        rad = r * (1 + rng.uniform(0, 0.3) * np.cos(rng.integers(2, 6) * a))
        x, y = x0 + rad * np.cos(a), y0 + rad * np.sin(a)
        x, y = np.append(x, x[0]), np.append(y, y[0])
    return x, y, r


def variants(rng, x, y, r):
    """same curve written otherwise"""
    yield "same", x, y, 0, 0
    yield "reversed", x[::-1].copy(), y[::-1].copy(), 0, 0
    k = int(rng.integers(0, len(x) - 1))
    a, b = np.roll(x[:-1], k), np.roll(y[:-1], k)
    yield "rolled", np.append(a, a[0]), np.append(b, b[0]), 0, 0
    tx, ty = rng.normal(0, 1, 2) * r
    yield "translated", x + tx, y + ty, tx, ty


def kasa(x, y):
    """algebraic least squares circle, by an SVD solve of the centred system"""
    xm, ym = x.mean(), y.mean()
    s = max(np.hypot(x - xm, y - ym).max(), 1e-300)
    u, v = (x - xm) / s, (y - ym) / s
    A = np.array([u, v, np.ones(len(u))]).T
    a, b, c = np.linalg.lstsq(A, u * u + v * v, rcond=None)[0]
    return xm + s * a / 2, ym + s * b / 2, s * np.sqrt(c + (a * a + b * b) / 4)


def ref_error(x, y, x0, y0, r):
    d = np.hypot(x - x0, y - y0)
    f = np.minimum(1, r / np.maximum(d, 1e-300))
    a = abs(shoelace(x, y))
    i = abs(shoelace(x0 + (x - x0) * f, y0 + (y - y0) * f))
    return 100 * (a + np.pi * r * r - 2 * i) / (np.pi * r * r)


@CHECK.group("area", quick=200, thorough=4000)
def area(c):
    """shoelace area and its invariance"""
    from py_eddy_tracker.poly import create_vertice, poly_area, poly_area_vertice

    rng = c.rng
    x, y, r = polygon(rng)
    ref = abs(shoelace(x - x.mean(), y - y.mean()))
    scale = (np.abs(x).max() + np.abs(y).max()) ** 2
    for what, a, b, _, _ in variants(rng, x, y, r):
        c.close(poly_area(a, b), ref, f"area ({what})", rtol=1e-9, atol=1e-9 * scale, x=a, y=b)
        c.close(poly_area_vertice(create_vertice(a, b)), ref, f"area of vertices ({what})", rtol=1e-9, atol=1e-9 * scale)
    xp, yp = gen.pad_ring(x, y, len(x) + int(rng.integers(1, 9)))
    c.close(poly_area(xp, yp), ref, "area of a padded contour", rtol=1e-9, atol=1e-9 * scale)
    c.nontrivial(x, y, sample=dict(x=x[:4], y=y[:4], area=ref))


@CHECK.group("circle", quick=250, thorough=5000)
def circle(c):
    """least-squares circle and shape error against definitions computed with numpy"""
    from py_eddy_tracker.poly import fit_circle, fit_circle_

    rng = c.rng
    x, y, r = polygon(rng)
    u, v = close_ring(x, y)
    x0, y0, rad = kasa(u, v)
    if not rad < 100 * r:
        return
    err = ref_error(x, y, x0, y0, rad)
    tol = 1e-6 * r
    for what, a, b, tx, ty in variants(rng, x, y, r):
        for f in (fit_circle, fit_circle_):
            if f is fit_circle_ and max(abs(x0), abs(y0)) > 20 * r:
                continue  # not conditioned
            gx, gy, gr, ge = f(a, b)
            c.close([gx, gy, gr], [x0 + tx, y0 + ty, rad], f"{f.__name__} ({what})", rtol=1e-6, atol=tol, x=a, y=b)
            c.close(ge, err, f"shape error of {f.__name__} ({what})", rtol=1e-5, atol=1e-4, x=a, y=b)
    c.count("fits")
    # polygon dense enough: the documented shape error is the area not shared
    n = 400
    a = np.linspace(0, 2 * np.pi, n, endpoint=False)
    rr = rng.uniform(0.5, 50)
    wave = rr * (1 + rng.uniform(0, 0.3) * np.cos(rng.integers(2, 5) * a + rng.uniform(0, 6)))
    cx, cy = rng.normal(0, 10, 2)
    px, py = cx + wave * np.cos(a), cy + wave * np.sin(a)
    px, py = np.append(px, px[0]), np.append(py, py[0])
    gx, gy, gr, ge = fit_circle(px, py)
    t = np.linspace(0, 2 * np.pi, 720, endpoint=False)
    inter = inter_area(px, py, gx + gr * np.cos(t), gy + gr * np.sin(t))
    true = 100 * (abs(shoelace(px, py)) + np.pi * gr**2 - 2 * inter) / (np.pi * gr**2)
    c.check(abs(true - ge) < 0.3, f"shape error {ge} and area not shared {true}", x=px, y=py)
    c.nontrivial(x, y, sample=dict(n=len(x), radius=rad, error=err))


@CHECK.group("exact_circle", quick=120, thorough=1500)
def exact_circle(c):
    """exact circles are recovered with a null error, in metres and degrees"""
    from py_eddy_tracker.poly import fit_circle, fit_circle_, shape_error

    rng = c.rng
    n = int(rng.integers(4, 120))
    r = 10 ** rng.uniform(-1, 5)
    x0, y0 = rng.normal(0, 3, 2) * r
    a = np.sort(rng.uniform(0, 2 * np.pi, n)) * rng.choice([-1, 1])
    if rng.random() < 0.5:
        a = np.linspace(0, 2 * np.pi, n, endpoint=False)
    if np.diff(np.append(np.sort(np.abs(a)), np.abs(a).min() + 2 * np.pi)).max() > 3:
        return
    x, y = x0 + r * np.cos(a), y0 + r * np.sin(a)
    x, y = np.append(x, x[0]), np.append(y, y[0])
    for f in (fit_circle, fit_circle_):
        gx, gy, gr, ge = f(x, y)
        c.close([gx, gy, gr], [x0, y0, r], f"{f.__name__} does not recover a circle", rtol=1e-6, atol=1e-5 * r, x=x, y=y)
        # polygon inscribed in the circle: all of it is shared
        e = 100 - 100 * abs(shoelace(x, y)) / (np.pi * r * r)
        c.close(ge, e, "shape error of a circle", rtol=1e-4, atol=1e-3)
    f = rng.uniform(0.3, 2)
    c.close(shape_error(x, y, x0, y0, r * f), ref_error(x, y, x0, y0, r * f), "shape error", rtol=1e-6, atol=1e-6)
    c.nontrivial(x, y)


@CHECK.group("ellipse", quick=60, thorough=600)
def ellipse(c):
    """ellipses fitted on ellipses are recovered"""
    from py_eddy_tracker.poly import fit_ellipse

    rng = c.rng
    n = int(rng.integers(8, 80))
    A, B = rng.uniform(1, 3), rng.uniform(0.4, 0.9)
    th = rng.uniform(0.2, 1.3) * rng.choice([-1, 1])
    # the linear form cannot hold an ellipse through the origin
    x0, y0 = rng.normal(0, 0.1, 2) if rng.random() < 0.5 else np.array([4.0, 4.0]) * rng.choice([-1, 1], 2)
    t = np.linspace(0, 2 * np.pi, n)
    x = x0 + A * np.cos(t) * np.cos(th) - B * np.sin(t) * np.sin(th)
    y = y0 + A * np.cos(t) * np.sin(th) + B * np.sin(t) * np.cos(th)
    gx, gy, ga, gb, gt = fit_ellipse(x, y)
    c.close([gx, gy], [x0, y0], "centre of the ellipse", rtol=1e-5, atol=1e-5, x=x, y=y)
    c.close(sorted([abs(ga), abs(gb)]), sorted([A, B]), "axes of the ellipse", rtol=1e-5, atol=1e-5, x=x, y=y)
    c.nontrivial(x, y)


def turns(x, y):
    u, v = close_ring(x, y)
    ax, ay = np.roll(u, -1) - u, np.roll(v, -1) - v
    z = ax * np.roll(ay, -1) - ay * np.roll(ax, -1)
    n = np.hypot(ax, ay)
    return z / (n * np.roll(n, -1))


@CHECK.group("convexity", quick=250, thorough=5000)
def convexity(c):
    """is_convex against signs of cross products, both orientations and any first vertex"""
    from py_eddy_tracker.poly import convex, convexs

    rng = c.rng
    x, y, r = polygon(rng)
    if rng.random() < 0.4:  # all vertices but one on a convex contour
        x, y = gen.convex_polygon(rng, None, x.mean(), y.mean(), r)
        x, y = x[:-1].copy(), y[:-1].copy()
        k = int(rng.choice([0, 1, len(x) - 2, len(x) - 1, rng.integers(0, len(x))]))
        mx, my = (x[k - 1] + x[(k + 1) % len(x)]) / 2, (y[k - 1] + y[(k + 1) % len(x)]) / 2
        f = rng.uniform(0.02, 0.3)
        x[k], y[k] = mx + f * (x.mean() - mx), my + f * (y.mean() - my)
        x, y = np.append(x, x[0]), np.append(y, y[0])
    s = turns(x, y)
    if np.abs(s).min() < 1e-6:
        return
    ref = bool((s > 0).all() or (s < 0).all())
    for what, a, b, _, _ in variants(rng, x, y, r):
        if what == "translated":
            continue
        c.check(bool(convex(a, b)) == ref, f"convexity of a {'' if ref else 'non '}convex contour ({what})", x=a, y=b)
    n = len(x)
    X, Y, R = [x], [y], [ref]
    for _ in range(3):
        a, b = gen.convex_polygon(rng, n - 1) if rng.random() < 0.5 else gen.star_polygon(rng, n - 1)
        s = turns(a, b)
        if np.abs(s).min() < 1e-6:
            continue
        X.append(a), Y.append(b), R.append(bool((s > 0).all() or (s < 0).all()))
    c.equal(convexs(np.array(X), np.array(Y)), np.array(R), "convexs", X=X, Y=Y)
    c.count("convex" if ref else "not_convex")
    c.nontrivial(x, y)


@CHECK.group("convex_dataset", quick=20, thorough=200)
def convex_dataset(c):
    """convexity of contours of a dataset"""
    rng = c.rng
    e = gen.eddies(rng, int(rng.integers(1, 12)), sampling=int(rng.integers(5, 20)), star=False, pad=False, lat_range=(-30, 30))
    ref = []
    for i in range(len(e)):
        s = turns(e.obs["contour_lon_e"][i].astype("f8"), e.obs["contour_lat_e"][i].astype("f8"))
        ref.append(None if np.abs(s).min() < 1e-4 else bool((s > 0).all() or (s < 0).all()))
    got = e.is_convex
    got = got() if callable(got) else got
    for g, r in zip(got, ref):
        if r is not None:
            c.check(bool(g) == r, "is_convex")
    c.nontrivial(e.obs["contour_lon_e"])


@CHECK.group("hull", quick=250, thorough=5000)
def hull(c):
    """specified for anticlockwise contours"""
    from scipy.spatial import ConvexHull

    from py_eddy_tracker.poly import get_convex_hull

    rng = c.rng
    x, y, r = polygon(rng)
    if shoelace(x, y) < 0:
        x, y = x[::-1].copy(), y[::-1].copy()
    k = int(rng.integers(0, len(x) - 1))
    a, b = np.roll(x[:-1], k), np.roll(y[:-1], k)
    x, y = np.append(a, a[0]), np.append(b, b[0])
    h = ConvexHull(np.array([x[:-1], y[:-1]]).T)
    ref = set(h.vertices.tolist())
    # flat corners are ambiguous
    hv = np.sort(h.vertices)
    if len(hv) >= 3 and np.abs(turns(np.append(x[hv], x[hv[0]]), np.append(y[hv], y[hv[0]]))).min() < 1e-6:
        return
    # a vertex outside the hull list but almost on it is ambiguous as well
    d = (h.equations[:, :2] @ np.array([x[:-1], y[:-1]]) + h.equations[:, 2:]).max(axis=0)
    if ((d > -1e-7 * r) & ~np.isin(np.arange(len(x) - 1), hv)).any():
        return
    hx, hy = get_convex_hull(x, y)
    c.check(hx[0] == hx[-1] and hy[0] == hy[-1], "hull not closed", x=x, y=y)
    got = sorted(zip(hx[:-1].tolist(), hy[:-1].tolist()))
    exp = sorted((float(x[i]), float(y[i])) for i in ref)
    c.check(got == exp, f"hull has {len(got)} vertices, expected {len(exp)}", x=x, y=y, hx=hx, hy=hy)
    c.check(bool((turns(hx, hy) > 0).all()), "hull is not convex", x=x, y=y)
    c.count("vertices_dropped", len(x) - 1 - len(exp))
    c.nontrivial(x, y)


@CHECK.group("path", quick=120, thorough=2000)
def path(c):
    """circles of geographic contours (methods of paths): fitted in the local plane, or of the same area"""
    import py_eddy_tracker.dataset.grid  # noqa
    from matplotlib.path import Path
    from py_eddy_tracker.generic import coordinates_to_local, local_to_coordinates

    rng = c.rng
    r = 10 ** rng.uniform(-1.5, 0.3)
    lat = float(rng.uniform(-75, 75))
    x, y = (gen.star_polygon if rng.random() < 0.5 else gen.convex_polygon)(rng, None, 0, 0, r)
    x, y = x / np.cos(np.radians(lat)) + float(rng.choice([0, 180, 360, rng.uniform(-360, 360)])), y + lat
    if rng.random() < 0.1:  # all positions in the same place
        x, y = np.full(5, x[0]), np.full(5, y[0])
    p = Path(np.array([x, y]).T)
    eq, fit = p.fit_circle("equal_area"), p.fit_circle()
    if x[0] == x[1] and y[0] == y[1] and len(set(x)) == 1:
        for v in (eq, fit):
            c.check(tuple(v[:2]) == (0, -90) and np.isnan(v[2]) and np.isnan(v[3]), f"contour in one place: {v}")
        return
    lon0, lat0 = x[1:].mean(), y[1:].mean()
    u, v = coordinates_to_local(x, y, lon0, lat0)
    area = abs(shoelace(u, v))
    c.close(eq[:3], [lon0, lat0, np.sqrt(area / np.pi)], "circle of the same area", rtol=1e-7, atol=1e-9)
    c.check(bool(np.isnan(eq[3])), "a circle of the same area has no error")
    a, b = close_ring(u, v)
    x0, y0, rad = kasa(a, b)
    if not rad < 20 * np.sqrt(area):
        return
    gx, gy = local_to_coordinates(x0, y0, lon0, lat0)
    c.check(abs((gx - fit[0] + 180) % 360 - 180) < 1e-6 and abs(fit[0] - lon0) <= 180 and abs(gy - fit[1]) < 1e-6, f"centre {fit[:2]}, expected {gx, gy}")
    c.close(fit[2], rad, "radius", rtol=1e-6)
    c.close(fit[3], ref_error(u, v, x0, y0, rad), "shape error", rtol=1e-5, atol=1e-4)
    c.close(p.fit_circle()[:3], fit[:3], "second answer", rtol=0, atol=0)
    c.nontrivial(x, y)
