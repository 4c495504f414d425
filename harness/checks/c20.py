"""C20 association of two sets of eddies"""
import numpy as np

from harness import gen, ref
from harness.core import Check

CHECK = Check("C20", "pairs of crowded sets of 0 to 25 eddies (also across both ends of longitudes) associated by the default, "
              "overlap and Chelton trackers; non trivial when several eddies compete for the same partner",
              ["pairs whose distance, score or ratio is on the very threshold are not judged, nor exactly equal costs",
               "amplitudes and radii are positive",
               "the Chelton tracker gives each eddy its closest eligible one, an eddy claimed several times goes to the claimant "
               "of largest amplitude"])


def crowd(rng, cls, n, lon0, lat0, spread, **kw):
    e = gen.eddies(rng, n, cls=cls, lon=(lon0 + rng.uniform(-spread, spread, n)), lat=lat0 + rng.uniform(-spread, spread, n),
                   sampling=kw.pop("sampling", 8), sign=1, **kw)
    e.obs["amplitude"][:] = rng.uniform(0.01, 0.4, n) if rng.random() < 0.5 else rng.uniform(0.1, 0.2, n)
    return e


def sizes(rng, big=25):
    return tuple(int(rng.choice([0, 1, 2, rng.integers(2, big)], p=[0.04, 0.06, 0.1, 0.8])) for _ in range(2))


def judge_matching(c, i, j, cost, eligible, value, what):
    """one-to-one, eligible, stable, with its costs"""
    n, m = eligible.shape
    i, j = np.asarray(i), np.asarray(j)
    c.check(len(i) == len(j) == len(cost), f"{what}: sizes of the answer")
    c.check(len(np.unique(i)) == len(i) and len(np.unique(j)) == len(j), f"{what}: an eddy is linked twice", i=i, j=j)
    c.check(not len(i) or (i.min() >= 0 and i.max() < n and j.min() >= 0 and j.max() < m), f"{what}: index out of the sets")
    c.check(bool(eligible[i, j].all()), f"{what}: link between ineligible eddies", i=i, j=j)
    c.check(not np.ma.getmaskarray(cost).any(), f"{what}: masked cost")
    c.close(np.asarray(cost, "f8"), value[i, j], f"{what}: costs", rtol=2e-4, atol=1e-6)
    pi, pj = np.full(n, np.inf), np.full(m, np.inf)
    pi[i], pj[j] = value[i, j], value[i, j]
    tol = 1 - 1e-5
    bad = eligible & (value < pi[:, None] * tol) & (value < pj[None] * tol)
    bad[i, j] = False
    c.check(not bad.any(), f"{what}: eligible pairs {np.argwhere(bad)[:3].tolist()} prefer each other to their partners",
            i=i, j=j, value=value, eligible=eligible)
    c.count("links", len(i))
    c.count("eligible_pairs", eligible.sum())
    return bool((eligible.sum(0) > 1).any() or (eligible.sum(1) > 1).any())


def relabel(c, a, b, res, what, shift=True):
    """neither the order of rows nor the branch of longitudes matter"""
    rng = c.rng
    pa, pb = rng.permutation(len(a)), rng.permutation(len(b))
    a2, b2 = a.index(pa), b.index(pb)
    for k in ("cmin",):
        if hasattr(a, k):
            setattr(a2, k, getattr(a, k))
    if shift:
        for e in (a2, b2):
            k = 360 * rng.integers(-1, 2, len(e))
            for f in e.fields:
                if f in ("lon", "lon_max"):
                    e.obs[f][:] += k
                elif f.startswith("contour_lon"):
                    e.obs[f][:] += k[:, None]
    i, j, _ = a2.tracking(b2)
    got = set(zip(pa[i].tolist(), pb[j].tolist()))
    exp = set(zip(np.asarray(res[0]).tolist(), np.asarray(res[1]).tolist()))
    c.check(got == exp, f"{what}: other links for other rows order and longitudes branches: {sorted(got ^ exp)[:4]}")


def ties(value, eligible):
    v = np.sort(value[eligible])
    return len(v) > 1 and (np.diff(v) <= 1e-6 * np.abs(v[1:])).any()


@CHECK.group("default", quick=400, thorough=8000, jobs=2)
def default(c):
    """associations of the default tracker: one to one, within the search zone, no unlinked pair better than both of its members' links"""
    from py_eddy_tracker.observations.observation import EddiesObservations

    rng = c.rng
    n, m = sizes(rng)
    lon0, lat0, sp = rng.choice([0, 180, 359.5, 200, -180]), rng.uniform(-65, 65), rng.choice([0.3, 1, 2, 4])
    a = crowd(rng, EddiesObservations, n, lon0, lat0, sp, arrays=[])
    b = crowd(rng, EddiesObservations, m, lon0, lat0, sp, arrays=[])
    d = np.array([[float(ref.haversine(x0, y0, x1, y1)) / 1000 for x1, y1 in zip(b.lon, b.lat)] for x0, y0 in zip(a.lon, a.lat)]
                 ).reshape(n, m)
    if (np.abs(d - 125) < 0.01).any():
        return
    el = d < 125
    A, R = [np.asarray(x, "f8") for x in (a.amplitude, b.amplitude)], [np.asarray(x, "f8") for x in (a.radius_s, b.radius_s)]
    v = np.sqrt(((A[0][:, None] - A[1]) / A[0][:, None]) ** 2 + ((R[0][:, None] - R[1]) / R[0][:, None]) ** 2 + (d / 125) ** 2)
    snap = a.obs.tobytes(), b.obs.tobytes()
    res = a.tracking(b)
    c.check(snap == (a.obs.tobytes(), b.obs.tobytes()), "tracking modified its inputs")
    conflict = judge_matching(c, *res, el, v, "default tracker")
    if not ties(v, el):
        relabel(c, a, b, res, "default tracker")
    if conflict:
        c.nontrivial(a.obs, b.obs, sample=dict(sizes=[n, m], eligible=int(el.sum()), links=len(res[0])))


@CHECK.group("area", quick=120, thorough=2500, jobs=4, warm=True)
def area(c):
    """same for the overlap tracker"""
    from py_eddy_tracker.featured_tracking.area_tracker import AreaTracker

    rng = c.rng
    n, m = sizes(rng, 8)
    lon0, lat0, sp = rng.choice([0, 180, 359.5, 200]), rng.uniform(-60, 60), rng.choice([0.5, 1, 2])
    a = crowd(rng, AreaTracker, n, lon0, lat0, sp, r=(0.5, 1.5), pad=False)
    b = crowd(rng, AreaTracker, m, lon0, lat0, sp, r=(0.5, 1.5), pad=False)
    cmin = float(rng.choice([0.2, 0, 0.05, 0.5]))
    if cmin != 0.2:
        a.cmin = b.cmin = cmin
    s = np.zeros((n, m))
    for i in range(n):
        for j in range(m):
            xa, ya = a.contour_lon_e[i].astype("f8"), a.contour_lat_e[i].astype("f8")
            xb, yb = b.contour_lon_e[j].astype("f8"), b.contour_lat_e[j].astype("f8")
            w = ref.inter_area(xa, ya, xb, yb)
            s[i, j] = w / (abs(ref.shoelace(xa, ya)) + abs(ref.shoelace(xb, yb)) - w)
    if (np.abs(s - cmin) < 2e-3)[s > 0].any():
        return
    el = s > cmin
    v = 1 - s
    snap = a.obs.tobytes(), b.obs.tobytes()
    res = a.tracking(b)
    c.check(snap == (a.obs.tobytes(), b.obs.tobytes()), "tracking modified its inputs")
    i, j, cost = res
    c.close(np.asarray(cost, "f8"), v[i, j], "area tracker: costs", rtol=0, atol=3e-3)
    # scores are computed by an other geometry engine
    conflict = judge_loose(c, i, j, el, v)
    if not loose_ties(v, el):
        relabel(c, a, b, res, "area tracker")
    if conflict:
        c.nontrivial(a.obs, b.obs, cmin, sample=dict(sizes=[n, m], eligible=int(el.sum()), links=len(i), cmin=cmin))


def loose_ties(v, el):
    x = np.sort(v[el])
    return len(x) > 1 and (np.diff(x) < 5e-3).any()


def judge_loose(c, i, j, el, v, eps=3e-3):
    n, m = el.shape
    i, j = np.asarray(i), np.asarray(j)
    c.check(len(np.unique(i)) == len(i) and len(np.unique(j)) == len(j), "area tracker: an eddy is linked twice", i=i, j=j)
    c.check(bool(el[i, j].all()), "area tracker: link under the minimal score", scores=1 - v[i, j])
    pi, pj = np.full(n, np.inf), np.full(m, np.inf)
    pi[i], pj[j] = v[i, j], v[i, j]
    bad = el & (v < pi[:, None] - eps) & (v < pj[None] - eps)
    bad[i, j] = False
    c.check(not bad.any(), f"area tracker: eligible pairs {np.argwhere(bad)[:3].tolist()} prefer each other", i=i, j=j, cost=v)
    c.count("links", len(i))
    c.count("eligible_pairs", el.sum())
    return bool((el.sum(0) > 1).any() or (el.sum(1) > 1).any())


def chelton_zone(lat):
    a = np.abs(np.asarray(lat, "f8"))
    return np.where(a < 5, 1.5, np.where(a > 23, 1.05, 1.5 + (a - 5) / 18 * (1.05 - 1.5)))


@CHECK.group("chelton", quick=200, thorough=4000, jobs=2)
def chelton(c):
    """same for the Chelton rules"""
    from py_eddy_tracker.featured_tracking.old_tracker_reference import CheltonTracker

    rng = c.rng
    n, m = sizes(rng, 20)
    # open sea, except sometimes
    coast = rng.random() < 0.25
    lon0, lat0 = [(200, -30), (220, 20), (180, 3), (-150, 35), (359.9, -40), (85, -20)][rng.integers(0, 6)] if not coast else \
        [(356, 42), (280, 25), (15, 40), (130, 5)][rng.integers(0, 4)]
    sp = rng.choice([0.5, 1.5, 3])
    a = crowd(rng, CheltonTracker, n, lon0, lat0, sp, arrays=[])
    b = crowd(rng, CheltonTracker, m, lon0, lat0, sp, arrays=[])
    for e in (a, b):
        if rng.random() < 0.3:
            e.obs["radius_e"][:] *= rng.uniform(0.3, 3, len(e))
    L = [np.asarray(x, "f8") for x in (a.lon, b.lon)]
    B = [np.asarray(x, "f8") for x in (a.lat, b.lat)]
    zone = chelton_zone(B[0])[:, None]
    minor = 1.05
    # ellipse of the degrees frame, from zone degrees at west to minor degrees at east
    dx = (L[1][None] - L[0][:, None] + 180) % 360 - 180 + (zone - minor) / 2
    dy = B[1][None] - B[0][:, None]
    e2 = (dx / ((zone + minor) / 2)) ** 2 + (dy / minor) ** 2
    ra = np.asarray(b.amplitude, "f8")[None] / np.asarray(a.amplitude, "f8")[:, None]
    rr = np.asarray(b.radius_e, "f8")[None] / np.asarray(a.radius_e, "f8")[:, None]
    near = np.abs(e2 - 1) < 1e-5
    for r in (ra, rr):
        near |= (np.abs(r - 2.5) < 1e-5) | (np.abs(r - 0.4) < 1e-5)
    if near.any():
        return
    el = (e2 < 1) & (ra > 0.4) & (ra < 2.5) & (rr > 0.4) & (rr < 2.5)
    g = CheltonTracker.GROUND
    z = g.grid("mask")
    xg, yg = np.asarray(g.x_c), np.asarray(g.y_c)
    px = [np.round((l - xg[0]) % 360 / (xg[1] - xg[0])).astype(int) % xg.size for l in L]
    py = [np.round((q - yg[0]) / (yg[1] - yg[0])).astype(int) for q in B]
    land = [np.asarray(z[i, j] == 1) for i, j in zip(px, py)]
    # what is sure: blocked when one end is on land, free when there is no land around both
    sure_no = land[0][:, None] | land[1][None]
    sure_yes = np.zeros((n, m), bool)
    for i, j in np.argwhere(el):
        k0, k1 = px[0][i], px[1][j]
        d = (k1 - k0 + xg.size // 2) % xg.size - xg.size // 2
        xs = np.arange(min(k0, k0 + d) - 2, max(k0, k0 + d) + 3) % xg.size
        ys = slice(min(py[0][i], py[1][j]) - 2, max(py[0][i], py[1][j]) + 3)
        sure_yes[i, j] = not (z[xs, ys] == 1).any()
    # the library's answer
    res = a.tracking(b)
    i, j, cost = res
    d = np.array([[float(ref.haversine(x0, y0, x1, y1)) / 1000 for x1, y1 in zip(*(L[1], B[1]))] for x0, y0 in zip(L[0], B[0])]
                 ).reshape(n, m)
    mask = np.zeros((n, m), bool)
    if n and m:
        mask = np.asarray(a.mask_function(b, a.distance(b)))
    c.check(not (mask & ~el).any(), f"chelton: pairs {np.argwhere(mask & ~el)[:3].tolist()} out of the search zone or of the ratios")
    c.check(not (mask & sure_no).any(), "chelton: pair with an end on land")
    c.check(bool(mask[el & sure_yes].all()), f"chelton: eligible pairs {np.argwhere(el & sure_yes & ~mask)[:3].tolist()} rejected")
    c.count("eligible_pairs", mask.sum())
    c.count("blocked_by_land", (el & ~mask).sum())
    c.check(len(np.unique(i)) == len(i) and len(np.unique(j)) == len(j), "chelton: an eddy is linked twice")
    c.check(bool(mask[i, j].all()), "chelton: link between ineligible eddies")
    c.close(np.asarray(cost, "f8"), d[i, j], "chelton: costs", rtol=1e-3)
    v = np.where(mask, d, np.inf)
    exp = set()
    if n and m:
        best = np.where(mask.any(1), v.argmin(1), -1)
        amp = np.asarray(a.amplitude, "f8")
        for q in np.unique(best[best >= 0]):
            k = np.flatnonzero(best == q)
            exp.add((int(k[amp[k].argmax()]), int(q)))
    tie = ties(v, mask)
    if not tie:
        got = set(zip(i.tolist(), j.tolist()))
        c.check(got == exp, f"chelton: links {sorted(got ^ exp)[:4]} in excess or missing", cost=v)
        relabel(c, a, b, res, "chelton")
    c.count("links", len(i))
    if (mask.sum(0) > 1).any() or (mask.sum(1) > 1).any():
        c.nontrivial(a.obs, b.obs, sample=dict(sizes=[n, m], eligible=int(mask.sum()), links=len(i), coast=bool(coast)))


@CHECK.group("solver", quick=300, thorough=6000)
def solver(c):
    """conflict resolution on any cost matrix"""
    from py_eddy_tracker.observations.observation import EddiesObservations as E

    rng = c.rng
    n, m = sizes(rng, 30)
    el = rng.random((n, m)) < rng.choice([0, 0.05, 0.2, 0.6, 1])
    v = rng.uniform(0, 5, (n, m)).astype("f4")
    if rng.random() < 0.3:  # ties
        v = np.round(v, 0).astype("f4")
    # what lies under the mask is not a cost
    data = np.where(el, v, rng.choice([0, -1, np.nan, 1e20, 0.001], (n, m))).astype("f4")
    mat = np.ma.array(data, mask=~el)
    keep = mat.copy()
    i, j = np.where(E.solve_simultaneous(mat))
    conflict = judge_matching(c, i, j, v[i, j], el, v.astype("f8"), "solve_simultaneous")
    c.check(bool((mat.mask == keep.mask).all()), "solve_simultaneous modified its input")
    if not ties(v.astype("f8"), el):
        # greedy by cost is the only stable matching
        exp, ui, uj = set(), set(), set()
        for k in np.argsort(np.where(el, v, np.inf), axis=None):
            p, q = divmod(int(k), m)
            if el[p, q] and p not in ui and q not in uj:
                exp.add((p, q)), ui.add(p), uj.add(q)
        c.check(set(zip(i.tolist(), j.tolist())) == exp, "solve_simultaneous is not the stable pairing")
    if conflict:
        c.nontrivial(el, v)


@CHECK.group("ellipsoid", quick=100, thorough=1500)
def ellipsoid(c):
    """search zones which a tracker can use"""
    from py_eddy_tracker.observations.observation import EddiesObservations as E

    rng = c.rng
    n, m = sizes(rng, 20)
    lon0, lat0, sp = rng.choice([0, 180, 359.5, 200]), rng.uniform(-60, 60), rng.choice([0.5, 1, 2])
    a = crowd(rng, E, n, lon0, lat0, sp, arrays=[])
    b = crowd(rng, E, m, lon0, lat0, sp, arrays=[])
    minor, major = float(rng.uniform(20, 80)), None
    major = minor + float(rng.uniform(5, 100))
    if rng.random() < 0.4:
        major = minor + rng.uniform(5, 100, n)
    east, shifted = bool(rng.integers(0, 2)), bool(rng.integers(0, 2))
    if shifted:
        return  # mixes km and degrees; not used by any tracker
    got = np.asarray(a.fixed_ellipsoid_mask(b, minor=minor, major=major, only_east=east))
    c.check(got.shape == (n, m), f"shape {got.shape}")
    for i in range(n):
        M = float(np.broadcast_to(major, n)[i])
        f = np.sqrt(M**2 - minor**2) / (111.2 * np.cos(np.radians(float(a.lat[i]))))
        for j in range(m):
            x1, y1 = float(b.lon[j]), float(b.lat[j])
            d = ref.haversine(float(a.lon[i]), float(a.lat[i]), x1, y1) / 1000
            d2 = (ref.haversine(float(a.lon[i]) - f, float(a.lat[i]), x1, y1) + ref.haversine(float(a.lon[i]) + f, float(a.lat[i]), x1, y1)) / 1000
            if min(abs(d - minor), abs(d - M), abs(d2 - 2 * M)) < 0.01:
                continue
            w = (x1 - float(a.lon[i]) + 180) % 360 - 180
            e = d < minor or (d <= M and d2 < 2 * M and not (east and w < 0))
            c.check(bool(got[i, j]) == bool(e), f"pair {i},{j} at {d:.1f} km (sum to the foci {d2:.1f}, limits {minor:.1f} {M:.1f}): {bool(got[i, j])}")
            c.count("pairs")
    if n * m:
        c.nontrivial(a.lon, b.lon, minor)


@CHECK.group("common_area", quick=60, thorough=600)
def common_area(c):
    """cost from the common area of contours"""
    from py_eddy_tracker.observations.observation import EddiesObservations as E

    rng = c.rng
    n = int(rng.integers(1, 12))
    lon0 = rng.choice([0, 180, 359.5, 200])
    a = crowd(rng, E, n, lon0, rng.uniform(-50, 50), 1, pad=False, r=(0.5, 1.5))
    k = rng.uniform(-1, 1, (2, n))
    b = crowd(rng, E, n, lon0, float(a.lat.mean()), 1, pad=False, r=(0.5, 1.5))
    s = 360 * rng.integers(-1, 2, n)
    intern = bool(rng.integers(0, 2))
    nx, ny = E.intern(intern)
    exp = np.zeros(n)
    for i in range(n):
        xa, ya, xb, yb = a[nx][i].astype("f8"), a[ny][i].astype("f8"), b[nx][i].astype("f8"), b[ny][i].astype("f8")
        exp[i] = 1 - ref.inter_area(xa, ya, xb, yb) / min(abs(ref.shoelace(xa, ya)), abs(ref.shoelace(xb, yb)))
    b.obs[nx][:] = b.obs[nx] + s[:, None]
    got = E.cost_function_common_area(a.obs, b.obs, None, intern=intern)
    c.close(np.asarray(got.filled(1), "f8"), exp, "cost of the common area", rtol=0, atol=3e-3)
    c.check(not (np.ma.getmaskarray(got) & (exp < 0.99)).any(), "pair in common masked")
    if (exp < 1).any():
        c.nontrivial(a.obs, b.obs)
