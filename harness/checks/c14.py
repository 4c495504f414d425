"""C14 relations between identifications"""
import numpy as np

from harness import ident
from harness.core import Check
from harness.ref import haversine

CHECK = Check("C14", "pairs of identifications on the same random ocean: negated, rolled or relabelled in longitude, mirrored, in other "
              "units, scaled, moved by a number of steps, in other memory layouts; non trivial: new ocean and relation with an eddy",
              ["pairs where a shape error is within 1e-3 of its limit are skipped and counted",
               "for negation, nested eddies of opposite signs are not judged (anticyclones are served first)",
               "where positions along a contour are resampled from another start, sizes agree within 1% and speeds within 5%"])


def ident_run(s, p, **kw):
    g = ident.make_grid(s, **kw)
    return g, *g.eddy_identification("h", "u", "v", ident.DATE, **p)


def borderline(g, p, tol=1e-3):
    e = [q.fit_circle()[3] for coll in g.contours.contours.collections for q in coll.get_paths()]
    e = np.array(e, "f8")
    return bool((np.abs(e - p["shape_error"]) < tol).any())


def align(c, a, b, lon, lat, height, what, pos=None):
    """index in b of every eddy of a (moved to lon, lat, height)"""
    c.check(len(a) == len(b), f"{what}: {len(b)} eddies instead of {len(a)}")
    out = []
    for k in range(len(a)):
        cost = np.abs(b.height_external_contour - height[k]) * 1e3 + haversine(lon[k], lat[k], b.lon_max, b.lat_max) / 1e4
        cost = cost + np.abs(b.num_point_e.astype(int) - int(a.num_point_e[k])) + np.abs(b.amplitude - a.amplitude[k]) * 10
        out.append(int(np.argmin(cost)))
    c.check(len(set(out)) == len(out), f"{what}: eddies not in correspondence")
    return np.array(out, int)


def compare(c, a, b, what, lon=lambda x: x, lat=lambda y: y, height=lambda h: h, exact=True, fac=1.0, ufac=1.0):
    if len(a) == 0:
        c.check(len(b) == 0, f"{what}: {len(b)} eddies instead of none")
        return
    i = align(c, a, b, lon(a.lon_max.astype("f8")), lat(a.lat_max.astype("f8")), height(a.height_external_contour.astype("f8")), what)
    b = b.extract_with_mask(np.ones(len(b), bool))
    B = b.obs[i]
    A = a.obs
    tol = 3e-5 if exact else 1e-2
    c.close(B["amplitude"], A["amplitude"] * fac, f"{what}: amplitude", rtol=1e-5, atol=1e-6)
    c.close(B["height_external_contour"], height(A["height_external_contour"].astype("f8")), f"{what}: level", rtol=1e-5, atol=2e-6)
    c.equal(B["num_point_e"], A["num_point_e"], f"{what}: number of vertices") if exact else None
    c.close(B["radius_e"], A["radius_e"], f"{what}: effective radius", rtol=tol)
    c.close(B["shape_error_e"], A["shape_error_e"], f"{what}: shape error", rtol=tol, atol=0.3 if exact else 1.5)
    same = np.abs(B["height_max_speed_contour"] - height(A["height_max_speed_contour"].astype("f8"))) < 1e-5
    d = np.abs((B["lon"] - lon(A["lon"].astype("f8")) + 180) % 360 - 180)
    small = 1e-4 if exact else 0.02
    deg = A["radius_s"] / 111e3 / np.cos(np.radians(A["lat"])) if not exact else 1.0
    c.check(bool((d[same] < small * (np.ones(len(A)) * deg)[same] + 1e-4).all()), f"{what}: longitudes off by {d[same].max(initial=0)}")
    dl = np.abs(B["lat"] - lat(A["lat"].astype("f8")))
    c.check(bool((dl[same] < small * (np.ones(len(A)) * deg)[same] + 1e-4).all()), f"{what}: latitudes off by {dl[same].max(initial=0)}")
    c.close(B["radius_s"][same], A["radius_s"][same], f"{what}: speed radius", rtol=tol)
    c.close(B["effective_area"][same], A["effective_area"][same], f"{what}: area", rtol=max(tol, 1e-4))
    c.close(B["speed_average"], A["speed_average"] * ufac, f"{what}: speed", rtol=c.stol if exact else 0.15, atol=1e-6)
    if exact:
        c.close(B["uavg_profile"], A["uavg_profile"] * ufac, f"{what}: profile", rtol=c.stol, atol=1e-6)
        c.count("speed_contours_same", same.sum()), c.count("speed_contours", same.size)
    c.close(B["time"], A["time"], f"{what}: date")
    c.count("eddies", len(a))


def pair(c, **kw):
    s = ident.scene(c.rng, mask=bool(c.rng.random() < 0.5), **kw)
    # positions on the border of a cell with a missing velocity can be lost by rounding
    c.stol = 0.1 if s["mu"].any() else 1e-5
    p = ident.params(c.rng, s)
    return s, p


@CHECK.group("negation", quick=40, thorough=800, jobs=5, min_nontrivial=8, warm=True)
def negation(c):
    """negated height swaps cyclones and anticyclones"""
    s, p = pair(c)
    t = dict(s, h=-s["h"], u=-s["u"], v=-s["v"])
    g, a, cy = ident_run(s, p)
    k, a2, cy2 = ident_run(t, p)
    if borderline(g, p):
        c.count("skipped_ambiguous")
        return
    # eddies of the sign served first in each run must not overlap
    own = np.zeros(s["h"].shape, bool)
    for v in ident.find_paths(g, a):
        if v is None:
            return
        own |= ident.pixels(s, v)
    for v in ident.find_paths(k, a2):
        if v is None or (ident.pixels(s, v) & own).any():
            c.count("nested_signs")
            return
    compare(c, a, cy2, "negated anticyclones", height=lambda h: -h, exact=False)
    compare(c, cy, a2, "negated cyclones", height=lambda h: -h, exact=False)
    if len(a) + len(cy):
        c.nontrivial(s["h"], p, sample=dict(eddies=[len(a), len(cy)], params=p))


@CHECK.group("roll", quick=30, thorough=800, jobs=5, min_nontrivial=8)
def roll(c):
    """rolled circular grid gives the same eddies"""
    rng = c.rng
    s, p = pair(c, circular=True)
    n = s["x"].size
    k = int(rng.integers(1, n))
    st = s["x"][1] - s["x"][0]
    t = dict(s, **{q: np.roll(s[q], k, axis=0) for q in ("h", "m", "u", "v", "mu")})
    relabel = rng.random() < 0.5
    if relabel:
        # same ocean seen from another meridian
        t["x"] = s["x"] - k * st
    turn = 360 * int(rng.integers(-1, 2))
    t["x"] = t["x"] + turn
    g, a, cy = ident_run(s, p)
    g2, a2, cy2 = ident_run(t, p)
    if borderline(g, p):
        c.count("skipped_ambiguous")
        return
    f = (lambda x: x) if relabel else (lambda x: x + k * st)
    # contours cut by a seam are resampled from another vertex
    compare(c, a, a2, "rolled anticyclones", lon=f, exact=False)
    compare(c, cy, cy2, "rolled cyclones", lon=f, exact=False)
    if len(a) + len(cy):
        c.nontrivial(s["h"], p, k, sample=dict(eddies=[len(a), len(cy)], roll=k, relabel=relabel))


@CHECK.group("branch", quick=20, thorough=400, jobs=3, min_nontrivial=4)
def branch(c):
    """longitudes plus whole turns give the same eddies"""
    rng = c.rng
    s, p = pair(c, circular=False)
    t = dict(s, x=s["x"] + 360 * int(rng.choice([-2, -1, 1])))
    g, a, cy = ident_run(s, p)
    _, a2, cy2 = ident_run(t, p)
    if borderline(g, p):
        return
    compare(c, a, a2, "other branch"), compare(c, cy, cy2, "other branch")
    if rng.random() < 0.5:
        d = float(rng.uniform(-100, 100))
        _, a2, cy2 = ident_run(dict(s, x=s["x"] + d), p)
        compare(c, a, a2, "moved in longitude", lon=lambda x: x + d, exact=False)
        compare(c, cy, cy2, "moved in longitude", lon=lambda x: x + d, exact=False)
    if len(a) + len(cy):
        c.nontrivial(s["h"], p)


@CHECK.group("mirror", quick=24, thorough=400, jobs=3, min_nontrivial=5)
def mirror(c):
    """mirrored ocean gives mirrored eddies"""
    rng = c.rng
    s, p = pair(c)
    g, a, cy = ident_run(s, p)
    if borderline(g, p):
        return
    if rng.random() < 0.5:
        t = dict(s, y=-s["y"][::-1], **{q: s[q][:, ::-1] for q in ("h", "m", "u", "v", "mu")})
        kw = dict(lat=lambda y: -y)
    else:
        t = dict(s, x=-s["x"][::-1], **{q: s[q][::-1] for q in ("h", "m", "u", "v", "mu")})
        kw = dict(lon=lambda x: -x)
    _, a2, cy2 = ident_run(t, p)
    compare(c, a, a2, "mirrored anticyclones", exact=False, **kw)
    compare(c, cy, cy2, "mirrored cyclones", exact=False, **kw)
    if len(a) + len(cy):
        c.nontrivial(s["h"], p, list(kw))


@CHECK.group("units", quick=30, thorough=500, jobs=4, min_nontrivial=6)
def units(c):
    """heights in another unit, scaled step: same eddies"""
    rng = c.rng
    s, p = pair(c)
    g, a, cy = ident_run(s, p)
    hf, hu = ((100.0, "cm"), (1000.0, "mm"), (1e-3, "km"))[int(rng.integers(0, 3))]
    uf, uu = ((100.0, "cm/s"), (3.6, "km/hour"), (1e-3, "km/s"))[int(rng.integers(0, 3))]
    mode = int(rng.integers(0, 3))
    q = dict(p)
    kw = dict(hfac=hf, ufac=uf, hunit=hu, uunit=uu)
    if mode == 0:
        kw.update(hunit="m", uunit="m/s")
        q.update(force_height_unit=hu, force_speed_unit=uu)
    elif mode == 1:
        kw.update(ufac=1.0, uunit="m/s")
    _, a2, cy2 = ident_run(s, q, **kw)
    if borderline(g, p):
        c.count("skipped_ambiguous")
        return
    compare(c, a, a2, f"heights in {hu}"), compare(c, cy, cy2, f"heights in {hu}")
    if len(a) + len(cy):
        c.nontrivial(s["h"], p, hu, uu)


@CHECK.group("levels", quick=30, thorough=500, jobs=4, min_nontrivial=6)
def levels(c):
    """height plus a number of steps gives the same eddies"""
    rng = c.rng
    s, p = pair(c)
    p["step"] = 2.0 ** np.floor(np.log2(p["step"]))
    g, a, cy = ident_run(s, p)
    if borderline(g, p):
        return
    if rng.random() < 0.5:
        d = p["step"] * int(rng.integers(-300, 300))
        _, a2, cy2 = ident_run(dict(s, h=s["h"] + d), p)
        compare(c, a, a2, "heights moved", height=lambda h: h + d), compare(c, cy, cy2, "heights moved", height=lambda h: h + d)
    else:
        f = 2.0 ** int(rng.integers(-3, 4))
        _, a2, cy2 = ident_run(dict(s, h=s["h"] * f), dict(p, step=p["step"] * f))
        compare(c, a, a2, "heights scaled", height=lambda h: h * f, fac=f)
        compare(c, cy, cy2, "heights scaled", height=lambda h: h * f, fac=f)
    if len(a) + len(cy):
        c.nontrivial(s["h"], p)


@CHECK.group("same", quick=16, thorough=200, jobs=2)
def same(c):
    """bit for bit: repeated run, values under the mask, memory layout, sampling of stored contours"""
    rng = c.rng
    s, p = pair(c)
    g, a, cy = ident_run(s, p)
    _, a2, cy2 = ident_run(s, p, poison=False)
    t = dict(s, **{q: np.asfortranarray(s[q]) for q in ("h", "u", "v")})
    _, a3, cy3 = ident_run(t, p)
    g4 = ident.make_grid(s)
    g4.eddy_identification("h", "u", "v", ident.DATE, **dict(p, step=p["step"] * 1.5))
    a4, cy4 = g4.eddy_identification("h", "u", "v", ident.DATE, **p)
    # truncated heights are the ones of the truncated field
    pr = p["step"] / float(rng.choice([2.3, 5.3, 11.7]))
    _, a6, cy6 = ident_run(s, dict(p, precision=pr))
    _, a7, cy7 = ident_run(dict(s, h=np.round(s["h"] / pr) * pr), p)
    q = dict(p, sampling=p["sampling"] + 7, sampling_method="uniform" if p["sampling_method"] == "visvalingam" else "visvalingam")
    _, a5, cy5 = ident_run(s, q)
    for x, y, what in ((a, a2, "values under the mask"), (cy, cy2, "values under the mask"), (a, a3, "memory layout"),
                       (cy, cy3, "memory layout"), (a, a4, "second run"), (cy, cy4, "second run"), (a6, a7, "precision"), (cy6, cy7, "precision"), (a, a5, "sampling"), (cy, cy5, "sampling")):
        c.check(len(x) == len(y), f"{what}: {len(y)} eddies instead of {len(x)}")
        for f in x.fields:
            if what == "sampling" and (f.startswith("contour") or f == "uavg_profile"):
                continue
            c.equal(y[f], x[f], f"{what}: {f}")
    if len(a) + len(cy):
        c.nontrivial(s["h"], p)
