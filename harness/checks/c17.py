"""C17 selections of observations"""
import numpy as np

from harness import gen
from harness.core import Check

CHECK = Check("C17", "datasets of 0 to 80 rows of the plain and track classes (raw or not, with any set of fields), selected by "
              "masks, indices, complements, slices, areas, periods, polygons, time sampling and merged filters of every form; "
              "non trivial when some but not all rows are selected",
              ["positions on the very edge of an area or of a polygon are not judged",
               "merged filters given as unsorted or repeated indices are judged as sets"])


def classes():
    from py_eddy_tracker.observations.observation import EddiesObservations
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    return EddiesObservations, TrackEddiesObservations


def dataset(rng, cls=None, n=None, lon_range=None):
    n = int(rng.choice([0, 1, 2, rng.integers(3, 80)], p=[0.04, 0.05, 0.05, 0.86])) if n is None else n
    cls = cls or classes()[rng.integers(0, 2)]
    lr = lon_range or [(0, 360), (-180, 180), (350, 370), (-20, 20), (100, 500)][rng.integers(0, 5)]
    e = gen.eddies(rng, n, cls=cls, time=rng.integers(20000, 20000 + max(n // 2, 1), n) if n else np.zeros(0),
                   sampling=int(rng.integers(4, 9)), lon_range=lr,
                   arrays=[gen.ALL_ARRAYS, gen.ALL_ARRAYS[:2], []][rng.integers(0, 3)],
                   extra=[["num_point_e"] if cls is classes()[0] else [], ["eke"], ["eke", "virtual"] if cls is classes()[0] else []][rng.integers(0, 3)])
    if "track" in e.fields:
        e.obs["track"][:] = np.sort(rng.integers(0, max(n // 5, 1), n))
        for t in np.unique(e.obs["track"]):
            k = e.obs["track"] == t
            e.obs["n"][k] = np.arange(k.sum())
            e.obs["time"][k] = np.sort(e.obs["time"][k])
    return e


def packed(rng, e):
    """same fields as a raw load would give, sometimes"""
    if rng.random() < 0.7:
        return e
    r = e.__class__(len(e), track_extra_variables=list(e.track_extra_variables), raw_data=True,
                    track_array_variables=e.track_array_variables, array_variables=list(e.array_variables))
    for f in e.fields:
        r.obs[f] = e.obs[f]
    r.sign_type = e.sign_type
    return r


def snapshot(e):
    return e.obs.tobytes(), e.sign_type, tuple(e.fields)


def judge(c, e, snap, got, rows, what):
    c.check(type(got) is type(e), f"{what}: class {type(got)}")
    c.check(snapshot(e) == snap, f"{what}: the source was modified")
    c.check(not np.shares_memory(e.obs, got.obs), f"{what}: memory shared with the source")
    c.check(len(got) == len(rows), f"{what}: {len(got)} rows instead of {len(rows)}", rows=rows)
    c.check(set(got.fields) == set(e.fields), f"{what}: fields changed")
    for f in e.fields:
        c.check(got.obs[f].dtype == e.obs[f].dtype, f"{what}: type of {f}")
        c.equal(got.obs[f], e.obs[f][rows], f"{what}: {f}")
    for k in ("sign_type", "raw_data", "track_array_variables"):
        c.check(getattr(got, k) == getattr(e, k), f"{what}: {k} is {getattr(got, k)} instead of {getattr(e, k)}")
    c.check(set(got.array_variables) == set(e.array_variables), f"{what}: array variables")
    c.count("rows_selected", len(rows))


@CHECK.group("mask_index", quick=300, thorough=6000, jobs=2)
def mask_index(c):
    """extract_with_mask, index, slices and complements"""
    rng = c.rng
    e = packed(rng, dataset(rng))
    n = len(e)
    snap = snapshot(e)
    m = rng.random(n) < rng.choice([0, 0.2, 0.5, 0.9, 1])
    m0 = m.copy()
    judge(c, e, snap, e.extract_with_mask(m), np.flatnonzero(m0), "extract_with_mask")
    c.check((m == m0).all(), "mask modified")
    k = rng.integers(0, int(max(n, 1)), int(rng.integers(0, n + 1)))
    judge(c, e, snap, e.index(k), k, "index")
    judge(c, e, snap, e.index(list(k) if len(k) else k), k, "index from a list")
    u = np.unique(k)
    judge(c, e, snap, e.index(u, reverse=True), np.setdiff1d(np.arange(n), u), "index reverse")
    if n:
        i = int(rng.integers(-n, n))
        judge(c, e, snap, e.index(i), np.array([i % n]), "index of one row")
    a, b = [None if rng.random() < 0.25 else int(rng.integers(-n - 2, n + 3)) for _ in range(2)]
    st = None if rng.random() < 0.6 else int(rng.choice([1, 2, 3]))
    judge(c, e, snap, e.index(slice(a, b, st)), np.arange(n)[slice(a, b, st)], f"index of the slice {a}:{b}:{st} of {n}")
    g = e.copy()
    c.check(g == e or e.obs.tobytes() == g.obs.tobytes(), "copy")
    if 0 < m.sum() < n:
        c.nontrivial(e.obs, m, k)


@CHECK.group("area", quick=200, thorough=4000)
def area(c):
    """extract_with_area on any branch"""
    rng = c.rng
    e = dataset(rng)
    snap = snapshot(e)
    lon, lat = np.asarray(e.lon, "f8"), np.asarray(e.lat, "f8")
    lon0 = rng.uniform(-400, 400)
    w = rng.choice([rng.uniform(1, 60), rng.uniform(60, 359)])
    lat0 = rng.uniform(-70, 40)
    h = rng.uniform(1, 80)
    if len(e) and rng.random() < 0.5:  # centre the area on a row
        i = rng.integers(0, len(e))
        lon0 = lon[i] - rng.uniform(0.1, 0.9) * w + 360 * rng.integers(-1, 2)
        lat0 = lat[i] - rng.uniform(0.1, 0.9) * h
    a = dict(llcrnrlon=lon0, urcrnrlon=lon0 + w)
    lo, hi = -91, 91
    if rng.random() < 0.7:
        a["llcrnrlat"] = lo = lat0
    if rng.random() < 0.7:
        a["urcrnrlat"] = hi = max(lat0, lo) + h
    d = (lon - lon0) % 360
    near = (np.abs(d) < 1e-3) | (np.abs(d - w) < 1e-3) | (np.abs(d - 360) < 1e-3) | (np.abs(lat - lo) < 1e-3) | (np.abs(lat - hi) < 1e-3)
    if near.any():
        return
    m = (d < w) & (lat > lo) & (lat < hi)
    keep = dict(a)
    judge(c, e, snap, e.extract_with_area(a), np.flatnonzero(m), f"extract_with_area({a})")
    c.check(a == keep, "area modified")
    for k in (-360, 360):
        b = dict(a, llcrnrlon=lon0 + k, urcrnrlon=lon0 + w + k)
        judge(c, e, snap, e.extract_with_area(b), np.flatnonzero(m), f"extract_with_area({b})")
    s = e.copy()
    s.lon[:] += 360 * rng.integers(-1, 2, len(e))
    judge(c, s, snapshot(s), s.extract_with_area(a), np.flatnonzero(m), "extract_with_area on shifted rows")
    if 0 < m.sum() < len(e):
        c.nontrivial(lon, lat, a)


@CHECK.group("period", quick=200, thorough=4000)
def period(c):
    """extract_with_period, open ended"""
    rng = c.rng
    e = dataset(rng, cls=classes()[1])
    snap = snapshot(e)
    t = np.asarray(e.time, "f8")
    if not len(e):
        p = e.period
        c.check(np.isnan(p[0]) and np.isnan(p[1]), "period of an empty dataset")
        return
    t0, t1 = t.min(), t.max()
    c.check(e.period == (t0, t1), "period")
    c.check(e.nb_days == t1 - t0 + 1, "number of days")
    p0 = [0, float(rng.integers(t0 - 3, t1 + 4)), -float(rng.integers(1, 20)), float(rng.choice(t))][rng.integers(0, 4)]
    p1 = [0, float(rng.integers(t0 - 3, t1 + 4)), -float(rng.integers(1, 20)), float(rng.choice(t))][rng.integers(0, 4)]
    lo = t0 - 1 if p0 == 0 else (p0 if p0 > 0 else t0 - p0)
    hi = t1 + 1 if p1 == 0 else (p1 if p1 > 0 else t1 + p1)
    m = (t >= lo) & (t <= hi)
    judge(c, e, snap, e.extract_with_period((p0, p1)), np.flatnonzero(m), f"extract_with_period({p0}, {p1}) in [{t0}, {t1}]")
    step = int(rng.integers(1, 8))
    ref = float(rng.integers(t0 - 30, t1 + 30))
    k = np.array([(int(v) - int(ref)) % step == 0 for v in t], bool)
    judge(c, e, snap, e.time_sub_sample(ref, step), np.flatnonzero(k), f"time_sub_sample({ref}, {step})")
    d = e.time_datetime64
    exp = np.datetime64("1950-01-01") + np.floor(t).astype("i8").astype("timedelta64[D]")
    c.check((d.astype("datetime64[D]") == exp).all(), "dates")
    if 0 < m.sum() < len(e):
        c.nontrivial(t, p0, p1, step, ref)


@CHECK.group("polygons", quick=150, thorough=3000)
def polygons(c):
    """mask_from_polygons and complements"""
    from harness import ref

    rng = c.rng
    e = dataset(rng, lon_range=(lambda x: (x, x + 40))(rng.uniform(-200, 380)))
    lon, lat = np.asarray(e.lon, "f8"), np.asarray(e.lat, "f8")
    e.lat[:] = lat = rng.uniform(-15, 15, len(e))
    snap = snapshot(e)
    polys, m = [], np.zeros(len(e), bool)
    amb = np.zeros(len(e), bool)
    for _ in range(int(rng.integers(1, 5))):
        x0 = (lon.min() if len(e) else 0) + rng.uniform(0, 40)
        y0 = rng.uniform(-15, 15)
        x, y = gen.star_polygon(rng, None, x0, y0, rng.uniform(2, 15), 0.5)
        k = 360 * int(rng.integers(-1, 2))
        for s in (-360, 0, 360):
            amb |= ref.dist_to_poly(lon + s, lat, x, y) < 1e-5
            m |= ref.point_in_poly(lon + s, lat, x, y)
        polys.append((x + k, y))
    if amb.any():
        return
    got = e.mask_from_polygons(polys)
    c.check(snapshot(e) == snap, "source modified")
    c.equal(got, m, "mask_from_polygons", lon=lon, lat=lat, polygons=polys)
    judge(c, e, snap, e.extract_with_mask(got), np.flatnonzero(m), "rows in polygons")
    if 0 < m.sum() < len(e):
        c.nontrivial(lon, lat, [p[0] for p in polys])


@CHECK.group("filters", quick=400, thorough=8000, jobs=2)
def filters(c):
    """conjunction of filters of any form"""
    rng = c.rng
    e = packed(rng, dataset(rng))
    n = len(e)
    snap = snapshot(e)
    full = np.ones(n, bool)
    fs, what, messy = [], [], False
    for _ in range(int(rng.integers(1, 5))):
        k = int(rng.integers(0, 8))
        m = rng.random(n) < rng.choice([0, 0.3, 0.6, 0.9, 1], p=[0.05, 0.25, 0.3, 0.3, 0.1])
        if k == 0:
            f, m = None, np.ones(n, bool)
        elif k in (1, 2):
            a, b = [None if rng.random() < 0.25 else int(rng.integers(-n - 1, n + 2)) for _ in range(2)]
            f = slice(a, b, None if rng.random() < 0.7 else int(rng.choice([2, 3])))
            m = np.zeros(n, bool)
            m[f] = True
        elif k in (3, 4):
            f = m
        elif k == 5:
            f = np.flatnonzero(m)
            r = rng.random()
            if r < 0.25 and len(f):
                f, messy = rng.permutation(f), True
        elif k == 6:
            f = (lambda mm: (lambda d: mm))(m)
        else:
            f = (lambda mm: (lambda d: np.flatnonzero(mm)))(m)
        fs.append(f)
        what.append(["none", "slice", "slice", "mask", "mask", "indices", "callable mask", "callable indices"][k])
        full &= m
    copies = [x.copy() if isinstance(x, np.ndarray) else x for x in fs]
    got = e.merge_filters(fs) if rng.random() < 0.3 else e.merge_filters(*fs)
    rows = np.arange(n)[got]
    what = "merge_filters(" + ", ".join(what) + ")"
    if messy:
        c.check(len(np.unique(rows)) == len(rows), f"{what}: repeated rows")
        rows = np.sort(rows)
    c.equal(rows, np.flatnonzero(full), what, filters=[repr(x) for x in fs], n=n)
    c.check(snapshot(e) == snap, f"{what}: source modified")
    c.check(all((x == y).all() if isinstance(x, np.ndarray) else True for x, y in zip(fs, copies)), f"{what}: filter modified")
    if 0 < full.sum() < n:
        c.nontrivial(n, what, rows)
