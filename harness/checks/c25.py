"""C25 computations along tracks"""
import numpy as np

from harness import gen, ref
from harness.core import Check

CHECK = Check("C25", "sets of 0 to 12 tracks of 1 to 15 observations, identifiers with gaps, missing dates, longitudes on any branch; each computation is "
              "compared with the same formula evaluated on each track alone, and with the result on the tracks in isolation; non trivial with "
              "several tracks of several observations",
              ["observations are ordered by track then time", "azimuths are counted clockwise from west, modulo 360 degrees",
               "virtual slots are surrounded by observations of the same track", "dates of a track are multiples of the sampling"])


def dataset(rng, n=None, **kw):
    n = int(rng.choice([0, 1, rng.integers(2, 13)], p=[0.03, 0.07, 0.9])) if n is None else n
    kw.setdefault("arrays", [])
    return gen.tracks(rng, n, first_id=int(rng.choice([0, 1, 7])), max_len=15, **kw)


def groups(e):
    out = {}
    for i, t in enumerate(e.track.tolist()):
        out.setdefault(t, []).append(i)
    return out


def done(c, e, *key):
    g = groups(e)
    if sum(len(r) > 1 for r in g.values()) > 1:
        c.nontrivial(e.obs, *key, sample=dict(tracks=len(g), observations=len(e)))


@CHECK.group("distance", quick=200, thorough=4000)
def dist(c):
    """distance_to_next along each track"""
    from py_eddy_tracker.generic import cumsum_by_track

    rng = c.rng
    e = dataset(rng)
    if rng.random() < 0.5:
        e.obs["lon"][:] += 360 * rng.integers(-1, 2, len(e))
    g = groups(e)
    d = np.zeros(len(e))
    for r in g.values():
        for a, b in zip(r[:-1], r[1:]):
            d[a] = ref.haversine(float(e.lon[a]), float(e.lat[a]), float(e.lon[b]), float(e.lat[b]))
    got = np.asarray(e.distance_to_next())
    c.close(got, d, "distance to next", rtol=1e-3, atol=60)
    last = [r[-1] for r in g.values()]
    c.check(bool((got[last] == 0).all()), "distance of last observations")
    if "distance_next" not in e.fields:
        n = e.add_distance()
        c.close(n.obs["distance_next"], d, "field of distance", rtol=1e-3, atol=60)
        for f in e.fields:
            c.equal(n.obs[f], e.obs[f], f"field {f} after add_distance")
        c.check(n.add_distance() is n, "distance is added twice")
    # cumulative sums
    for f in (got, e.lon.copy(), rng.integers(0, 9, len(e)).astype("f8"), rng.integers(0, 9, len(e))):
        cum = np.asarray(cumsum_by_track(f, e.tracks))
        exp = np.zeros(len(e))
        for r in g.values():
            exp[r] = np.cumsum(f[r].astype("f8"))
        c.close(cum, exp, "cumulative sum", rtol=1e-5, atol=1e-4)
    done(c, e)


@CHECK.group("azimuth", quick=120, thorough=2500)
def azimuth(c):
    """azimuth of displacements"""
    rng = c.rng
    e = dataset(rng, step=rng.choice([0.2, 1]))
    e.obs["lon"][:] += 360 * rng.integers(-1, 2, len(e)) if rng.random() < 0.5 else 0
    eq = bool(rng.integers(0, 2))
    g = groups(e)
    if rng.random() < 0.4:  # tracks which cross the equator
        for r in g.values():
            e.obs["lat"][r] -= e.obs["lat"][r].mean()
    got = np.asarray(e.get_azimuth(equatorward=eq))
    c.check(len(got) == len(g), f"{len(got)} azimuths for {len(g)} tracks")
    for a, r in zip(got, g.values()):
        x0, y0, x1, y1 = (float(v) for v in (e.lon[r[0]], e.lat[r[0]], e.lon[r[-1]], e.lat[r[-1]]))
        if ref.haversine(x0, y0, x1, y1) < 3000:
            continue
        # direction on a local plane, by a small displacement along the great circle
        p = [np.array([np.cos(np.radians(y)) * np.cos(np.radians(x)), np.cos(np.radians(y)) * np.sin(np.radians(x)), np.sin(np.radians(y))])
             for x, y in ((x0, y0), (x1, y1))]
        t = p[1] - p[0] * (p[0] @ p[1])
        east = np.array([-np.sin(np.radians(x0)), np.cos(np.radians(x0)), 0])
        north = np.cross(p[0], east)
        w = np.degrees(np.arctan2(t @ north, -(t @ east)))  # from west, toward north
        if eq and y0 < 0:
            w = -w
        c.check(abs((float(a) - w + 180) % 360 - 180) < 0.2, f"azimuth {a}, expected {w} from {x0, y0} to {x1, y1}")
    done(c, e, eq)


@CHECK.group("filters", quick=200, thorough=4000, jobs=2)
def filters(c):
    """median and loess filters track by track"""
    rng = c.rng
    e = dataset(rng, time_gaps=bool(rng.random() < 0.5))
    g = groups(e)
    hw = float(rng.choice([0, 0.5, 1, 2, 3.5, 7, 50]))
    y = str(rng.choice(["amplitude", "lon", "lat", "radius_s", "speed_average"]))

    def med(v, t):
        return np.array([np.median(v[np.abs(t - x) <= hw]) for x in t])

    def loess(v, t, h=None):
        h = hw if h is None else h
        w = np.abs(t[None] - t[:, None]) / h
        w = np.where(w < 1, (1 - w**3) ** 3, 0)
        np.fill_diagonal(w, 1)
        return (w * v[None]).sum(1) / w.sum(1)

    def each(v, f, *a):
        out = np.zeros(len(e))
        for r in g.values():
            out[r] = f(v[r].astype("f8"), e.time[r].astype("f8"), *a)
        return out

    v = e.obs[y].copy()
    scale = np.abs(v).max() if len(v) else 1
    snap = e.obs.tobytes()
    c.close(e.median_filter(hw, "time", y, inplace=False), each(v, med), f"median of {y} within {hw}", rtol=1e-5, atol=1e-6 * scale)
    if hw:
        c.close(e.loess_filter(hw, "time", y, inplace=False), each(v, loess), f"loess of {y} within {hw}", rtol=1e-5, atol=1e-5 * scale)
    c.check(snap == e.obs.tobytes(), "filter without inplace modified the data")
    # constant fields are kept
    k = e.copy()
    k.obs[y][:] = 0.25
    k.median_filter(hw, "time", y)
    if hw:
        k.loess_filter(hw, "time", y)
    c.close(k.obs[y], np.full(len(e), 0.25), "constant field", rtol=1e-5)
    # in place
    k = e.copy()
    if rng.random() < 0.5 and hw:
        r = k.position_filter(hw, hw)
        for f in ("lon", "lat"):
            m = each(e.obs[f], med).astype(e.obs[f].dtype)
            c.close(k.obs[f], each(m, loess), f"position filter on {f}", rtol=1e-5, atol=1e-4)
        others = [f for f in e.fields if f not in ("lon", "lat")]
    else:
        k.median_filter(hw, "time", y)
        c.close(k.obs[y], each(v, med), f"median of {y} in place", rtol=1e-5, atol=1e-6 * scale)
        others = [f for f in e.fields if f != y]
    for f in others:
        c.equal(k.obs[f], e.obs[f], f"field {f} modified by a filter")
    # tracks don't see each other
    if len(g) > 1:
        t = int(rng.choice(list(g)))
        one = e.extract_ids([t])
        c.equal(one.median_filter(hw, "time", y, inplace=False), e.median_filter(hw, "time", y, inplace=False)[g[t]], "median depends on other tracks")
        if hw:
            c.close(one.loess_filter(hw, "time", y, inplace=False), e.loess_filter(hw, "time", y, inplace=False)[g[t]],
                    "loess depends on other tracks", rtol=1e-6)
    done(c, e, hw, y)


@CHECK.group("longitude", quick=150, thorough=3000)
def longitude(c):
    """normalize_longitude keeps tracks continuous and places unchanged"""
    rng = c.rng
    arrays = [[], ["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"], ["contour_lon_e", "contour_lat_e"]][rng.integers(0, 3)]
    extra = [(), ("lon_max", "lat_max"), ("lon_max",)][rng.integers(3)]
    e = dataset(rng, arrays=arrays, step=rng.choice([0.2, 2]), sampling=8, extra=extra)
    mode = rng.integers(0, 3)
    for f in e.fields:
        if "lon" not in f:
            continue
        if mode == 0:
            e.obs[f][:] %= 360
        elif mode == 1:
            e.obs[f][:] = (e.obs[f] + 180) % 360 - 180
        else:
            s = 360 * rng.integers(-1, 2, len(e))
            e.obs[f][:] += s[:, None] if e.obs[f].ndim == 2 else s
    g = groups(e)
    n = e.copy()
    n.normalize_longitude()
    for f in e.fields:
        if "lon" not in f:
            c.equal(n.obs[f], e.obs[f], f"{f} modified by the normalisation")
            continue
        a, b = n.obs[f].astype("f8"), e.obs[f].astype("f8")
        c.check(bool((np.abs((a - b + 180) % 360 - 180) < 2e-4).all()), f"{f}: not shifted by whole turns")
        if f != "lon":
            x = n.obs["lon"].astype("f8")
            d = a - (x[:, None] if a.ndim == 2 else x)
            c.check(bool((np.abs(d) <= 180.001).all()), f"{f} is far from the centre of its eddy")
    x = n.obs["lon"].astype("f8")
    for r in g.values():
        c.check(abs(x[r[0]] - float(e.lon[r[0]])) < 1e-6, "first longitude of a track is modified")
        c.check(bool((np.abs(x[r] - x[r[0]]) <= 180.001).all()), "longitudes of a track are far from the first one")
        step = np.abs((np.diff(e.lon[r].astype("f8")) + 180) % 360 - 180)
        span = np.abs(np.cumsum((np.diff(e.lon[r].astype("f8")) + 180) % 360 - 180))
        if len(r) > 1 and span.max() < 175:
            c.check(bool((np.abs(np.diff(x[r])) < step + 1e-3).all()), "longitudes jump along a track")
    m = n.copy()
    m.normalize_longitude()
    for f in e.fields:
        c.close(m.obs[f], n.obs[f], f"normalised twice, {f} changes", rtol=0, atol=2e-4)
    done(c, e, mode)


@CHECK.group("interpolation", quick=150, thorough=3000)
def interpolation(c):
    """interpolation of virtual slots"""
    rng = c.rng
    e = dataset(rng, arrays=["contour_lon_e", "contour_lat_e"] if rng.random() < 0.5 else [], sampling=8)
    g = groups(e)
    m = np.zeros(len(e), bool)
    for r in g.values():
        m[r[1:-1]] = rng.random(max(0, len(r) - 2)) < rng.choice([0.2, 0.7])
    src = e.copy()
    for f in ("lon", "lat", "time", "amplitude"):
        e.obs[f][m] = 0
    keep = e.obs.copy()
    e.filled_by_interpolation(m)
    for f in e.fields:
        c.equal(e.obs[f][~m], src.obs[f][~m], f"{f} of real observations")
        if f in ("n", "virtual", "track", "cost_association") or e.obs[f].ndim == 2:
            c.equal(e.obs[f][m], keep[f][m], f"{f} can't be interpolated")
            continue
        for r in g.values():
            r = np.array(r)
            ok, no = r[~m[r]], r[m[r]]
            if len(no):
                exp = np.interp(no, ok, src.obs[f][ok].astype("f8"))
                c.close(e.obs[f][no], exp, f"{f} of virtual observations", rtol=2e-3 if e.obs[f].dtype == "f2" else 1e-5, atol=1 if e.obs[f].dtype.kind in "ui" else 1e-5)
    c.count("virtual", m.sum())
    if m.any():
        done(c, e, m)


@CHECK.group("insertion", quick=150, thorough=3000)
def insertion(c):
    """virtual observations where dates are missing"""
    rng = c.rng
    dt = int(rng.choice([1, 1, 2, 7]))
    e = dataset(rng, arrays=["contour_lon_e", "contour_lat_e"] if rng.random() < 0.4 else [], sampling=8, dt=dt, gaps=bool(rng.integers(0, 2)))
    # remove some dates
    g = groups(e)
    keep = np.ones(len(e), bool)
    for r in g.values():
        keep[r[1:-1]] = rng.random(max(0, len(r) - 2)) > rng.choice([0, 0.15, 0.35])
    e = e.extract_with_mask(keep)
    g = groups(e)
    for r in g.values():
        e.obs["n"][r] = np.arange(len(r))
    steps = np.concatenate([np.diff(e.time[r]) for r in g.values()] + [np.zeros(0)])
    if len(steps) and np.median(steps) != dt:
        return
    new = e.insert_virtual()
    c.check(type(new) is type(e) and new.sign_type == e.sign_type, f"rotation type {new.sign_type}")
    rows, fill = [], []
    size = 0
    for t, r in g.items():
        at = ((e.time[r] - e.time[r[0]]) / dt).astype(int)
        n = at[-1] + 1
        c.check(int((new.track == t).sum()) == n, f"track {t}: {(new.track == t).sum()} observations, expected {n}")
        sl = slice(size, size + n)
        x = new.obs[sl]
        c.check(bool((x["track"] == t).all()), f"track {t} is not contiguous")
        c.equal(x["n"], np.arange(n), f"track {t}: numbers")
        no = np.setdiff1d(np.arange(n), at)
        for f in e.fields:
            if f in ("n", "track"):
                continue
            c.equal(x[f][at], e.obs[f][r], f"track {t}: {f} of observations")
            if len(no) and f not in ("virtual", "cost_association") and x[f].ndim == 1:
                c.close(x[f][no], np.interp(no, at, e.obs[f][r].astype("f8")), f"track {t}: {f} of virtual observations", rtol=2e-3 if x[f].dtype == "f2" else 1e-5,
                        atol=1 if x[f].dtype.kind in "ui" else 1e-4)
        c.check(bool(x["virtual"][no].all()), f"track {t}: inserted observations are not flagged")
        c.equal(x["time"], e.time[r[0]] + np.arange(n) * dt, f"track {t}: dates")
        size += n
        c.count("inserted", len(no))
    c.check(len(new) == size, f"{len(new)} observations, expected {size}")
    # nothing remains to insert
    again = new.insert_virtual()
    c.check(len(again) == len(new), "observations are inserted twice")
    c.check(new.nb_tracks == len(g), "number of tracks after insertion")
    if size > len(e):
        done(c, e, dt)


@CHECK.group("missing", quick=100, thorough=2000)
def missing(c):
    """missing dates are found per track"""
    from py_eddy_tracker.observations.groups import get_missing_indices

    rng = c.rng
    n = int(rng.integers(1, 30))
    dt = float(rng.choice([1, 2, 0.5]))
    track = np.sort(rng.integers(0, 4, n))
    step = rng.integers(1, 4, n)
    time = np.zeros(n)
    for t in np.unique(track):
        m = track == t
        time[m] = 100 + np.cumsum(step[m]) * dt
    if rng.random() < 0.3:
        time[track == 0] = np.sort(rng.integers(0, 50, (track == 0).sum()))
    flag, trash = bool(rng.integers(0, 2)), int(rng.integers(0, 3))
    got = get_missing_indices(time, track, dt=dt, flag_untrack=flag, indice_untrack=trash)
    exp = []
    for i in range(1, n):
        if track[i] == track[i - 1] and not (flag and track[i] == trash) and time[i] - time[i - 1] > dt:
            exp += [i] * (int((time[i] - time[i - 1]) / dt) - 1)
    c.equal(got, np.array(exp, int), "indices of missing observations", time=time, track=track)
    if exp:
        c.nontrivial(time, track, dt, flag, trash)


@CHECK.group("network", quick=120, thorough=2500)
def network(c):
    """computations by segment and by network of an atlas of networks"""
    from harness import nets

    rng = c.rng
    e = nets.synthetic(rng, lon_range=(0, 360) if rng.random() < 0.5 else (-200, -150), arrays=None if rng.random() < 0.5 else [], extra=[(), ("lon_max", "lat_max")][rng.integers(2)])
    # slow displacements
    e.obs["lon"][:] = 178 + np.cumsum(rng.normal(0, 1, len(e)))
    e.obs["lon"][:] += 360 * rng.integers(-1, 2, len(e)) if rng.random() < 0.7 else 0
    segs = nets.segments(e)
    tracks = groups(e)
    hw = float(rng.choice([0.5, 1, 2, 3.5, 7, 50]))
    y = str(rng.choice(["amplitude", "lat", "radius_s", "speed_average"]))

    def med(v, t):
        return np.array([np.median(v[np.abs(t - x) <= hw]) for x in t])

    def loess(v, t):
        w = np.abs(t[None] - t[:, None]) / hw
        w = np.where(w < 1, (1 - w**3) ** 3, 0)
        np.fill_diagonal(w, 1)
        return (w * v[None]).sum(1) / w.sum(1)

    def each(f, parts, v):
        out = np.zeros(len(e))
        for r in parts.values():
            out[r] = f(v[r].astype("f8"), e.time[r].astype("f8"))
        return out

    v = e.obs[y].copy()
    scale = np.abs(v).max() if len(v) else 1
    snap = e.obs.tobytes()
    c.close(e.median_filter(hw, "time", y, inplace=False), each(med, segs, v), f"median of {y} by segment within {hw}", rtol=1e-5, atol=1e-6 * scale)
    c.close(e.loess_filter(hw, "time", y, inplace=False), each(loess, segs, v), f"loess of {y} by segment within {hw}", rtol=1e-5, atol=1e-5 * scale)
    c.check(snap == e.obs.tobytes(), "filter without inplace modified the data")
    k = e.copy()
    c.check(k.median_filter(hw, "time", y) is k, "filter in place returns another object")
    c.close(k.obs[y], each(med, segs, v), f"median of {y} in place", rtol=1e-5, atol=1e-6 * scale)
    for f in e.fields:
        if f != y:
            c.equal(k.obs[f], e.obs[f], f"{f} modified by the filter of {y}")
    k = e.copy()
    k.normalize_longitude()
    p = k.copy()
    p.position_filter(hw, hw)
    for f in ("lon", "lat"):
        w = each(loess, segs, each(med, segs, k.obs[f].copy()))
        c.close(p.obs[f], w, f"position filter of {f}", rtol=1e-5, atol=2e-3)
    # longitudes of a network in a same turn
    for f in e.fields:
        if "lon" not in f:
            c.equal(k.obs[f], e.obs[f], f"{f} modified by the normalisation")
            continue
        a, b = k.obs[f].astype("f8"), e.obs[f].astype("f8")
        c.check(bool((np.abs((a - b + 180) % 360 - 180) < 2e-4).all()), f"{f}: not shifted by whole turns")
        if f != "lon":
            x = k.obs["lon"].astype("f8")
            c.check(bool((np.abs(a - (x[:, None] if a.ndim == 2 else x)) <= 180.001).all()), f"{f} is far from the centre of its eddy")
    x = k.obs["lon"].astype("f8")
    for r in tracks.values():
        c.check(abs(x[r[0]] - float(e.lon[r[0]])) < 1e-4, "first longitude of a network is modified")
        c.check(bool((np.abs(x[r] - x[r[0]]) <= 180.001).all()), "longitudes of a network are far from the first one")
    # any function by segment or network
    v = e.obs["amplitude"].astype("f8")
    f = [np.mean, np.max, np.sum][rng.integers(0, 3)]
    for name, parts, call in (("segment", segs, e.map_segment), ("network", tracks, e.map_network)):
        w = np.zeros(len(e))
        for r in parts.values():
            w[r] = f(v[r])
        c.close(call(f, v), w, f"map_{name}")
        if len(e):
            c.close(call(f, v, same=False), [f(v[r]) for _, r in sorted(parts.items())], f"map_{name}, one value each")
    d = e.map_network(f, v, same=False, return_dict=True)
    c.check({int(i): float(z) for i, z in d.items() if i in tracks} == {i: float(f(v[r])) for i, r in tracks.items()}, "map_network in a dictionary")
    if len(segs) > 2:
        c.nontrivial(e.obs, hw, y, sample=dict(segments=len(segs), observations=len(e)))
