"""C24 selections of tracks"""
import numpy as np

from harness import gen, ref
from harness.core import Check

CHECK = Check("C24", "sets of 0 to 12 tracks of 1 to 15 observations with gaps in identifiers, cut or not by a previous selection; every selection is "
              "compared with a per track loop in plain Python; non trivial when tracks are kept and others dropped",
              ["observations are ordered by track then time", "displacements along a track are below half a turn",
               "age is judged on complete tracks of two observations or more"])


def dataset(rng, **kw):
    n = int(rng.choice([0, 1, rng.integers(1, 13)], p=[0.03, 0.07, 0.9]))
    kw.setdefault("arrays", [])
    return gen.tracks(rng, n, first_id=int(rng.choice([0, 1, 7])), lat_range=(-60, 60), max_len=15, time_gaps=bool(rng.random() < 0.5), **kw)


def groups(e):
    """rows of each track, in order"""
    out = {}
    for i, t in enumerate(e.track.tolist()):
        out.setdefault(t, []).append(i)
    return out


def same(c, got, e, rows, what, compress=False):
    rows = np.asarray(rows, int)
    c.check(len(got) == len(rows), f"{what}: {len(got)} observations, expected {len(rows)}")
    c.check(type(got) is type(e) and got.sign_type == e.sign_type, f"{what}: class or rotation type changed")
    for f in e.fields:
        if f == "track" and compress:
            continue
        c.equal(got.obs[f], e.obs[f][rows], f"{what}: {f}")
    if compress and len(rows):
        _, inv = np.unique(e.obs["track"][rows], return_inverse=True)
        t = got.obs["track"].astype("i8")
        c.equal(t - t.min(), inv, f"{what}: identifiers are not dense")
        c.check(t.min() in (0, 1), f"{what}: identifiers start at {t.min()}")
        c.equal(np.asarray(got.track).astype("i8"), t, f"{what}: identifiers differ from the ones stored")
        c.equal(np.asarray(got.tracks).astype("i8"), t, f"{what}: identifiers differ from the ones stored")
    # indices of the result describe the result
    index(c, got, what)


def index(c, e, what):
    g = groups(e)
    nb, i0 = np.asarray(e.nb_obs_by_track), np.asarray(e.index_from_track)
    c.check({t: int(nb[t]) for t in g} == {t: len(r) for t, r in g.items()} and int(nb.sum()) == len(e), f"{what}: counts by track")
    c.check({t: int(i0[t]) for t in g} == {t: r[0] for t, r in g.items()}, f"{what}: first index of tracks")
    c.check(int(e.nb_tracks) == len(g), f"{what}: {e.nb_tracks} tracks, expected {len(g)}")
    c.equal(np.asarray(e.lifetime), np.array([len(g[t]) for t in e.track.tolist()], int).reshape(-1), f"{what}: lifetime")


@CHECK.group("stats", quick=150, thorough=3000)
def stats(c):
    """index, start, length and bounds of every track (iter_track, items, first and last observations, numbers, ages)"""
    rng = c.rng
    e = dataset(rng)
    index(c, e, "dataset")
    g = groups(e)
    its = list(e.iter_track())
    c.check(len(its) == len(g), f"{len(its)} tracks iterated, expected {len(g)}")
    for x, (t, r) in zip(its, g.items()):
        c.equal(x.obs["time"], e.obs["time"][r], f"track {t} iterated")
        s = e.track_slice(t)
        c.check((s.start, s.stop) == (r[0], r[-1] + 1), f"slice {s} of track {t}")
        if len(r) > 1:
            c.close(np.asarray(e.age)[r], np.arange(len(r)) / (len(r) - 1) * 100, f"age of track {t}", rtol=1e-5)
    m = rng.random(len(e)) < 0.5
    if len(e):
        cnt = np.asarray(e.count_by_track(m))
        c.check({t: int(cnt[t]) for t in g} == {t: int(m[r].sum()) for t, r in g.items()}, "count_by_track")
        c.check(isinstance(repr(e), str), "no text") if len(e) > 1 else None
    first, last = e.first_obs(), e.last_obs()
    same(c, first, e, [r[0] for r in g.values()], "first observations")
    same(c, last, e, [r[-1] for r in g.values()], "last observations")
    # changed in place: indices follow the new content
    if len(e) > 2 and len(g) > 1:
        k = np.flatnonzero(rng.random(len(e)) < 0.6)
        index(c, e.index(k), "rows")
        c.nontrivial(e.obs, sample=dict(tracks=len(g), observations=len(e)))


@CHECK.group("ids", quick=150, thorough=3000)
def ids(c):
    """extract_ids, tracks by length, period, date or identifier"""
    rng = c.rng
    e = dataset(rng)
    g = groups(e)
    pool = list(g) + [int(rng.integers(0, 60)), 0, 3]
    want = [int(x) for x in rng.choice(pool, int(rng.integers(0, 6)))] if rng.random() < 0.9 else [int(x) for x in g]
    arg = [want, np.array(want, int), tuple(want)][rng.integers(0, 3)]
    rows = [i for t, r in g.items() if t in want for i in r]
    if want or isinstance(arg, np.ndarray):
        same(c, e.extract_ids(arg), e, rows, f"extract_ids({want})")
        m = np.zeros(len(e), bool)
        m[rows] = True
        c.equal(np.asarray(e.get_mask_from_id(np.array(want, int))), m, "mask from identifiers")
    # lengths
    b = int(rng.choice([-1, 0, 1, 2, 5])), int(rng.choice([-1, 0, 2, 5, 8, 100]))
    if b == (-1, -1):
        c.raises(lambda: e.extract_with_length(b), "no bound given is accepted") if len(e) else None
    else:
        keep = lambda n: (b[0] == -1 or n >= b[0]) and (b[1] == -1 or n <= b[1])
        same(c, e.extract_with_length(b), e, [i for r in g.values() if keep(len(r)) for i in r], f"length in {b}")
    nb = np.array([len(g[t]) for t in e.track.tolist()], int)
    if len(e):
        k, comp = int(rng.integers(1, 10)), bool(rng.integers(0, 2))
        same(c, e.extract_longer_eddies(k, nb, compress_id=comp), e, np.flatnonzero(nb >= k), f"longer than {k}", compress=comp) if (
            nb >= k).any() else None
    # date
    if len(e):
        d, n = int(rng.choice(e.time)) + int(rng.integers(-1, 2)), int(rng.integers(-6, 7))
        rows = [i for r in g.values() if {d, d + n} <= set(e.time[r].astype(int).tolist()) for i in r]
        same(c, e.keep_tracks_by_date(d, n), e, rows, f"alive at {d} and {n} days after")
    if len(g) > 1 and 0 < len(rows) < len(e):
        c.nontrivial(e.obs, want, b, sample=dict(tracks=len(g), identifiers=want, bounds=b))


@CHECK.group("direction", quick=150, thorough=3000)
def direction(c):
    """extract_in_direction, extract_toward_direction against the displacement of each track"""
    rng = c.rng
    e = dataset(rng)
    if rng.random() < 0.7:
        e.obs["lon"][:] = rng.choice([0, 180, 359]) + rng.normal(0, 2, len(e)) if rng.random() < 0.4 else e.obs["lon"]
        e.obs["lon"][:] = e.obs["lon"] % 360
    g = groups(e)
    d = {t: ((float(e.lon[r[-1]]) - float(e.lon[r[0]]) + 180) % 360 - 180, float(e.lat[r[-1]]) - float(e.lat[r[0]])) for t, r in g.items()}
    lim = float(rng.choice([0, 0.1, 0.5, 2]))
    if any(0 < abs(abs(v) - lim) < 1e-3 or (v != 0 and abs(v) < 1e-3) or abs(v) > 179.9 for x in d.values() for v in x):
        return
    w = str(rng.choice(list("NSEW")))
    sgn = 1 if w in "NE" else -1
    k = 1 if w in "NS" else 0
    rows = [i for t, r in g.items() if sgn * d[t][k] > lim and sgn * d[t][k] > 0 for i in r]
    same(c, e.extract_in_direction(w, lim), e, rows, f"direction {w} more than {lim}")
    west = bool(rng.integers(0, 2))
    dl = None if rng.random() < 0.4 else lim
    sgn = -1 if west else 1
    rows = [i for t, r in g.items() if sgn * d[t][0] > (dl or 0) for i in r]
    same(c, e.extract_toward_direction(west=west, delta_lon=dl), e, rows, f"toward {'west' if west else 'east'} more than {dl}")
    if len(g) > 1 and 0 < len(rows) < len(e):
        c.nontrivial(e.obs, w, lim, sample=dict(tracks=len(g), direction=w, limit=lim, kept=len(rows)))


@CHECK.group("mask", quick=250, thorough=5000, jobs=2)
def mask(c):
    """extract_with_mask and extract_with_period with full path, removal of incomplete tracks, renumbering, virtual ends"""
    rng = c.rng
    e = dataset(rng)
    g = groups(e)
    m = rng.random(len(e)) < rng.choice([0.02, 0.1, 0.5, 0.9, 0, 1])
    kw = dict(full_path=bool(rng.integers(0, 2)), remove_incomplete=bool(rng.integers(0, 2)), compress_id=bool(rng.integers(0, 2)),
              reject_virtual=bool(rng.integers(0, 2)))
    if kw["full_path"]:
        kw["remove_incomplete"] = False
    real = ~e.virtual.astype(bool)
    if kw["full_path"]:
        ok = m & real if kw["reject_virtual"] else m
        rows = [i for r in g.values() if ok[r].any() for i in r]
    elif kw["remove_incomplete"]:
        rows = [i for r in g.values() if m[r].all() for i in r]
    else:
        rows = np.flatnonzero(m)
    if rng.random() < 0.6:
        keep = m.copy()
        snap = e.obs.tobytes()
        got = e.extract_with_mask(m, **kw)
        c.check(bool((keep == m).all()) and snap == e.obs.tobytes(), f"the caller's mask or data were modified by {kw}")
        same(c, got, e, rows, f"mask {kw}", compress=kw["compress_id"])
        # a selection of a selection
        if len(got):
            g2 = groups(got)
            t = int(rng.choice(list(g2)))
            same(c, got.extract_ids([t]), got, g2[t], "track of a selection")
            m2 = rng.random(len(got)) < 0.5
            same(c, got.extract_with_mask(m2, remove_incomplete=True), got, [i for r in g2.values() if m2[r].all() for i in r],
                 "complete tracks of a selection")
    else:
        kw.pop("reject_virtual")
        t = e.time
        if not len(e):
            return
        t0, t1 = int(t.min()), int(t.max())
        p = [int(rng.choice([0, t0 + rng.integers(0, 10), -rng.integers(1, 8)])), int(rng.choice([0, t1 - rng.integers(0, 10), -rng.integers(1, 8)]))]
        lo = p[0] if p[0] > 0 else t0 - p[0]
        hi = p[1] if p[1] > 0 else t1 + p[1]
        m = (t >= lo) & (t <= hi)
        if kw["full_path"]:
            rows = [i for r in g.values() if m[r].any() for i in r]
        elif kw["remove_incomplete"]:
            rows = [i for r in g.values() if m[r].all() for i in r]
        else:
            rows = np.flatnonzero(m)
        same(c, e.extract_with_period(tuple(p), **kw), e, rows, f"period {p} {kw}", compress=kw["compress_id"])
    if 0 < len(rows) < len(e) and len(g) > 1:
        c.nontrivial(e.obs, m, str(kw), sample=dict(tracks=len(g), kept=len(rows), of=len(e), **kw))


@CHECK.group("boxes", quick=80, thorough=1500)
def boxes(c):
    """tracks whose first observation is in a box"""
    rng = c.rng
    e = dataset(rng, lon_range=(10, 340))
    res = float(rng.choice([0.25, 0.5, 1, 2]))
    seen, rows = set(), []
    for i in range(len(e)):
        k = (int(e.track[i]), int(np.floor(float(e.lon[i]) / res)), int(np.floor(float(e.lat[i]) / res)))
        if k not in seen:
            seen.add(k)
            rows.append(i)
    got = e.extract_first_obs_in_box(res)
    same(c, got, e, rows, f"first observations in boxes of {res}")
    if 0 < len(rows) < len(e):
        c.nontrivial(e.obs, res, sample=dict(observations=len(e), kept=len(rows), resolution=res))


@CHECK.group("close", quick=40, thorough=600, jobs=3, warm=True)
def close(c):
    """tracks of another atlas which follow ours"""
    rng = c.rng
    n = int(rng.integers(1, 6))
    e = gen.tracks(rng, n, max_len=8, arrays=["contour_lon_e", "contour_lat_e"], sampling=10, pad=False, lon_range=(0, 20), lat_range=(-10, 10),
                   step=0.05, r=(0.5, 1))
    o = e.index(np.sort(rng.choice(len(e), max(1, int(len(e) * rng.uniform(0.5, 1))), replace=False)))
    dx = rng.choice([0, 0.1, 0.4, 5])
    for f in ("lon", "lat", "contour_lon_e", "contour_lat_e"):
        o.obs[f][:] += dx
    shift = int(rng.choice([0, 1, 40], p=[0.6, 0.3, 0.1]))
    o.obs["time"][:] += shift
    o.obs["track"][:] += 5
    nb, cmin = int(rng.integers(1, 6)), float(rng.choice([0.1, 0.3]))
    cnt = {}
    for i in range(len(e)):
        for j in range(len(o)):
            if e.time[i] == o.time[j]:
                xa, ya, xb, yb = (v.astype("f8") for v in (e.contour_lon_e[i], e.contour_lat_e[i], o.contour_lon_e[j], o.contour_lat_e[j]))
                w = ref.inter_area(xa, ya, xb, yb)
                s = w / (abs(ref.shoelace(xa, ya)) + abs(ref.shoelace(xb, yb)) - w)
                if abs(s - cmin) < 5e-3:
                    return
                if s > cmin:
                    cnt[int(o.track[j])] = cnt.get(int(o.track[j]), 0) + 1
    got = e.close_tracks(o, nb_obs_min=nb, cmin=cmin)
    keep = {t for t, k in cnt.items() if k >= nb}
    same(c, got, o, [i for i in range(len(o)) if int(o.track[i]) in keep], f"close tracks, {nb} observations or more")
    if keep:
        c.nontrivial(e.obs, o.obs, nb, cmin, sample=dict(tracks=len(cnt), kept=len(keep), minimal=nb))
