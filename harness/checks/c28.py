"""C28 links of networks after extraction, sorting and insertion"""
import os

import numpy as np

from harness import nets
from harness.core import Check

CHECK = Check("C28", "atlases of 1 to 6 networks of 1 to 8 segments drawn as graphs (with isolated observations, missing dates, gaps in identifiers) or made by the "
              "library from detections, and chains of 1 to 5 extractions and sorts; every observation carries an identity, and links are compared as "
              "identities before and after; non trivial when links are kept and others cut",
              ["durations and areas at the edge are not judged"])


def atlas(rng, **kw):
    if rng.random() < 0.25:
        n = nets.from_world(rng)
        if n is not None and len(n):
            return n
    return nets.synthetic(rng, **kw)


def compare(c, src, new, keep, what, fields=None):
    """new holds rows keep of src, in this order"""
    s, d = nets.ident(src), nets.ident(new)
    c.equal(d, s[keep], f"{what}: selected observations")
    kept = set(s[keep].tolist())
    for i, (p, n) in zip(keep, zip(new.previous_obs, new.next_obs)):
        for k, (got, l) in dict(next=(int(n), int(src.next_obs[i])), previous=(int(p), int(src.previous_obs[i]))).items():
            exp = int(s[l]) if l != -1 and int(s[l]) in kept else None
            c.check(-1 <= got < len(d), f"{what}: {k} link outside of dataset: {got}")
            v = int(d[got]) if got != -1 else None
            c.check(v == exp, f"{what}: {k} of observation {s[i]} is {v} instead of {exp}")
    for f in fields or src.fields:
        if f not in ("next_obs", "previous_obs"):
            c.equal(new.obs[f], src.obs[f][keep], f"{what}: {f}")
    c.check(new.sign_type == src.sign_type, f"{what}: rotation type")
    c.check(type(new) is type(src), f"{what}: type")


def one(c, n, rng):
    """a random extraction: (name, new, rows kept)"""
    t, s = np.asarray(n.track).astype(int), np.asarray(n.segment).astype(int)
    a = np.arange(len(n))
    kind = str(rng.choice(["mask", "network", "networks", "segments", "period", "area", "longer", "trash", "slice", "networks_mask", "copy"]))
    if kind == "mask":
        m = rng.random(len(n)) < rng.choice([0.1, 0.5, 0.9, 1])
        return kind, n.extract_with_mask(m), a[m]
    if kind == "slice":
        i, j = np.sort(rng.integers(0, len(n) + 1, 2))
        return kind, n.extract_with_mask(slice(int(i), int(j))), a[i:j]
    if kind == "network":
        k = int(rng.choice(t))
        return kind, n.network(k), a[t == k]
    if kind in ("networks", "networks_mask"):
        k = rng.choice(np.unique(t), int(rng.integers(0, len(np.unique(t)) + 1)), replace=False).astype(int)
        if kind == "networks":
            return kind, n.networks([int(v) for v in k] if rng.random() < 0.5 else k), a[np.isin(t, k)]
        m = n.networks_mask(k)
        c.equal(m, np.isin(t, k), "mask of networks")
        return kind, n.extract_with_mask(m), a[m]
    if kind == "segments":
        key = sorted(set(zip(t.tolist(), s.tolist())))
        k = rng.choice(len(key), int(rng.integers(0, len(key) + 1)), replace=False)
        m = np.array([key.index(v) in k for v in zip(t.tolist(), s.tolist())], bool)
        if rng.random() < 0.5:
            c.equal(n.networks_mask(k, segment=True), m, "mask of segments")
        return kind, n.extract_segment(k, absolute=True), a[m]
    if kind == "period":
        t0, t1 = n.time.min(), n.time.max()
        p = [0, 0]
        m = np.ones(len(n), bool)
        u = rng.integers(0, 3, 2)
        if u[0] == 1:
            p[0] = int(t0 + rng.integers(0, max(2, t1 - t0)))
            m &= n.time >= p[0]
        elif u[0] == 2:
            p[0] = -int(rng.integers(1, 8))
            m &= n.time >= t0 - p[0]
        if u[1] == 1:
            p[1] = int(t1 - rng.integers(0, max(2, t1 - t0)))
            m &= n.time <= p[1]
        elif u[1] == 2:
            p[1] = -int(rng.integers(1, 8))
            m &= n.time <= t1 + p[1]
        return f"period {p} of {t0, t1}", n.extract_with_period(tuple(p)), a[m]
    if kind == "area":
        x0, y0 = rng.uniform(-180, 360), rng.uniform(-60, 30)
        dx, dy = rng.uniform(20, 300), rng.uniform(20, 80)
        area = dict(llcrnrlon=x0, urcrnrlon=x0 + dx, llcrnrlat=y0, urcrnrlat=y0 + dy)
        x = (n.lon - x0) % 360
        m = (x < dx) & (n.lat > y0) & (n.lat < y0 + dy)
        near = (np.abs(x - dx) < 1e-2) | (x < 1e-2) | (x > 360 - 1e-2) | (np.abs(n.lat - y0) < 1e-3) | (np.abs(n.lat - y0 - dy) < 1e-3)
        if near.any():
            return "copy", n.copy(), a
        return kind, n.extract_with_area(area), a[m]
    if kind == "longer":
        lo, hi = int(rng.choice([-1, rng.integers(0, 15)])), int(rng.choice([-1, rng.integers(3, 25)]))
        m = np.zeros(len(n), bool)
        for k in np.unique(t):
            d = n.time[t == k].max() - n.time[t == k].min() + 1
            m[t == k] = (lo < 0 or d >= lo) and (hi < 0 or d <= hi)
        return f"longer than {lo, hi}", n.longer_than(lo, hi), a[m]
    if kind == "trash":
        return kind, n.remove_trash(), a[t != 0]
    return kind, n.copy(), a


@CHECK.group("chain", quick=250, thorough=5000)
def chain(c):
    """links of kept observations designate the same observations, -1 when their end is gone; kept rows are those asked"""
    rng = c.rng
    n = atlas(rng)
    cut = kept = 0
    done = []
    for _ in range(int(rng.integers(1, 6))):
        if len(n) == 0:
            break
        if rng.random() < 0.2:
            # sort
            order = [("track", "segment", "time"), ("time", "track"), ("lon",), ("segment", "time", "lat")][int(rng.integers(0, 4))]
            new = n.copy()
            i, tr = new.sort(order)
            exp = rows(n, new)  # observations with the same key are in any order
            c.check(sorted(exp) == list(range(len(n))), f"{done} sort by {order}: observations are lost or repeated")
            key = [tuple(new.obs[k][j] for k in order) for j in range(len(n))]
            c.check(key == sorted(key), f"{done}: not sorted by {order}")
            compare(c, n, new, exp, f"{done} sort by {order}")
            c.equal(i, exp, "order of sort")
            if len(tr) == len(n) + 1:
                c.equal(tr[:-1][exp], np.arange(len(n)), "translation of sort")
                c.check(tr[-1] == -1, "translation of no link")
            done.append(f"sort {order}")
            new.sort()
            compare(c, n, new, rows(n, new), f"{done} sorted again")
            n = new
            continue
        before = n.obs.copy()
        what, new, keep = one(c, n, rng)
        done.append(what)
        compare(c, n, new, keep, " > ".join(done))
        c.check(before.tobytes() == n.obs.tobytes(), f"{what} modifies its source")
        kept += int((new.next_obs != -1).sum() + (new.previous_obs != -1).sum())
        cut += int((n.next_obs != -1).sum() + (n.previous_obs != -1).sum())
        # the extraction is not linked to the memory of its source
        if len(new) and new is not n:
            new.obs["lat"][:] += 1
            c.check(before.tobytes() == n.obs.tobytes(), f"{what} shares its memory")
            new.obs["lat"][:] = n.obs["lat"][keep]
        indices(c, new, " > ".join(done))
        n = new
    c.count("links kept", kept)
    if cut > kept > 0:
        c.nontrivial(n.obs, done, sample=dict(operations=done, observations=len(n)))


def rows(src, new):
    at = {v: i for i, v in enumerate(nets.ident(src))}
    return np.array([at[v] for v in nets.ident(new)], int)


def indices(c, n, what):
    """cached indices describe current labels"""
    if len(n) == 0:
        return
    t = np.asarray(n.track).astype(int)
    for k in np.unique(t):
        sl = n.network_slice(int(k))
        c.equal(np.arange(len(n))[sl], np.flatnonzero(t == k), f"{what}: slice of network {k}")
    c.check(n.nb_network == len(np.unique(t)), f"{what}: number of networks {n.nb_network}")
    seg = nets.segments(n)
    i0, i1, _ = n.index_segment_track
    c.equal(i0, np.array([r[0] for r in seg.values()]), f"{what}: first observations of segments")
    c.equal(i1, np.array([r[-1] + 1 for r in seg.values()]), f"{what}: last observations of segments")
    c.check(n.nb_segment == len(seg), f"{what}: number of segments")


@CHECK.group("light", quick=60, thorough=1000)
def light(c):
    """extraction of the table of links alone"""
    rng = c.rng
    n = atlas(rng)
    m = rng.random(len(n)) < rng.choice([0.3, 0.8])
    keep = np.flatnonzero(m)
    if rng.random() < 0.3:
        i, j = (int(v) for v in np.sort(rng.integers(0, len(n) + 1, 2)))
        m, keep = slice(i, j), np.arange(i, j)
    extra = ["next_obs", "previous_obs", "track", "segment"] if rng.random() < 0.7 else []
    new = n.extract_light_with_mask(m, track_extra_variables=extra)
    c.check(len(new) == len(keep) and new.sign_type == n.sign_type, "size or rotation type")
    for f in ["time"] + n.array_variables + [k for k in extra if k[-3:] != "obs"]:
        c.equal(new.obs[f], n.obs[f][keep], f"light extraction: {f}")
    if extra:
        tr = np.full(len(n) + 1, -1)
        tr[keep] = np.arange(len(keep))
        c.equal(new.next_obs, tr[n.next_obs[keep]], "light extraction: next"), c.equal(new.previous_obs, tr[n.previous_obs[keep]], "light extraction: previous")
    if 0 < len(keep) < len(n):
        c.nontrivial(n.obs, keep)


@CHECK.group("file", quick=20, thorough=300)
def stored(c):
    """through files"""
    from py_eddy_tracker.observations.network import NetworkObservations
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    rng = c.rng
    n = atlas(rng)
    raw = bool(rng.integers(0, 2))
    ext = str(rng.choice(["nc", "zarr"]))
    f = os.path.join(c.tmp, "net." + ext)
    n.write_file(filename=f)
    new = NetworkObservations.load_file(f, raw_data=raw)
    compare(c, n, new, np.arange(len(n)), f"{ext} raw {raw}", ["track", "segment"])
    what, new2, keep = one(c, new, rng) if not raw else ("networks", new.networks([int(new.track[-1])]), np.flatnonzero(new.track == new.track[-1]))
    compare(c, new, new2, keep, f"{ext} {what}")
    t = TrackEddiesObservations.load_file(f).astype(NetworkObservations) if hasattr(TrackEddiesObservations, "astype") else None
    if t is not None:
        compare(c, n, t, np.arange(len(n)), "astype", ["track", "segment"])
    if len(n) > 3:
        c.nontrivial(n.obs, raw, ext)


@CHECK.group("insertion", quick=150, thorough=3000)
def insertion(c):
    """insert_virtual keeps links"""
    rng = c.rng
    dt = int(rng.choice([1, 1, 7]))
    e = nets.synthetic(rng, dt=dt, gaps=float(rng.choice([0, 0.1, 0.3])), extra=["virtual"] if rng.random() < 0.6 else [], arrays=[])
    if "virtual" in e.fields:
        e.obs["virtual"][:] = rng.random(len(e)) < 0.1
    seg = nets.segments(e)
    steps = np.concatenate([np.diff(e.time[r]) for (t, _), r in seg.items() if t != 0] + [np.zeros(0)])
    if not len(steps) or np.median(steps) != dt:
        return
    src = e.obs.copy()
    new = e.insert_virtual()
    c.check(src.tobytes() == e.obs.tobytes(), "source is modified")
    c.check(new.sign_type == e.sign_type and type(new) is type(e), "rotation type or type")
    size = sum(len(r) if t == 0 else int(round((e.time[r[-1]] - e.time[r[0]]) / dt)) + 1 for (t, _), r in seg.items())
    c.check(len(new) == size, f"{len(new)} observations after insertion, expected {size}")
    now = nets.segments(new)
    c.check(list(now) == list(seg), f"segments {list(now)} instead of {list(seg)}")
    place = np.full(len(e) + 1, -1)
    for k, r in seg.items():
        x = now[k]
        if k[0] == 0:
            place[r] = x
            continue
        at = np.rint((e.time[r] - e.time[r[0]]) / dt).astype(int)
        place[r] = np.array(x)[at]
        c.check(x == list(range(x[0], x[0] + len(x))), f"segment {k} isn't contiguous")
        c.equal(new.time[x], e.time[r[0]] + dt * np.arange(len(x)), f"dates of segment {k}")
        no = np.setdiff1d(np.arange(len(x)), at)
        for f in ("lon", "lat", "amplitude"):
            c.close(new.obs[f][x][no], np.interp(no, at, e.obs[f][r].astype("f8")), f"{f} of virtual observations of {k}", rtol=1e-5, atol=1e-4)
        if "virtual" in e.fields:
            c.check(bool(new.obs["virtual"][x][no].all()), f"virtual observations of {k} are not flagged")
        for a, b in zip(x[:-1], x[1:]):
            c.check(new.next_obs[a] == b and new.previous_obs[b] == a, f"links in segment {k} between {a} and {b}: {new.next_obs[a]}, {new.previous_obs[b]}")
    for i in range(len(e)):
        j = place[i]
        for f in e.fields:
            if f not in ("next_obs", "previous_obs"):
                c.equal(new.obs[f][j], e.obs[f][i], f"{f} of observation {i}")
    # links between segments
    for k, r in seg.items():
        for l, i in (("previous_obs", r[0]), ("next_obs", r[-1])):
            exp = place[e.obs[l][i]]
            c.check(new.obs[l][place[i]] == exp, f"{l} of the border of {k} is {new.obs[l][place[i]]} instead of {exp}")
    if size > len(e):
        c.nontrivial(e.obs, dt, sample=dict(observations=len(e), inserted=size - len(e)))
        again = new.insert_virtual()
        c.check(len(again) == len(new), "observations are inserted twice")
