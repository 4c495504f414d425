"""C31 comparison of networks, sizes and maps"""
import numpy as np

from harness import nets
from harness.core import Check

CHECK = Check("C31", "pairs of atlases (copies whose networks or segments are removed, moved, cut, repeated, shuffled or numbered again) and single atlases; pairing is "
              "compared with equality of sorted lists of (date, position), sizes and maps with direct enumeration; non trivial when some items are equal "
              "and others not",
              ["both atlases have at least one observation", "with identical items several pairings are accepted"])


def join(rng, parts, like):
    """atlas of several pieces, each one a list of (rows, track, segment) of its source"""
    from py_eddy_tracker.observations.network import NetworkObservations

    n = NetworkObservations.new_like(like, sum(len(p[1]) for p in parts))
    n.obs[:] = np.concatenate([p[0].obs[p[1]] for p in parts])
    n.obs["track"][:] = np.concatenate([p[2] for p in parts])
    n.obs["segment"][:] = np.concatenate([p[3] for p in parts])
    n.obs["next_obs"][:] = n.obs["previous_obs"][:] = -1
    n.sign_type = like.sign_type
    n.sort()
    return n


def variant(rng, n):
    """another atlas: some networks are lost, changed, cut or repeated"""
    parts, k = [], int(rng.integers(0, 4))
    ids = list(np.unique(n.track).astype(int))
    if rng.random() < 0.5:
        ids = list(rng.permutation(ids))
        if 0 in ids:
            ids.remove(0)
            ids.insert(0, 0)
    keep_ids = rng.random() < 0.3
    for t in ids:
        r = np.flatnonzero(n.track == t)
        u = rng.random()
        if u < 0.15 and len(ids) > 1:
            continue
        reps = 2 if u > 0.9 and t else 1
        for _ in range(reps):
            k += 1 + int(rng.integers(0, 2))
            rr = r
            src = n
            if 0.15 < u < 0.3:
                src = n.copy()
                j = int(rng.choice(r))
                f = str(rng.choice(["lon", "lat", "time"]))
                src.obs[f][j] += 1
            elif u < 0.4 and len(r) > 1:
                rr = np.delete(r, int(rng.integers(len(r))))
            seg = n.segment[rr].astype(int)
            if rng.random() < 0.4 and t:  # other numbers for segments
                m = dict(zip(np.unique(seg), rng.permutation(np.arange(1, 40))[: len(np.unique(seg))]))
                seg = np.array([m[s] for s in seg])
            if rng.random() < 0.2 and t:  # other division
                s = int(rng.choice(seg))
                i = np.flatnonzero(seg == s)
                seg[i[len(i) // 2:]] = 77
            parts.append((src, rr, np.full(len(rr), t if (t == 0 or (keep_ids and reps == 1)) else (k if not keep_ids else k + 1000)), seg))
    if not parts:
        return n.copy()
    return join(rng, parts, n)


def contents(n, segment):
    u = np.asarray(n.segment_track_array if segment else n.track).astype(int)
    out = {}
    for i, k in enumerate(u):
        out.setdefault(int(k), []).append((float(n.time[i]), float(n.lon[i]), float(n.lat[i])))
    return {k: tuple(sorted(v)) for k, v in out.items()}


@CHECK.group("identify", quick=250, thorough=5000)
def identify(c):
    """identify_in pairs equal networks and segments"""
    rng = c.rng
    a = nets.synthetic(rng, arrays=[], max_seg=4, max_len=4)
    if len(a) == 0:
        return
    b = variant(rng, a)
    if len(b) == 0:
        return
    if rng.random() < 0.3:
        a, b = b, a
    x, y = a.obs.copy(), b.obs.copy()
    for segment in (False, True):
        size = int(rng.choice([1, 1, 2, 4]))
        A, B = contents(a, segment), contents(b, segment)
        i, j = a.identify_in(b, size_min=size, segment=segment)
        what = f"{'segments' if segment else 'networks'} of {size} observations or more"
        i, j = np.asarray(i).astype(int), np.asarray(j).astype(int)
        want = sorted(k for k, v in A.items() if len(v) >= size)
        c.check(sorted(i.tolist()) == want, f"{what}: {sorted(i.tolist())} are given instead of {want}")
        ok = j != -1
        c.check(len(set(j[ok].tolist())) == ok.sum(), f"{what}: an item of other is used twice")
        for p, q in zip(i[ok].tolist(), j[ok].tolist()):
            c.check(q in B and A[p] == B[q], f"{what}: {p} is paired with {q} which is different")
        left = {}
        for q, v in B.items():
            if q not in set(j[ok].tolist()):
                left.setdefault(v, []).append(q)
        for p in i[~ok].tolist():
            c.check(A[p] not in left, f"{what}: {p} is equal to {left.get(A[p])} but not paired")
        c.count("pairs", ok.sum())
        if ok.any() and not ok.all():
            c.nontrivial(x, y, segment, size, sample=dict(kind=what, pairs=int(ok.sum()), alone=int((~ok).sum())))
    c.check(x.tobytes() == a.obs.tobytes() and y.tobytes() == b.obs.tobytes(), "atlases are modified")


@CHECK.group("sizes", quick=200, thorough=4000)
def sizes(c):
    """network_size, segment tables, maps of segments"""
    rng = c.rng
    n = nets.synthetic(rng, arrays=[], net_start=int(rng.choice([1, 1, 4])), seg_start=int(rng.choice([0, 1, 3])))
    if rng.random() < 0.3:
        n = n.remove_trash()
    if len(n) == 0:
        return
    t = np.asarray(n.track).astype(int)
    seg = nets.segments(n)
    ids = np.unique(t)
    full = np.arange(ids[0], ids[-1] + 1)
    c.check(n.ref_index == ids[0], "first id of networks")
    c.equal(n.network_size(), np.array([(t == k).sum() for k in full]), "sizes of networks")
    k = rng.choice(ids, int(rng.integers(1, 5)))
    c.equal(n.network_size(k), np.array([(t == v).sum() for v in k]), "sizes of asked networks")
    c.check(n.network_size(int(k[0])) == (t == k[0]).sum(), "size of a network")
    nb = [sum(s[0] == v for s in seg) for v in full]
    c.equal(n.network_segment_size(), np.array(nb), "number of segments of networks")
    c.equal(n.network_segment_size(k), np.array([sum(s[0] == v for s in seg) for v in k]), "number of segments of asked networks")
    c.equal(n.segment_size(), np.array([len(r) for r in seg.values()]), "sizes of segments")
    c.check(n.nb_network == len(ids) and n.nb_segment == len(seg), f"{n.nb_network} networks and {n.nb_segment} segments")
    key = list(seg)
    u = rng.integers(0, len(key), 4)
    a, b = n.unique_segment_to_id(u)
    c.check([(int(x), int(y)) for x, y in zip(a, b)] == [key[v] for v in u], f"ids of segments {u}")
    num = np.asarray(n.segment_track_array).astype(int)
    exp = np.zeros(len(n), int)
    for v, r in enumerate(seg.values()):
        exp[r] = v
    c.equal(num, exp, "unique number of segments")
    # maps
    y = n.obs[str(rng.choice(["lat", "amplitude", "time"]))].astype("f8")
    for name, f, grp in (("segment", n.map_segment, list(seg.values())), ("network", n.map_network, [np.flatnonzero(t == v) for v in ids])):
        for fn in (np.mean, np.ptp, lambda v: v - v[0], lambda v: np.cumsum(v)):
            try:
                fn(np.zeros(0))
            except Exception:
                fn0 = fn
                fn = lambda v: fn0(v) if len(v) else v
            exp = np.empty(len(n))
            for r in grp:
                exp[r] = fn(y[r])
            c.close(f(fn, y), exp, f"map by {name}", rtol=0, atol=0)
        for fn in (len, lambda v: v.sum(), lambda v: v[-1] if len(v) else 0):
            c.close(f(fn, y, same=False), np.array([fn(y[r]) for r in grp]), f"values by {name}", rtol=0, atol=0)
    d = n.map_network(lambda v: v.sum(), y, same=False, return_dict=True)
    for v in ids:
        c.check(d[v] == y[t == v].sum(), f"value of network {v}")
    m = np.empty(len(n))
    for r in seg.values():
        m[r] = n.amplitude[r].mean()
    c.close(n.mean_by_segment(n.amplitude), m, "mean by segment", rtol=1e-5, atol=1e-6)
    if len(ids) > 1 and len(seg) > len(ids):
        c.nontrivial(n.obs, sample=dict(networks=len(ids), segments=len(seg), observations=len(n)))


@CHECK.group("close", quick=60, thorough=800)
def close(c):
    """networks of another atlas which overlap enough"""
    rng = c.rng
    n = nets.from_world(rng)
    if n is None or not (n.track != 0).any():
        return
    o = n.copy()
    # other atlas: some observations are shifted
    s = rng.random(len(o)) < rng.choice([0.1, 0.6])
    for f in ("contour_lat_e", "contour_lat_s"):
        o.obs[f][s] += 15
    if rng.random() < 0.5:
        t = rng.permutation(np.arange(1, int(o.track.max()) + 1))
        o.obs["track"][:] = np.append(0, t)[o.track]
        o.sort()
    if rng.random() < 0.4:
        n = n.extract_with_mask(rng.random(len(n)) < 0.7)
        if len(n) == 0:
            return
    nb = int(rng.choice([1, 2, 5, 10]))
    intern = bool(rng.integers(0, 2))
    got = n.close_network(o, nb_obs_min=nb, intern=intern, cmin=0.3)
    # direct count of the observations of the other atlas which overlap; each pair is looked for at the same date
    hit = 0
    cnt = {}
    for d in np.unique(n.time):
        a, b = np.flatnonzero(n.time == d), np.flatnonzero(o.time == d)
        if not len(b):
            continue
        i, j, v = n.match(o, i_self=a, i_other=b, intern=intern, cmin=0.3)
        for k in o.re_reference_index(j, b):
            cnt[int(o.track[k])] = cnt.get(int(o.track[k]), 0) + 1
            hit += 1
    keep = {t for t, k in cnt.items() if k >= nb}
    exp = np.isin(o.track, list(keep))
    c.equal(nets.ident(got), nets.ident(o)[exp], f"networks with {nb} overlaps or more")
    if exp.any() and not exp.all():
        c.nontrivial(n.obs, o.obs, nb, sample=dict(observations=len(n), overlaps=hit, kept=len(keep)))
