"""C27 division of networks in segments"""
import numpy as np

from harness import nets
from harness.core import Check

CHECK = Check("C27", "groups of 2 to 100 observations made from sequences of detections which overlap, split, merge and are missed, with every overlap criterion, "
              "window and contour; the links are compared with the nearest-date best overlap computed on independent polygon areas, segments with "
              "the chains of mutual links; non trivial when segments split or merge",
              ["observations of a group are ordered by date, dates are multiples of the sampling",
               "groups where an overlap is within 1e-4 of the threshold are not judged; candidates whose overlaps are within 2e-4 are equal"])
EPS = 2e-4


def candidates(e, window, sfx, mode, thr, dt):
    """score of each ordered pair of observations of the same group, at most window steps apart; None if close of the threshold"""
    X, Y = e.obs["contour_lon_" + sfx], e.obs["contour_lat_" + sfx]
    step = np.rint((e.time - e.time.min()) / dt).astype(int)
    out = {}
    for g in np.unique(e.track):
        if g == 0:
            continue
        r = np.flatnonzero(e.track == g)
        for a in r:
            for b in r:
                d = step[b] - step[a]
                if d <= 0 or d > window:
                    continue
                t = nets.areas((X[a], Y[a]), (X[b], Y[b]))
                if t[0] <= 0:
                    continue
                v, near = nets.score(*t, thr, mode)
                if near < 1e-4 or t[0] < 1e-7:
                    return None, step
                if v > 0:
                    out[int(a), int(b)] = v
    return out, step


def nearest(i, score, step, forward):
    """best candidates of the nearest date"""
    c = [((b if forward else a), v) for (a, b), v in score.items() if (a if forward else b) == i]
    if not c:
        return [], 0
    d = min(abs(step[j] - step[i]) for j, _ in c)
    c = [(j, v) for j, v in c if abs(step[j] - step[i]) == d]
    top = max(v for _, v in c)
    return [j for j, v in c if v > top - EPS], top


def judge(c, e, ids, score, step, what):
    n = len(e)
    nxt, prv, trk = (np.asarray(ids[k]).astype(int) for k in ("next_obs", "previous_obs", "track"))
    trash = e.track == 0
    c.check(bool((nxt[trash] == -1).all() and (prv[trash] == -1).all()), f"{what}: isolated observations have links")
    c.check(bool((trk[trash] == 0).all()), f"{what}: segments of isolated observations")
    c.check(bool((trk[~trash] > 0).all()), f"{what}: observations without segment")
    claims = {}
    for i in np.flatnonzero(~trash):
        best, top = nearest(i, score, step, True)
        if best:
            c.check(nxt[i] in best, f"{what}: next of {i} is {nxt[i]}, best overlaps of the nearest date are {best}")
            c.check(abs(ids["next_cost"][i] - top) < 1e-3, f"{what}: cost of the next link of {i}: {ids['next_cost'][i]} instead of {top}")
            if nxt[i] != -1:
                claims.setdefault(int(nxt[i]), []).append(int(i))
        else:
            c.check(nxt[i] == -1, f"{what}: next of {i} is {nxt[i]} which doesn't overlap")
    for i in np.flatnonzero(~trash):
        k = claims.get(int(i))
        if k:
            v = [score.get((j, i), 0) for j in k]
            best = [j for j, s in zip(k, v) if s > max(v) - EPS]
            c.check(prv[i] in best, f"{what}: previous of {i} is {prv[i]}, observations which continue on it are {k} and the best are {best}")
            c.check(abs(ids["previous_cost"][i] - max(v)) < 1e-3, f"{what}: cost of previous link of {i}")
            continue
        best, top = nearest(i, score, step, False)
        if best:
            c.check(prv[i] in best, f"{what}: previous of {i} is {prv[i]}, best overlaps of the nearest date are {best}")
            c.check(abs(ids["previous_cost"][i] - top) < 1e-3, f"{what}: cost of the previous link of {i}: {ids['previous_cost'][i]} instead of {top}")
        else:
            c.check(prv[i] == -1, f"{what}: previous of {i} is {prv[i]} which doesn't overlap")
    # segments: chains of mutual links
    chain = np.arange(n)
    for i in np.argsort(step, kind="stable"):
        if prv[i] != -1 and nxt[prv[i]] == i:
            chain[i] = chain[prv[i]]
    for g in np.unique(e.track[~trash]):
        r = np.flatnonzero(e.track == g)
        c.check(bool(((trk[r][:, None] == trk[r][None]) == (chain[r][:, None] == chain[r][None])).all()),
                f"{what}: segments of group {g} are not the chains of mutual links", segments=trk[r], chain=chain[r])


def invariants(c, net, what):
    seg = nets.segments(net)
    for (t, s), r in seg.items():
        if t == 0:
            c.check(bool((net.next_obs[r] == -1).all() and (net.previous_obs[r] == -1).all()), f"{what}: isolated observations have links")
            continue
        c.check(r == list(range(r[0], r[0] + len(r))), f"{what}: segment {s} of network {t} isn't contiguous")
        c.check(bool((np.diff(net.time[r].astype("f8")) > 0).all()), f"{what}: dates of segment {s} of network {t} don't grow")
        for a, b in zip(r[:-1], r[1:]):
            c.check(net.next_obs[a] == b and net.previous_obs[b] == a, f"{what}: links between {a} and {b} in segment {s}: {net.next_obs[a]} {net.previous_obs[b]}")
        i, j = int(net.previous_obs[r[0]]), int(net.next_obs[r[-1]])
        if i != -1:
            c.check(net.track[i] == t and i not in r and net.time[i] < net.time[r[0]], f"{what}: segment {s} comes from {i}")
        if j != -1:
            c.check(net.track[j] == t and j not in r and net.time[j] > net.time[r[-1]], f"{what}: segment {s} merges in {j}")


@CHECK.group("split", quick=220, thorough=3000)
def split(c):
    """links are the nearest-date best overlap, segments are chains of mutual links, previous/next costs"""
    from py_eddy_tracker.observations.network import Network, NetworkObservations

    rng = c.rng
    dt = int(rng.choice([1, 1, 1, 7]))
    w = nets.detections(rng, dt=dt, days=int(rng.integers(2, 12)), extra=["virtual"] if rng.random() < 0.3 else ())
    w = [e for e in w if len(e)]
    if not w:
        return
    intern, window = bool(rng.integers(0, 2)), int(rng.integers(1, 5))
    thr, mode = float(rng.choice([0, 0.05, 0.2, 0.4])), str(rng.choice(list(nets.MODES)))
    kw = dict(min_overlap=thr, **nets.MODES[mode])
    if rng.random() < 0.7:
        gr = Network.from_eddiesobservations(w, window=window, intern=intern).group_observations(**kw)
    else:  # groups which are not the connected components
        gr = rng.integers(0, 3, sum(map(len, w)))
    e = nets.stamp(nets.grouped(w, gr))
    t = np.unique(e.time)
    if len(t) > 1 and np.median(np.diff(t)) != dt:
        return
    sfx = "s" if intern else "e"
    score, step = candidates(e, window, sfx, mode, thr, dt)
    if score is None:
        c.count("near threshold")
        return
    before = e.obs.copy()
    ids = e.split_network(intern=intern, window=window, **kw)
    c.check(before.tobytes() == e.obs.tobytes(), "observations are modified")
    what = f"window {window} {mode} {thr}"
    c.equal(ids["group"], e.track, "groups")
    judge(c, e, ids, score, step, what)
    net = NetworkObservations.from_split_network(e, ids)
    c.check(isinstance(net, NetworkObservations) and net.sign_type == e.sign_type, "type or rotation of the network")
    src, dst = nets.ident(e), nets.ident(net)
    c.check(sorted(src) == sorted(dst), f"{what}: observations are lost or repeated")
    back = {v: i for i, v in enumerate(src)}
    at = np.array([back[v] for v in dst])
    for f in net.fields:
        if f in e.fields:
            c.equal(net.obs[f], e.obs[f][at], f"{what}: {f} of observations")
    c.equal(net.segment, ids["track"][at].astype(net.segment.dtype), f"{what}: segments")
    for f, l in (("next", net.next_obs), ("previous", net.previous_obs)):
        v = ids[f + "_obs"][at]
        exp = np.where(v == -1, 0, src[v])
        got = np.where(l == -1, 0, dst[l])
        c.equal(got, exp, f"{what}: identities of {f} observations")
        c.close(net.obs[f + "_cost"], ids[f + "_cost"][at], f"{what}: costs of {f} links", rtol=1e-3, atol=1e-4)
    key = list(zip(net.track.tolist(), net.segment.tolist(), net.time.tolist()))
    c.check(key == sorted(key), f"{what}: order of observations")
    invariants(c, net, what)
    events = len(net.merging_event(triplet=True, only_index=True)[0]) + len(net.splitting_event(triplet=True, only_index=True)[0]) if len(net) else 0
    c.count("events", events), c.count("links", len(score))
    if events:
        c.nontrivial(net.obs, what, sample=dict(observations=len(net), events=int(events), window=window, mode=mode, threshold=thr))


@CHECK.group("file", quick=15, thorough=200)
def stored(c):
    """the same answer from files, packed or not"""
    import os

    from py_eddy_tracker.observations.network import NetworkObservations
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    rng = c.rng
    net = nets.from_world(rng)
    if net is None:
        return
    f = os.path.join(c.tmp, "net.nc")
    net.write_file(filename=f)
    raw = bool(rng.integers(0, 2))
    again = NetworkObservations.load_file(f, raw_data=raw)
    for k in ("track", "segment", "next_obs", "previous_obs") + (() if raw else ("time",)):
        c.equal(again.obs[k].astype("f8"), net.obs[k].astype("f8"), f"{k} in the file (raw {raw})")
    invariants(c, again, "file")
    # division of a file of groups
    t = TrackEddiesObservations.load_file(f, raw_data=raw)
    kw = dict(window=int(rng.integers(1, 4)), intern=bool(rng.integers(0, 2)), min_overlap=0.2)
    full = TrackEddiesObservations.load_file(f)
    o = np.lexsort((full.time, full.track))
    full, t = full.index(o), t.index(o)
    ids = full.split_network(**kw)
    a, b = NetworkObservations.from_split_network(full, ids), NetworkObservations.from_split_network(t, ids)
    for k in ("track", "segment", "next_obs", "previous_obs", "next_cost", "previous_cost"):
        c.equal(a.obs[k].astype("f8"), b.obs[k].astype("f8"), f"{k} from raw values")
    invariants(c, b, "raw values")
    if len(nets.segments(a)) > 1:
        c.nontrivial(a.obs)
