"""Networks: made by the library from detections, or drawn directly as graphs of segments"""
import numpy as np

from . import gen, ref, worlds


def areas(a, b):
    """intersection and own areas of two contours (x, y), after the longitude branch of the first one"""
    ax, ay = (np.asarray(v, "f8") for v in a)
    bx, by = (np.asarray(v, "f8") for v in b)
    bx = bx + 360 * np.round((ax[0] - bx[0]) / 360)
    sa, sb = abs(ref.shoelace(ax, ay)), abs(ref.shoelace(bx, by))
    inter = 0.0
    if ax.max() > bx.min() and bx.max() > ax.min() and ay.max() > by.min() and by.max() > ay.min():
        inter = ref.inter_area(ax, ay, bx, by)
    return inter, sa, sb


def score(inter, sa, sb, thr, mode):
    """mode: union, minimal or hybrid; second value is the distance of the closest comparison to its threshold"""
    u = inter / (sa + sb - inter)
    m = inter / min(sa, sb)
    if mode == "minimal":
        v, near = m, abs(m - thr)
    elif mode == "hybrid":
        near = abs(u - thr)
        v = u
        if u < thr:  # small one included in the big one
            return (u if m > 0.99 else 0.0), min(near, abs(m - 0.99))
    else:
        v, near = u, abs(u - thr)
    return (v if v >= thr else 0.0), near


MODES = dict(union={}, minimal=dict(minimal_area=True), hybrid=dict(hybrid_area=True))


def detections(rng, days=None, n=None, **kw):
    """daily detections with both contours"""
    kw.setdefault("arrays", ["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"])
    return worlds.world(rng, days=days, n=n, **kw)


def synthetic(rng, n_net=None, max_seg=8, max_len=9, trash=None, arrays=None, gaps=0.3, dt=1, id_gaps=True, t0=20000, sampling=6, net_start=1,
              one_day=False, lon_range=(0, 360), seg_start=1, extra=()):
    """NetworkObservations drawn as graphs. A splitting link designates an observation which goes on; a merging link one which was there before"""
    from py_eddy_tracker.observations.network import NetworkObservations

    n_net = int(rng.integers(1, 7)) if n_net is None else n_net
    track, seg, time, nxt, prv = [], [], [], [], []

    def rows(k, s, t):
        i = len(track)
        track.extend([k] * len(t))
        seg.extend([s] * len(t))
        time.extend(t)
        nxt.extend(list(range(i + 1, i + len(t))) + [-1])
        prv.extend([-1] + list(range(i, i + len(t) - 1)))
        return i

    nb_trash = int(rng.integers(0, 6)) if trash is None else trash
    for _ in range(nb_trash):
        track.append(0), seg.append(0), time.append(t0 + int(rng.integers(0, 20)) * dt), nxt.append(-1), prv.append(-1)
    time[:nb_trash] = sorted(time[:nb_trash])
    k = net_start
    for _ in range(n_net):
        n_seg = int(rng.integers(1, max_seg + 1))
        first = len(track)
        s = seg_start
        base = int(rng.integers(0, 12))
        for _ in range(n_seg):
            n = int(rng.integers(1, max_len + 1))
            d = np.ones(n, int)
            if gaps:
                d += rng.integers(1, 3, n) * (rng.random(n) < gaps)
            b = base + int(rng.integers(0, 10))
            rows(k, s, [t0 + int(v) * dt for v in b + np.cumsum(d) - d[0]])
            s += 1 + (int(rng.integers(0, 2)) if id_gaps else 0)
        last = len(track)
        a = np.arange(first, last)
        T, S, N, P = (np.array(v[first:last]) for v in (time, seg, nxt, prv))
        for v in np.unique(S):
            i0, i1 = a[S == v][0], a[S == v][-1]
            if rng.random() < 0.6:  # it comes from a splitting
                ok = a[(T < time[i0]) & (T >= time[i0] - 4 * dt) & (N != -1) & (S != v)]
                if len(ok):
                    prv[i0] = int(rng.choice(ok))
            if rng.random() < 0.6:
                ok = a[(T > time[i1]) & (T <= time[i1] + 4 * dt) & (P != -1) & (S != v)]
                if len(ok):
                    nxt[i1] = int(rng.choice(ok))
        k += 1 + (int(rng.integers(0, 3)) if id_gaps else 0)
    n = len(track)
    arrays = ["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"] if arrays is None else arrays
    e = gen.eddies(rng, n, cls=NetworkObservations, time=np.array(time, "f8"), sampling=sampling, arrays=arrays, pad=False, lon_range=lon_range,
                   extra=list(extra))
    for f, v in (("track", track), ("segment", seg), ("next_obs", nxt), ("previous_obs", prv)):
        e.obs[f][:] = v
    e.obs["next_cost"][:] = np.where(e.next_obs == -1, 0, rng.uniform(0.2, 1, n))
    e.obs["previous_cost"][:] = np.where(e.previous_obs == -1, 0, rng.uniform(0.2, 1, n))
    stamp(e)
    return e


def stamp(e):
    """unique value for each observation"""
    e.obs["speed_area"][:] = np.arange(1, len(e) + 1)
    return e


def ident(e):
    """identity of rows"""
    return e.obs["speed_area"].astype(int)


def links(e):
    """links as identities of observations: {identity: (previous, next)}; None without link"""
    s = ident(e)
    get = lambda i: None if i == -1 else int(s[i])
    return {int(s[i]): (get(int(e.previous_obs[i])), get(int(e.next_obs[i]))) for i in range(len(e))}


def segments(e):
    """{(track, segment): rows}"""
    out = {}
    for i, k in enumerate(zip(e.track.tolist(), e.segment.tolist())):
        out.setdefault(k, []).append(i)
    return out


def from_world(rng, **kw):
    """network by the library's own grouping and splitting; None if the world is not usable"""
    from py_eddy_tracker.observations.network import Network, NetworkObservations
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    w = detections(rng, **kw)
    w = [e for e in w if len(e)]
    if len(w) < 2:
        return None
    intern = bool(rng.integers(0, 2))
    window, thr = int(rng.integers(1, 4)), float(rng.choice([0.1, 0.2, 0.4]))
    mode = MODES[str(rng.choice(["union", "minimal", "hybrid"]))]
    n = Network.from_eddiesobservations(w, window=window, intern=intern)
    gr = n.group_observations(min_overlap=thr, **mode)
    e = grouped(w, gr)
    net = NetworkObservations.from_split_network(e, e.split_network(intern=intern, window=window, min_overlap=thr, **mode))
    return stamp(net)


def grouped(w, gr):
    """track dataset ordered by group then date"""
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    e = TrackEddiesObservations.new_like(w[0], len(gr))
    e.sign_type = w[0].sign_type
    order = np.argsort(gr, kind="stable")
    for f in w[0].fields:
        e.obs[f][:] = np.concatenate([x.obs[f] for x in w])[order]
    e.obs["track"][:] = gr[order]
    return e
