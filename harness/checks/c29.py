"""C29 events and relatives in networks"""
import numpy as np

from harness import nets
from harness.core import Check

CHECK = Check("C29", "atlases of 1 to 6 networks of 1 to 12 segments drawn as graphs or made by the library, chains of up to 2500 segments; events, relatives, reachable "
              "observations and orders are compared with direct walks on the graph of links; non trivial with splitting and merging",
              ["links of a segment designate observations which have a previous (merging) or next (splitting) observation, as division makes them",
               "isolated observations are not asked for relatives"])


def atlas(rng, **kw):
    if rng.random() < 0.25:
        n = nets.from_world(rng)
        if n is not None and (n.track != 0).any():
            return n
    return nets.synthetic(rng, **kw)


def borders(n):
    return {k: (r[0], r[-1]) for k, r in nets.segments(n).items() if k[0] != 0}


def same_rows(c, got, n, rows, what):
    c.equal(nets.ident(got), nets.ident(n)[np.asarray(rows, int)], what)
    for f in got.fields:
        c.equal(got.obs[f], n.obs[f][np.asarray(rows, int)], f"{what}: {f}") if f not in ("next_obs", "previous_obs") else None
    c.check(got.sign_type == n.sign_type, f"{what}: rotation type")


@CHECK.group("events", quick=250, thorough=5000)
def events(c):
    """merging_event, splitting_event, birth, death"""
    rng = c.rng
    n = atlas(rng)
    if rng.random() < 0.2:
        n = n.network(int(rng.choice(n.track)))
    b = borders(n)
    P, N = np.asarray(n.previous_obs).astype(int), np.asarray(n.next_obs).astype(int)
    births = [i for i, _ in b.values() if P[i] == -1]
    deaths = [j for _, j in b.values() if N[j] == -1]
    same_rows(c, n.birth_event(), n, births, "births")
    same_rows(c, n.death_event(), n, deaths, "deaths")
    merging = sorted((int(N[j]), int(P[N[j]]), j) for _, j in b.values() if N[j] != -1)
    splitting = sorted((int(P[i]), int(N[P[i]]), i) for i, _ in b.values() if P[i] != -1)
    for name, f, exp in (("merging", n.merging_event, merging), ("splitting", n.splitting_event, splitting)):
        idx = f(triplet=True, only_index=True)
        got = list(zip(*(np.asarray(v).tolist() for v in idx)))
        c.check(sorted(got) == exp, f"{name}: triplets {got[:5]} expected {exp[:5]}")
        t = n.time[np.asarray(idx[0], int)]
        c.check(bool((np.diff(t) >= 0).all()), f"{name}: events are not sorted by date")
        obs = f(triplet=True)
        for o, i, k in zip(obs, idx, ("target", "main", "other")):
            same_rows(c, o, n, i, f"{name} {k}")
        u = sorted({v[0] for v in exp})
        c.equal(np.sort(f(only_index=True)), np.array(u, int), f"{name}: indices")
        o = f()
        c.equal(np.sort(nets.ident(o)), np.sort(nets.ident(n)[u]), f"{name}: observations")
    # observations close of events
    dt = int(rng.choice([1, 3, 6]))
    for mg, sp in ((True, True), (True, False), (False, True)):
        exp = np.zeros(len(n), bool)
        todo = []
        if mg:
            todo += [(v, P) for e in merging for v in e[1:]] + [(e[0], N) for e in merging]
        if sp:
            todo += [(v, N) for e in splitting for v in e[1:]] + [(e[0], P) for e in splitting]
        for i, follow in todo:
            t0, k = n.time[i], i
            exp[i] = True
            while k != -1 and abs(n.time[k] - t0) < dt:
                exp[k] = True
                k = follow[k]
        c.equal(n.mask_obs_close_event(merging=mg, spliting=sp, dt=dt), exp, f"observations at {dt} days of events {mg, sp}")
    c.count("events", len(merging) + len(splitting))
    if merging and splitting:
        c.nontrivial(n.obs, sample=dict(observations=len(n), births=len(births), deaths=len(deaths), merging=len(merging), splitting=len(splitting)))


def neighbours(n, key):
    """graph of segments"""
    b = borders(n)
    seg = list(zip(n.track.tolist(), n.segment.tolist()))
    g = {k: set() for k in b}
    for k, (i, j) in b.items():
        for l in (int(n.previous_obs[i]), int(n.next_obs[j])):
            if l != -1:
                g[k].add(seg[l]), g[seg[l]].add(k)
    return g, seg


def distances(g, start):
    d = {s: 0 for s in start}
    todo = list(d)
    while todo:
        new = []
        for s in todo:
            for k in g[s]:
                if k not in d:
                    d[k] = d[s] + 1
                    new.append(k)
        todo = new
    return d


@CHECK.group("relatives", quick=250, thorough=5000)
def relatives(c):
    """relatives and their order"""
    rng = c.rng
    n = atlas(rng, max_seg=12)
    g, seg = neighbours(n, None)
    ok = np.flatnonzero(n.track != 0)
    start = rng.choice(ok, int(rng.integers(1, 4)))
    order = int(rng.integers(0, 6))
    if rng.random() < 0.5:
        start = start[:1]
    arg = int(start[0]) if len(start) == 1 and rng.random() < 0.5 else [int(v) for v in start]
    d = distances(g, {seg[i] for i in start})
    exp = [i for i in range(len(n)) if d.get(seg[i], 99) <= order]
    got = n.relatives(arg, order=order)
    same_rows(c, got, n, exp, f"relatives of {start} at order {order}")
    c.equal(nets.ident(n.relative(arg, order=order)), nets.ident(got), "alias of relatives")
    # around an event
    k = int(start[0])
    r = n.find_segments_relative(k, order=order)
    d = distances(g, {seg[k]})
    same_rows(c, r, n, [i for i in range(len(n)) if d.get(seg[i], 99) <= order], f"relatives of segment of {k}")
    same = ok[n.track[ok] == n.track[k]]
    k2 = int(rng.choice(same))
    r = n.find_segments_relative(k, k2, order=order)
    d = distances(g, {seg[k], seg[k2]})
    same_rows(c, r, n, [i for i in range(len(n)) if d.get(seg[i], 99) <= order], f"relatives of segments of {k} and {k2}")
    # connexions
    net = n.network(int(n.track[k]))
    g1, seg1 = neighbours(net, None)
    got = net.connexions()
    c.check({a: set(b) for a, b in got.items()} == {a[1]: {x[1] for x in b} for a, b in g1.items() if b}, "connexions in a network")
    u = np.asarray(n.segment_track_array).astype(int)
    num = {s: int(u[i]) for i, s in enumerate(seg)}
    got = n.connexions(multi_network=True)
    c.check({int(a): {int(x) for x in b} for a, b in got.items()} == {num[a]: {num[x] for x in b} for a, b in g.items() if b}, "connexions in an atlas")
    i = int(rng.integers(len(net)))
    d = distances(g1, {seg1[i]})
    exp = np.array([d.get(s, -1) for s in seg1])
    c.equal(net.obs_relative_order(i), exp, f"relative orders from {i}")
    c.equal(net.segment_relative_order(net.segment[i]), exp, f"relative orders from segment of {i}")
    if n.nb_network - (n.track[0] == 0) > 1:
        c.raises(lambda: n.connexions(), "connexions of several networks")
    if sum(map(len, g.values())) > 2 and order:
        c.nontrivial(n.obs, start, order, sample=dict(order=order, start=[int(v) for v in start], selected=len(exp)))


def reach(n, start, forward):
    P, N = np.asarray(n.previous_obs).astype(int), np.asarray(n.next_obs).astype(int)
    b = borders(n)
    edges = {}
    for i in range(len(n)):
        a, o = (N, P) if forward else (P, N)
        if a[i] != -1:
            edges.setdefault(i, []).append(int(a[i]))
    for i, j in b.values():
        if forward and P[i] != -1:
            edges.setdefault(int(P[i]), []).append(i)
        if not forward and N[j] != -1:
            edges.setdefault(int(N[j]), []).append(j)
    seen, todo = set(start), list(start)
    while todo:
        for k in edges.get(todo.pop(), ()):
            if k not in seen:
                seen.add(k), todo.append(k)
    return seen


@CHECK.group("reachable", quick=300, thorough=6000)
def reachable(c):
    """find_link, only_one_network, connexions against graph walks"""
    rng = c.rng
    n = atlas(rng, max_seg=12)
    ok = np.flatnonzero(n.track != 0)
    start = [int(v) for v in rng.choice(ok, int(rng.choice([1, 1, 2, 3, 5])))]
    fw, bw = [(True, False), (False, True), (True, True), (False, False)][rng.choice(4, p=[0.3, 0.3, 0.35, 0.05])]
    exp = set()
    if fw:
        exp |= reach(n, start, True)
    if bw:
        exp |= reach(n, start, False)
    arg = start[0] if len(start) == 1 and rng.random() < 0.5 else (np.array(start) if rng.random() < 0.5 else start)
    kw = dict(forward=fw, backward=bw)
    if fw and not bw and rng.random() < 0.5:
        kw = {}
    got = n.find_link(arg, **kw)
    same_rows(c, got, n, sorted(exp), f"observations linked with {start} forward {fw} backward {bw}")
    if len(exp) > len(start) + 1:
        c.nontrivial(n.obs, start, fw, bw, sample=dict(start=start, forward=fw, backward=bw, reached=len(exp)))


@CHECK.group("deep", quick=4, thorough=30, min_nontrivial=2)
def deep(c):
    """networks with a lot of chained segments"""
    from py_eddy_tracker.observations.network import NetworkObservations

    rng = c.rng
    k = int(rng.integers(1200, 2500))
    n = NetworkObservations(3 * k, track_array_variables=0, array_variables=[])
    s = np.repeat(np.arange(1, k + 1), 3)
    n.obs["track"][:], n.obs["segment"][:] = 1, s
    i = np.arange(3 * k)
    n.obs["time"][:] = 20000 + i // 3 + i % 3
    n.obs["next_obs"][:] = np.where(i % 3 == 2, -1, i + 1)
    n.obs["previous_obs"][:] = np.where(i % 3 == 0, -1, i - 1)
    # each segment splits from the previous one
    n.obs["previous_obs"][3::3] = i[3::3] - 3
    n.obs["lon"][:] = i % 360
    nets.stamp(n)
    o = int(rng.integers(0, k))
    for what, f, exp in (("forward", lambda: n.find_link(3 * o), range(3 * o, 3 * k)),
                         ("relatives", lambda: n.relatives(3 * o, order=k), range(3 * k)),
                         ("backward", lambda: n.find_link(3 * k - 3, forward=False, backward=True), range(0, 3 * k, 3))):
        same_rows(c, f(), n, list(exp), f"{what} in a chain of {k} segments")
    c.equal(n.segment_relative_order(o + 1), np.abs(s - o - 1), "relative orders")
    t = n.tag_segment()
    c.check(len(np.unique(t)) == 1, "segments of a chain in several networks")
    n.dissociate_network()
    c.check(n.nb_network == 1 and n.nb_segment == k, "dissociation of a chain")
    c.nontrivial(k, o)
