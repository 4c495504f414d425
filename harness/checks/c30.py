"""C30 clean-up of networks"""
import numpy as np

from harness import nets
from harness.checks.c28 import indices
from harness.checks.c29 import neighbours
from harness.core import Check

CHECK = Check("C30", "atlases of 1 to 6 networks of 1 to 10 segments drawn as graphs or made by the library, with crafted short segments, close splitting-merging pairs and "
              "secondary segments longer than the main one; sequences of 1 to 4 clean-up operations; observations carry an identity and the result is compared "
              "with the same operation on lists; non trivial when labels change",
              ["masks have one value per observation", "when several swaps are possible on the same segments only their consistency is judged",
               "numbers of networks are judged without isolated observations"])

LABELS = ("track", "segment", "next_obs", "previous_obs", "next_cost", "previous_cost")


def crafted(rng):
    """one network with a given story, ids of segments in any order"""
    from py_eddy_tracker.observations.network import NetworkObservations

    obs = []  # (segment, time, previous, next) with indices in this list

    def seg(s, t0, n, prev=None, nxt=None):
        first = len(obs)
        for k in range(n):
            obs.append([s, t0 + k, first + k - 1 if k else (-1 if prev is None else prev), first + k + 1 if k < n - 1 else -1])
        return first

    ids = list(rng.permutation(np.arange(1, 7)) if rng.random() < 0.5 else np.arange(1, 7))
    kind = str(rng.choice(["close", "nested", "swap", "swaps", "dead"]))
    t0 = 20000
    if kind in ("close", "nested"):
        # A splits from B, B merges in A
        nb, gap = int(rng.integers(4, 12)), int(rng.integers(1, 4))
        b = seg(ids[0], t0, nb)
        k = int(rng.integers(0, nb - gap)) if nb > gap else 0
        a = seg(ids[1], t0 + k + 1, nb - k + int(rng.integers(2, 8)), prev=b + k)
        end = b + nb - 1
        target = a + (nb - 1 - k)
        obs[end][3] = target
        if kind == "nested":  # then A splits and merges in the same way
            n = obs[a:][-1]
            la = len(obs) - a
            j = int(rng.integers(la // 2, la - 1))
            d = seg(ids[2], obs[a + j][1] + 1, la - j + int(rng.integers(2, 6)), prev=a + j)
            obs[a + la - 1][3] = d + (la - 1 - j)
    elif kind in ("swap", "swaps"):
        n = int(rng.integers(3, 8))
        m = seg(ids[0], t0, n + int(rng.integers(1, 4)))
        tail = len(obs)
        for s in ids[1:2 if kind == "swap" else 4]:
            k = int(rng.integers(max(0, n - 3), tail - 1))
            seg(s, obs[m + k][1] + 1, int(rng.integers(1, 20)), prev=m + k)
        if kind == "swaps" and rng.random() < 0.5:
            k = int(rng.integers(tail, len(obs) - 1)) if len(obs) - 1 > tail else None
            if k is not None and obs[k][3] != -1:
                seg(ids[5], obs[k][1] + 1, int(rng.integers(1, 20)), prev=k)
    else:
        m = seg(ids[0], t0, 12)
        for s in ids[1:]:
            k = int(rng.integers(0, 11))
            seg(s, t0 + k + 1, int(rng.integers(1, 5)), prev=m + k)
            if rng.random() < 0.5 and obs[-1][1] < t0 + 11:
                obs[-1][3] = m + (obs[-1][1] - t0) + 1
    o = np.array(obs)
    order = np.lexsort((o[:, 1], o[:, 0]))
    tr = np.append(np.empty(len(o), int), -1)
    tr[order] = np.arange(len(o))
    o = o[order]
    n = NetworkObservations(len(o), track_array_variables=0, array_variables=[])
    n.sign_type = 1
    n.obs["track"][:], n.obs["segment"][:], n.obs["time"][:] = 1, o[:, 0], o[:, 1]
    n.obs["previous_obs"][:], n.obs["next_obs"][:] = tr[o[:, 2]], tr[o[:, 3]]
    n.obs["lon"][:], n.obs["lat"][:] = rng.uniform(0, 360, len(o)), rng.uniform(-50, 50, len(o))
    n.obs["next_cost"][:] = np.where(n.next_obs == -1, 0, rng.uniform(0.2, 1, len(n)))
    n.obs["previous_cost"][:] = np.where(n.previous_obs == -1, 0, rng.uniform(0.2, 1, len(n)))
    return nets.stamp(n)


def atlas(rng, **kw):
    u = rng.random()
    if u < 0.2:
        n = nets.from_world(rng)
        if n is not None and (n.track != 0).any():
            return n
    if u < 0.55:
        return crafted(rng)
    return nets.synthetic(rng, arrays=[], **kw)


class State:
    """lists of what the network holds, by identity"""

    def __init__(self, n):
        self.i = [int(v) for v in nets.ident(n)]
        self.t = dict(zip(self.i, n.time.tolist()))
        self.track = dict(zip(self.i, (int(v) for v in n.track)))
        self.seg = dict(zip(self.i, (int(v) for v in n.segment)))
        l = nets.links(n)
        self.prev, self.next = {k: v[0] for k, v in l.items()}, {k: v[1] for k, v in l.items()}

    def segments(self):
        out = {}
        for i in self.i:
            out.setdefault((self.track[i], self.seg[i]), []).append(i)
        return {k: sorted(v, key=lambda i: (self.t[i], i)) for k, v in sorted(out.items())}


def compare(c, n, state, what, src, costs=False):
    s = State(n)
    c.check(sorted(s.i) == sorted(state.i), f"{what}: observations are lost or repeated")
    for f in ("track", "seg", "prev", "next"):
        a, b = getattr(s, f), getattr(state, f)
        d = {k: (a[k], b[k]) for k in b if a[k] != b[k]}
        c.check(not d, f"{what}: {f} of observations (got, expected) {dict(list(d.items())[:5])}")
    values(c, n, src, what)
    key = list(zip(n.track.tolist(), n.segment.tolist(), n.time.tolist()))
    c.check(key == sorted(key), f"{what}: observations are not sorted")
    indices(c, n, what)


def values(c, n, src, what):
    """measured values, by identity"""
    a, b = np.argsort(nets.ident(n)), np.argsort(src["speed_area"])
    for f in n.fields:
        if f not in LABELS:
            c.equal(n.obs[f][a], src[f][b], f"{what}: {f} of observations")


def mutual(c, n, what):
    for (t, s), r in nets.segments(n).items():
        if t == 0:
            continue
        c.check(r == list(range(r[0], r[0] + len(r))), f"{what}: segment {s} isn't contiguous")
        c.check(bool((np.diff(n.time[r].astype("f8")) > 0).all()), f"{what}: segment {s} has several observations at the same date")
        for a, b in zip(r[:-1], r[1:]):
            c.check(n.next_obs[a] == b, f"{what}: next of {a} is {n.next_obs[a]} instead of {b} in segment {s}")
            c.check(n.previous_obs[b] == a, f"{what}: previous of {b} is {n.previous_obs[b]} instead of {a} in segment {s}")


def dead_end(state, nobs, ndays, keep):
    seg = state.segments()
    at = {i: k for k, v in seg.items() for i in v}
    near = {k: set() for k in seg}
    for k, v in seg.items():
        if k[0] == 0:
            continue
        for l in (state.prev[v[0]], state.next[v[-1]]):
            if l is not None:
                near[k].add(at[l]), near[at[l]].add(k)
    gone = set()
    for k, v in seg.items():
        short = len(v) < nobs or state.t[v[-1]] - state.t[v[0]] + 1 < ndays
        if short and len(near[k]) < 2 and not keep & set(v):
            gone |= set(v)
    for i in state.i:
        if i in gone:
            state.track[i] = state.seg[i] = 0
            state.prev[i] = state.next[i] = None
        else:
            state.prev[i] = None if state.prev[i] in gone else state.prev[i]
            state.next[i] = None if state.next[i] in gone else state.next[i]
    return len(gone)


def close_events(state, days):
    seg = state.segments()
    label = {i: k for k, v in seg.items() for i in v}
    changed = 0
    for k, v in seg.items():
        last = v[-1]
        cur, nx = label[last], state.next[last]
        if k[0] == 0 or nx is None:
            continue
        other = label[nx]
        rows = sorted((i for i in state.i if label[i] == other), key=lambda i: state.t[i])
        p = state.prev[rows[0]]
        if p is not None and label[p] == cur and state.t[nx] - state.t[p] < days:
            for i in rows:
                if state.t[i] >= state.t[nx]:
                    label[i] = cur
            state.prev[nx] = last
            changed += 1
    for i, (t, s) in label.items():
        state.track[i], state.seg[i] = t, s
    return changed


def one(c, n, rng, what):
    src = n.obs.copy()
    state = State(n)
    kind = str(rng.choice(["dead", "close", "dissociate", "swap", "segment", "network"], p=[0.3, 0.25, 0.15, 0.15, 0.1, 0.05]))
    changed = 0
    if kind == "dead":
        nobs, ndays, rec = int(rng.integers(0, 6)), int(rng.choice([0, rng.integers(0, 9)])), int(rng.integers(0, 3))
        mask = rng.random(len(n)) < 0.1 if rng.random() < 0.4 else None
        keep = set(nets.ident(n)[mask].tolist()) if mask is not None else set()
        res = n.remove_dead_end(nobs, ndays, recursive=rec, mask=mask)
        what = f"{what} > dead ends {nobs, ndays, rec} mask {mask is not None}"
        for _ in range(rec + 1):
            changed += dead_end(state, nobs, ndays, keep)
        c.check(res is n, f"{what}: network is not returned")
        compare(c, n, state, what, src)
        c.check(bool((n.next_cost[n.next_obs == -1] == 0).all() and (n.previous_cost[n.previous_obs == -1] == 0).all()), f"{what}: costs of missing links")
    elif kind == "close":
        days = int(rng.choice([3, 6, 20]))
        n.correct_close_events(nb_days_max=days)
        what = f"{what} > close events {days}"
        changed = close_events(state, days)
        compare(c, n, state, what, src)
        mutual(c, n, what)
    elif kind == "dissociate":
        g, seg = neighbours(n, None)
        comp = {}
        for k in g:
            todo = [k]
            while todo:
                s = todo.pop()
                if s not in comp:
                    comp[s] = k
                    todo += list(g[s])
        want = [comp[k] if k[0] else (0, 0) for k in seg]
        got_id = nets.ident(n)
        n.dissociate_network()
        what = f"{what} > dissociate"
        at = {int(v): i for i, v in enumerate(nets.ident(n))}
        t = np.array([n.track[at[int(v)]] for v in got_id]).astype(int)
        w = np.array([sorted(set(want)).index(v) for v in want])
        c.check(bool(((t[:, None] == t[None]) == (w[:, None] == w[None])).all()), f"{what}: networks are not the connected segments")
        z = np.array([k[0] == 0 for k in seg], bool)
        c.check(bool(((t == 0) == z).all()), f"{what}: isolated observations")
        for v, k in zip(got_id, t):
            state.track[int(v)] = int(k)
        changed = len(set(want)) != len(set(seg_[0] for seg_ in seg))
        compare(c, n, state, what, src)
    elif kind == "swap":
        kw = dict(length_main_max_after_event=int(rng.choice([1, 2, 4])), length_secondary_min_after_event=int(rng.choice([3, 6, 10])),
                  delta_pct_max=float(rng.choice([-2, -0.2, 0.1])))
        changed = swap(c, n, state, src, kw, f"{what} > swap {kw}")
        what += " > swap"
    elif kind == "segment":
        start = int(rng.integers(0, 3))
        new = {}
        for k in state.segments():
            new.setdefault(k[0], []).append(k[1])
        n.numbering_segment(start=start)
        for i in state.i:
            if state.track[i]:
                state.seg[i] = new[state.track[i]].index(state.seg[i]) + start
        what = f"{what} > numbering of segments {start}"
        compare(c, n, state, what, src)
    else:
        if (n.track == 0).any():
            return what, 0
        start = int(rng.integers(0, 3))
        new = sorted(set(state.track.values()))
        n.index_network, n.ref_index
        n.numbering_network(start=start)
        for i in state.i:
            state.track[i] = new.index(state.track[i]) + start
        what = f"{what} > numbering of networks {start}"
        compare(c, n, state, what, src)
        if start == 0:
            n.numbering_network(start=1)
    return what, changed


def swap(c, n, state, src, kw, what):
    """a main segment which stops just after a splitting becomes the secondary one, if the other is long"""
    seg = state.segments()
    at = {i: k for k, v in seg.items() for i in v}
    cost = dict(zip((int(v) for v in nets.ident(n)), n.previous_cost.astype("f8")))
    todo = []
    for k, v in seg.items():
        p = state.prev[v[0]]
        if k[0] == 0 or p is None:
            continue
        main = seg[at[p]]
        i1 = state.next[p]
        if i1 is None:
            continue
        end = main[-1]
        d = cost[v[0]] - cost[i1]
        if abs(d - kw["delta_pct_max"]) < 1e-3:
            return 0
        if (state.t[end] - state.t[p] <= kw["length_main_max_after_event"] and state.t[v[-1]] - state.t[v[0]] >= kw["length_secondary_min_after_event"]
                and state.next[end] is None and d > kw["delta_pct_max"] and at[i1] == at[p]):
            todo.append((p, i1, v[0], at[p], k))
    links = state.next.copy(), state.prev.copy()
    n.swap_track(**kw)
    key = [k for t in todo for k in t[3:]]
    if len(set(key)) == len(key):
        for p, i1, i2, a, b in todo:
            for i in seg[a]:
                if state.t[i] > state.t[p]:
                    state.seg[i] = b[1]
            for i in seg[b]:
                state.seg[i] = a[1]
            state.next[p] = i2
        compare(c, n, state, what, src)
    else:
        values(c, n, src, what)
        s = State(n)
        c.check(sorted(s.i) == sorted(state.i), f"{what}: observations are lost or repeated")
        c.check(s.prev == links[1], f"{what}: previous links")
        indices(c, n, what)
    mutual(c, n, what)
    return len(todo)


@CHECK.group("operations", quick=500, thorough=10000)
def operations(c):
    """relabelling operations conserve observations and obey their rules"""
    rng = c.rng
    n = atlas(rng)
    if rng.random() < 0.3:
        n = n.remove_trash()
    if not (n.track != 0).any():
        return
    what, changed = "", 0
    for _ in range(int(rng.integers(1, 5))):
        # indices are used before
        n.nb_network, n.nb_segment, n.segment_track_array
        what, k = one(c, n, rng, what)
        changed += k
        if not (n.track != 0).any():
            break
    c.count("changes", int(changed))
    if changed:
        c.nontrivial(n.obs, what, sample=dict(observations=len(n), operations=what[3:]))
