"""C26 grouping of observations in networks"""
import os

import numpy as np

from harness import gen, nets, worlds
from harness.core import Check

CHECK = Check("C26", "sequences of 2 to 12 daily detections (some empty) of 1 to 14 eddies which overlap, split, merge and are missed, in memory or in files, with every "
              "overlap criterion, window and contour; groups are compared with connected components of the graph of overlaps computed from "
              "independent polygon areas; non trivial when several groups and several members per group exist",
              ["pairs whose overlap is within 1e-4 of the threshold are not judged", "files are sorted by name"])


def components(n, pairs):
    p = list(range(n))

    def find(i):
        while p[i] != i:
            p[i] = p[p[i]]
            i = p[i]
        return i

    for i, j in pairs:
        p[find(i)] = find(j)
    return np.array([find(i) for i in range(n)])


def expected(w, window, sfx, mode, thr):
    """pairs of overlapping observations; None if one is too close of the threshold"""
    start = np.cumsum([0] + [len(e) for e in w])
    pairs = []
    for a in range(len(w)):
        for b in range(a + 1, min(a + window, len(w) - 1) + 1):
            for i in range(len(w[a])):
                for j in range(len(w[b])):
                    A = w[a].obs["contour_lon_" + sfx][i], w[a].obs["contour_lat_" + sfx][i]
                    B = w[b].obs["contour_lon_" + sfx][j], w[b].obs["contour_lat_" + sfx][j]
                    r = nets.areas(A, B)
                    if r[0] <= 0:
                        continue
                    v, near = nets.score(*r, thr, mode)
                    if near < 1e-4 or r[0] < 1e-7:
                        return None
                    if v > 0:
                        pairs.append((start[a] + i, start[b] + j))
    return start[-1], pairs


def judge(c, got, exp, what):
    n, pairs = exp
    got = np.asarray(got).astype(int)
    c.check(got.shape == (n,), f"{what}: {got.shape} groups for {n} observations")
    comp = components(n, pairs)
    ids, inv, cnt = np.unique(comp, return_inverse=True, return_counts=True)
    alone = cnt[inv] == 1
    c.check(bool((got[alone] == 0).all()), f"{what}: isolated observations are in groups {np.unique(got[alone])}")
    c.check(bool((got[~alone] != 0).all()), f"{what}: observations with overlaps are in the group of isolated ones", got=got, pairs=pairs)
    # same partition
    for k in ids[cnt > 1]:
        g = np.unique(got[comp == k])
        c.check(len(g) == 1, f"{what}: a chain of overlaps is cut in groups {g}", pairs=pairs, got=got)
        c.check(int((got == g[0]).sum()) == int((comp == k).sum()), f"{what}: group {g[0]} joins observations without chain of overlaps", pairs=pairs, got=got)
    return ids[cnt > 1], cnt[cnt > 1]


def setting(rng):
    return dict(window=int(rng.integers(1, 5)), intern=bool(rng.integers(0, 2)), thr=float(rng.choice([0, 0.05, 0.2, 0.4, 0.7])),
                mode=str(rng.choice(list(nets.MODES))))


def group(net, s, **kw):
    return net.group_observations(min_overlap=s["thr"], **nets.MODES[s["mode"]], **kw)


@CHECK.group("memory", quick=70, thorough=1500)
def memory(c):
    """labels of groups are the connected components of overlaps in the window"""
    from py_eddy_tracker.observations.network import Network

    rng = c.rng
    w = nets.detections(rng)
    s = setting(rng)
    if sum(map(len, w)) == 0:
        return
    exp = expected(w, s["window"], "s" if s["intern"] else "e", s["mode"], s["thr"])
    if exp is None:
        c.count("near threshold")
        return
    before = [e.obs.copy() for e in w]
    got = group(Network.from_eddiesobservations(w, window=s["window"], intern=s["intern"]), s)
    ids, cnt = judge(c, got, exp, f"{s}")
    for a, e in zip(before, w):
        c.check(a.tobytes() == e.obs.tobytes(), "detections are modified")
    c.count("groups", len(ids)), c.count("links", len(exp[1]))
    if len(ids) > 1 or (cnt > 2).any():
        c.nontrivial(str(s), exp[1], sample=dict(**s, observations=int(exp[0]), groups=len(ids), links=len(exp[1])))


@CHECK.group("files", quick=24, thorough=400)
def files(c):
    """files, several groupings in the same process, dataset of the groups"""
    from py_eddy_tracker.observations.network import Network

    rng = c.rng
    w = nets.detections(rng, empty=0.05)
    if len(w[-1]) == 0 and rng.random() < 0.8:
        w = w[:-1] + [nets.detections(rng, days=1, n=3)[0]] if len(w) > 1 else w
    if sum(map(len, w)) == 0 or len({e.sign_type for e in w}) > 1:
        for e in w:
            e.sign_type = w[0].sign_type
    for k, e in enumerate(w):
        nets.stamp(e)
        e.obs["speed_area"][:] += 1000 * k
    path = os.path.join(c.tmp, "a")
    names = worlds.save(w, path)
    total = sum(map(len, w))
    if total == 0:
        return
    regex = os.path.join(path, "*.nc")
    todo = [setting(rng) for _ in range(int(rng.integers(1, 4)))]
    done = None
    for s in todo:
        stored = read(names)
        exp = expected(stored, s["window"], "s" if s["intern"] else "e", s["mode"], s["thr"])
        if exp is None:
            continue
        n = Network(regex, window=s["window"], intern=s["intern"], memory=bool(rng.integers(0, 2)))
        c.check(list(n.filenames) == names, f"files {n.filenames}")
        gr = group(n, s)
        ids, cnt = judge(c, gr, exp, f"{s} grouping {todo.index(s) + 1} of {len(todo)}")
        done = n, gr, s, ids, cnt, exp
        if rng.random() < 0.3:  # files are computed again
            w = w[::-1]
            worlds.save(w, path)
    if done is None:
        return
    n, gr, s, ids, cnt, exp = done
    raw = bool(rng.integers(0, 2))
    n = Network(regex, window=s["window"], intern=s["intern"])
    e = n.build_dataset(gr, raw_data=raw)
    stored = read(names, raw)
    src = np.concatenate([x.obs[["speed_area"]] for x in stored])
    c.check(len(e) == total, f"{len(e)} observations in dataset, {total} in files")
    c.check(e.sign_type == w[0].sign_type, f"rotation type {e.sign_type}")
    order = np.argsort(gr, kind="stable")
    c.equal(e.track, gr[order], "group of observations")
    for f in stored[0].fields:
        v = np.concatenate([x.obs[f] for x in stored])[order]
        c.equal(e.obs[f], v.astype(e.obs[f].dtype), f"{f} of observations")
    for g in np.unique(gr):
        c.check(bool((np.diff(e.time[e.track == g].astype("f8")) >= 0).all()) or not ordered(stored), f"group {g} isn't sorted by date")
    # and written
    out = os.path.join(c.tmp, "net.nc")
    e.write_file(filename=out)
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    again = TrackEddiesObservations.load_file(out, raw_data=True)
    c.equal(again.track, gr[order], "group of observations in the file")
    if len(ids) > 1 or (cnt > 2).any():
        c.nontrivial(str(todo), exp[1], sample=dict(settings=todo, observations=total, groups=len(ids)))


def ordered(w):
    t = [e.time[0] for e in w if len(e)]
    return all(a <= b for a, b in zip(t[:-1], t[1:]))


def read(names, raw=False):
    from py_eddy_tracker.observations.observation import EddiesObservations

    return [EddiesObservations.load_file(f, raw_data=raw) for f in names]


@CHECK.group("translator", quick=150, thorough=3000)
def translator(c):
    """random links, without geometry"""
    from py_eddy_tracker.observations.network import Network

    rng = c.rng
    nb = rng.integers(0, 6, int(rng.integers(2, 9)))
    w = int(rng.integers(1, 4))
    start = np.cumsum(np.append(0, nb))
    p = rng.choice([0.05, 0.2, 0.5])
    results, pairs = [], []
    for i in range(len(nb)):
        for j in range(i + 1, min(i + w + 1, len(nb))):
            a, b = np.nonzero(rng.random((nb[i], nb[j])) < p)
            results.append((i, j, a.astype("i4"), b.astype("i4")))
            pairs += [(start[i] + x, start[j] + y) for x, y in zip(a, b)]
    n = Network.from_eddiesobservations([None] * len(nb), window=w)
    if nb.sum() == 0:
        return
    ids, cnt = judge(c, n.get_group_array(results, list(nb)), (int(nb.sum()), pairs), "labels")
    k = int(rng.integers(2, 12))
    duos = {tuple(sorted(rng.integers(0, k, 2).tolist())) for _ in range(int(rng.integers(0, 10)))}
    t = np.asarray(Network.group_translator(k, duos))
    comp = components(k, duos)
    c.check(bool(((t[:, None] == t[None]) == (comp[:, None] == comp[None])).all()), "translator of groups", duos=sorted(duos), got=t)
    if len(ids) > 1 or (cnt > 2).any():
        c.nontrivial(pairs, w)
