"""C19 iteration and alignment on a variable"""
import numpy as np

from harness import gen
from harness.core import Check

CHECK = Check("C19", "datasets of 0 to 80 rows iterated on float, signed and unsigned variables or free arrays, sorted or "
              "not, with automatic, regular, irregular, partial and disjoint bins; non trivial when several groups come out",
              ["bins are increasing; window edges themselves are not judged (the window is half open)",
               "automatic bins are the unit bins starting at the smallest value"])


def dataset(rng, n):
    e = gen.tracks(rng, 1, max_len=1, sampling=4)
    k = np.zeros(n, int)
    f = e.new_like(e, n)
    f.obs[:] = e.obs[k]
    f.time[:] = rng.integers(100, 100 + max(1, n // 3) + 1, n)
    f.obs["track"][:] = rng.integers(0, max(1, n // 4) + 1, n)
    f.obs["n"][:] = rng.integers(0, 6, n)
    f.obs["lat"][:] = rng.uniform(-20, 20, n)
    f.obs["lon"][:] = rng.uniform(0, 360, n)
    f.obs["amplitude"][:] = rng.uniform(0, 0.2, n)
    return f


def variable(rng, e):
    """what to give to the iterator, and its values"""
    k = rng.integers(0, 8)
    n = len(e)
    if k < 5:
        name = ["time", "track", "n", "lat", "amplitude"][k]
        return name, np.array(e.obs[name])
    if k == 5:
        x = rng.integers(-5, 6, n)
    elif k == 6:
        x = rng.normal(0, 5, n)
    else:
        x = rng.integers(0, 9, n).astype(rng.choice(["u1", "u2", "u4", "i4", "f4"]))
    return x, x


def make_bins(rng, x):
    if len(x) == 0:
        return np.arange(0, 5)
    lo, hi = float(x.min()), float(x.max())
    w = max(hi - lo, 1)
    k = rng.integers(0, 8)
    if k == 7:  # regular, but for one edge
        b = np.linspace(lo - 0.1 * w, hi + 0.1 * w, int(rng.integers(4, 12)))
        i = int(rng.choice([0, 1, len(b) - 2, len(b) - 1, rng.integers(0, len(b))]))
        b[i] += (b[1] - b[0]) * (rng.uniform(0.2, 0.8) if i else -rng.uniform(0.2, 3)) * (4 if i == len(b) - 1 else 1)
        return b
    if k == 0:
        return np.arange(np.floor(lo), np.ceil(hi) + 2)
    if k == 1:
        return np.linspace(lo - 1, hi + 1, int(rng.integers(2, 12)))
    if k == 2:  # irregular, partial
        b = np.unique(rng.uniform(lo - 0.2 * w, hi + 0.2 * w, int(rng.integers(2, 9))))
        return b if len(b) > 1 else np.array([lo, hi + 1])
    if k == 3:  # partial regular
        a = lo + w * rng.uniform(0, 0.8)
        return np.linspace(a, a + w * rng.uniform(0.05, 0.5), int(rng.integers(2, 8)))
    if k == 4:  # disjoint
        return hi + 1 + np.arange(4) if rng.random() < 0.5 else lo - 1 - np.arange(4)[::-1]
    if k == 5:
        return np.arange(int(np.floor(lo)) - 2, int(np.ceil(hi)) + 4, int(rng.integers(1, 4)))
    b = [int(np.floor(lo)), int(np.floor(lo)) + 2, int(np.floor(lo)) + 3, int(np.ceil(hi)) + 5]
    return [v for i, v in enumerate(b) if i == 0 or v > b[i - 1]]


def members(idx, n):
    return np.arange(n)[idx]


def iterate(c, e, x, given, bins, what):
    """judge one iteration"""
    n = len(e)
    b = np.arange(x.min(), float(x.max()) + 2) if bins is None and n else np.asarray(bins)
    kw = dict() if bins is None else dict(bins=bins)
    seen = np.zeros(n, int)
    groups = {}
    for idx, b0, b1 in e.iter_on(given, **kw):
        i = members(idx, n)
        c.check(len(i) > 0, f"{what}: empty group yielded")
        k = np.flatnonzero(np.asarray(b)[:-1] == b0)
        c.check(len(k) == 1 and b[k[0] + 1] == b1, f"{what}: group bounds [{b0}, {b1}[ are not a bin", bins=b)
        c.check(b0 not in groups, f"{what}: bin {b0} yielded twice")
        groups[b0] = i
        v = x[i].astype("f8")
        c.check(bool(((v >= b0) & (v < b1)).all()), f"{what}: values {v[(v < b0) | (v >= b1)][:3]} yielded in bin [{b0}, {b1}[",
                x=x, bins=b)
        seen[i] += 1
    if n:
        inside = (x.astype("f8") >= b[0]) & (x.astype("f8") < b[-1])
        c.equal(seen, inside.astype(int), f"{what}: number of visits of each observation", x=x, bins=b)
        order = list(groups)
        c.check(order == sorted(order), f"{what}: bins not in increasing order")
    else:
        c.check(not groups, f"{what}: group in an empty dataset")
    c.count("groups", len(groups))
    c.count("visited", seen.sum())
    return groups


@CHECK.group("bins", quick=500, thorough=10000, jobs=2)
def bins_(c):
    """iter_on: groups are disjoint, complete, in order, each with its bin"""
    rng = c.rng
    n = int(rng.choice([0, 1, 2, rng.integers(3, 80)], p=[0.03, 0.05, 0.05, 0.87]))
    e = dataset(rng, n)
    order = rng.integers(0, 3)
    given, x = variable(rng, e)
    if order and n:
        k = np.argsort(x, kind="stable")
        if order == 2:  # almost sorted
            i, j = rng.integers(0, n, 2)
            k[[i, j]] = k[[j, i]]
        if isinstance(given, str):
            e.obs[:] = e.obs[k]
            x = np.array(e.obs[given])
        else:
            given = x = x[k]
    b = None if rng.random() < 0.35 and n else make_bins(rng, x)
    g = iterate(c, e, x, given, b, f"iter_on({given if isinstance(given, str) else x.dtype})")
    if len(g) > 1:
        c.nontrivial(x, b, sample=dict(on=given if isinstance(given, str) else str(x.dtype), n=n, bins=b if b is None else np.asarray(b)[:6], groups=len(g)))


@CHECK.group("window", quick=150, thorough=2000)
def window(c):
    """window() holds the rows within the half width"""
    rng = c.rng
    n = int(rng.integers(1, 60))
    e = dataset(rng, n)
    given, x = variable(rng, e)
    x = x.astype("f8")
    hw = float(rng.choice([0.5, 0.4, 1, 2.25, 10]))
    kw = dict()
    if rng.random() < 0.7:
        centers = np.sort(rng.uniform(x.min() - 3, x.max() + 3, int(rng.integers(1, 12))))
        if rng.random() < 0.5:
            centers = np.unique(np.round(centers))
        kw["bins"] = centers
    else:
        centers = np.arange(x.min(), x.max())
    got = list(e.iter_on(given, window=hw, **kw))
    c.check(len(got) == len(centers), f"{len(got)} windows for {len(centers)} centres")
    tot = 0
    for (idx, b0, b1), x0 in zip(got, centers):
        c.close([b0, b1], [x0 - hw, x0 + hw], "bounds of the window", atol=1e-6, rtol=1e-6)
        i = members(idx, n)
        c.check(len(np.unique(i)) == len(i), "observation twice in a window")
        m = np.zeros(n, bool)
        m[i] = True
        tie = np.abs(np.abs(x - x0) - hw) < 1e-5
        c.equal(m[~tie], (np.abs(x - x0) < hw)[~tie], "observations of a window", x=x, center=x0, half=hw)
        tot += m.sum()
    c.count("visited", tot)
    if tot:
        c.nontrivial(x, centers, hw)


@CHECK.group("align", quick=250, thorough=4000)
def align(c):
    """align_on pairs same values of both datasets"""
    rng = c.rng
    a, b = dataset(rng, int(rng.integers(1, 40))), dataset(rng, int(rng.integers(1, 40)))
    for e in (a, b):
        if rng.random() < 0.5:
            e.obs.sort(order="time")
        e.time[:] += rng.integers(0, 8)
    if rng.random() < 0.1:
        b.time[:] += 1000
    all_ref = rng.random() < 0.5
    kw = dict()
    mode = rng.integers(0, 3)
    if mode == 0:
        name, xa, xb = "time", np.array(a.time), np.array(b.time)
    elif mode == 1:
        name, xa, xb = "track", np.array(a.obs["track"]), np.array(b.obs["track"])
    else:
        xa, xb = np.array(a.obs["track"]), rng.integers(0, 12, len(b))
        name = (xa, xb)
    binned = rng.random() < 0.4
    if binned:
        lo, hi = min(xa.min(), xb.min()), max(xa.max(), xb.max())
        kw["bins"] = np.arange(float(lo), float(hi) + 4, float(rng.integers(1, 4)))
        kb = kw["bins"]
        ga, gb = np.digitize(xa, kb) - 1, np.digitize(xb, kb) - 1
        key = lambda v: kb[v]
    else:
        ga, gb = xa.astype(int), xb.astype(int)
        key = lambda v: v
    exp = {}
    for g in np.unique(ga):
        j = np.flatnonzero(gb == g)
        if len(j) or all_ref:
            exp[float(key(g))] = (set(np.flatnonzero(ga == g).tolist()), set(j.tolist()))
    got = {}
    for i, j, b0, b1 in a.align_on(b, name, all_ref=all_ref, **kw):
        c.check(float(b0) not in got, f"group {b0} yielded twice")
        got[float(b0)] = (set(members(i, len(a)).tolist()), set(members(j, len(b)).tolist()))
    c.check(got == exp, f"aligned groups {sorted(got)} instead of {sorted(exp)}", xa=xa, xb=xb, all_ref=all_ref)
    c.count("aligned_groups", len(got))
    if got:
        c.nontrivial(xa, xb, all_ref, sample=dict(all_ref=bool(all_ref), binned=bool(binned), groups=len(got)))


@CHECK.group("align_empty", quick=6, thorough=20)
def align_empty(c):
    """empty datasets align to nothing"""
    rng = c.rng
    a, b = dataset(rng, int(rng.integers(1, 20))), dataset(rng, 0)
    got = list(a.align_on(b, "time", all_ref=True))
    n = sum(len(members(i, len(a))) for i, *_ in got)
    c.check(n == len(a) and all(len(j) == 0 for _, j, *_ in got), "alignment on an empty dataset")
    c.check(list(a.align_on(b, "time")) == [], "alignment on an empty dataset")
    c.check(list(b.align_on(a, "time")) == [], "alignment of an empty dataset")
    c.nontrivial(a.time)
