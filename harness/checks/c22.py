"""C22 saved, resumed and joined correspondences"""
import os
from datetime import datetime, timedelta

import numpy as np

from harness import worlds
from harness.core import Check

CHECK = Check("C22", "sequences of 2 to 12 daily files tracked with 0 to 4 virtual steps by the default, overlap and Chelton trackers, saved and "
              "loaded, interrupted once or several times at any date and joined; non trivial when links exist on both sides of the interruption",
              ["costs of links from virtual observations are compared within the storage of a position",
               "pieces are joined where they share the link between two files and no virtual observation is alive (both trackers "
               "then recorded the same links there)"])
NAME = dict(default="RecDefault", area="RecArea", chelton="RecChelton")


def same_links(c, a, b, what, exact=True):
    c.check(len(a) == len(b), f"{what}: {len(a)} steps, expected {len(b)}")
    for t, (x, y) in enumerate(zip(a, b)):
        c.check(x.dtype.names == y.dtype.names, f"{what}: fields {x.dtype.names}, expected {y.dtype.names}")
        c.check(len(x) == len(y), f"{what}: step {t} has {len(x)} links, expected {len(y)}")
        if exact:
            for f in x.dtype.names:
                c.equal(x[f], y[f], f"{what}: step {t}, field {f}")
        else:  # order of virtual observations is free
            key = lambda r: sorted((int(l["out"]), int(l["id"]), bool("virtual" in x.dtype.names and l["virtual"]),
                                    int(l["virtual_length"]) if "virtual" in x.dtype.names else 0,
                                    -1 if "virtual" in x.dtype.names and l["virtual"] else int(l["in"])) for l in r)
            c.check(key(x) == key(y), f"{what}: step {t} differs", got=key(x), expected=key(y))
            o = np.argsort(x["out"]), np.argsort(y["out"])
            c.close(x["cost_value"][o[0]], y["cost_value"][o[1]], f"{what}: costs of step {t}", rtol=1e-3, atol=1e-4)
        c.count("links", len(x))


def start(c, kind, days):
    rng = c.rng
    cls = getattr(worlds, NAME[kind])
    w = worlds.world(rng, days=days, kind=kind, miss=rng.choice([0, 0.1, 0.35, 0.5], p=[0.1, 0.2, 0.4, 0.3]))
    names = worlds.save(w, c.tmp)
    nb_virtual = int(rng.choice([0, 1, 2, 4], p=[0.1, 0.2, 0.35, 0.35]))
    kw = dict(virtual=nb_virtual, class_method=cls)
    if kind == "area" and rng.random() < 0.5:
        kw["class_kw"] = dict(cmin=float(rng.choice([0.05, 0.4])))
    if rng.random() < 0.3:
        kw["memory"] = True
    return names, kw


def pick(rng):
    return str(rng.choice(["default", "area", "chelton"], p=[0.5, 0.3, 0.2]))


def track(names, kw, **more):
    from py_eddy_tracker.tracking import Correspondances

    x = Correspondances(names, **kw, **more)
    x.track()
    return x


def tidy(rng, names):
    return [list(names), np.array(names), np.array(names, "S500")][rng.integers(0, 3)]


def text(n):
    return n.decode() if isinstance(n, bytes) else str(n)


@CHECK.group("roundtrip", quick=100, thorough=2000, jobs=4, warm=True)
def roundtrip(c):
    """saved then loaded correspondences are equal and give the same tracks"""
    from py_eddy_tracker.tracking import Correspondances

    rng = c.rng
    days = int(rng.choice([2, 3, 4, rng.integers(4, 12)], p=[0.1, 0.15, 0.15, 0.6]))
    names, kw = start(c, pick(rng), days)
    x = track(tidy(rng, names), kw)
    links = [a.copy() for a in x]
    f = os.path.join(c.tmp, "corr_{sign}.nc")
    x.save(f, dict(sign="s"))
    f = os.path.join(c.tmp, "corr_s.nc")
    same_links(c, x, links, "saved object")
    y = Correspondances.load(f)
    same_links(c, y, links, "loaded links")
    c.check([text(n) for n in y.datasets] == names, f"input files {[text(n) for n in y.datasets][:3]}, expected {names[:3]}")
    c.check(y.nb_virtual == x.nb_virtual and y.virtual == x.virtual, "number of virtual steps is lost")
    c.check(y.class_method is kw["class_method"], f"class {y.class_method}, expected {kw['class_method']}")
    c.check(y.class_kw == kw.get("class_kw", {}), f"options {y.class_kw}")
    c.check(int(y.current_id) == int(x.current_id), f"next identity {y.current_id}, expected {x.current_id}")
    c.check(y.nb_link_max == x.nb_link_max, f"nb_link_max {y.nb_link_max}, expected {x.nb_link_max}")
    y.prepare_merging(), x.prepare_merging()
    for k in ("nb_obs_by_tracks", "i_current_by_tracks"):
        c.equal(np.asarray(getattr(y, k)), np.asarray(getattr(x, k)), f"loaded {k}")
    if sum(map(len, links)):
        if worlds_len(names):
            p0, p1 = x.period, y.period
            c.check(p0 == p1, f"period {p1}, expected {p0}")
            from py_eddy_tracker.observations.observation import EddiesObservations

            ends = [datetime(1950, 1, 1) + timedelta(days=float(EddiesObservations.load_file(n).time[0])) for n in (names[0], names[-1])]
            c.check(all(abs((p - q).total_seconds()) < 2 for p, q in zip(p0, ends)), f"period {p0}, expected {ends}")
        a, b = x.merge(raw_data=False), y.merge(raw_data=False)
        c.check(len(a) == len(b) == int(x.nb_obs), "size of tracks made from a loaded file")
        for k in a.fields:
            c.equal(b.obs[k], a.obs[k], f"field {k} of tracks made from a loaded file")
        c.nontrivial(*links, names, sample=dict(links=[len(v) for v in links], virtual=x.nb_virtual))
    # a second generation is the same
    g = os.path.join(c.tmp, "again.nc")
    y.save(g)
    same_links(c, Correspondances.load(g), links, "links saved twice")


def worlds_len(names):
    """file names, when first and last ones hold observations"""
    from py_eddy_tracker.observations.observation import EddiesObservations as E

    return names if len(E.load_file(names[0])) and len(E.load_file(names[-1])) else []


def places(calls):
    return [[np.array([v[k]["lon"], v[k]["lat"]], "f8").T for k in ("previous", "current")] for v in calls]


@CHECK.group("resume", quick=140, thorough=3000, jobs=5, warm=True)
def resume(c):
    """interrupted and resumed run equals the uninterrupted one"""
    rng = c.rng
    days = int(rng.integers(3, 12))
    names, kw = start(c, pick(rng), days)
    worlds.LOG.calls.clear()
    full = track(tidy(rng, names), kw)
    seen = places(worlds.LOG.calls)
    ref = [a.copy() for a in full]
    cuts = sorted(set(int(k) for k in rng.integers(2, days, 1 if rng.random() < 0.7 else 3)))
    previous = None
    for n, k in enumerate(cuts):
        part = track(tidy(rng, names[:k]), kw, previous_correspondance=previous)
        same_links(c, part, ref[: k - 1], f"first {k} files", exact=n == 0)
        previous = os.path.join(c.tmp, f"part{n}.nc")
        part.save(previous)
        c.check(os.path.getsize(previous) > 0, "nothing saved")
    worlds.LOG.calls.clear()
    again = track(tidy(rng, names), kw, previous_correspondance=previous)
    # what is handed to the association, virtual observations included, is the same as without interruption
    now = places(worlds.LOG.calls)
    c.check(len(now) == days - cuts[-1], f"{len(now)} associations after {cuts[-1]} files of {days}")
    for t, (a, b) in enumerate(zip(now, seen[len(seen) - len(now):])):
        for k in range(2):
            c.check(len(a[k]) == len(b[k]), f"step {t} after the resume: {len(a[k])} observations handed to the association, expected {len(b[k])}", cuts=cuts)
            if len(a[k]):
                d = np.abs(a[k][:, None] - b[k][None])
                d[..., 0] = np.minimum(d[..., 0] % 360, 360 - d[..., 0] % 360)
                d = d.max(2)
                far = max(float(d.min(0).max()), float(d.min(1).max()))
                c.check(far < 0.05, f"step {t} after the resume: an observation handed to the association is {far:.3f} degree away from the one of the "
                        "uninterrupted run", cuts=cuts, got=a[k], expected=b[k])
        c.count("associations_compared")
    same_links(c, again, ref, f"resumed after {cuts} files of {days}", exact=False)
    c.check(int(again.current_id) == int(full.current_id), f"next identity {again.current_id}, expected {full.current_id}")
    nv = sum(int(l["virtual"].sum()) for l in ref[cuts[-1] - 1:]) if full.virtual else 0
    c.count("rebirth_after_resume", nv)
    k = cuts[-1]
    if sum(map(len, ref[: k - 1])) and sum(map(len, ref[k - 1:])):
        # and the tracks
        full.prepare_merging(), again.prepare_merging()
        a, b = full.merge(raw_data=False), again.merge(raw_data=False)
        for f in a.fields:
            if f == "cost_association":
                c.close(b.obs[f], a.obs[f], "costs of tracks", rtol=1e-3, atol=1e-4)
            else:
                c.equal(b.obs[f], a.obs[f], f"{f} of tracks assembled after a resume")
        c.nontrivial(*ref, cuts, sample=dict(files=days, cuts=cuts, links=[len(v) for v in ref], virtual=full.nb_virtual, rebirth=nv))


@CHECK.group("refused", quick=20, thorough=200)
def refused(c):
    """a file made by another method can't be continued silently"""
    from py_eddy_tracker.tracking import Correspondances

    rng = c.rng
    names, kw = start(c, "default", 4)
    x = track(names[:3], kw)
    f = os.path.join(c.tmp, "p.nc")
    x.save(f)
    other = dict(kw)
    if rng.random() < 0.5:
        other["virtual"] = kw["virtual"] + 1
    else:
        other["class_method"] = worlds.RecChelton
    c.raises(lambda: Correspondances(names, previous_correspondance=f, **other), "continued with another method of tracking")
    c.nontrivial(names, str(other))


@CHECK.group("join", quick=100, thorough=2000, jobs=3, warm=True)
def join(c):
    """two pieces which share some files"""
    from py_eddy_tracker.tracking import Correspondances

    rng = c.rng
    days = int(rng.integers(4, 12))
    names, kw = start(c, pick(rng), days)
    a1 = int(rng.integers(2, days))  # last file of the first piece
    b0 = int(rng.integers(0, a1))  # first file of the second one
    if rng.random() < 0.5:
        kw["virtual"] = 0
    full = track(list(names), kw)
    ref = [x.copy() for x in full]
    one, two = track(list(names[: a1 + 1]), kw), track(list(names[b0:]), kw)
    if kw["virtual"]:
        # both trackers must have recorded the same links, and no track be asleep at the junction
        i = a1 - b0
        if any(len(x) != len(y) or any((x[f] != y[f]).any() for f in ("in", "out", "virtual")) for x, y in zip(two[i - 1:], ref[a1 - 1:])):
            return
        old = set(np.concatenate([x["id"] for x in two[:i]]).tolist()) - set(two[i - 1]["id"].tolist())
        if any(old & set(x["id"].tolist()) for x in two[i:]):
            return
    if rng.random() < 0.5:
        for i, x in enumerate((one, two)):
            x.save(os.path.join(c.tmp, f"{i}.nc"))
        one, two = (Correspondances.load(os.path.join(c.tmp, f"{i}.nc")) for i in range(2))
    one.merge_correspondance(two)
    c.check([text(n) for n in one.datasets] == names, "files of the joined pieces", got=[text(n) for n in one.datasets])
    c.check(len(one) == days - 1, f"{len(one)} steps for {days} files")
    # identities: same partition of observations, dense, numbered once
    fwd, bwd = {}, {}
    for t, (x, y) in enumerate(zip(one, ref)):
        for f in ("in", "out"):
            c.equal(x[f], y[f], f"joined pieces: {f} of step {t}")
        c.close(x["cost_value"], y["cost_value"], f"joined pieces: costs of step {t}", rtol=1e-6)
        for i, j in zip(x["id"].tolist(), y["id"].tolist()):
            c.check(fwd.setdefault(i, j) == j and bwd.setdefault(j, i) == i, f"step {t}: identity {i} is not the track {j}")
    c.check(sorted(fwd) == list(range(len(fwd))), f"identities of joined pieces are not numbered densely {sorted(fwd)[:20]}")
    c.check(int(one.current_id) == len(fwd), f"next identity {one.current_id} after {len(fwd)} tracks")
    f = os.path.join(c.tmp, "joined.nc")
    one.save(f)
    back = Correspondances.load(f)
    same_links(c, back, one, "joined pieces, saved then loaded")
    c.check(int(back.current_id) == len(fwd) and [text(n) for n in back.datasets] == names, "joined pieces, saved then loaded: next identity or files")
    one.prepare_merging(), full.prepare_merging()
    if len(fwd):
        c.check(int(one.nb_obs) == int(full.nb_obs), "number of observations by tracks of joined pieces")
    if sum(map(len, ref[:a1])) and sum(map(len, ref[a1:])):
        c.nontrivial(*ref, a1, b0, sample=dict(files=days, first=[0, a1], second=[b0, days - 1], tracks=len(fwd)))
