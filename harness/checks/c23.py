"""C23 assembled tracks"""
import os

import numpy as np

from harness import gen, worlds
from harness.core import Check

CHECK = Check("C23", "sequences of 2 to 12 daily files, each observation labelled, tracked by the three trackers with 0 to 4 virtual steps; all files "
              "of results are read back and compared with the detections; non trivial when tracks are kept",
              ["positions of virtual observations are linear between the observations which surround them (rounded as stored)",
               "detections lie on dates after 1950-01-01"])
NAME = dict(default="RecDefault", area="RecArea", chelton="RecChelton")
ARR = ["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s", "uavg_profile"]


def labelled(rng, kind, days, **kw):
    w = worlds.world(rng, days=days, kind=kind, arrays=ARR if rng.random() < 0.6 or kind == "area" else [], **kw)
    k = 0
    for e in w:
        e.obs["num_point_e"][:] = np.arange(k, k + len(e))
        k += len(e)
    return w, k


def expected(corr):
    """observations (file, row) of each track and cost toward the next one"""
    out = {}
    for t, links in enumerate(corr):
        for l in links:
            v = out.setdefault(int(l["id"]), [])
            if not v:
                v.append([t, int(l["in"]), None])
            v[-1][2] = float(l["cost_value"])
            v.append([t + 1, int(l["out"]), None])
    return out


def judge(c, got, exp, files, what, virtual, skip_cost=False, raw=False):
    """tracks of a dataset against the observations they must hold"""
    order = [(k, exp[k]) for k in sorted(exp)]
    size = [v[-1][0] - v[0][0] + 1 for _, v in order]
    c.check(len(got) == sum(size), f"{what}: {len(got)} observations, expected {sum(size)}")
    if not len(got):
        return set()
    tr = np.asarray(got.track).astype("i8")
    c.equal(tr, np.arange(len(order)).repeat(size), f"{what}: identifiers of tracks")
    c.equal(np.asarray(got.n).astype("i8"), np.concatenate([np.arange(s) for s in size]), f"{what}: numbers along tracks")
    rows, src, fill, nxt = [], [], [], []
    i = 0
    for (k, v), s in zip(order, size):
        d0 = v[0][0]
        at = {d - d0: (d, r) for d, r, _ in v}
        for n in range(s):
            if n in at:
                rows.append(i + n), src.append(at[n])
            else:
                fill.append(i + n)
        for (d, r, w), (d1, _, _) in zip(v[:-1], v[1:]):
            nxt.append((i + d1 - d0 - 1, w))
        i += s
    rows, fill = np.array(rows, int), np.array(fill, int)
    flag = np.zeros(len(got), bool)
    flag[fill] = True
    if virtual:
        c.equal(np.asarray(got.virtual).astype(bool), flag, f"{what}: flag of virtual observations")
    else:
        c.check(not len(fill), "virtual slots without virtual tracking")
    for f in files[0].fields:
        if f not in got.fields:
            c.check(False, f"{what}: field {f} is lost")
        if f == "cost_association":
            continue
        a = np.asarray(got.obs[f])[rows].astype("f8")
        b = np.array([files[d].obs[f][r] for d, r in src]).astype("f8")
        if "lon" in f and virtual:  # any branch
            d = (a - b + 180) % 360 - 180
            c.check(bool((np.abs(d) < 2e-2 if "contour" in f else np.abs(d) < 1e-4).all()), f"{what}: {f} of observations", got=a, expected=b)
        elif raw or f in ("time", "lon", "lat", "num_point_e"):
            c.equal(a, b, f"{what}: {f} of observations")
        else:
            c.close(a, b, f"{what}: {f} of observations", rtol=1e-6, atol=2e-4 * max(1, np.abs(b).max()) if f != "amplitude" else 2e-4)
    if virtual and len(fill):
        ok = np.flatnonzero(~flag)
        for f in ("time", "lon", "lat"):
            v = np.asarray(got.obs[f], "f8")
            c.close(v[fill], np.interp(fill, ok, v[ok]), f"{what}: {f} of virtual observations", rtol=0, atol=1e-4)
        dlon = np.diff(np.asarray(got.lon, "f8"))[np.diff(tr) == 0]
        c.check(bool((np.abs(dlon) < 180).all()), f"{what}: longitudes jump along a track")
    if not skip_cost and len(nxt):
        i, w = np.array([n for n, _ in nxt]), np.array([w for _, w in nxt])
        c.close(np.asarray(got.obs["cost_association"])[i], w, f"{what}: costs", rtol=1e-6)
    c.count("real_observations", len(rows)), c.count("virtual_observations", len(fill))
    return {int(x) for x in np.asarray(got.obs["num_point_e"])[rows]}


def outcome(c, corr_links, files, total, nb_min, virtual, long_t, short_t, untracked, raw):
    exp = expected(corr_links)
    size = {k: v[-1][0] - v[0][0] + 1 for k, v in exp.items()}
    for v in exp.values():
        d = [x[0] for x in v]
        c.check(d == sorted(set(d)), "a track has two observations on a date")
    a = judge(c, long_t, {k: v for k, v in exp.items() if size[k] >= nb_min}, files, "tracks kept", virtual, raw=raw)
    b = judge(c, short_t, {k: v for k, v in exp.items() if size[k] < nb_min}, files, "short tracks", virtual, raw=raw)
    u = np.asarray(untracked.obs["num_point_e"]).astype(int)
    c.check(len(u) == len(set(u.tolist())), "an untracked observation is stored twice")
    u = set(u.tolist())
    c.check(not (a & b or a & u or b & u), "an observation is in several results", both=sorted(a & b | a & u | b & u)[:5])
    c.check(len(a | b | u) == total, f"{len(a | b | u)} observations in the results for {total} detections")
    allf = {int(s): (i, j) for i, f in enumerate(files) for j, s in enumerate(f.obs["num_point_e"])}
    for f in files[0].fields:
        if len(untracked) and f != "cost_association":
            e = np.array([files[allf[int(s)][0]].obs[f][allf[int(s)][1]] for s in untracked.obs["num_point_e"]])
            (c.equal if raw or f in ("lon", "lat", "time") else lambda x, y, m: c.close(x, y, m, rtol=1e-6, atol=2e-4 * max(1, np.abs(e).max())))(
                np.asarray(untracked.obs[f]), e, f"untracked observations: {f}")
    return exp, a


@CHECK.group("chain", quick=90, thorough=1800, jobs=6, warm=True)
def chain(c):
    """the whole processing, results read back from files"""
    from py_eddy_tracker.appli.eddies import track
    from py_eddy_tracker.observations.observation import EddiesObservations as E
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations as T
    from py_eddy_tracker.tracking import Correspondances

    rng = c.rng
    kind = str(rng.choice(["default", "area", "chelton"], p=[0.5, 0.3, 0.2]))
    cls = getattr(worlds, NAME[kind])
    days = int(rng.integers(2, 12))
    w, total = labelled(rng, kind, days, empty=0.03 if rng.random() < 0.3 else 0)
    names = worlds.save(w, os.path.join(c.tmp, "in"))
    virtual = int(rng.choice([0, 1, 3])) if kind != "area" else int(rng.choice([0, 2]))
    blank = int(rng.choice([0, 0, 0, 1, 2])) if days > 4 else 0
    nb_min = int(rng.choice([2, 3, 4, days - blank, 1]))
    nb_min = min(nb_min, days - blank)
    raw, zarr = bool(rng.random() < 0.6), bool(rng.random() < 0.25)
    out = os.path.join(c.tmp, "out")
    os.makedirs(out)
    pattern = os.path.join(c.tmp, "in", "Eddies_*.nc") if rng.random() < 0.7 else list(rng.permutation(names))
    track(pattern=pattern, output_dir=out, c_out="{path}/{sign_type}_corr.nc", nb_obs_min=nb_min, raw=raw, zarr=zarr,
          blank_period=blank, virtual=virtual, class_method=cls, memory=bool(rng.random() < 0.2))
    used = names[: days - blank]
    files = [E.load_file(f) for f in used]
    total = sum(map(len, files))
    s = "Cyclonic" if w[0].sign_type == -1 else "Anticyclonic"
    ext = "zarr" if zarr else "nc"
    corr = Correspondances.load(os.path.join(out, f"{s}_corr.nc"))
    got = [T.load_file(os.path.join(out, f"{s}{x}.{ext}")) for x in ("", "_track_too_short")]
    c.check(sorted(os.listdir(out)) == sorted([f"{s}_corr.nc", f"{s}.{ext}", f"{s}_track_too_short.{ext}",
                                               f"{s}_untracked.nc" if not zarr else f"{s}_untracked.{ext}"]),
            f"files written {sorted(os.listdir(out))}")
    unt = E.load_file(os.path.join(out, f"{s}_untracked.{ext}"))
    for e in got + [unt]:
        c.check(e.sign_type == w[0].sign_type, f"rotation type {e.sign_type}")
    exp, kept = outcome(c, corr, files, total, nb_min, virtual, *got, unt, raw)
    if kept:
        c.nontrivial(*[f.obs for f in files], virtual, nb_min, raw, sample=dict(
            files=len(used), detections=total, kept=len(kept), virtual=virtual, minimal=nb_min, raw=raw, zarr=zarr, kind=kind))


@CHECK.group("library", quick=120, thorough=2500, jobs=5, warm=True)
def library(c):
    """selection and assembly in memory"""
    from py_eddy_tracker.observations.observation import EddiesObservations as E
    from py_eddy_tracker.tracking import Correspondances

    rng = c.rng
    kind = str(rng.choice(["default", "area", "chelton"], p=[0.6, 0.25, 0.15]))
    cls = getattr(worlds, NAME[kind])
    w, total = labelled(rng, kind, int(rng.integers(2, 12)))
    names = worlds.save(w, c.tmp)
    virtual = int(rng.choice([0, 1, 3])) if kind != "area" else int(rng.choice([0, 2]))
    corr = Correspondances(names, virtual=virtual, class_method=cls)
    corr.track()
    corr.prepare_merging()
    raw = bool(rng.random() < 0.4)
    files = [E.load_file(f, raw_data=raw) for f in names]
    exp = expected(corr)
    size = {k: v[-1][0] - v[0][0] + 1 for k, v in exp.items()}
    ref = [l.copy() for l in corr]
    nb = int(rng.choice([2, 3, 4, 6, 50]))
    one, two = corr._copy(), corr._copy()
    res = two.longer_than(nb)
    one.shorter_than(nb)
    for t, (x, y) in enumerate(zip(corr, ref)):
        c.check(x.tobytes() == y.tobytes(), f"selection changed the original links of step {t}")
    for what, obj, keep in (("all", corr, lambda k: True), ("longer", two, lambda k: size[k] >= nb),
                            ("shorter", one, lambda k: size[k] < nb)):
        sel = {k: v for k, v in exp.items() if keep(k)}
        if what == "longer" and not sel:
            c.check(res is False, "longer_than doesn't tell that nothing remains")
            continue
        e = obj.merge(raw_data=raw)
        order = sorted(sel)
        judge_mem(c, e, [sel[k] for k in order], files, what)
        e2 = obj.merge(raw_data=raw)
        c.check(e.obs.tobytes() == e2.obs.tobytes(), f"{what}: assembled twice, tracks differ")
        c.count("assembled", len(e))
    unt = corr.get_unused_data(raw_data=raw)
    used = {(d, r) for v in exp.values() for d, r, _ in v}
    left = [int(s) for i, f in enumerate(files) for j, s in enumerate(f.obs["num_point_e"]) if (i, j) not in used]
    c.check(unt.obs["num_point_e"].tolist() == left, "untracked observations", got=unt.obs["num_point_e"], expected=left)
    if exp:
        c.nontrivial(*[f.obs for f in files], nb, sample=dict(tracks=len(exp), sizes=sorted(size.values())[-5:], bound=nb, untracked=len(left)))


def judge_mem(c, e, sel, files, what):
    size = [v[-1][0] - v[0][0] + 1 for v in sel]
    c.check(len(e) == sum(size), f"{what}: {len(e)} observations, expected {sum(size)}")
    if not len(e):
        return
    c.equal(np.asarray(e.track).astype("i8"), np.arange(len(sel)).repeat(size), f"{what}: identifiers")
    c.equal(np.asarray(e.n).astype("i8"), np.concatenate([np.arange(s) for s in size]), f"{what}: numbers along tracks")
    i0 = np.cumsum([0] + size)
    real = np.zeros(len(e), bool)
    for v, i in zip(sel, i0):
        for d, r, _ in v:
            real[i + d - v[0][0]] = True
            for f in files[d].fields:
                if f != "cost_association":
                    c.check(bool((e.obs[f][i + d - v[0][0]] == files[d].obs[f][r]).all()), f"{what}: {f} of the observation {r} of file {d}",
                            got=e.obs[f][i + d - v[0][0]], expected=files[d].obs[f][r])
        for (d, _, cost), (d1, _, _) in zip(v[:-1], v[1:]):
            c.check(np.float32(cost) == e.obs["cost_association"][i + d1 - v[0][0] - 1], f"{what}: cost of a link")
    c.check(bool((e.time[~real] == 0).all()), f"{what}: virtual slots hold something")
