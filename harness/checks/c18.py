"""C18 combining and reshaping datasets"""
import numpy as np

from harness import gen
from harness.core import Check

CHECK = Check("C18", "chains of concatenation, merge, insertion, addition, copy, field addition and removal, rotation type and "
              "class conversion on datasets of 0 to 40 rows, kept step by step beside a list of plain python records; non trivial "
              "when a chain holds rows of several datasets or changes its fields",
              ["datasets of different kinds (fields, sampling, packing) are either combined field by field or refused",
               "insertion positions are between -size-1 and size",
               "values are not nan for the equality"])

EX = ["eke", "virtual", "i", "shape_error_e", "num_point_e", "score"]


def classes():
    from py_eddy_tracker.observations.network import NetworkObservations
    from py_eddy_tracker.observations.observation import EddiesObservations
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    return EddiesObservations, TrackEddiesObservations, NetworkObservations


def fill(rng, e):
    """every field receives distinct values"""
    for f in e.fields:
        col = e.obs[f]
        if col.dtype.kind == "f":
            col[:] = np.round(rng.uniform(-100, 100, col.shape), 2)
        else:
            info = np.iinfo(col.dtype)
            col[:] = rng.integers(0, min(int(info.max), 5000), col.shape)
    if "track" in e.fields:
        e.obs["track"][:] = np.sort(rng.integers(0, max(1, len(e) // 3), len(e)))
    if "time" in e.fields:
        e.obs["time"][:] = rng.integers(1000, 1100, len(e))


def dataset(rng, cls, n, extra=(), arrays=(), sampling=0, only=None, sign=1, raw=False):
    from py_eddy_tracker import VAR_DESCR  # noqa

    e = cls(n, track_extra_variables=list(extra), array_variables=list(arrays), track_array_variables=sampling,
            only_variables=None if only is None else list(only), raw_data=raw)
    fill(rng, e)
    e.sign_type = sign
    return e


def kind(rng, cls):
    base = set(cls(0).fields)
    extra = [str(v) for v in rng.permutation([v for v in EX if v not in base])[: int(rng.integers(0, 4))]]
    arrays = [str(v) for v in rng.permutation(gen.ALL_ARRAYS)[: int(rng.integers(0, 5))]]
    return dict(extra=extra, arrays=arrays, sampling=int(rng.integers(2, 6)) if arrays or rng.random() < 0.5 else 0,
                raw=bool(rng.random() < 0.15))


def size(rng):
    return int(rng.choice([0, 1, 2, rng.integers(3, 40)], p=[0.12, 0.1, 0.1, 0.68]))


def rec(e):
    """plain records of a dataset"""
    return [{f: e.obs[f][i].tolist() for f in e.fields} for i in range(len(e))]


def rows_are(c, e, records, what, skip=()):
    c.check(len(e) == len(records), f"{what}: {len(e)} rows instead of {len(records)}")
    for f in e.fields:
        if f in skip or not records or f not in records[0]:
            continue
        c.equal(e.obs[f], np.array([r[f] for r in records], dtype=e.obs[f].dtype).reshape(e.obs[f].shape), f"{what}: {f}")
    c.count("rows", len(records))


def track_groups(c, e, parts, what):
    """rows of the same input sharing a track still do, and nothing else"""
    if "track" not in e.fields:
        return
    lab = [(k, t) for k, p in enumerate(parts) for t in p]
    t = np.asarray(e.obs["track"])
    seen, back = {}, {}
    for l, v in zip(lab, t.tolist()):
        c.check(seen.setdefault(l, v) == v, f"{what}: track {l} was torn")
        c.check(back.setdefault(v, l) == l, f"{what}: tracks {back[v]} and {l} were mixed", track=t)
    c.count("tracks", len(seen))


def same_kind(e, like, what, c):
    c.check(type(e) is type(like), f"{what}: class {type(e).__name__}")
    c.check(set(e.fields) == set(like.fields), f"{what}: fields")
    c.check(e.raw_data == like.raw_data, f"{what}: raw flag")
    c.check(e.track_array_variables == like.track_array_variables, f"{what}: sampling")


def apart(c, e, others, what):
    for o in others:
        c.check(e is o or not np.shares_memory(e.obs, o.obs) or len(o) == 0, f"{what}: memory shared between datasets")


@CHECK.group("combine", quick=400, thorough=8000, jobs=2)
def combine(c):
    """concatenate, merge, +, add against lists of records"""
    rng = c.rng
    cls = classes()[rng.choice([0, 1, 1, 2])]
    k = kind(rng, cls)
    sign = int(rng.choice([-1, 1]))
    e = dataset(rng, cls, size(rng), sign=sign, **k)
    parts = [rec(e)]
    what = []
    for _ in range(int(rng.integers(1, 5))):
        nb = int(rng.integers(1, 4))
        others = [dataset(rng, cls, size(rng), sign=sign, **k) for _ in range(nb)]
        before = [o.obs.tobytes() for o in others]
        op = int(rng.integers(0, 5))
        if rng.random() < 0.5:  # what was computed before must not survive
            e.period
            if cls is classes()[1] and len(e):
                e.nb_obs_by_track
        r0 = rec(e)
        if op == 0:
            what.append(f"concatenate {nb + 1}")
            src = e
            e = cls.concatenate([e] + others)
            expect = r0 + [r for o in others for r in rec(o)]
            skip = ("track",) if cls is classes()[1] else ()
            groups = [[r.get("track") for r in x] for x in [r0] + [rec(o) for o in others]]
            rows_are(c, src, r0, f"{what}: source")
        elif op == 1:
            what.append("merge")
            src = e
            e = e.merge(others[0])
            expect = r0 + rec(others[0])
            skip = ("track",)
            groups = [[r.get("track") for r in x] for x in (r0, rec(others[0]))]
            rows_are(c, src, r0, f"{what}: source")
        else:
            n = len(e)
            i = int(rng.integers(-n - 1, n + 1))
            o = others[0]
            if op == 2:
                what.append(f"insert at {i} of {n}")
                got = e.insert_observations(o, i)
            elif op == 3:
                i = n
                what.append("append")
                got = e.append(o)
            else:
                i = n
                what.append("+")
                got = e + o
            c.check(got is e or len(got) == n + len(o), f"{what}: result")
            e = got
            i = i if i >= 0 else n + i + 1
            expect = r0[:i] + rec(o) + r0[i:]
            skip, groups = (), None
        txt = f"{cls.__name__}: {what}"
        rows_are(c, e, expect, txt, skip)
        if skip and groups:
            track_groups(c, e, groups, txt)
        for o, b in zip(others, before):
            c.check(o.obs.tobytes() == b, f"{txt}: an input was modified")
        apart(c, e, others, txt)
        c.check(e.sign_type == sign, f"{txt}: rotation type {e.sign_type}")
        if len(e) and "time" in e.fields:
            c.check(e.period == (e.obs["time"].min(), e.obs["time"].max()), f"{txt}: period {e.period} is not the one of the rows")
        if cls is classes()[1] and len(e) and (np.diff(e.obs["track"].astype("i8")) >= 0).all():
            cnt = np.bincount(e.obs["track"])
            c.equal(e.nb_obs_by_track, cnt, f"{txt}: observations by track")
            c.equal(e.index_from_track[cnt > 0], np.searchsorted(e.obs["track"], np.flatnonzero(cnt)), f"{txt}: first index of tracks")
        parts.append(1)
    if len(e) > 2:
        c.nontrivial(what, e.obs, sample=dict(cls=cls.__name__, operations=what, rows=len(e)))


@CHECK.group("insert_in_empty", quick=60, thorough=600)
def insert_in_empty(c):
    """datasets are built by accumulation, starting from nothing"""
    rng = c.rng
    cls = classes()[rng.integers(0, 3)]
    k = kind(rng, cls)
    acc = dataset(rng, cls, 0, sign=None, **k)
    records = []
    for j in range(int(rng.integers(1, 4))):
        o = dataset(rng, cls, size(rng), sign=-1, **k)
        acc = acc + o if rng.random() < 0.5 else acc.insert_observations(o, -1)
        records += rec(o)
        rows_are(c, acc, records, f"accumulation {j}")
        # the source lives its life
        if len(o):
            fill(rng, o)
            rows_are(c, acc, records, f"accumulation {j} after a change of its source")
    if records:
        c.check(acc.sign_type == -1, f"rotation type {acc.sign_type} after accumulation of cyclones")
        c.nontrivial(acc.obs)


@CHECK.group("fields", quick=250, thorough=5000, jobs=2)
def fields(c):
    """chains of additions and removals of fields"""
    rng = c.rng
    cls = classes()[rng.integers(0, 3)]
    k = kind(rng, cls)
    forced = set(cls(0, only_variables=["time"]).fields) - {"time"}
    e = dataset(rng, cls, size(rng), sign=int(rng.choice([-1, 1])), **k)
    expect = rec(e)
    names = set(e.fields)
    what = []
    cand = ["eke", "i", "score", "shape_error_e", "num_point_e", "virtual", "distance_next"]
    for _ in range(int(rng.integers(1, 6))):
        op = rng.integers(0, 5)
        src, snap = e, (e.obs.tobytes(), set(e.fields))
        if op == 0:
            new = [f for f in rng.permutation(cand)[: int(rng.integers(1, 3))] if f not in names]
            if not new:
                continue
            new = [str(f) for f in new]
            what.append(f"add {new}")
            e = e.add_fields(new if rng.random() < 0.5 else tuple(new))
            names |= set(new)
        elif op == 1:
            new = [str(f) for f in rng.permutation(gen.ALL_ARRAYS)[:2] if f not in names]
            if not new or not e.track_array_variables:
                continue
            what.append(f"add arrays {new}")
            e = e.add_fields(array_fields=new)
            names |= set(new)
            c.check(all(e.obs[f].shape == (len(e), e.track_array_variables) for f in new), f"{what}: shape of the new arrays")
        elif op == 2:
            rm = [str(f) for f in rng.permutation(sorted(names - forced))[: int(rng.integers(1, 4))]]
            if len(names - set(rm) - forced) < 2:
                continue
            what.append(f"remove {rm}")
            e = e.remove_fields(*rm)
            names -= set(rm)
        elif op == 3:
            if "type_cyc" in names:
                continue
            what.append("rotation type")
            e = e.add_rotation_type()
            names.add("type_cyc")
            c.check((np.asarray(e.type_cyc) == src.sign_type).all(), f"{what}: rotation field")
        else:
            what.append("copy")
            e = e.copy()
        txt = f"{cls.__name__}: {what}"
        c.check((src.obs.tobytes(), set(src.fields)) == snap, f"{txt}: source modified")
        c.check(set(e.fields) == names, f"{txt}: fields {set(e.fields) ^ names} in excess or missing")
        c.check(e.sign_type == src.sign_type and type(e) is cls and e.raw_data == src.raw_data, f"{txt}: metadata")
        c.check(not np.shares_memory(e.obs, src.obs) or not len(e), f"{txt}: memory shared with the source")
        keep = [{f: r[f] for f in r if f in names} for r in expect]
        rows_are(c, e, keep, txt)
        for f in names - set(expect[0] if expect else names):
            if f != "type_cyc":
                c.check(not np.asarray(e.obs[f]).any(), f"{txt}: new field {f} is not zero")
        expect = rec(e)
        # still usable with its equals
        if rng.random() < 0.4:
            both = cls.concatenate([e, e.copy()])
            rows_are(c, both, expect + expect, f"{txt}, concatenate", skip=("track",))
            c.check(set(both.fields) == names, f"{txt}, concatenate: fields")
        if rng.random() < 0.4:
            m = rng.random(len(e)) < 0.5
            if cls is not classes()[2]:
                rows_are(c, e.extract_with_mask(m), [r for r, k_ in zip(expect, m) if k_], f"{txt}, extract")
        if rng.random() < 0.2:
            import os
            p = os.path.join(c.tmp, f"f{len(what)}.nc")
            e.write_file(filename=p)
            c.check(set(cls.load_file(p, raw_data=e.raw_data).fields) >= names, f"{txt}, written: fields")
    if what:
        c.nontrivial(what, e.obs, sample=dict(cls=cls.__name__, operations=what))


@CHECK.group("different", quick=150, thorough=2500)
def different(c):
    """datasets which have not the same fields: combined field by field or refused, never swapped"""
    rng = c.rng
    cls = classes()[rng.integers(0, 2)]
    k = kind(rng, cls)
    if k["raw"]:
        k["raw"] = False
    ref = dataset(rng, cls, int(rng.integers(1, 15)), sign=1, **k)
    how = int(rng.integers(0, 4))
    kk = dict(k)
    if how == 0:  # other order of declaration, same fields
        kk["extra"], kk["arrays"] = [str(v) for v in rng.permutation(k["extra"])], [str(v) for v in rng.permutation(k["arrays"])]
        other = dataset(rng, cls, int(rng.integers(1, 15)), sign=1, **kk)
    elif how == 1:  # same number of fields but others
        pool = sorted(set(ref.fields))
        n = int(rng.integers(2, max(3, len(pool) // 2)))
        ref = dataset(rng, cls, 7, only=[str(v) for v in rng.permutation(pool)[:n]], **k)
        other = dataset(rng, cls, 5, only=[str(v) for v in rng.permutation(pool)[:n]], **k)
    elif how == 2:  # packing
        other = dataset(rng, cls, 6, **dict(k, raw=True))
    else:  # same fields obtained in an other way
        tmp = dataset(rng, cls, int(rng.integers(1, 15)), sign=1, **k).add_fields(["distance_next"])
        other = tmp.remove_fields("distance_next")
    same = set(ref.fields) == set(other.fields) and how != 2
    a, b = rec(ref), rec(other)
    for op in ("concatenate", "insert", "merge"):
        r = ref.copy()
        try:
            if op == "concatenate":
                got = cls.concatenate([r, other])
            elif op == "insert":
                got = r.insert_observations(other, 0)
            else:
                got = r.merge(other)
        except Exception as ex:
            c.check(not same, f"{op} of datasets with the same fields (way {how}) refused: {type(ex).__name__}: {ex}")
            continue
        if how == 2:
            c.check(op == "merge", f"{op} mixed packed and decoded values")
            continue
        x, y = (a, b) if op != "insert" else (b, a)
        common = set(ref.fields) & set(other.fields)
        skip = {"track"} if op != "insert" else set()
        rows_are(c, got, [{f: v for f, v in q.items() if f in common} for q in x + y], f"{op} way {how}", skip)
        for f in set(got.fields) - common:
            z = got.obs[f][len(x):] if op != "insert" else got.obs[f][: len(x)]
            c.check(f in ref.fields and not np.asarray(z).any(), f"{op} way {how}: field {f} of rows which have not it")
    c.nontrivial(how, a, b)


@CHECK.group("copy_equal", quick=200, thorough=4000)
def copy_equal(c):
    """copies are equal and independent, equality sees every difference"""
    rng = c.rng
    cls = classes()[rng.integers(0, 3)]
    k = kind(rng, cls)
    e = dataset(rng, cls, int(rng.integers(1, 20)), sign=int(rng.choice([-1, 1])), **k)
    g = e.copy()
    c.check(g == e and not (g != e), "a copy is not equal")
    same_kind(g, e, "copy", c)
    c.check(not np.shares_memory(g.obs, e.obs), "copy shares memory")
    r = rec(e)
    f = str(rng.choice(sorted(g.fields)))
    i = int(rng.integers(0, len(g)))
    col = g.obs[f]
    j = (i,) if col.ndim == 1 else (i, int(rng.integers(0, col.shape[1])))
    old = col[j]
    col[j] = 1 if old != 1 else 2
    c.check(not (g == e) and g != e, f"datasets whose {f}{list(j)} differ are equal")
    rows_are(c, e, r, "source after a change of its copy")
    col[j] = old
    c.check(g == e, "dataset equal again")
    g.sign_type = -e.sign_type
    c.check(not (g == e), "datasets with other rotation types are equal")
    g.sign_type = e.sign_type
    h = g.index(slice(0, len(g) - 1))
    c.check(not (h == e) and not (e == h), "datasets with other sizes are equal")
    rm = sorted(set(g.fields) - set(cls(0, only_variables=["time"]).fields) - {"time"})
    h = g.remove_fields(str(rng.choice(rm)))
    c.check(not (h == e), "datasets with other fields are equal")
    # same content, fields declared in another order
    o = cls(len(e), track_extra_variables=[str(v) for v in rng.permutation(k["extra"])], track_array_variables=k["sampling"],
            array_variables=[str(v) for v in rng.permutation(k["arrays"])], raw_data=k["raw"])
    o.sign_type = e.sign_type
    for f in e.fields:
        o.obs[f] = e.obs[f]
    c.check(o == e and e == o, "datasets with the same content are not equal")
    z = e.empty_dataset()
    c.check(len(z) == 0 and set(z.fields) == set(e.fields), "empty dataset")
    c.nontrivial(e.obs, f)


@CHECK.group("convert", quick=100, thorough=1500)
def convert(c):
    """conversions between classes"""
    rng = c.rng
    E, T, N = classes()
    k = kind(rng, N)
    e = dataset(rng, N, size(rng), sign=int(rng.choice([-1, 1])), **k)
    cls = [E, T][rng.integers(0, 2)]
    r = rec(e)
    g = e.astype(cls)
    c.check(type(g) is cls and g.sign_type == e.sign_type, "class or rotation type after astype")
    c.check(set(cls(0).fields) <= set(g.fields) or k["raw"], "fields of the class after astype")
    rows_are(c, g, [{f: v for f, v in q.items() if f in g.fields} for q in r], f"astype {cls.__name__}")
    common = set(g.fields) & set(e.fields)
    c.check(set(k["extra"]) | set(k["arrays"] if k["sampling"] else []) <= common, "extra fields lost by astype")
    rows_are(c, e, r, "source of astype")
    d = {f: np.array(e.obs[f]) for f in ("time", "lon", "lat")}
    h = cls.from_array(d)
    c.check(len(h) == len(e), "from_array")
    for f in d:
        c.equal(h.obs[f], d[f].astype(h.obs[f].dtype), f"from_array {f}")
    c.nontrivial(e.obs, cls.__name__)


@CHECK.group("circle", quick=60, thorough=1000)
def circle(c):
    """contours replaced by circles"""
    from harness import ref

    rng = c.rng
    n = int(rng.integers(1, 12))
    e = gen.tracks(rng, 1, max_len=n, min_len=n, sampling=int(rng.integers(8, 25)),
                   arrays=[gen.ALL_ARRAYS, gen.ALL_ARRAYS[:2], gen.ALL_ARRAYS[2:4]][rng.integers(0, 3)])
    before = e.copy()
    virt = bool(rng.integers(0, 2))
    k = float(rng.choice([1, 0.5, 2]))
    e.circle_contour(only_virtual=virt, factor=k)
    done = np.asarray(before.obs["virtual"], bool) if virt else np.ones(n, bool)
    for f in e.fields:
        if not f.startswith("contour_"):
            c.equal(e.obs[f], before.obs[f], f"{f} modified by circle_contour")
        else:
            c.equal(e.obs[f][~done], before.obs[f][~done], f"{f} of rows which are not asked")
    for s in "es":
        if "contour_lon_" + s not in e.fields:
            continue
        for i in np.flatnonzero(done):
            x, y = e.obs["contour_lon_" + s][i].astype("f8"), e.obs["contour_lat_" + s][i].astype("f8")
            d = ref.haversine(float(e.lon[i]), float(e.lat[i]), x, y)
            c.close(d, np.full(x.size, float(e.obs["radius_" + s][i]) * k), "radius of the circle", rtol=2e-3)
            c.close([x[0], y[0]], [x[-1], y[-1]], "closed circle", rtol=1e-5, atol=1e-5)
    c.nontrivial(e.obs)
