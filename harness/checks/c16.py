"""C16 observations written then read back"""
import io
import os
import tarfile

import numpy as np

from harness import gen
from harness.core import Check

CHECK = Check("C16", "datasets of 0 to 60 rows of the three observation classes with random sets of fields, contours and "
              "extra fields, written to NetCDF and Zarr then loaded fully, raw, partially, by slices, with read buffers of 1 row "
              "and more, from paths, byte streams and archives; non trivial when rows are compared",
              ["values are inside the range of the storage type of their variable",
               "fields of the class which the file does not hold are created zero filled"])


def classes():
    from py_eddy_tracker.observations.network import NetworkObservations
    from py_eddy_tracker.observations.observation import EddiesObservations
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    return EddiesObservations, TrackEddiesObservations, NetworkObservations


EXTRA = ["speed_area", "effective_area", "height_max_speed_contour", "height_external_contour", "height_inner_contour",
         "shape_error_s", "shape_error_e", "nb_contour_selected", "num_point_e", "num_point_s", "cost_association",
         "distance_next"]


def dataset(rng, cls, n=None, sampling=None):
    """dataset of n rows; all fields filled with values in the range of their storage"""
    from py_eddy_tracker import VAR_DESCR

    n = int(rng.choice([0, 1, 2, rng.integers(3, 60)], p=[0.06, 0.06, 0.08, 0.8])) if n is None else n
    k = rng.integers(0, 4)
    sampling = int(rng.integers(4, 12)) if sampling is None else sampling
    arrays = list(gen.ALL_ARRAYS)
    if k == 0:
        arrays = arrays[:4]
    elif k == 1:
        arrays = list(rng.choice(arrays, int(rng.integers(1, 5)), replace=False))
    elif k == 2:
        arrays = []
        sampling = 0 if rng.random() < 0.5 else sampling
    base = set(cls(0).fields)
    extra = [str(v) for v in rng.choice(EXTRA, int(rng.integers(0, 4)), replace=False) if v not in base]
    only = None
    if rng.random() < 0.2:
        cand = sorted(base) + extra + (arrays if sampling else [])
        only = [str(v) for v in rng.permutation(cand)[: int(rng.integers(2, len(cand)))]]
    e = cls(n, track_extra_variables=extra, track_array_variables=sampling, array_variables=[str(a) for a in arrays],
            only_variables=only)
    e.sign_type = int(rng.choice([-1, 1]))
    gen.fill(rng, e)
    big = rng.random() < 0.25
    for f in e.fields:
        d = VAR_DESCR[f]
        ot, col = np.dtype(d["output_type"]), e.obs[f]
        if f in ("track", "segment"):
            col[:] = np.sort(rng.integers(0, 70000 if rng.random() < 0.2 else 6, n))
            if big:
                col[n // 2:] += rng.choice([2**16, 2**24, 2**31])
        elif f in ("next_obs", "previous_obs"):
            col[:] = rng.integers(-1, 2**31 - 1 if big else max(n, 1), n)
        elif f in ("virtual", "observation_flag"):
            col[:] = rng.integers(0, 2, n)
        elif f in ("n", "i", "j", "observation_number"):
            col[:] = rng.integers(0, 65000 if big else 500, n)
        elif big and f in ("num_point_e", "num_point_s", "nb_contour_selected"):
            col[:] = rng.integers(0, 250 if ot.itemsize == 1 else 65000, n)
        elif big and f in ("amplitude", "speed_average"):
            col[:] = rng.uniform(0, 6.4, n)
        elif big and f in ("radius_e", "radius_s", "distance_next"):
            col[:] = rng.uniform(0, 3.2e6, n)
        elif big and f.startswith("contour_lon"):
            col[:] = rng.uniform(-140, 500, col.shape)
        elif big and f.startswith("shape_error"):
            col[:] = rng.integers(0, 252, n) / 2
        elif f == "time":
            col[:] = rng.integers(0, 40000, n) + (rng.integers(0, 24, n) / 24 if rng.random() < 0.3 else 0)
        elif ot.kind == "f" and not col.any():
            col[:] = rng.normal(0, 10, col.shape)
    return e


# storage quanta of the format
QUANTUM = dict(time=1 / 86400, amplitude=1e-4, speed_average=1e-4, uavg_profile=1e-4, radius_e=50, radius_s=50,
               distance_next=50, contour_lon_e=0.01, contour_lon_s=0.01, contour_lat_e=0.01, contour_lat_s=0.01,
               shape_error_e=0.5, shape_error_s=0.5, score=0.4)


def stored(e, f):
    """what a loss-free file gives back for this field: value, tolerance"""
    from py_eddy_tracker import VAR_DESCR

    d = VAR_DESCR[f]
    v = np.asarray(e.obs[f])
    s = d.get("scale_factor")
    if s is not None:
        s = min(s, QUANTUM.get(f, s))
    mem = np.dtype(d.get("compute_type", d.get("nc_type")))
    eps = float(np.finfo(mem).eps) if mem.kind == "f" else 0.0
    v = v.astype("f8")
    tol = (s or 0) / 2 * (1 + 1e-6) + np.abs(v) * eps * 2
    if s is None and np.dtype(d["output_type"]).kind == "f":
        tol = tol + np.abs(v) * np.finfo(d["output_type"]).eps
    if np.dtype(d.get("nc_type")).kind == "f" and s is not None:
        # the decoding is done with the declared type
        tol = tol + (np.abs(v) + abs(d.get("add_offset") or 0)) * np.finfo(d["nc_type"]).eps * 2
    return v, tol


def same_values(c, e, got, f, what):
    v, tol = stored(e, f)
    g = np.asarray(got.obs[f]).astype("f8")
    c.check(g.shape == v.shape, f"{what}: shape of {f} {g.shape} instead of {v.shape}")
    ok = np.abs(g - v) <= tol
    if not ok.all():
        i = tuple(int(k) for k in np.argwhere(~ok)[0])
        c.check(False, f"{what}: {f}{list(i)} is {g[i]!r} and was {v[i]!r} (tolerance {np.broadcast_to(tol, v.shape)[i]:.3g})",
                got=g, expected=v)
    c.count("values_compared", v.size)
    c.count("oracle_decisions")


def same_rows(c, full, part, rows, what, fields=None):
    """a partial load is bit for bit the part of the full load"""
    for f in fields or part.fields:
        c.equal(part.obs[f], full.obs[f][rows], f"{what}: {f}")


def write(c, e, zarr, k=""):
    path = os.path.join(c.tmp, f"d{k}" + (".zarr" if zarr else ".nc"))
    before = e.obs.copy()
    kw = dict(chunck_size=int(c.rng.choice([13, 40, 1000]))) if zarr and c.rng.random() < 0.97 else {}
    e.write_file(filename=path, **kw)
    c.check(e.obs.tobytes() == before.tobytes(), "writing modified the dataset")
    return path


def names(fields):
    from py_eddy_tracker import VAR_DESCR

    return [VAR_DESCR[f]["nc_name"] for f in fields]


def roundtrip(c, zarr):
    rng = c.rng
    cls = classes()[rng.integers(0, 3)]
    e = dataset(rng, cls)
    path = write(c, e, zarr)
    how = int(rng.integers(0, 4)) if not zarr else 0
    if how == 1:
        src = io.BytesIO(open(path, "rb").read())
    elif how == 2:
        src = open(path, "rb")
    elif how == 3:
        with tarfile.open(os.path.join(c.tmp, "a.tar"), "w") as t:
            t.add(path, "d.nc")
        src = tarfile.open(os.path.join(c.tmp, "a.tar")).extractfile("d.nc")
    else:
        src = path
    what = f"{'zarr' if zarr else 'netcdf'} {cls.__name__} way {how}"
    kw = dict(buffer_size=int(rng.integers(1, 70))) if zarr and rng.random() < 0.7 else {}
    got = cls.load_file(src, **kw)
    c.check(type(got) is cls, f"{what}: class {type(got)}")
    c.check(len(got) == len(e), f"{what}: {len(got)} rows instead of {len(e)}")
    c.check(int(got.sign_type) == int(e.sign_type), f"{what}: rotation type {got.sign_type} instead of {e.sign_type}")
    c.check(set(e.fields) <= set(got.fields), f"{what}: lost variables {set(e.fields) - set(got.fields)}")
    for f in e.fields:
        same_values(c, e, got, f, what)
    for f in set(got.fields) - set(e.fields):
        c.check(not np.asarray(got.obs[f]).any(), f"{what}: variable {f} which was not written has values")
    c.check(got.sign_legend == e.sign_legend, "sign legend")
    if set(e.fields) == set(got.fields) and len(e):
        # a second round trip is stable
        p2 = write(c, got, zarr, "2")
        again = cls.load_file(p2)
        for f in e.fields:
            c.equal(again.obs[f], got.obs[f], f"{what}: second round trip of {f}")
        c.check(again == got or any((np.asarray(got.obs[f]) != np.asarray(got.obs[f])).any() for f in got.fields),
                f"{what}: the second round trip is not equal")
    if len(e):
        c.nontrivial(e.obs, zarr, sample=dict(cls=cls.__name__, n=len(e), fields=sorted(e.fields)))


@CHECK.group("netcdf", quick=120, thorough=2500, jobs=2)
def netcdf(c):
    """write_file / load_file: every value within its storage precision, attributes, sign and kind"""
    roundtrip(c, False)


@CHECK.group("zarr", quick=80, thorough=1500, jobs=2)
def zarr_(c):
    """same through zarr, same content as NetCDF"""
    roundtrip(c, True)


def raw_values(path):
    """packed values, read without the library"""
    if path.endswith(".zarr"):
        import zarr

        h = zarr.open(path, "r")
        return {k: np.asarray(h[k][:]) for k in h}
    import netCDF4

    with netCDF4.Dataset(path) as h:
        h.set_auto_maskandscale(False)
        return {k: np.asarray(v[:]) for k, v in h.variables.items()}


@CHECK.group("raw", quick=100, thorough=2000, jobs=2)
def raw(c):
    """raw (packed) load then save: nothing moves, and packed values are those of the file"""
    from py_eddy_tracker import VAR_DESCR

    rng = c.rng
    cls = classes()[rng.integers(0, 3)]
    e = dataset(rng, cls)
    z0 = bool(rng.integers(0, 2))
    path = write(c, e, z0)
    packed = cls.load_file(path, raw_data=True)
    full = cls.load_file(path)
    c.check(len(packed) == len(e) and set(packed.fields) == set(full.fields), "fields or rows of a raw load")
    for f in e.fields:
        d = VAR_DESCR[f]
        c.check(packed.obs[f].dtype == np.dtype(d["output_type"]), f"type of raw {f}: {packed.obs[f].dtype}")
        dec = packed.obs[f].astype("f8") * (d.get("scale_factor") or 1) + (d.get("add_offset") or 0)
        v, tol = stored(full, f)
        ok = np.abs(dec - v) <= np.minimum(tol, (d.get("scale_factor") or 1e9) * 0.1) + 1e-30
        c.check(ok, f"raw values of {f} ({'zarr' if z0 else 'netcdf'}) do not decode to the loaded values", raw=packed.obs[f], loaded=v)
    z1 = bool(rng.integers(0, 2))
    sub = packed
    rows = np.arange(len(e))
    if rng.random() < 0.4 and len(e) > 1:
        m = rng.random(len(e)) < 0.6
        if m.any() and cls is classes()[0]:
            sub, rows = packed.extract_with_mask(m), np.flatnonzero(m)
    p1 = write(c, sub, z1, "r")
    r0, r1 = raw_values(path), raw_values(p1)
    for f in e.fields:
        k = VAR_DESCR[f]["nc_name"]
        if z0 == z1:
            c.equal(r1[k], r0[k][rows], f"values of {f} in the file after raw load and save ({'zarr' if z0 else 'netcdf'})")
    again = cls.load_file(p1)
    for f in e.fields:
        if z0 == z1:
            c.equal(again.obs[f], full.obs[f][rows], f"{f} after raw load and save")
        else:
            v, tol = stored(full, f)
            t = np.minimum(tol, (VAR_DESCR[f].get("scale_factor") or 1e9) * 0.1) + 1e-30
            c.check(np.abs(again.obs[f].astype("f8") - v[rows]) <= (t[rows] if np.ndim(t) else t),
                    f"{f} after raw load from {'zarr' if z0 else 'netcdf'} and save to {'zarr' if z1 else 'netcdf'}", got=again.obs[f], expected=v[rows])
    c.check(int(again.sign_type) == int(e.sign_type), "rotation type after raw load and save")
    if len(rows):
        c.nontrivial(e.obs, z0, z1, sample=dict(cls=cls.__name__, n=len(e), zarr=[z0, z1]))


@CHECK.group("partial", quick=120, thorough=2500, jobs=2)
def partial(c):
    """indexs, include_vars, remove_vars, buffers give the same as a full load then a selection"""
    rng = c.rng
    cls = classes()[rng.integers(0, 3)]
    e = dataset(rng, cls)
    n = len(e)
    z = bool(rng.integers(0, 2))
    path = write(c, e, z)
    israw = bool(rng.integers(0, 2))
    full = cls.load_file(path, raw_data=israw)
    for _ in range(3):
        kw = dict(raw_data=israw)
        rows = slice(None)
        what = "zarr" if z else "netcdf"
        if z and rng.random() < 0.6:
            kw["buffer_size"] = int(rng.integers(1, n + 3))
        fields = None
        k = rng.integers(0, 3)
        if k == 0:
            cand = sorted(e.fields)
            fields = [str(f) for f in rng.permutation(cand)[: int(rng.integers(1, len(cand) + 1))]]
            kw["include_vars"] = names(fields)
            what += f" include {fields}"
        elif k == 1:
            cand = sorted(e.fields)
            rm = [str(f) for f in rng.permutation(cand)[: int(rng.integers(1, len(cand)))]]
            kw["remove_vars"] = names(rm)
            fields = [f for f in cand if f not in rm]
            what += f" remove {rm}"
        if rng.random() < 0.75:
            a = [None, 0, int(rng.integers(0, n + 1)), n, n + 5][rng.integers(0, 5)]
            b = [None, n, int(rng.integers(0, n + 1)), n + 7, 0, int(rng.integers(0, n + 1))][rng.integers(0, 6)]
            if (a or 0) > (n if b is None else b) and rng.random() < 0.6:
                a, b = b, a
            rows = slice(a, b)
            kw["indexs"] = dict(obs=rows)
            what += f" rows {a}:{b} of {n}"
        keep = dict(kw.get("indexs", {}))
        part = cls.load_file(path, **kw)
        c.check(kw.get("indexs", {}) == keep, f"{what}: the asked indexes were modified")
        expect = np.arange(n)[rows]
        c.check(len(part) == len(expect), f"{what}: {len(part)} rows instead of {len(expect)}")
        if fields is None:
            c.check(set(part.fields) == set(full.fields), f"{what}: fields")
        else:
            c.check(set(fields) <= set(part.fields), f"{what}: missing {set(fields) - set(part.fields)}")
            if k == 0:
                always = set(cls(0, only_variables=["time"]).fields) - {"time"}
                c.check(set(part.fields) - always == set(fields) - always, f"{what}: fields {sorted(part.fields)}")
        same_rows(c, full, part, expect, what, fields)
        c.check(int(part.sign_type) == int(e.sign_type), f"{what}: rotation type {part.sign_type}")
        if len(expect):
            c.nontrivial(e.obs, repr(kw), sample=dict(cls=cls.__name__, what=what))


@CHECK.group("rotation_field", quick=15, thorough=60)
def rotation_field(c):
    """datasets whose sign of rotation is a field of each observation"""
    rng = c.rng
    cls = classes()[rng.integers(0, 3)]
    e = dataset(rng, cls, n=int(rng.integers(0, 9))).add_rotation_type()
    z = bool(rng.integers(0, 2))
    path = write(c, e, z)
    for r in (False, True):
        got = cls.load_file(path, raw_data=r)
        c.check(int(got.sign_type) == int(e.sign_type), "rotation type")
        c.equal(got.obs["type_cyc"], e.obs["type_cyc"], "rotation type field")
    got = cls.load_file(path, remove_vars=["cyclonic_type"])
    c.check(int(got.sign_type) == int(e.sign_type), "rotation type without its variable")
    c.nontrivial(e.obs)


@CHECK.group("open_handler", quick=15, thorough=150)
def open_handler(c):
    """from an already opened file"""
    import netCDF4

    rng = c.rng
    from py_eddy_tracker.observations.observation import VirtualEddiesObservations

    cls = [classes()[0], VirtualEddiesObservations][rng.integers(0, 2)]
    e = gen.eddies(rng, int(rng.integers(1, 20)), cls=cls)
    for f in ("track", "segment_size", "dlon", "dlat"):
        if f in e.fields:
            e.obs[f][:] = rng.integers(0, 50, len(e))
    path = write(c, e, False)
    with netCDF4.Dataset(path) as h:
        got = cls.from_netcdf(h)
    for f in e.fields:
        same_values(c, e, got, f, "from_netcdf")
    c.check(int(got.sign_type) == int(e.sign_type), "rotation type")
    c.nontrivial(e.obs)


@CHECK.group("foreign", quick=50, thorough=1000, jobs=4)
def foreign(c):
    """files of other producers: name of the dimension, units, packing and sign of rotation which are not those of this library"""
    import netCDF4
    import zarr

    from py_eddy_tracker import VAR_DESCR

    rng = c.rng
    cls = classes()[rng.integers(0, 3)]
    e = dataset(rng, cls, n=int(rng.integers(1, 30)))
    z = rng.random() < 0.3
    path = os.path.join(c.tmp, "f.zarr" if z else "f.nc")
    dim = "obs" if z else str(rng.choice(["obs", "Nobs", "observation", "i"]))
    other = {"m": [("cm", 100), ("km", 1e-3), ("meter", 1), ("metres", 1)], "m/s": [("cm/s", 100), ("meter / second", 1), ("km/hour", 3.6)],
             "m^2": [("km^2", 1e-6), ("cm^2", 1e4)], "m^2/s^2": [("cm^2/s^2", 1e4)]}
    kind = int(rng.integers(0, 4))  # how the file says the sign
    store = zarr.open(path, "w") if z else netCDF4.Dataset(path, "w")
    moved = []
    try:
        if not z:
            # a dimension which is not the one of observations comes first
            if e.track_array_variables:
                store.createDimension("NbSample", e.track_array_variables)
            store.createDimension("nv", 2), store.createDimension(dim, len(e))
        else:
            store.attrs["track_array_variables"] = int(e.track_array_variables)
        for f in e.fields:
            if f == "type_cyc":
                continue
            d = VAR_DESCR[f]
            unit, k = d["nc_attr"].get("units"), 1.0
            v = np.asarray(e.obs[f])
            if v.dtype.kind == "f" and unit in other and rng.random() < 0.6:
                u, k = other[unit][rng.integers(0, len(other[unit]))]
                unit = u
                moved.append((f, u))
            elif rng.random() < 0.2:
                unit = "strange_unit" if rng.random() < 0.5 else None
            v = v if k == 1 else v.astype("f8") * k
            v = v.astype("f4") if v.dtype == np.float16 else v
            if z:
                a = store.create_dataset(d["nc_name"], shape=v.shape, dtype=v.dtype)
                a[:] = v
                attrs = a.attrs
            else:
                dims = (dim, "NbSample") if v.ndim == 2 else (dim,)
                pack = v.dtype.kind == "f" and f != "time" and rng.random() < 0.3 and np.isfinite(v).all()
                a = store.createVariable(d["nc_name"], "i4" if pack else v.dtype, dims)
                if pack:
                    a.scale_factor = float(max(np.abs(v - v.mean()).max(), 1e-12) / 2e9)
                    a.add_offset = float(v.mean())
                a[:] = v
            if unit is not None:
                n = "unit" if rng.random() < 0.3 else "units"
                if z:
                    attrs[n] = unit
                else:
                    a.setncattr(n, unit)
        sign = int(e.sign_type)
        if kind == 1 and not z:
            store.title = "Cyclonic" if sign == -1 else "Anticyclonic"
        elif kind in (2, 1):
            store.attrs.update(rotation_type=sign) if z else store.setncattr("rotation_type", sign)
        elif kind == 3 and not z:
            a = store.createVariable("cyclonic_type", "i2", (dim,))
            a[:] = sign
        else:
            sign = -1  # nothing said
    finally:
        if not z:
            store.close()
    what = f"file of another producer ({'zarr' if z else 'netcdf'}, dimension {dim}, units {moved})"
    rows = slice(None)
    kw = {}
    if rng.random() < 0.4:
        a = int(rng.integers(0, len(e)))
        rows = slice(a, int(rng.integers(a, len(e))) + 1)
        kw["indexs"] = {dim: rows}
    if z and rng.random() < 0.5:
        kw["buffer_size"] = int(rng.integers(1, 20))
    got = cls.load_file(path, **kw)
    n = len(range(len(e))[rows])
    c.check(len(got) == n, f"{what}: {len(got)} rows instead of {n}")
    c.check(int(got.sign_type) == sign, f"{what}: rotation type {got.sign_type}, expected {sign}")
    for f in e.fields:
        if f == "type_cyc":
            continue
        c.check(f in got.fields, f"{what}: {f} is lost")
        g, v = np.asarray(got.obs[f]), np.asarray(e.obs[f])[rows]
        if v.dtype.kind == "f":
            v = v.astype("f8")
            a = np.asarray(e.obs[f], "f8")
            c.close(g, v, f"{what}: {f}", rtol=5e-7, atol=1e-6 * max(np.abs(a).max(initial=0), 1e-12))
        else:
            c.equal(g, v, f"{what}: {f}")
    c.nontrivial(e.obs, str(moved), sample=dict(n=n, dimension=dim, units=moved, sign=kind))
