"""C34 grid files"""
import os

import numpy as np

from harness import gen
from harness.core import Check

CHECK = Check("C34", "random NetCDF grids: dimension orders, extra dimensions and chosen index, packed or float encodings, fill "
              "values, nan, one or two dimensional coordinates, centred or corner coordinates, longitude conventions, time cubes and "
              "lists of files; non trivial: new file content and layout",
              ["the index of extra dimensions is the one known when the field is first loaded"])


def write_file(rng, path, ndim2=False):
    """returns a description of what the file holds (fields given as (x, y) masked arrays)"""
    from netCDF4 import Dataset

    nx, ny = int(rng.integers(5, 20)), int(rng.integers(5, 16))
    x0 = float(rng.choice([-180.0, 0.0, 100.0, 350.25]))
    x = x0 + 0.5 * np.arange(nx)
    y = float(rng.integers(-60, 50)) + 0.25 * np.arange(ny)
    extra = {}
    if rng.random() < 0.5:
        extra["time"] = int(rng.integers(1, 5))
    if rng.random() < 0.3:
        extra["depth"] = int(rng.integers(1, 4))
    xd, yd = ("i", "j") if ndim2 else ("lon", "lat")
    order = list(extra) + ([yd, xd] if rng.random() < 0.6 else [xd, yd])
    if extra and rng.random() < 0.3:
        order = list(rng.permutation(order))
    info = dict(x=x, y=y, order=order, extra=extra, fields={}, units={}, enc={})
    with Dataset(path, "w") as h:
        h.title = "made for the monitor"
        h.createDimension(xd, nx), h.createDimension(yd, ny)
        for k, v in extra.items():
            h.createDimension(k, v)
            t = h.createVariable(k, "f8", (k,))
            t[:] = 100 + np.arange(v)
        if ndim2:
            cd = (yd, xd) if order.index(yd) < order.index(xd) else (xd, yd)
            X, Y = np.meshgrid(x, y) if cd[0] == yd else np.meshgrid(x, y, indexing="ij")
            X = X + 0.05 * Y
            h.createVariable("lon", "f8", cd)[:] = X
            h.createVariable("lat", "f8", cd)[:] = Y
            info["x2"], info["y2"] = X, Y
        else:
            h.createVariable("lon", str(rng.choice(["f8", "f4"])), (xd,))[:] = x
            h.createVariable("lat", "f8", (yd,))[:] = y
            h["lon"].units = "degrees_east"
        sizes = {xd: nx, yd: ny, **extra}
        for name in ("ssh", "adt"):
            enc = str(rng.choice(["f8", "f4", "i2", "i4", "nan"]))
            dt = "f8" if enc in ("f8", "nan") else enc
            fill = rng.random() < 0.8
            kw = dict(fill_value=-32768 if enc == "i2" else (-2147483647 if enc == "i4" else 1e20)) if fill else {}
            v = h.createVariable(name, dt, order, **kw)
            q = 1.0
            if enc in ("i2", "i4"):
                v.scale_factor = q = 0.001
                if rng.random() < 0.3:
                    v.add_offset = 0.5
            if rng.random() < 0.8:
                v.units = str(rng.choice(["m", "cm"]))
            v.long_name = "height " + name
            info["units"][name] = getattr(v, "units", None)
            z = np.round(rng.normal(size=[sizes[d] for d in order]), 3)
            m = rng.random(z.shape) < (0.2 if (fill or enc == "nan") else 0)
            if enc == "nan":
                z[m] = np.nan
                v[:] = z
            else:
                v[:] = np.ma.array(z, mask=m)
            info["fields"][name] = np.ma.array(z, mask=m)
            info["enc"][name] = enc
    return info


def expected(info, name, idx, xd="lon", yd="lat"):
    z = info["fields"][name]
    order = list(info["order"])
    sel = tuple(slice(None) if d in (xd, yd) else idx.get(d, 0) for d in order)
    z = z[sel]
    rest = [d for d in order if d in (xd, yd)]
    return z if rest[0] == xd else z.T


def same(c, got, ex, enc, what, nanmask=True):
    gm, em = np.ma.getmaskarray(got), np.ma.getmaskarray(ex)
    c.check(got.shape == ex.shape, f"{what}: shape {got.shape} instead of {ex.shape}")
    if enc == "nan" and not nanmask:
        c.check(not gm.any(), f"{what}: unexpected mask")
        c.equal(np.isnan(np.ma.getdata(got)), em, f"{what}: invalid cells")
    else:
        c.equal(gm, em, f"{what}: mask")
    tol = 1e-6 if enc == "f4" else 1e-9
    c.close(np.ma.getdata(got)[~em], np.ma.getdata(ex)[~em], f"{what}: values", rtol=tol, atol=tol)
    c.count("cells", got.size)


@CHECK.group("load", quick=120, thorough=1500, jobs=2)
def load(c):
    """values, masks, coordinates and units of the field and of selections of dimensions"""
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    rng = c.rng
    p = os.path.join(c.tmp, "g.nc")
    info = write_file(rng, p)
    idx = {k: int(rng.integers(0, v)) for k, v in info["extra"].items() if rng.random() < 0.6}
    cen, nm = bool(rng.random() < 0.7), bool(rng.random() < 0.5)
    # cells are centered when nothing is said
    g = RegularGridDataset(p, "lon", "lat", indexs=dict(idx), nan_masking=nm, **({} if cen and rng.random() < 0.4 else dict(centered=cen)))
    c.check(g.is_centered == cen, f"is_centered is {g.is_centered}")
    sx, sy = 0.5, 0.25
    x, y = (info["x"], info["y"]) if cen else (info["x"] + sx / 2, info["y"] + sy / 2)
    c.close(g.x_c, x, "longitudes of centres"), c.close(g.y_c, y, "latitudes of centres")
    if cen:
        c.close(g.x_bounds, np.append(x - sx / 2, x[-1] + sx / 2), "longitude bounds")
        c.close(g.y_bounds, np.append(y - sy / 2, y[-1] + sy / 2), "latitude bounds")
    c.close([g.xstep, g.ystep], [sx, sy], "steps")
    c.check(not g.is_circular(), "a regional grid is said circular")
    c.check({"lon", "lat", "ssh", "adt"} <= set(g.variables), "list of variables")
    late = {}
    for name in ("ssh", "adt"):
        if info["extra"] and rng.random() < 0.3:
            late = {k: int(rng.integers(0, v)) for k, v in info["extra"].items()}
            z = g.grid(name, indexs=dict(late))
            ex = expected(info, name, {**idx, **late})
            c.count("index_at_load")
        else:
            z = g.grid(name)
            ex = expected(info, name, idx)
        same(c, z, ex, info["enc"][name], name, nm)
        c.check(g.units(name) == info["units"][name], f"units {g.units(name)!r} instead of {info['units'][name]!r}")
        c.check(g.grid(name) is z, "the field is loaded again")
    c.nontrivial(info["fields"]["ssh"], info["order"], idx, sample=dict(order=info["order"], enc=info["enc"], index=idx))


@CHECK.group("tiles", quick=40, thorough=400)
def tiles(c):
    """blocks of a field and regions selected when loading"""
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    rng = c.rng
    p = os.path.join(c.tmp, "g.nc")
    info = write_file(rng, p)
    idx = {d: int(rng.integers(0, n)) for d, n in info["extra"].items() if rng.random() < 0.5}
    g = RegularGridDataset(p, "lon", "lat", centered=True, **(dict(indexs=idx) if idx else {}))
    i, j = np.sort(rng.integers(0, info["x"].size + 1, 2)), np.sort(rng.integers(0, info["y"].size + 1, 2))
    if i[0] == i[1] or j[0] == j[1]:
        return
    z = g.grid_tiles("ssh", slice(*map(int, i)), slice(*map(int, j)))
    same(c, z, expected(info, "ssh", idx)[i[0]:i[1], j[0]:j[1]], info["enc"]["ssh"], "tile", False)
    c.check("ssh" not in g.vars, "the tile is kept as the field")
    # selection of a region when loading
    g = RegularGridDataset(p, "lon", "lat", centered=True, indexs=dict(lon=slice(2, None), lat=slice(0, -1)))
    c.close(g.x_c, info["x"][2:], "longitudes of a region"), c.close(g.y_c, info["y"][:-1], "latitudes of a region")
    same(c, g.grid("ssh"), expected(info, "ssh", {})[2:, :-1], info["enc"]["ssh"], "region", False)
    c.nontrivial(info["fields"]["ssh"], i, j)


@CHECK.group("rewrite", quick=100, thorough=1200, jobs=2)
def rewrite(c):
    """write then load gives the same grid"""
    from netCDF4 import Dataset

    from py_eddy_tracker.dataset.grid import RegularGridDataset

    rng = c.rng
    p, q = os.path.join(c.tmp, "g.nc"), os.path.join(c.tmp, "out.nc")
    info = write_file(rng, p)
    idx = {k: int(rng.integers(0, v)) for k, v in info["extra"].items() if rng.random() < 0.6}
    nm = bool(rng.random() < 0.5)
    g = RegularGridDataset(p, "lon", "lat", centered=True, indexs=dict(idx), nan_masking=nm)
    a = g.grid("ssh")
    g.copy("ssh", "other")
    before = a.copy()
    # the copy is independent
    o = g.grid("other")
    sh = ~np.ma.getmaskarray(o) & ~np.isnan(np.ma.getdata(o).astype("f8"))
    o[sh] = o[sh] + 1
    g.variables_description["other"]["attrs"]["long_name"] = "changed"
    c.equal(a.filled(0), before.filled(0), "the source changes with its copy")
    c.check(g.variables_description["ssh"]["attrs"]["long_name"] == "height ssh", "attributes of the source change with its copy")
    g.add_grid("third", np.ma.array(np.zeros(a.shape), mask=np.zeros(a.shape, bool)))
    c.equal(g.grid("ssh").filled(0), before.filled(0), "the field changes when another is added")
    g.vars.pop("third")
    shift = 0.0
    if rng.random() < 0.4:
        # a modified field
        a[~np.ma.getmaskarray(a)] = a[~np.ma.getmaskarray(a)] * 0.5
        shift = None
    g.write(q)
    names = ["ssh", "other"]
    h = RegularGridDataset(q, "lon", "lat", centered=True, nan_masking=nm)
    c.close(h.x_c, g.x_c, "longitudes read back"), c.close(h.y_c, g.y_c, "latitudes read back")
    for name in names:
        w, z = g.grid(name), h.grid(name)
        c.check(z.shape == w.shape, f"{name}: shape read back")
        wm, zm = np.ma.getmaskarray(w), np.ma.getmaskarray(z)
        c.equal(zm, wm, f"{name}: mask read back", enc=info["enc"])
        enc = info["enc"]["ssh"]
        tol = {"i2": 5.1e-4, "i4": 5.1e-4, "f4": 1e-6}.get(enc, 1e-12)
        c.close(np.ma.getdata(z)[~wm], np.ma.getdata(w)[~wm], f"{name}: values read back", rtol=1e-6 if enc == "f4" else 0, atol=tol)
        c.check(h.units(name) == info["units"]["ssh"], "units read back")
    with Dataset(q) as d:
        c.check(d.title == "made for the monitor", "global attributes lost")
        c.check(set(d.variables) == {"lon", "lat", *names}, f"variables {list(d.variables)} written")
        c.check(list(d["ssh"].dimensions) == list(map(str, info["order"])), "order of dimensions changed")
    c.nontrivial(info["fields"]["ssh"], info["order"], shift)


@CHECK.group("array", quick=60, thorough=600)
def array(c):
    """grids built in memory"""
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    rng = c.rng
    g0, circ = gen.grid(rng, mask=0.2)
    q = os.path.join(c.tmp, "out.nc")
    z = g0.vars["z"]
    g = RegularGridDataset.with_array(("lon", "lat"), dict(lon=g0.x_c, lat=g0.y_c, z=z.copy()), dict(z=dict(units="m", long_name="zz")),
                                      centered=bool(rng.random() < 0.5))
    c.check(g.is_circular() == circ, f"circular: {g.is_circular()} for {circ}")
    c.check(g.units("z") == "m", "units of an array")
    dx, dy = g0.x_c[1] - g0.x_c[0], g0.y_c[1] - g0.y_c[0]
    x0, x1, y0, y1 = g.bounds
    o = 0.5 if g.is_centered else 0.0
    c.close([x0, y0], [g0.x_c[0] - o * dx, g0.y_c[0] - o * dy], "lower bounds")
    if g.is_centered:
        c.close([x1, y1], [g0.x_c[-1] + o * dx, g0.y_c[-1] + o * dy], "upper bounds")
    g.write(q)
    h = RegularGridDataset(q, "lon", "lat", centered=g.centered)
    same(c, h.grid("z"), z, "f8", "array written")
    c.close(h.x_c, g.x_c, "longitudes read back")
    c.check(h.units("z") == "m" and h.is_circular() == circ, "units or circularity read back")
    # masked whatever the longitude written: normalisation of indices
    i = rng.integers(-50, 50, 5)
    c.equal(g.normalize_x_indice(i), i % g.x_c.size, "normalized indices")
    c.nontrivial(z)


@CHECK.group("unregular", quick=30, thorough=300)
def unregular(c):
    """two dimensional coordinates"""
    from py_eddy_tracker.dataset.grid import UnRegularGridDataset

    rng = c.rng
    p = os.path.join(c.tmp, "g.nc")
    info = write_file(rng, p, ndim2=True)
    g = UnRegularGridDataset(p, "lon", "lat", centered=True)
    c.close(g.x_c, info["x2"], "longitudes"), c.close(g.y_c, info["y2"], "latitudes")
    z = g.grid("ssh")
    # fields keep the order of dimensions of the coordinates
    order = info["order"]
    ex = expected(info, "ssh", {}, "i", "j")
    ex = ex.T if order.index("j") < order.index("i") else ex
    same(c, z, ex, info["enc"]["ssh"], "field", False)
    c.close(g.bounds, (info["x2"].min(), info["x2"].max(), info["y2"].min(), info["y2"].max()), "bounds")
    k = tuple(int(rng.integers(0, s)) for s in g.x_c.shape)
    c.equal(g.nearest_grd_indice(g.x_c[k] + 0.02, g.y_c[k] - 0.02), k, "nearest cell")
    from matplotlib.path import Path

    from harness.ref import point_in_poly

    r = 0.6
    a = np.linspace(0, 2 * np.pi, 25)
    v = np.array([g.x_c[k] + r * np.cos(a), g.y_c[k] + 0.5 * r * np.sin(a)]).T
    v[-1] = v[0]
    i, j = Path(v).pixels_in(g)
    got = np.zeros(g.x_c.shape, bool)
    got[i, j] = True
    ins = point_in_poly(g.x_c.ravel(), g.y_c.ravel(), v[:, 0], v[:, 1]).reshape(got.shape)
    from harness.ref import dist_to_poly

    ok = (dist_to_poly(g.x_c.ravel(), g.y_c.ravel(), v[:, 0], v[:, 1]) > 1e-6).reshape(got.shape)
    c.equal(got[ok], ins[ok], "cells inside a contour")
    c.nontrivial(info["x2"], k)


@CHECK.group("time_series", quick=50, thorough=500)
def time_series(c):
    """GridCollection and time cubes"""
    from netCDF4 import Dataset

    from py_eddy_tracker.dataset.grid import GridCollection

    rng = c.rng
    nt = int(rng.integers(2, 6))
    x, y = 10 + 0.5 * np.arange(8), -30 + 0.5 * np.arange(7)
    t0 = int(rng.integers(0, 20000))
    z = np.ma.array(rng.normal(size=(nt, y.size, x.size)), mask=rng.random((nt, y.size, x.size)) < 0.1)
    cube = rng.random() < 0.5
    hname = "h" if rng.random() < 0.5 else None
    kw = dict(centered=True, **({} if hname is None else dict(heigth="h")))

    def put(p, sl, cube):
        with Dataset(p, "w") as h:
            h.createDimension("lon", x.size), h.createDimension("lat", y.size)
            h.createVariable("lon", "f8", ("lon",))[:] = x
            h.createVariable("lat", "f8", ("lat",))[:] = y
            if cube:
                h.createDimension("time", nt)
                h.createVariable("time", "f8", ("time",))[:] = t0 + np.arange(nt)
            v = h.createVariable("h", "f8", ("time", "lat", "lon") if cube else ("lat", "lon"), fill_value=1e20)
            v[:] = z if cube else z[sl]

    names = []
    if cube:
        p = os.path.join(c.tmp, "cube.nc")
        put(p, None, True)
        col = GridCollection.from_netcdf_cube(p, "lon", "lat", "time", **kw)
    else:
        for k in range(nt):
            names.append(os.path.join(c.tmp, f"g{k}.nc"))
            put(names[-1], k, False)
        n0 = nt if hname or rng.random() < 0.5 else nt - 1
        col = GridCollection.from_netcdf_list(names[:n0], list(t0 + np.arange(n0)), "lon", "lat", **kw)
        if n0 < nt:
            col.shift_files(t0 + n0, names[n0], x_name="lon", y_name="lat", **kw)
            c.equal(col.time, t0 + np.arange(1, nt), "dates after a shift of files")
            c.count("shifted")
    times = col.time
    c.check(bool((np.diff(times) > 0).all()) and times[-1] == t0 + nt - 1, "dates of the series")
    c.check(col.period == (times[0], times[-1]), "period")
    if cube or not c.events.get("shifted"):
        c.equal(times, t0 + np.arange(nt), "dates")
    for t in rng.permutation(times):
        k = int(t - t0)
        d = col[t]
        same(c, d.grid("h"), z[k].T, "f8", f"field of date {k}")
        if hname:
            from py_eddy_tracker.dataset.grid import RegularGridDataset

            g = RegularGridDataset.with_array(("lon", "lat"), dict(lon=x, lat=y, h=z[k].T), centered=True)
            g.add_uv("h")
            for n in "uv":
                c.equal(np.ma.getmaskarray(d.grid(n)), np.ma.getmaskarray(g.grid(n)), f"mask of {n}")
                c.close(d.grid(n).filled(0), g.grid(n).filled(0), f"{n} of date {k}", rtol=1e-9)
    c.raises(lambda: col[t0 - 1], "a date out of the series is accepted", exc=KeyError)
    c.check([d for d in col] == [d for _, d in col.datasets], "iteration")
    # a cleaned grid is loaded again
    if not hname:
        full = [bool(d.vars) for d in col]
        c.check(list(col.are_loaded) == full and repr(col) == f"{sum(full)}/{len(full)} datasets loaded", f"loaded grids {list(col.are_loaded)}, expected {full}")
        c.check(all(full), "grids which were asked are not loaded")
        limit = int(rng.integers(0, len(full) + 2))
        limit = None if rng.random() < 0.2 else limit
        col.reset_grids(limit)
        left = int(sum(col.are_loaded))
        c.check(left == (len(full) if limit is None or len(full) <= limit else 0), f"{left} grids of {len(full)} in memory after a cleaning asked over {limit}")
        col.reset_grids(N=0)
        c.check(not any(col.are_loaded) and not any(d.vars for d in col), "grids stay in memory after a cleaning")
        k = int(rng.integers(times[0] - t0, nt))
        same(c, col[t0 + k].grid("h"), z[k].T, "f8", "field after cleaning")
    c.nontrivial(z, cube)
