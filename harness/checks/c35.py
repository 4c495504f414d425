"""C35 command line tools"""
import contextlib
import io
import os
import runpy
import sys
from datetime import datetime, timedelta

import numpy as np

from harness import gen, ident, nets, worlds
from harness.core import Check

CHECK = Check("C35", "the commands of setup.py are run in this process with random files and options; the files they write are compared variable by variable "
              "with the ones written from the library operation, selections being done on unpacked values; non trivial when the "
              "files hold something and an option is given",
              ["windows and graphical commands (EddyAnim, GUIEddy) are out of scope", "unregular grids come with velocities and without filtering",
               "kernels of filters are narrower than the earth; grids which are identified have valid values",
               "what a command displays is compared with the display of the library object"])


def command(name, *args):
    """run a command as its entry point does; gives what it displayed"""
    import py_eddy_tracker
    from py_eddy_tracker.appli import eddies, grid, misc, network

    entry = dict(GridFiltering=grid.grid_filtering, EddyId=grid.eddy_id, MergeEddies=eddies.merge_eddies, EddyFrequency=eddies.get_frequency_grid,
                 EddyInfos=eddies.display_infos, EddyCircle=eddies.eddies_add_circle, EddyTracking=eddies.eddies_tracking,
                 EddyQuickCompare=eddies.quick_compare, EddyNetworkGroup=network.build_network, EddyNetworkBuildPath=network.divide_network,
                 EddyNetworkSubSetter=network.subset_network, EddyNetworkQuickCompare=network.quick_compare, ZarrDump=misc.zarrdump)
    argv, out = sys.argv, io.StringIO()
    sys.argv = [name, *map(str, args)]
    try:
        with contextlib.redirect_stdout(out):
            if name in entry:
                entry[name]()
            else:
                script = os.path.join(os.path.dirname(py_eddy_tracker.__file__), "..", "scripts", name)
                runpy.run_path(script, run_name="__main__")
    except SystemExit as e:
        raise AssertionError(f"{name} {args} exits with {e.code}")
    finally:
        sys.argv = argv
    return out.getvalue()


def content(path):
    """variables and attributes which describe data"""
    import netCDF4
    import zarr

    out = {}
    if os.path.isdir(path):
        h = zarr.open(path, "r")
        for k in h.keys():
            out[k] = (np.asarray(h[k][...]), {a: h[k].attrs[a] for a in h[k].attrs if a not in ("min", "max")})
        return out, {a: h.attrs[a] for a in h.attrs if a in ("title", "rotation_type", "track_array_variables", "array_variables")}
    with netCDF4.Dataset(path) as h:
        h.set_auto_maskandscale(False)
        for k, v in h.variables.items():
            out[k] = (v[...], {a: v.getncattr(a) for a in v.ncattrs() if a not in ("min", "max")} | dict(dims=v.dimensions))
        return out, {a: h.getncattr(a) for a in h.ncattrs() if a in ("title", "rotation_type", "track_array_variables", "array_variables")}


def same_files(c, got, exp, what, skip=()):
    c.check(os.path.exists(got), f"{what}: no file written")
    (a, ga), (b, gb) = content(got), content(exp)
    c.check(sorted(a) == sorted(b), f"{what}: variables differ: missing {sorted(set(b) - set(a))}, added {sorted(set(a) - set(b))}")
    for k in sorted(b):
        if k in skip:
            continue
        c.check(a[k][0].dtype == b[k][0].dtype, f"{what}: {k} is stored as {a[k][0].dtype}, expected {b[k][0].dtype}")
        c.equal(a[k][0], b[k][0], f"{what}: {k}")
        c.check(str(a[k][1]) == str(b[k][1]), f"{what}: description of {k} {a[k][1]}, expected {b[k][1]}")
    c.check(str(ga) == str(gb), f"{what}: attributes {ga}, expected {gb}")
    return a


def write(e, path):
    e.write_file(path="", filename=path.replace("%", "%%"), zarr_flag=path.endswith(".zarr"))
    return path


def name(c, stem, zarr=0.25):
    return os.path.join(c.tmp, f"{stem}.{'zarr' if c.rng.random() < zarr else 'nc'}")


def detections(c, stem="obs", n=None, sign=None, zarr=0.25, **kw):
    e = gen.eddies(c.rng, int(c.rng.integers(1, 30)) if n is None else n, sign=sign, pad=False, **kw)
    return write(e, name(c, stem, zarr))


def tracks(c, stem="tracks", zarr=0.25, **kw):
    kw.setdefault("extra", ["virtual"])
    kw.setdefault("lat_range", (-60, 60))
    return write(gen.tracks(c.rng, int(c.rng.integers(1, 12)), pad=False, **kw), name(c, stem, zarr))


# ------------------------------------------------------------------------------------------------ grids
def grid_file(c, path, s, unit="m", hidden=None, unregular=False):
    """CF file of a scene"""
    import netCDF4

    with netCDF4.Dataset(path, "w") as h:
        h.createDimension("lat", s["y"].size), h.createDimension("lon", s["x"].size)
        if hidden is not None:
            h.createDimension("time", len(hidden["h"]))
        for k, d in (("lon", "x"), ("lat", "y")):
            v = h.createVariable(k, "f8", ("lat", "lon") if unregular else (k,))
            v[:] = np.meshgrid(s["x"], s["y"])[k == "lat"] if unregular else s[d]
        for k, m, u in (("h", "m", unit), ("u", "mu", "m/s"), ("v", "mu", "m/s")):
            dims = ("lat", "lon") if hidden is None else ("time", "lat", "lon")
            v = h.createVariable(k, "f8", dims, fill_value=1e20)
            v.units = u
            a = s[k][None] if hidden is None else hidden[k]
            a = np.ma.array(a, mask=np.broadcast_to(s[m], a.shape)).transpose(0, 2, 1)
            v[:] = a[0] if hidden is None else a


@CHECK.group("filtering", quick=30, thorough=500, jobs=4, warm=True)
def filtering(c):
    """GridFiltering"""
    from py_eddy_tracker.dataset.grid import RegularGridDataset as G

    rng = c.rng
    s = ident.scene(rng)
    f, out, ref = (os.path.join(c.tmp, k) for k in ("in.nc", "out.nc", "ref.nc"))
    grid_file(c, f, s)
    step = abs(s["x"][1] - s["x"][0])
    wave, order, ext, low = float(np.round(111 * step * rng.uniform(3, 9))), int(rng.integers(1, 4)), float(rng.choice([0, 0, 0.2, 0.5])), bool(rng.random() < 0.5)
    args = ["--cut_wavelength", wave] if step > 0.8 or rng.random() < 0.9 else []
    wave = wave if args else 500.0
    if rng.random() < 0.7:
        args += ["--filter_order", order]
    else:
        order = 3
    if ext or rng.random() < 0.3:
        args += ["--extend", ext]
    if low:
        args += ["--low"]
    command("GridFiltering", f, "h", "lon", "lat", out, *args)
    g = G(f, "lon", "lat")
    (g.bessel_low_filter if low else g.bessel_high_filter)("h", wave, order=order, extend=ext)
    g.write(ref)
    same_files(c, out, ref, "filtered grid")
    c.nontrivial(s["h"], str(args), sample=dict(options=[str(a) for a in args], shape=list(s["h"].shape)))


@CHECK.group("identification", quick=60, thorough=1000, jobs=7, min_nontrivial=5, warm=True)
def identification(c):
    """EddyId: files equal the library result"""
    from py_eddy_tracker.dataset.grid import RegularGridDataset as G, UnRegularGridDataset as U

    rng = c.rng
    s = ident.scene(rng)
    f, out, ref = (os.path.join(c.tmp, k) for k in ("in.nc", "out", "ref"))
    os.mkdir(out), os.mkdir(ref)
    extra = rng.random() < 0.3
    hidden, i = None, 0
    if extra:
        n = int(rng.integers(2, 4))
        i = int(rng.integers(0, n))
        hidden = {k: np.stack([s[k] if j == i else s[k] * rng.uniform(0.3, 2) + 0.1 for j in range(n)]) for k in "huv"}
    cm = rng.random() < 0.2
    date = datetime(int(rng.integers(1993, 2022)), int(rng.integers(1, 13)), int(rng.integers(1, 28)), *(map(int, rng.integers(0, 24, 1)) if rng.random() < 0.3 else [0]))
    text = date.strftime("%Y%m%dT%H%M%S" if date.hour else str(rng.choice(["%Y%m%d", "%Y%m%d%H%M%S"])))
    un = bool(rng.random() < 0.1) and not s["circular"]
    grid_file(c, f, s, hidden=hidden, unit="cm" if cm else "m", unregular=un)
    uv = ["None", "None"] if rng.random() < 0.5 and not un else ["u", "v"]
    args, kw = [], dict(step=0.002, shape_error=55, pixel_limit=(5, 2000), force_height_unit=None, force_speed_unit=None, nb_step_to_be_mle=0, nb_step_min=2,
                        sampling=50, sampling_method="visvalingam")
    d = np.ptp(s["h"][~s["m"]])
    kw["step"] = round(float(d / rng.uniform(8, 30)), 5)
    args += ["--isoline_step", kw["step"]]
    if extra:
        args += ["--indexs", f"time={i}"]
    step = abs(s["x"][1] - s["x"][0])
    w = float(np.round(111 * step * rng.uniform(5, 12)))
    if s["circular"]:  # kernels are narrower than the earth
        w = min(w, float(np.floor(111 * 360 * np.cos(np.radians(np.abs(s["y"]).max())) / 7)))
    waves = [[0], [w], [round(w / 2), w]][rng.integers(0, 3)] if not un else [0]
    args += ["--cut_wavelength", *waves]
    order, lat_max = 3, 85
    if rng.random() < 0.5:
        order = int(rng.integers(1, 4))
        args += ["--filter_order", order]
    if rng.random() < 0.3:
        lat_max = float(np.round(np.quantile(np.abs(s["y"]), 0.9)))
        args += ["--lat_max", lat_max]
    if rng.random() < 0.5:
        kw["shape_error"] = float(rng.choice([20, 40, 70]))
        args += ["--fit_errmax", kw["shape_error"]]
    if cm:  # pint reads cm as centimolar...
        kw["force_height_unit"] = "centimeter"
        kw["step"] /= 100
        args[1] = kw["step"]
        args += ["--height_unit", "centimeter"]
    if rng.random() < 0.3:
        kw["force_speed_unit"] = str(rng.choice(["m/s", "km/h"]))
        args += ["--speed_unit", kw["force_speed_unit"]]
    if rng.random() < 0.4:
        kw["sampling"] = int(rng.choice([15, 30]))
        args += ["--sampling", kw["sampling"]]
    if rng.random() < 0.4:
        kw["sampling_method"] = str(rng.choice(["uniform", "visvalingam"]))
        args += ["--sampling_method", kw["sampling_method"]]
    if rng.random() < 0.5:
        kw["pixel_limit"] = (int(rng.integers(2, 20)), int(rng.choice([60, 200])))
        args += ["--pixel_limit", *kw["pixel_limit"]]
    if rng.random() < 0.4:
        kw["nb_step_min"] = int(rng.integers(1, 5))
        args += ["--nb_step_min", kw["nb_step_min"]]
    zarr = bool(rng.random() < 0.25)
    if un:
        args += ["--unregular"]
    if zarr:
        args += ["--zarr"]
    g = (U if un else G)(f, "lon", "lat", indexs=dict(time=i) if extra else None)
    if uv[0] == "None":
        g.add_uv("h")
    low, high = [0, *waves][-2:]
    if low:
        g.bessel_low_filter("h", low, order=order, lat_max=lat_max)
    if high:
        g.bessel_high_filter("h", high, order=order, lat_max=lat_max)
    if np.ma.getmaskarray(g.grid("h")).all():
        return
    a, b = g.eddy_identification("h", "u", "v", date, **kw)
    command("EddyId", f, text, "h", *uv, "lon", "lat", out, *args)
    names = []
    for e in (a, b):
        n = f"{'Cyclonic' if e.sign_type == -1 else 'Anticyclonic'}_{date:%Y%m%dT%H%M%S}.{'zarr' if zarr else 'nc'}"
        names.append(n)
        e.write_file(path=ref, filename=os.path.join(ref, n), zarr_flag=zarr)
    c.check(sorted(os.listdir(out)) == sorted(names), f"files {os.listdir(out)}, expected {names}")
    for n in names:
        same_files(c, os.path.join(out, n), os.path.join(ref, n), f"identification ({n[:3]})")
    if len(a) + len(b):
        c.nontrivial(s["h"], str(args), sample=dict(options=[str(x) for x in args], eddies=[len(a), len(b)]))
    c.count("eddies", len(a) + len(b))


# ---------------------------------------------------------------------------------------------- detections
@CHECK.group("merge", quick=60, thorough=1200, jobs=2)
def merge(c):
    """MergeEddies"""
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations as T

    rng = c.rng
    sign = int(rng.choice([-1, 1]))
    sampling = int(rng.choice([6, 10]))
    files = [tracks(c, f"in{i}", sign=sign, sampling=sampling) for i in range(int(rng.integers(1, 5)))]
    out = name(c, "out", 0)
    args = []
    inc = None
    if rng.random() < 0.4:
        every = sorted(content(files[0])[0])
        inc = sorted(str(v) for v in rng.choice(every, int(rng.integers(1, len(every))), replace=False))
        args += ["--include_var", *inc]
    rot = rng.random() < 0.4
    if rot:
        args += ["--add_rotation_variable"]
    if rng.random() < 0.2:
        args += ["--memory"]
    command("MergeEddies", *files, out, *args)
    objs = [T.load_file(f, include_vars=inc) for f in files]
    if rot:
        objs = [o.add_rotation_type() for o in objs]
        for o in objs:
            c.check(bool((o.type_cyc == sign).all()), "rotation type")
    exp = T.concatenate(objs)
    got = same_files(c, out, write(exp, os.path.join(c.tmp, "ref.nc")), "merged file", skip=() if inc is None or "track" in inc else ("track",))
    c.check(("cyclonic_type" in got) == rot, "rotation variable")
    if inc:
        c.check(set(inc) <= set(got), f"variables {sorted(got)} instead of {inc}")
    total = sum(map(len, objs))
    c.check(len(next(iter(got.values()))[0]) == total, "number of observations")
    c.nontrivial(*[o.obs for o in objs], str(args), sample=dict(files=len(files), obs=total, options=args))


@CHECK.group("frequency", quick=40, thorough=800, jobs=2, warm=True)
def frequency(c):
    """EddyFrequencyMap grids"""
    from py_eddy_tracker.observations.observation import EddiesObservations as E

    rng = c.rng
    f = detections(c, lon_range=(20, 60), lat_range=(-20, 30))
    out, ref = os.path.join(c.tmp, "out.nc"), os.path.join(c.tmp, "ref.nc")
    xr = (float(rng.integers(0, 25)), float(rng.integers(50, 80)), float(rng.choice([0.25, 0.5, 1])))
    yr = (float(rng.integers(-30, -5)), float(rng.integers(20, 40)), float(rng.choice([0.25, 0.5, 1])))
    args = ["--xrange", *xr, "--yrange", *yr]
    intern = bool(rng.random() < 0.5)
    if intern:
        args += ["--intern"]
    command("EddyFrequency", f, out, *args)
    e = E.load_file(f)
    g = e.grid_count((xr, yr), intern=intern)
    g.write(ref)
    got = same_files(c, out, ref, "frequency")
    n = float(np.ma.masked_invalid(g.grid("count")).sum())
    if n:
        c.nontrivial(e.obs, str(args), sample=dict(obs=len(e), options=[str(a) for a in args], counted=n, variables=sorted(got)))


@CHECK.group("circle", quick=40, thorough=800, jobs=2)
def circle(c):
    """EddyCircle: contours replaced by circles"""
    from py_eddy_tracker.observations.observation import EddiesObservations as E

    rng = c.rng
    bare = rng.random() < 0.5
    f = detections(c, arrays=[] if bare else None, sampling=0 if bare else int(rng.choice([8, 30])))
    out = os.path.join(c.tmp, "out.nc")
    command("EddyCircle", f, out)
    e, got = E.load_file(f), E.load_file(out)
    c.check(len(got) == len(e) and got.sign_type == e.sign_type, "size or rotation type")
    for k in e.fields:
        if k not in ("contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"):
            c.equal(got.obs[k], e.obs[k], f"{k}")
    for s in "es":
        x, y = np.asarray(got.obs[f"contour_lon_{s}"], "f8"), np.asarray(got.obs[f"contour_lat_{s}"], "f8")
        lo, la, r = (np.asarray(e.obs[k], "f8")[:, None] for k in ("lon", "lat", f"radius_{s}"))
        c.check(x.shape[1] == (50 if bare else e.track_array_variables), f"contours of {x.shape[1]} points")
        d = np.hypot((x - lo) * 111.2e3 * np.cos(np.radians(la)), (y - la) * 111.2e3)
        c.check(bool((np.abs(d / r - 1) < 0.06).all()), f"contours ({s}) are not circles of the radius", ratio=(d / r)[:3])
    c.nontrivial(e.obs, sample=dict(obs=len(e), contours=not bare))


@CHECK.group("infos", quick=30, thorough=500, jobs=2)
def infos(c):
    """EddyInfos display"""
    from py_eddy_tracker.observations.observation import EddiesObservations as E
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations as T

    rng = c.rng
    files = [tracks(c, f"t{i}", zarr=0) if rng.random() < 0.5 else detections(c, f"d{i}", zarr=0) for i in range(int(rng.integers(1, 3)))]
    area, args = None, []
    if rng.random() < 0.6:
        x, y = float(rng.integers(0, 200)), float(rng.integers(-50, 0))
        area = dict(llcrnrlon=x, llcrnrlat=y, urcrnrlon=x + 150, urcrnrlat=y + 50)
        args = ["--area", x, y, x + 150, y + 50]
    got = command("EddyInfos", *files, *args)
    exp = io.StringIO()
    base = ["amplitude", "speed_radius", "speed_area", "effective_radius", "effective_area", "time", "latitude", "longitude"]
    for f in sorted(files):
        t = os.path.basename(f)[0] == "t"
        e = (T if t else E).load_file(f, include_vars=base + (["track", "observation_number", "observation_flag"] if t else []))
        if area:
            e = e.extract_with_area(area)
        print(f"-- {f} -- ", file=exp)
        print(e, file=exp)
    c.check(got == exp.getvalue(), "infos displayed", got=got[:1500], expected=exp.getvalue()[:1500])
    c.nontrivial(got, sample=dict(files=len(files), area=area))


@CHECK.group("compare", quick=40, thorough=800, jobs=3, warm=True)
def compare(c):
    """groups of matched eddies"""
    from py_eddy_tracker.observations.observation import EddiesObservations as E

    rng = c.rng
    n = int(rng.integers(8, 60))
    kw = dict(lon_range=(10, 15), lat_range=(-3, 3), r=(0.3, 0.8))
    e = gen.eddies(rng, n, pad=False, **kw)
    others = []
    for i in range(int(rng.integers(1, 3))):
        o = gen.eddies(rng, int(rng.integers(5, 50)), pad=False, **kw)
        if rng.random() < 0.5:  # same eddies, moved
            o = e.index(rng.permutation(n)[: int(rng.integers(n // 2, n + 1))])
            dx = rng.normal(0, 0.1, len(o))
            o.obs["lon"] += dx
            for k in ("contour_lon_e", "contour_lon_s"):
                o.obs[k] += dx[:, None]
        others.append(write(o, os.path.join(c.tmp, f"o{i}.nc")))
    f, out = write(e, os.path.join(c.tmp, "e.nc")), os.path.join(c.tmp, "out")
    args, low, high, inv = [], 20.0, 40.0, 5.0
    if rng.random() < 0.5:
        low, high, inv = float(rng.integers(15, 25)), float(rng.integers(40, 80)), float(rng.integers(1, 12))
        args += ["--low", low, "--high", high, "--invalid", inv]
    intern, mini, area = (bool(rng.random() < 0.4) for _ in range(3))
    args += ["--intern"] * intern + ["--minimal_area"] * mini
    command("EddyQuickCompare", f, *others, "--path_out", out, *args)
    shown = command("EddyQuickCompare", f, *others, *args, *(["--area"] if area else []))
    e = E.load_file(f)
    lines = [l for l in shown.splitlines() if l.startswith("[ ")]
    c.check(len(lines) == 2 * len(others), f"{len(lines)} lines displayed for {len(others)} files")
    filled = 0
    for num, p in enumerate(others):
        o = E.load_file(p)
        i, j, s = e.match(o, intern=intern, minimal_area=mini)
        ok = s * 100 >= inv
        i, j, s = i[ok].tolist(), j[ok].tolist(), (s[ok] * 100).tolist()
        g1, g2 = {}, {}
        di, dj = {a: i.count(a) for a in i}, {a: j.count(a) for a in j}
        single = [k for k in range(len(i)) if di[i[k]] == 1 and dj[j[k]] == 1]
        g1["nomatch"], g2["nomatch"] = sorted(set(range(len(e))) - set(i)), sorted(set(range(len(o))) - set(j))
        for k, t in (("low", lambda v: v < low), ("intermediate", lambda v: low <= v < high), ("high", lambda v: v >= high)):
            v = [x for x in single if t(s[x])]
            g1[k], g2[k] = [i[x] for x in v], [j[x] for x in v]
        multi = [k for k in range(len(i)) if di[i[k]] > 1 or dj[j[k]] > 1]
        g1["multi_match"], g2["multi_match"] = sorted({i[k] for k in multi}), sorted({j[k] for k in multi})
        # an eddy of a dataset linked with exactly two of the other, themselves linked only with it
        def twins(a, b, da, db):
            return [k for k in range(len(a)) if da[a[k]] == 2 and all(db[b[x]] == 1 for x in range(len(a)) if a[x] == a[k])]
        t1, t2 = twins(i, j, di, dj), twins(j, i, dj, di)
        g1["parent"], g1["twin"] = sorted({i[k] for k in t1}), [i[k] for k in t2]
        g2["parent"], g2["twin"] = sorted({j[k] for k in t2}), [j[k] for k in t1]
        rest = [k for k in multi if k not in t1 and k not in t2]
        g1["complex"], g2["complex"] = sorted({i[k] for k in rest}), sorted({j[k] for k in rest})
        d = os.path.join(out, p.replace("/", "_"))
        c.check(sorted(os.listdir(d)) == sorted([f"ref_{k}.nc" for k in g1] + [f"other_{k}.nc" for k in g2]), f"files of groups {sorted(os.listdir(d))}")
        for (w, ds, g), line in zip((("ref", e, g1), ("other", o, g2)), (lines[num], lines[len(others) + num])):
            sizes = []
            for k, v in g.items():
                got = E.load_file(os.path.join(d, f"{w}_{k}.nc"))
                key = lambda z, r=None: sorted(map(tuple, np.stack([z.lon, z.lat, z.radius_e], 1)[slice(None) if r is None else r].tolist()))
                c.check(key(got) == key(ds, np.array(v, int)), f"group {k} of {w}: {len(got)} observations, expected {len(v)}")
                ar = np.asarray(ds.obs["speed_area" if intern else "effective_area"] if "effective_area" in ds.fields else ds["speed_area" if intern else "effective_area"])
                sizes.append(ar[np.array(v, int)].sum() / ar.sum() * 100 if area else len(v) / len(ds) * 100)
                filled += k not in ("high", "nomatch") and len(v) > 0
            pct = [float(x.split("%")[0]) for x in line.split("]")[1].replace("(", " (").split() if x.endswith("%")]
            c.check(len(pct) == len(sizes) and bool((np.abs(np.array(pct) - sizes) < 0.11).all()), f"percentages of {w} displayed", got=pct, expected=sizes)
    if filled:
        c.nontrivial(e.obs, str(args), str(others), sample=dict(ref=n, files=len(others), options=[str(a) for a in args], area=area))


# --------------------------------------------------------------------------------------------------- tracks
def sorted_tracks(e):
    return e


@CHECK.group("subset", quick=150, thorough=3000, jobs=3)
def subset(c):
    """EddySubSetter"""
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations as T

    rng = c.rng
    f, out = tracks(c, lon_range=(100, 200), time_gaps=bool(rng.random() < 0.4)), name(c, "out", 0)
    e = T.load_file(f)
    args, kw = [], {}
    every = sorted(content(f)[0])
    need = ["track", "time", "longitude", "latitude", "observation_flag", "observation_number"]
    free = [v for v in every if v not in need]
    u = rng.random()
    if u < 0.2:
        v = sorted(str(x) for x in rng.choice(free, int(rng.integers(1, 4)), replace=False))
        args += ["--remove_var", *v]
        kw["remove_vars"] = v
    elif u < 0.4:
        v = sorted([str(x) for x in rng.choice(free, int(rng.integers(1, 4)), replace=False)] + need)
        args += ["--include_var", *v]
        kw["include_vars"] = v
    if rng.random() < 0.4:
        args += ["-n"]
    e = T.load_file(f, **kw)
    how = dict(full_path=False, remove_incomplete=False, reject_virtual=False)
    for k, o in (("full_path", "-f"), ("remove_incomplete", "-d"), ("reject_virtual", "--reject_virtual")):
        if rng.random() < 0.3:
            how[k] = True
            args += [o]
    picks = [k for k in ("ids", "length", "period", "area", "direction", "box", "sort") if rng.random() < 0.28]
    x = e
    t = np.asarray(e.time, "f8")
    for k in ("ids", "length", "period", "area", "direction", "box", "sort"):
        if k not in picks:
            continue
        if k == "ids":
            v = [int(a) for a in rng.choice(np.unique(e.track), min(4, len(np.unique(e.track))), replace=False)]
            args += ["-i", *v]
            x = x.extract_ids(v)
        elif k == "length":
            v = (int(rng.integers(-1, 6)), int(rng.choice([-1, 6, 9, 12])))
            v = v if max(v) > 0 else (-1, 8)
            args += ["-l", *v]
            x = x.extract_with_length(v)
        elif k == "period":
            a, b = np.sort(rng.integers(t.min() - 1, t.max() + 2, 2))
            v = [(int(a), int(b)), (-int(rng.integers(1, 5)), -int(rng.integers(1, 5))), (0, int(b)), (int(a), 0), (-2, int(b))][rng.integers(0, 5)]
            args += ["-p", *v]
            x = x.extract_with_period(v, **how)
        elif k == "area":
            a, b = float(rng.integers(90, 150)), float(rng.integers(-55, 0))
            v = (a, b, a + 60.5, b + 60.5)
            args += ["-a", *v]
            x = x.extract_with_area(dict(zip(("llcrnrlon", "llcrnrlat", "urcrnrlon", "urcrnrlat"), v)), **how)
        elif k == "direction":
            d = str(rng.choice(list("EWSN")))
            args += ["--direction", d]
            if rng.random() < 0.6:
                v = float(np.round(rng.uniform(0, 1), 2))
                args += ["--minimal_degrees_displacement_in_direction", v]
                x = x.extract_in_direction(d, value=v)
            else:
                x = x.extract_in_direction(d)
        elif k == "box":
            v = float(rng.choice([0.25, 0.5, 1, 2]))
            args += ["--select_first_observation_in_box", v]
            x = x.extract_first_obs_in_box(res=v)
        elif len(x):
            args += ["--sort_time"]
            o = np.lexsort((x.obs["lat"], x.obs["lon"], x.obs["time"]))
            x = x.index(o)
    command("EddySubSetter", f, out, *args)
    if not len(x):
        c.check(not os.path.exists(out), "a file is written when nothing is selected")
        return
    same_files(c, out, write(x, os.path.join(c.tmp, "ref.nc")), "sub-set")
    if 0 < len(x) < len(e):
        c.nontrivial(e.obs, str(args), sample=dict(obs=len(e), selected=len(x), options=[str(a) for a in args]))


@CHECK.group("translate", quick=60, thorough=1200, jobs=2)
def translate(c):
    """EddyTranslate"""
    from py_eddy_tracker.observations.observation import EddiesObservations as E
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations as T

    rng = c.rng
    tr = rng.random() < 0.5
    f, out = (tracks if tr else detections)(c, "in", zarr=0.4), name(c, "out", 0.5)
    args = ["--unraw"] if rng.random() < 0.5 else []
    command("EddyTranslate", f, out, *args)
    cls = T if tr else E
    a, b = cls.load_file(f), cls.load_file(out)
    c.check(len(a) == len(b), f"{len(b)} observations, expected {len(a)}")
    c.check(sorted(a.fields) == sorted(b.fields), f"fields {sorted(set(a.fields) ^ set(b.fields))} differ")
    c.check(a.sign_type == b.sign_type, f"rotation type {b.sign_type}, expected {a.sign_type}")
    c.check(sorted(content(f)[0]) == sorted(content(out)[0]), "variables")
    for k in a.fields:
        c.equal(b.obs[k], a.obs[k], f"{k}")
    c.nontrivial(a.obs, f[-4:], out[-4:], str(args), sample=dict(obs=len(a), options=args, formats=[f[-4:], out[-4:]]))


def yaml_file(c, conf):
    import yaml

    p = os.path.join(c.tmp, "conf.yaml")
    with open(p, "w") as h:
        yaml.safe_dump(conf, h)
    return p


@CHECK.group("tracking", quick=60, thorough=900, jobs=5, warm=True)
def tracking(c):
    """EddyTracking, EddyFinalTracking and EddyMergeCorrespondances"""
    from harness.checks import c23
    from py_eddy_tracker.observations.observation import EddiesObservations as E
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations as T
    from py_eddy_tracker.tracking import Correspondances

    rng = c.rng
    kind = str(rng.choice(["default", "area", "chelton"], p=[0.4, 0.4, 0.2]))
    days = int(rng.integers(3, 11))
    w, _ = c23.labelled(rng, kind, days, empty=0)
    names = worlds.save(w, os.path.join(c.tmp, "in"))
    out, late = os.path.join(c.tmp, "out"), os.path.join(c.tmp, "late")
    s = "Cyclonic" if w[0].sign_type == -1 else "Anticyclonic"
    conf = dict(PATHS=dict(FILES_PATTERN=os.path.join(c.tmp, "in", "Eddies_*.nc"), SAVE_DIR=out))
    virtual, nb_min = int(rng.choice([0, 1, 2])), int(rng.choice([2, 3, 4]))
    nb_min = min(nb_min, days)
    if virtual or rng.random() < 0.5:
        conf["VIRTUAL_LENGTH_MAX"] = virtual
    if nb_min != 10:
        conf["TRACK_DURATION_MIN"] = nb_min
    opts = {}
    module = dict(default=None, area="area_tracker.AreaTracker", chelton="old_tracker_reference.CheltonTracker")[kind]
    if module:
        m, k = module.split(".")
        conf["CLASS"] = dict(MODULE=f"py_eddy_tracker.featured_tracking.{m}", CLASS=k)
        if kind == "area" and rng.random() < 0.6:
            opts = dict(cmin=float(rng.choice([0.05, 0.3, 0.5])))
            conf["CLASS"]["OPTIONS"] = opts
    args = []
    blank = int(rng.choice([0, 0, 1])) if days > nb_min + 1 else 0
    if blank:
        args += ["--blank_period", blank]
    raw, zarr, stop = (bool(rng.random() < 0.3) for _ in range(3))
    args += ["--unraw"] * (not raw) + ["--zarr"] * zarr + ["--save_correspondance_and_stop"] * stop + ["--memory"] * (rng.random() < 0.2)
    cname = f"{s}_correspondances.nc"
    cfile = os.path.join(out, cname)
    u = rng.random()
    if u < 0.3:
        cfile = os.path.join(c.tmp, "c.nc")
        args += ["--correspondance_out", cfile]
        if rng.random() < 0.5:  # the option wins
            conf["PATHS"]["CORRESPONDANCES_OUT"] = os.path.join(c.tmp, "other.nc")
    elif u < 0.5:
        cfile = os.path.join(c.tmp, f"{s}_c.nc")
        conf["PATHS"]["CORRESPONDANCES_OUT"] = os.path.join(c.tmp, "{sign_type}_c.nc")
    used = names[: days - blank]
    previous = None
    if rng.random() < 0.4:  # from a first part, which could have been made with another threshold
        kw_part = dict(cmin=float(rng.choice([0.02, 0.2, 0.6, 0.9]))) if kind == "area" else opts
        part = Correspondances(used[: max(2, len(used) - 1)], virtual=virtual, class_method=cls(kind), class_kw=kw_part)
        part.track()
        previous = os.path.join(c.tmp, "part.nc")
        part.save(previous)
        if rng.random() < 0.5:
            args += ["--correspondance_in", previous]
            if rng.random() < 0.6:  # the option wins, this one could not be used
                other = Correspondances(used[:2], virtual=virtual + 1, class_method=cls(kind), class_kw=opts)
                other.track()
                conf["PATHS"]["CORRESPONDANCES_IN"] = os.path.join(c.tmp, "part2.nc")
                other.save(conf["PATHS"]["CORRESPONDANCES_IN"])
        else:
            conf["PATHS"]["CORRESPONDANCES_IN"] = previous
    corr = Correspondances(used, virtual=virtual, class_method=cls(kind), class_kw=opts, previous_correspondance=previous)
    corr.track()
    command("EddyTracking", yaml_file(c, conf), *args)
    c.check(os.path.exists(cfile) and not os.path.exists(os.path.join(c.tmp, "other.nc")), "file of correspondances")
    x = Correspondances.load(cfile)
    c.check(len(x) == len(corr) and all(len(a) == len(b) and (a["in"] == b["in"]).all() and (a["out"] == b["out"]).all() and (a["id"] == b["id"]).all() for a, b in zip(x, corr)),
            "links differ from the ones of the library")
    ext = "zarr" if zarr else "nc"
    base = [os.path.basename(cfile)] if cfile.startswith(out + "/") else []
    res = [f"{s}.{ext}", f"{s}_track_too_short.{ext}", f"{s}_untracked.{ext}"]
    c.check(sorted(os.listdir(out)) == sorted(base + ([] if stop else res)), f"files written {sorted(os.listdir(out))}")
    files = [E.load_file(f) for f in used]
    total = sum(map(len, files))
    if not stop:
        got = [T.load_file(os.path.join(out, f)) for f in res[:2]]
        c23.outcome(c, x, files, total, nb_min, virtual, *got, E.load_file(os.path.join(out, res[2])), raw)
    # later assembly
    args2 = ["--path_out", late, "--nb_obs_min", nb_min]
    models = [f"{s}*.nc"]
    if rng.random() < 0.5:
        args2 += ["--eddies_long_model", "%(path)s/%(sign_type)s_L.nc", "--eddies_short_model", "%(path)s/S.nc", "--eddies_untracked_model", "%(path)s/U.nc"]
        models = [f"{s}_L.nc", "S.nc", "U.nc"]
    if any(map(len, x)):
        command("EddyFinalTracking", cfile, *args2)
        found = sorted(os.listdir(late))
        if len(models) == 1:
            c.check(len(found) == 3, f"files written by EddyFinalTracking {found}")
            models = [next(f for f in found if "untracked" not in f and "short" not in f)] + [next(f for f in found if k in f) for k in ("short", "untracked")]
        c.check(found == sorted(models), f"files written by EddyFinalTracking {found}")
        a, b, d = (os.path.join(late, f) for f in models)
        c23.outcome(c, x, files, total, nb_min, virtual, T.load_file(a), T.load_file(b), E.load_file(d), True)
        if not stop and not zarr:
            for p, q in zip((a, b, d), res):
                (va, _), (vb, _) = content(p), content(os.path.join(out, q))
                c.check(sorted(va) == sorted(vb), "variables written by EddyFinalTracking and EddyTracking")
                for k in va:
                    if not virtual:
                        c.equal(va[k][0], vb[k][0], f"{k} written by EddyFinalTracking and EddyTracking")
        c.nontrivial(*[f.obs for f in files], str(args), sample=dict(files=len(used), detections=total, options=[str(a) for a in args], kind=kind))


def cls(kind):
    from py_eddy_tracker.featured_tracking.area_tracker import AreaTracker
    from py_eddy_tracker.featured_tracking.old_tracker_reference import CheltonTracker
    from py_eddy_tracker.observations.observation import EddiesObservations

    return dict(default=EddiesObservations, area=AreaTracker, chelton=CheltonTracker)[kind]


@CHECK.group("join", quick=40, thorough=800, jobs=3, warm=True)
def join(c):
    """EddyMergeCorrespondances"""
    from py_eddy_tracker.tracking import Correspondances

    rng = c.rng
    kind = str(rng.choice(["default", "area"]))
    days = int(rng.integers(5, 12))
    w = worlds.world(rng, days=days, kind=kind, empty=0, quiet=0)
    names = worlds.save(w, os.path.join(c.tmp, "in"))
    cut = [0] + sorted(set(int(v) for v in rng.integers(2, days - 1, int(rng.integers(1, 3)))))
    parts = []
    for i, a in enumerate(cut):
        b = cut[i + 1] if i + 1 < len(cut) else days - 1
        p = Correspondances(names[max(a - 1, 0): b + 1], class_method=cls(kind))
        p.track()
        f = os.path.join(c.tmp, f"p{i}.nc")
        p.save(f)
        parts.append(f)
    full = Correspondances(names, class_method=cls(kind))
    full.track()
    here = rng.random() < 0.4
    out = os.path.join(c.tmp, *([] if rng.random() < 0.5 else ["new"]), "joined.nc")
    cwd = os.getcwd()
    try:
        if here:
            os.chdir(c.tmp)
            out = "joined.nc"
        command("EddyMergeCorrespondances", *parts, out)
        x = Correspondances.load(out)
    finally:
        os.chdir(cwd)
    ref = Correspondances.load(parts[0])
    for p in parts[1:]:
        ref.merge_correspondance(Correspondances.load(p))
    c.check(len(x) == len(ref) == len(full), f"{len(x)} steps, expected {len(full)}")
    for a, b, d in zip(x, ref, full):
        c.check(a.dtype == b.dtype and len(a) == len(b) and bool((a == b).all()), "links differ from the ones joined by the library")
        c.check(sorted(zip(a["in"].tolist(), a["out"].tolist())) == sorted(zip(d["in"].tolist(), d["out"].tolist())), "links differ from the ones of a whole tracking")
    if sum(map(len, x)):
        c.nontrivial(*list(x), sample=dict(days=days, parts=len(parts), links=sum(map(len, x)), folder=not here))


# -------------------------------------------------------------------------------------------------- networks
@CHECK.group("network", quick=60, thorough=1000, jobs=4, warm=True)
def network(c):
    """EddyNetworkGroup then EddyNetworkBuildPath"""
    from py_eddy_tracker.observations.network import Network, NetworkObservations as N
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations as T

    rng = c.rng
    w = [e for e in nets.detections(rng, days=int(rng.integers(3, 8)), quiet=0, empty=0) if len(e)]
    if len(w) < 2:
        return
    names = worlds.save(w, os.path.join(c.tmp, "in"))
    glob, f1, f2 = os.path.join(c.tmp, "in", "Eddies_*.nc"), os.path.join(c.tmp, "g.nc"), os.path.join(c.tmp, "n.nc")
    files = []
    for step in (0, 1):
        args, kw = [], dict(window=1, intern=False)
        ov = dict(min_overlap=0.2, minimal_area=False, hybrid_area=False)
        if rng.random() < 0.6:
            kw["window"] = int(rng.integers(1, 4))
            args += [str(rng.choice(["--window", "-w"])), kw["window"]]
        if rng.random() < 0.4:
            kw["intern"] = True
            args += ["--intern"]
        if rng.random() < 0.6:
            ov["min_overlap"] = float(rng.choice([0.05, 0.1, 0.4, 0.6]))
            args += [str(rng.choice(["--min-overlap", "-p"])), ov["min_overlap"]]
        u = rng.random()
        if u < 0.25:
            ov["minimal_area"] = True
            args += ["--minimal-area"]
        elif u < 0.5:
            ov["hybrid_area"] = True
            args += ["--hybrid-area"]
        if not step:
            command("EddyNetworkGroup", glob, f1, *args, *(["--memory"] if rng.random() < 0.2 else []))
            n = Network(glob, **kw)
            g = n.group_observations(**ov)
            files.append(same_files(c, f1, write(n.build_dataset(g, raw_data=False), os.path.join(c.tmp, "r1.nc")), f"groups {args}"))
        else:
            command("EddyNetworkBuildPath", f1, f2, *args)
            e = T.load_file(f1)
            exp = N.from_split_network(e, e.split_network(**kw, **ov))
            files.append(same_files(c, f2, write(exp, os.path.join(c.tmp, "r2.nc")), f"network {args}"))
    m = N.load_file(f2)
    c.check(sum(map(len, w)) == len(m), f"{len(m)} observations, expected {sum(map(len, w))}")
    if (np.asarray(m.next_obs) != -1).any():
        c.nontrivial(m.obs, sample=dict(obs=len(m), files=len(names), networks=int(m.nb_network)))


@CHECK.group("network_subset", quick=100, thorough=2000, jobs=3)
def network_subset(c):
    """EddyNetworkSubSetter"""
    from py_eddy_tracker.observations.network import NetworkObservations as N

    rng = c.rng
    f, out = write(nets.synthetic(rng, id_gaps=False), name(c, "in", 0.3)), os.path.join(c.tmp, "out.nc")
    n = N.load_file(f)
    x, args = n, []
    t = np.asarray(n.time, "f8")
    picks = [k for k in ("ids", "length", "dead", "trash", "period") if rng.random() < 0.35]
    if "ids" in picks:
        v = [int(a) for a in rng.choice(np.unique(n.track), min(3, len(np.unique(n.track))), replace=False)]
        args += [str(rng.choice(["-i", "--ids"])), *v]
    if "length" in picks:
        l = (int(rng.integers(-1, 8)), int(rng.choice([-1, 8, 15])))
        l = l if max(l) > 0 else (2, -1)
        args += [str(rng.choice(["-l", "--length"])), *l]
    if "dead" in picks:
        d = (int(rng.integers(1, 4)), int(rng.integers(1, 6)))
        args += ["--remove_dead_end", *d]
    if "trash" in picks:
        args += ["--remove_trash"]
    if "period" in picks:
        a, b = np.sort(rng.integers(t.min() - 1, t.max() + 2, 2))
        p = [(int(a), int(b)), (-int(rng.integers(1, 5)), -int(rng.integers(1, 5))), (0, int(b)), (int(a), 0)][rng.integers(0, 4)]
        args += [str(rng.choice(["-p", "--period"])), *p]
    if "ids" in picks:
        x = x.networks(v)
    if "trash" in picks:
        x = x.remove_trash()
    if "length" in picks:
        x = x.longer_than(*l)
    if "dead" in picks:
        x = x.remove_dead_end(*d)
    if "period" in picks:
        x = x.extract_with_period(p)
    command("EddyNetworkSubSetter", f, out, *args)
    same_files(c, out, write(x, os.path.join(c.tmp, "ref.nc")), f"sub-set of network ({' '.join(picks)})")
    if 0 < len(x) < len(n):
        c.nontrivial(n.obs, str(args), sample=dict(obs=len(n), selected=len(x), options=[str(a) for a in args]))


@CHECK.group("network_compare", quick=30, thorough=500, jobs=2, warm=True)
def network_compare(c):
    """EddyQuickCompare on networks"""
    from py_eddy_tracker.observations.network import NetworkObservations as N

    rng = c.rng
    n = nets.synthetic(rng, id_gaps=False, trash=None if rng.random() < 0.3 else 0, net_start=1)
    f, g = os.path.join(c.tmp, "a.nc"), os.path.join(c.tmp, "b.nc")
    write(n, f)
    n = N.load_file(f)
    ids = np.unique(n.track)
    keep = ids if rng.random() < 0.3 else rng.choice(ids, int(rng.integers(1, len(ids) + 1)), replace=False)
    write(n.extract_with_mask(np.isin(n.track, keep)), g)
    o = N.load_file(g)
    out = command("EddyNetworkQuickCompare", f, g)

    def line(d):
        return (f"{len(np.unique(d.track))} network / {len(set(zip(d.track.tolist(), d.segment.tolist())))} segment / {len(d)} obs -> "
                f"{int((d.track == 0).sum())} trash obs, {len(d.merging_event())} merging, {len(d.splitting_event())} spliting")

    for d, head in ((n, f"[ref] {f} -> "), (o, f"[0]   {g} -> ")):
        v = [x for x in out.splitlines() if x.startswith(head)]
        c.check(len(v) == 1 and v[0][len(head):] == line(d), f"display: {v}; expected {line(d)}")
    last = [l for l in out.splitlines() if l.startswith("[ 0]")][-1]
    pct = [float(v.split("%")[0]) for v in last[5:].split() if v.endswith("%")]
    c.check(len(pct) == 6, f"{len(pct)} scores")
    if not (n.track == 0).any() and min(np.unique(n.track, return_counts=True)[1]) > 1:
        seg = lambda d: len(set(zip(d.track.tolist(), d.segment.tolist())))
        r = len(np.unique(o.track)) / len(ids), len(o) / len(n), seg(o) / seg(n)
        exp = [r[0], r[1], r[0], r[1], r[2], r[1]]
        c.check(bool((np.abs(np.array(pct) - np.array(exp) * 100) < 0.06).all()), f"scores {pct}, expected {exp}")
        c.nontrivial(n.obs, o.obs, sample=dict(obs=len(n), kept=len(o), scores=pct))


@CHECK.group("misc", quick=60, thorough=1000, jobs=1)
def misc(c):
    """dates and order of files, description of zarr"""
    from py_eddy_tracker import identify_time
    from py_eddy_tracker.appli.eddies import browse_dataset_in
    import netCDF4

    rng = c.rng
    if rng.random() < 0.2:
        f = detections(c, "z", zarr=1)
        out = command("ZarrDump", f)
        c.check(out.splitlines()[0] == f and all(k in out for k in content(f)[0]), "description of zarr")
        c.nontrivial(out)
        return
    n, dt = int(rng.integers(1, 12)), int(rng.choice([1, 5, 7]))
    t0 = datetime(int(rng.integers(1993, 2020)), int(rng.integers(1, 13)), int(rng.integers(1, 29)))
    dates = [t0 + timedelta(days=i * dt) for i in range(n)]
    attr = rng.random() < 0.3
    model = str(rng.choice(["%Y%m%d", "%Y%m%dT%H%M%S", "%Y%m%d%H%M%S"]))
    for d in dates:
        c.check(identify_time(d.strftime(model)) == d, f"identify_time of {d.strftime(model)} gives {identify_time(d.strftime(model))}")
    names = []
    for i in rng.permutation(n):
        f = os.path.join(c.tmp, f"x{i}.nc" if attr else f"x_{dates[i].strftime(model)}.nc")
        with netCDF4.Dataset(f, "w") as h:
            h.day = dates[i].strftime(model)
        names.append((dates[i], f))
    open(os.path.join(c.tmp, "noise.txt"), "w").close()
    kw = dict(date_regexp="day" if attr else ".*_([0-9T]*?).nc")
    if rng.random() < 0.5:
        kw.update(data_dir=c.tmp, files_model="x*.nc")
    else:
        kw.update(data_dir=None, files_model=None, files=[f for _, f in names])
    if rng.random() < 0.5:
        kw["date_model"] = model
    exp = sorted(names)
    if rng.random() < 0.4:
        kw["sub_sampling_step"] = int(rng.integers(2, 4))
        exp = exp[:: kw["sub_sampling_step"]]
    if rng.random() < 0.4:
        a, b = sorted([dates[rng.integers(0, n)], dates[rng.integers(0, n)]])
        kw.update(start_date=a, end_date=b)
        exp = [v for v in exp if a <= v[0] <= b]
    got = browse_dataset_in(**kw)
    c.check([v.decode() for v in got["filename"]] == [f for _, f in exp], "files or order", got=[v.decode() for v in got["filename"]], expected=[f for _, f in exp])
    c.check([v.astype("datetime64[s]").astype(datetime) for v in got["date"]] == [d for d, _ in exp], "dates", got=str(got["date"]))
    if n > 2:
        c.nontrivial(str(names), str(kw), sample=dict(files=n, kept=len(exp), attribute=bool(attr)))
