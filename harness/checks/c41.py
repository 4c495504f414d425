"""C41 results do not depend on what was computed before"""
import types
import zlib

import numpy as np

from harness import gen, nets
from harness.core import Check

CHECK = Check("C41", "random sequences of public methods, which read or change, applied to one object (eddies, tracks, networks, grids, cubes); each result and the data it leaves are compared, "
              "bit by bit, with those of the same method on a fresh object holding the same data; non trivial when a method follows one which changed the data",
              ["data are changed by methods of the library, never by writing in its arrays from outside", "methods which refuse an input refuse it in both objects"])


def canon(o, depth=0):
    """value as nested tuples of bytes"""
    from py_eddy_tracker.observations.observation import EddiesObservations

    if depth > 8:
        return "deep"
    if isinstance(o, EddiesObservations):
        return (type(o).__name__, int(o.sign_type) if o.sign_type is not None else None, state(o))
    if isinstance(o, np.ma.MaskedArray):
        m = np.ma.getmaskarray(o)
        return ("ma", o.dtype.str, o.shape, m.tobytes(), np.where(m, np.zeros((), o.dtype), o.data).tobytes())
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return tuple(canon(v, depth + 1) for v in o.ravel())
        if o.dtype.names:
            return tuple((k, canon(np.ascontiguousarray(o[k]), depth + 1)) for k in o.dtype.names)
        return (o.dtype.str, o.shape, np.ascontiguousarray(o).tobytes())
    if isinstance(o, (types.GeneratorType, map, zip, range)):
        return tuple(canon(v, depth + 1) for v in o)
    if isinstance(o, dict):
        return tuple((repr(k), canon(v, depth + 1)) for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return tuple(canon(v, depth + 1) for v in o)
    if isinstance(o, np.generic):
        return (o.dtype.str, o.tobytes())
    if isinstance(o, (set, frozenset)):
        return tuple(sorted(repr(v) for v in o))
    if isinstance(o, slice):
        return ("slice",) + tuple(None if v is None else int(v) for v in (o.start, o.stop, o.step))
    if o is None or isinstance(o, (int, float, str, bool, bytes)):
        return repr(o)
    return type(o).__name__


def state(e):
    return tuple((k, np.ascontiguousarray(e.obs[k]).tobytes(), e.obs[k].shape) for k in sorted(e.fields))


def fresh(e):
    """same data in a new object"""
    n = type(e).new_like(e, len(e))
    n.sign_type = e.sign_type
    for k in e.fields:
        n.obs[k][:] = e.obs[k]
    return n


def call(f, e, seed):
    """(kind, value) of one method; the object returned is kept"""
    rng = np.random.default_rng(seed)
    try:
        with np.errstate(all="ignore"):
            o = f(e, rng)
        return ("value", canon(o) if o is not e else "itself"), o
    except Exception as err:
        return ("error", type(err).__name__), None


def play(c, e, reads, changes, nb, label, copy=fresh, st=state):
    """apply methods; the data of a reader must stay as they were"""
    rng = c.rng
    trail, changed, seen = [], False, 0
    if rng.random() < 0.6:  # few methods, called many times
        some = lambda d, n: {k: d[k] for k in rng.permutation(list(d))[:n]}
        reads, changes = some(reads, int(rng.integers(2, 6))), some(changes, int(rng.integers(1, 3)))
    for _ in range(nb):
        if rng.random() < 0.3 and changes:
            name, modify = str(rng.choice(list(changes))), True
        else:
            used = [k for k in trail if k in reads]
            # a method is often called again once data have changed
            name, modify = str(rng.choice(used if used and rng.random() < 0.5 else list(reads))), False
        f = (changes if modify else reads)[name]
        seed = int(rng.integers(1 << 30))
        other, before = copy(e), st(e)
        got, _ = call(f, e, seed)
        exp, _ = call(f, other, seed)
        what = f"{label}: {name} after {trail[-6:]}"
        c.check(got[0] == exp[0] and (got[0] == "value" or got == exp), f"{what}: {got if got[0] == 'error' else 'a value'} instead of {exp if exp[0] == 'error' else 'a value'}", key=name)
        c.check(got == exp, f"{what}: the result depends on what was computed before", key=name)
        after = st(e)
        c.check(after == st(other), f"{what}: data left depend on what was computed before", key=name)
        if not modify:
            c.check(after == before, f"{what}: data changed by a method which reads", key=name)
        c.count("methods compared")
        c.count("methods which answered", got[0] == "value")
        if changed and got[0] == "value":
            seen += 1
            c.count("methods compared after a change")
        changed |= after != before
        trail.append(name)
    if seen:
        c.nontrivial(label, tuple(trail), sample=dict(methods=trail))


def pick(rng, v, n=1):
    v = np.unique(np.asarray(v))
    return rng.choice(v, n) if n > 1 else rng.choice(v)


def window(e, rng):
    t0, t1 = e.time.min(), e.time.max()
    a = float(t0 + rng.integers(0, int(t1 - t0) + 1))
    return a, a + float(rng.integers(0, 10))


COMMON = dict(
    repr=lambda e, r: repr(e),
    period=lambda e, r: e.period,
    nb_days=lambda e, r: e.nb_days,
    infos=lambda e, r: e.get_infos(),
    shape=lambda e, r: e.shape,
    mask=lambda e, r: e.extract_with_mask(r.random(len(e)) < 0.6),
    copy=lambda e, r: e.copy(),
    merge=lambda e, r: e.merge(fresh(e)),
    hist=lambda e, r: e.hist("radius_s", "lat", np.linspace(-80, 80, 9), mean=bool(r.integers(2))),
    bins=lambda e, r: e.bins_stat("lat", bins=np.linspace(-80, 80, 9)),
    count=lambda e, r: e.grid_count(((0, 360, 10), (-80, 80, 10)), center=True).vars["count"],
    convex=lambda e, r: e.is_convex(intern=bool(r.integers(2))),
    contains=lambda e, r: e.contains(r.uniform(0, 360, 5), r.uniform(-60, 60, 5)),
    area=lambda e, r: e.extract_with_area(dict(llcrnrlon=(x := r.uniform(0, 300)), urcrnrlon=x + 120, llcrnrlat=-40, urcrnrlat=50)),
    first=lambda e, r: e.first_obs(),
    last=lambda e, r: e.last_obs(),
    dates=lambda e, r: e.time_datetime64,
    sample=lambda e, r: e.time_sub_sample(e.time.min(), int(r.integers(1, 4))),
    on=lambda e, r: [(s, b0, b1) for s, b0, b1 in e.iter_on("time")],
    remove=lambda e, r: e.remove_fields("radius_s"),
    particles=lambda e, r: e.create_particles(0.1),
)
CHANGE = dict(
    circle=lambda e, r: e.circle_contour(only_virtual=False, factor=float(r.uniform(0.5, 2))),
    insert=lambda e, r: e.insert_observations(fresh(e.index(r.integers(0, len(e), 2))), int(r.integers(0, len(e)))),
    append=lambda e, r: e.append(fresh(later(e.index(r.integers(0, len(e), 2))))),
)


def later(e):
    e.time[:] += 40
    return e


@CHECK.group("eddies", quick=120, thorough=2500)
def eddies(c):
    """daily observations: extraction, counts, statistics after insertions"""
    e = gen.eddies(c.rng, int(c.rng.integers(2, 30)), pad=False, arrays=["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"])
    e.time[:] = 20000 + c.rng.integers(0, 12, len(e))
    changes = dict(CHANGE)
    play(c, e, COMMON, changes, int(c.rng.integers(6, 14)), "eddies")


TRACK = dict(
    nb_tracks=lambda e, r: e.nb_tracks,
    lifetime=lambda e, r: e.lifetime,
    age=lambda e, r: e.age,
    index=lambda e, r: e.index_from_track,
    size=lambda e, r: e.nb_obs_by_track,
    slice=lambda e, r: e.track_slice(int(pick(r, e.track))),
    tracks=lambda e, r: list(e.iter_track()),
    ids=lambda e, r: e.extract_ids(np.sort(pick(r, e.track, 2))),
    ids_mask=lambda e, r: e.get_mask_from_id(np.unique(pick(r, e.track, 2))),
    longer=lambda e, r: e.extract_with_length((int(r.integers(0, 5)), -1)),
    period_=lambda e, r: e.extract_with_period(window(e, r)),
    direction=lambda e, r: e.extract_toward_direction(bool(r.integers(2))),
    azimuth=lambda e, r: e.get_azimuth(bool(r.integers(2))),
    next=lambda e, r: e.distance_to_next(),
    shape_polygon=lambda e, r: e.shape_polygon(),
    missing=lambda e, r: e.get_missing_indices(1),
    count_by=lambda e, r: e.count_by_track(r.random(len(e)) < 0.5),
    close=lambda e, r: e.close_tracks(fresh(e), nb_obs_min=2),
    loess_=lambda e, r: e.loess_filter(2, "time", "lon", inplace=False),
    median_=lambda e, r: e.median_filter(2, "time", "lat", inplace=False),
    box=lambda e, r: e.extract_first_obs_in_box(5),
    distance=lambda e, r: e.add_distance(),
    full=lambda e, r: e.extract_with_mask(r.random(len(e)) < 0.6, full_path=True),
    split=lambda e, r: e.split_network(intern=False, window=2),
    virtual=lambda e, r: e.insert_virtual(),
    by_date=lambda e, r: e.keep_tracks_by_date(float(pick(r, e.time)), int(r.integers(-4, 5))),
    label=lambda e, r: e.format_label("{nb_tracks} {nb_obs} {t0} {t1}"),
)
TRACK_CHANGE = dict(
    normalize=lambda e, r: e.normalize_longitude(),
    fill=lambda e, r: e.filled_by_interpolation(e.virtual == 1),
    median=lambda e, r: e.median_filter(2, "time", "lon"),
    loess=lambda e, r: e.loess_filter(3, "time", "lat"),
    position=lambda e, r: e.position_filter(2, 3),
    insert=lambda e, r: e.insert_observations(fresh(later(end(e))), len(e)),
    circle=CHANGE["circle"],
)


def end(e):
    """a new track after the last one"""
    n = e.index(np.array([len(e) - 1, len(e) - 1]))
    n.track[:] += 2
    n.n[:] = 0, 1
    n.time[1] += 1
    return n


@CHECK.group("tracks", quick=160, thorough=3000)
def tracks(c):
    """tracks: index, lifetime, extractions after insertions, interpolations and filters"""
    e = gen.tracks(c.rng, int(c.rng.integers(2, 7)), pad=False, arrays=["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"], time_gaps=bool(c.rng.integers(2)),
                   max_len=8)
    play(c, e, {**COMMON, **TRACK}, TRACK_CHANGE, int(c.rng.integers(6, 14)), "tracks")


def one(e, r):
    return e.network(int(pick(r, e.track)))


NET = dict(
    nb=lambda e, r: (e.nb_network, e.nb_segment),
    index=lambda e, r: (e.index_network, e.index_segment_track, e.ref_index, e.ref_segment_track_index),
    size=lambda e, r: (e.network_size(), e.segment_size(), e.network_segment_size()),
    size_of=lambda e, r: e.network_size(np.unique(pick(r, e.track, 2))),
    slice=lambda e, r: e.network_slice(int(pick(r, e.track))),
    network=lambda e, r: one(e, r),
    networks=lambda e, r: e.networks(np.unique(pick(r, e.track, 2))),
    network_mask=lambda e, r: e.networks_mask(np.unique(pick(r, e.track, 2))),
    unique=lambda e, r: e.segment_track_array,
    segment_id=lambda e, r: e.unique_segment_to_id(np.arange(e.nb_segment)),
    merging=lambda e, r: (e.merging_event(only_index=True), e.merging_event(triplet=True)),
    splitting=lambda e, r: (e.splitting_event(only_index=True), e.splitting_event(triplet=True)),
    birth=lambda e, r: e.birth_event(),
    death=lambda e, r: e.death_event(),
    relatives=lambda e, r: e.relatives(int(r.integers(len(e))), order=int(r.integers(1, 4))),
    relative_order=lambda e, r: one(e, r).obs_relative_order(0),
    only_relative=lambda e, r: e.obs_relative_order(0),
    link=lambda e, r: e.find_link([int(r.integers(len(e)))], forward=bool(r.integers(2)), backward=bool(r.integers(2))),
    connexions=lambda e, r: e.connexions(multi_network=True),
    segments=lambda e, r: e.extract_segment(np.unique(pick(r, e.segment_track_array, 2)), absolute=True),
    longer=lambda e, r: e.longer_than(int(r.integers(0, 6)), -1),
    longer_mask=lambda e, r: e.mask_longer_than(int(r.integers(0, 6)), -1),
    period_=lambda e, r: e.extract_with_period(window(e, r)),
    light=lambda e, r: e.extract_light_with_mask(r.random(len(e)) < 0.6),
    trash=lambda e, r: e.first_is_trash(),
    no_trash=lambda e, r: e.remove_trash(),
    events=lambda e, r: e.mask_obs_close_event(dt=int(r.integers(1, 5))),
    by_segment=lambda e, r: e.mean_by_segment(e.lat),
    by_network=lambda e, r: e.map_network(lambda x: x.max(), e.time, same=bool(r.integers(2))),
    by_network_dict=lambda e, r: e.map_network(lambda x: x.max(), e.time, same=False, return_dict=True),
    tags=lambda e, r: e.tag_segment(),
    relative=lambda e, r: e.find_segments_relative(int(r.integers(len(e))), order=1),
    missing=lambda e, r: e.get_missing_indices(1),
    loess_=lambda e, r: e.loess_filter(2, "time", "lon", inplace=False),
    median_=lambda e, r: e.median_filter(2, "time", "lat", inplace=False),
    close=lambda e, r: e.close_network(fresh(e), nb_obs_min=1),
    identify=lambda e, r: e.identify_in(fresh(e), size_min=int(r.integers(1, 4)), segment=bool(r.integers(2))),
    virtual=lambda e, r: e.insert_virtual(),
    by_date=lambda e, r: e.keep_tracks_by_date(float(pick(r, e.time)), int(r.integers(-4, 5))),
    sequence=lambda e, r: e.sequence_array,
    successive=lambda e, r: e.successive_mask(),
    text=lambda e, r: e.infos(),
    as_tracks=lambda e, r: e.astype(__import__("py_eddy_tracker.observations.tracking", fromlist=["x"]).TrackEddiesObservations),
)
NET_CHANGE = dict(
    sort=lambda e, r: e.sort(),
    shuffle=lambda e, r: e.sort(order=("time",) if r.random() < 0.2 else ("track", "segment", "time")),
    number_segment=lambda e, r: e.numbering_segment(int(r.integers(0, 5))),
    number_network=lambda e, r: e.numbering_network(int(r.integers(0, 9))),
    dissociate=lambda e, r: e.dissociate_network(),
    dead_end=lambda e, r: e.remove_dead_end(nobs=int(r.integers(0, 5)), ndays=int(r.integers(0, 4)), recursive=int(r.integers(3))),
    correct=lambda e, r: e.correct_close_events(int(r.integers(2, 30))),
    swap=lambda e, r: e.swap_track(int(r.integers(1, 9)), int(r.integers(1, 5)), -1),
    normalize=lambda e, r: e.normalize_longitude(),
    median=lambda e, r: e.median_filter(2, "time", "lon"),
    loess=lambda e, r: e.loess_filter(3, "time", "lat"),
    position=lambda e, r: e.position_filter(2, 3),
)


@CHECK.group("networks", quick=240, thorough=4000)
def networks(c):
    """networks: index of networks and segments, events, relatives, extractions after renumberings, sorts and corrections"""
    rng = c.rng
    e = nets.synthetic(rng, n_net=int(rng.integers(1, 5)), max_seg=5, max_len=6, trash=None if rng.random() < 0.6 else 0) if rng.random() < 0.7 else nets.from_world(rng, days=int(rng.integers(3, 10)), n=int(rng.integers(2, 6)))
    if e is None or len(e) == 0:
        return
    play(c, e, {**COMMON, **NET}, NET_CHANGE, int(rng.integers(6, 16)), "networks")


def grid_state(g):
    return tuple((k, canon(g.vars[k])) for k in sorted(g.vars))


def grid_copy(g):
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    n = RegularGridDataset.with_array(("lon", "lat"), dict(lon=g.x_c.copy(), lat=g.y_c.copy()), centered=True)
    for k in g.vars:
        if k not in ("lon", "lat"):
            n.vars[k] = g.vars[k].copy()
            n.variables_description[k] = dict(infos=dict(g.variables_description[k]["infos"]), attrs=dict(g.variables_description[k]["attrs"]),
                                              args=g.variables_description[k]["args"], kwargs=dict(g.variables_description[k]["kwargs"]))
    return n


def where(g, r, n=6):
    return r.uniform(g.x_c.min(), g.x_c.max(), n) + 360 * r.integers(-1, 2), r.uniform(g.y_c.min(), g.y_c.max(), n)


def ring(g, r):
    """closed path inside of the grid"""
    x0, y0 = r.choice(g.x_c), r.choice(g.y_c)
    d = g.xstep * r.uniform(1.2, 3)
    t = np.linspace(0, 2 * np.pi, 20)
    return x0 + d * np.cos(t), y0 + g.ystep * r.uniform(1.2, 3) * np.sin(t)


def pixels(g, r):
    from matplotlib.path import Path
    import py_eddy_tracker.dataset.grid  # noqa: F401  methods of paths

    x, y = ring(g, r)
    p = Path(np.array((x, y)).T)
    return p.pixels_in(g), p.nb_pixel if hasattr(p, "nb_pixel") else None


def identification(g, r):
    from datetime import datetime

    a, cy = g.eddy_identification("z", "u", "v", datetime(2004, 9, 1), step=float(r.choice([0.02, 0.05])), pixel_limit=(4, 500), shape_error=70)
    return canon(a), canon(cy), [canon(x.obs["contour_lon_s"]) for x in (a, cy)]


def speed(g, r, u="u", v="v"):
    """mean speed along a path"""
    from matplotlib.path import Path
    import py_eddy_tracker.dataset.grid  # noqa: F401

    g.init_speed_coef(u, v)
    x, y = ring(g, r)
    p = Path(np.array((x, y)).T)
    return g.speed_coef_mean(p)


GRID = dict(
    interp=lambda g, r: g.interp("z", *where(g, r), method=str(r.choice(["bilinear", "nearest"]))),
    interp_u=lambda g, r: g.interp("u", *where(g, r)),
    grid=lambda g, r: g.grid("z"),
    circular=lambda g, r: g.is_circular(),
    bounds=lambda g, r: g.bounds,
    near=lambda g, r: [g.nearest_grd_indice(x, y) for x, y in zip(*where(g, r))],
    pixels=pixels,
    speed=speed,
    units=lambda g, r: g.units("z"),
    kernel=lambda g, r: g.kernel_bessel(float(r.choice(g.y_c)), g.xstep * 400, order=1),
    kernel2=lambda g, r: g.kernel_lanczos(float(r.choice(g.y_c)), g.xstep * 400, order=1),
    smooth=lambda g, r: g.convolve_filter_with_dynamic_kernel("z", g.kernel_bessel, lat_max=80, wave_length=float(r.choice([3, 5])) * g.xstep * 110, order=1),
    identification=identification,
    advect=lambda g, r: next(g.advect(*[v.copy() for v in where(g, r)], "u", "v", nb_step=2)),
    path=lambda g, r: g.compute_pixel_path(*where(g, r, 1), *where(g, r, 1)),
    uv=lambda g, r: g.uv_for_advection("u", "v", time_step=3600, backward=bool(r.integers(2))),
    stencil=lambda g, r: g.compute_stencil(g.grid("z"), stencil_halfwidth=int(r.integers(1, 4))),
    spectrum=lambda g, r: g.spectrum_lonlat("z", area=dict(llcrnrlon=g.x_c[1], urcrnrlon=g.x_c[-2], llcrnrlat=g.y_c[1], urcrnrlat=g.y_c[-2]), nperseg=8),
    regrid=lambda g, r: grid_copy(g).regrid(grid_copy(g), "z", "w"),
)
GRID_CHANGE = dict(
    high=lambda g, r: g.bessel_high_filter("z", float(r.choice([4, 8])) * g.xstep * 110, order=1),
    low=lambda g, r: g.bessel_low_filter("z", float(r.choice([3, 5])) * g.xstep * 110, order=1),
    lanczos=lambda g, r: g.lanczos_low_filter("z", float(r.choice([3, 5])) * g.xstep * 110),
    add_uv=lambda g, r: g.add_uv("z", "u", "v", stencil_halfwidth=int(r.integers(1, 5))),
    add=lambda g, r: g.add_grid(k := str(r.choice(["z", "u", "v"])), np.ma.array(g.grid(k) * r.uniform(0.5, 2))),
    copy=lambda g, r: g.copy("z", "z2"),
)


def grid_one(c):
    rng = c.rng
    g, _ = gen.grid(rng, mask=float(rng.choice([0, 0.1])), names=("z",), smooth=True, units="m", nx=int(rng.integers(14, 30)), ny=int(rng.integers(12, 24)),
                           lat_range=(10, 60) if rng.random() < 0.5 else (-60, -10), poison=False)
    g.add_uv("z", "u", "v", stencil_halfwidth=2)
    return g


@CHECK.group("grids", quick=80, thorough=1600)
def grids(c):
    """regular grids: interpolation, pixels, speeds, kernels, identification and filters after changes of variables"""
    g = grid_one(c)
    play(c, g, GRID, GRID_CHANGE, int(c.rng.integers(6, 16)), "grid", copy=grid_copy, st=grid_state)


def write_grid(path, x, y, **fields):
    from netCDF4 import Dataset

    with Dataset(path, "w") as h:
        h.createDimension("lon", x.size), h.createDimension("lat", y.size)
        for k, v, d in (("lon", x, ("lon",)), ("lat", y, ("lat",))):
            h.createVariable(k, "f8", d)[:] = v
        for k, v in fields.items():
            n = h.createVariable(k, "f8", ("lat", "lon"), fill_value=-9999.0)
            n.units = "m" if k == "h" else "m/s"
            n[:] = v.T


def ahead(e, r, n, **kw):
    """some dates of an advection; the grids which remain in memory do not count"""
    t = e.time
    back = bool(r.integers(2))
    t0 = float(r.choice(t[2:] if back else t[:-2])) + float(r.choice([0, 0, 0.5])) * (-1 if back else 1)
    x, y = r.uniform(2, 8, 5), r.uniform(32, 38, 5)
    it = e.advect(x, y, t_init=t0, nb_step=4, time_step=7200, rk4=bool(r.integers(2)), backward=back, reset_grid=[None, 0, 1, 3][r.integers(4)], **kw)
    return [(k, a.copy(), b.copy()) for (k, a, b), _ in zip(it, range(n))]


def when(e, r):
    return float(r.choice(e.time[:-1])) + float(r.choice([0, 0.25, 0.5]))


CUBE = dict(
    time=lambda e, r: (e.time, e.period),
    repr=lambda e, r: type(repr(e)).__name__,
    interp=lambda e, r: e.interp(str(r.choice(["h", "ug"])), when(e, r), r.uniform(-1, 11, 6), r.uniform(30, 40, 6), method=str(r.choice(["bilinear", "nearest"]))),
    advect=lambda e, r: ahead(e, r, 4, u_name="ug", v_name="vg"),
    advect2=lambda e, r: ahead(e, r, 4, u_name="ug", v_name="vg", factor=2),
    height=lambda e, r: ahead(e, r, 4, h_name="h"),
    path=lambda e, r: e.path(r.uniform(2, 8, 4), r.uniform(32, 38, 4), u_name="ug", v_name="vg", t_init=float(e.time[0]), nb_step=6, time_step=3600, nb_time=3),
    get=lambda e, r: e[r.choice(e.time)].grid("h"),
    filament=lambda e, r: [(k, a.copy(), b.copy()) for (k, a, b), _ in zip(e.filament(r.uniform(2, 8, 2), r.uniform(32, 38, 2), "ug", "vg", t_init=float(e.time[0]), nb_step=6, time_step=3600), range(3))],
    free=lambda e, r: e.reset_grids(int(r.integers(0, 3))),
    speed=lambda e, r: speed(e[r.choice(e.time)], r, "ug", "vg"),
    each=lambda e, r: [d.grid("ug") for d in e if d.populate() is None],
)


@CHECK.group("cubes", quick=40, thorough=800)
def cubes(c):
    """series of grids loaded on demand and freed: interpolation, advection, filaments while dates are shifted"""
    from py_eddy_tracker.dataset.grid import GridCollection

    rng = c.rng
    x, y = np.arange(0, 10.01, 0.5), np.arange(30, 40.01, 0.5)
    made = []

    def new():
        path = f"{c.tmp}/g{len(made)}.nc"
        write_grid(path, x, y, **{k: gen.field(rng, x, y, mask=0.03, smooth=True) * s for k, s in (("h", 0.1), ("ug", 0.3), ("vg", 0.3))})
        made.append(path)
        return path

    t0 = 20000
    nb = int(rng.integers(4, 7))
    kw = dict(x_name="lon", y_name="lat", unset=bool(rng.integers(2)))
    col = GridCollection.from_netcdf_list([new() for _ in range(nb)], [t0 + i for i in range(nb)], **kw)
    shifted = [new() for _ in range(3)]

    def shift(e, r):
        t = e.time[-1] + 1
        i = int(t - t0 - nb)
        if i < len(shifted):
            e.shift_files(t, shifted[i], **kw)

    def again(e):
        return GridCollection.from_netcdf_list([d.filename for _, d in e.datasets], list(e.time), **kw)

    def names(e):
        return tuple((float(t), d.filename) for t, d in e.datasets)

    play(c, col, CUBE, dict(shift=shift), int(rng.integers(6, 12)), "cube", copy=again, st=names)


@CHECK.group("indexes", quick=60, thorough=1200)
def indexes(c):
    """a variable of a file read at several dates and depths, between uses of the grid"""
    from netCDF4 import Dataset
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    rng = c.rng
    x, y = np.arange(0, 10.01, 0.5), np.arange(30, 36.01, 0.5)
    path = f"{c.tmp}/z.nc"
    nt, nd = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    full = np.ma.array(rng.normal(size=(nt, nd, y.size, x.size)), mask=rng.random((nt, nd, y.size, x.size)) < 0.1)
    with Dataset(path, "w") as h:
        for k, n in (("time", nt), ("depth", nd), ("lat", y.size), ("lon", x.size)):
            h.createDimension(k, n)
        h.createVariable("lon", "f8", ("lon",))[:] = x
        h.createVariable("lat", "f8", ("lat",))[:] = y
        for k, s in (("z", 1), ("w", 2)):
            v = h.createVariable(k, "f8", ("time", "depth", "lat", "lon"), fill_value=-9999.0)
            v.units = "m"
            v[:] = full * s
    base = {k: int(rng.integers(n)) for k, n in (("time", nt), ("depth", nd)) if rng.random() < 0.5}

    def new():
        return RegularGridDataset(path, "lon", "lat", centered=True, indexs=dict(base))

    g = new()
    for _ in range(int(rng.integers(4, 12))):
        k, s = [("z", 1), ("w", 2)][rng.integers(2)]
        ask = dict(time=int(rng.integers(nt)), depth=int(rng.integers(nd)))
        if rng.random() < 0.4:
            ask.pop(str(rng.choice(["time", "depth"])))
            f = new()
            if rng.random() < 0.5:
                f.clean(), f.populate()
            got, exp = f.grid(k, indexs=dict(ask)), full[{**dict(time=0, depth=0), **base, **ask}["time"], {**dict(time=0, depth=0), **base, **ask}["depth"]].T * s
        else:
            got, exp = g.grid(k, indexs=dict(ask)), full[ask["time"], ask["depth"]].T * s
            c.check(canon(g.grid(k)) == canon(got), "the variable read is the one of the grid")
            if rng.random() < 0.3:
                g.interp(k, np.array([3.2]), np.array([33.1]))
            elif rng.random() < 0.3:
                g.clean(), g.populate()
        m = np.ma.getmaskarray(exp)
        c.check(np.array_equal(np.ma.getmaskarray(got), m) and np.array_equal(got.data[~m], exp.data[~m]), f"variable {k} read at {ask} (grid: {base})")
        c.count("reads")
    if nt * nd > 1:
        c.nontrivial(nt, nd, base, full[0, 0, 0])
