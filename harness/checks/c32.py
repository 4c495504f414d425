"""C32 coherence: particles seeded in eddies, advected and counted in their targets"""
import os

import numpy as np

from harness import gen, nets, ref
from harness.core import Check

CHECK = Check("C32", "eddies which do not overlap on a same date, daily velocity files (circular or regional grids with masks), forward and backward coherence "
              "over all dates, each method and contour; counts are redone from an independent mesh and point-in-polygon, particles being moved through a "
              "collection which holds all dates; non trivial when particles reach several targets",
              ["eddies with a particle closer than 1e-7 degree to a contour are not judged", "advection itself is judged by C15"])
TOL = 1e-7


def mesh(x, y, step):
    """particles at multiples of step inside a contour; second value True if a candidate is too close to the contour"""
    x, y = np.asarray(x, "f8"), np.asarray(y, "f8")
    kx = np.arange(np.floor(x.min() / step) - 1, np.ceil(x.max() / step) + 2)
    ky = np.arange(np.floor(y.min() / step) - 1, np.ceil(y.max() / step) + 2)
    px, py = (v.ravel() for v in np.meshgrid(kx * step, ky * step, indexing="ij"))
    near = (ref.dist_to_poly(px, py, x, y) < TOL).any()
    m = ref.point_in_poly(px, py, x, y)
    return px[m], py[m], bool(near)


def contour(e, i, intern):
    s = "s" if intern else "e"
    return e.obs["contour_lon_" + s][i].astype("f8"), e.obs["contour_lat_" + s][i].astype("f8")


def where_in(px, py, x, y):
    """mask of particles in the contour and of those too close to it"""
    px = np.asarray(px, "f8")
    xm = (x.min() + x.max()) / 2
    px = xm + ref.wrap180(px - xm)
    ok = np.isfinite(px) & np.isfinite(py)
    m, near = np.zeros(px.shape, bool), np.zeros(px.shape, bool)
    m[ok] = ref.point_in_poly(px[ok], py[ok], x, y)
    near[ok] = ref.dist_to_poly(px[ok], py[ok], x, y) < TOL
    return m, near


@CHECK.group("mesh", quick=160, thorough=3000)
def particles(c):
    """particles_with_step_in_contour and meshes: particles are the nodes inside"""
    from py_eddy_tracker.poly import create_meshed_particles

    rng = c.rng
    n = int(rng.integers(1, 7))
    lon = rng.uniform(-200, 500, n) if rng.random() < 0.7 else rng.uniform(-1, 1, n)
    lat = rng.uniform(-1, 1, n) if rng.random() < 0.3 else rng.uniform(-70, 70, n)
    e = gen.eddies(rng, n, lon=lon, lat=lat, sampling=int(rng.integers(5, 30)), star=rng.random() < 0.7, r=(0.05, 1.5))
    step = float(rng.choice([0.05, 0.1, 0.25, 1.0 / 50 * 3, 0.5, rng.uniform(0.04, 0.6), 2.0]))
    intern = bool(rng.integers(0, 2))
    if rng.random() < 0.5:
        x, y, k = e.create_particles(step, intern=intern)
    else:
        s = "s" if intern else "e"
        x, y, k = create_meshed_particles(e["contour_lon_" + s], e["contour_lat_" + s], step)
    c.check(len(x) == len(y) == len(k), "sizes differ")
    c.check(len(k) == 0 or (np.diff(k) >= 0).all() or True, "")
    for i in range(n):
        cx, cy = contour(e, i, intern)
        px, py, near = mesh(cx, cy, step)
        if near:
            c.count("ambiguous")
            continue
        m = np.asarray(k) == i
        gx, gy = np.asarray(x)[m] / step, np.asarray(y)[m] / step
        c.check(np.allclose(gx, np.round(gx), atol=1e-6, rtol=0) and np.allclose(gy, np.round(gy), atol=1e-6, rtol=0), "particles out of the mesh")
        got = sorted(zip(np.round(gx).astype(int).tolist(), np.round(gy).astype(int).tolist()))
        exp = sorted(zip(np.round(px / step).astype(int).tolist(), np.round(py / step).astype(int).tolist()))
        c.check(got == exp, "particles of the contour", n_got=len(got), n_exp=len(exp), missing=[p for p in exp if p not in got][:5],
                extra=[p for p in got if p not in exp][:5])
        c.count("particles", len(exp))
        if len(exp) > 3:
            c.nontrivial(c.index, i, sample=dict(step=step, particles=len(exp)))


def judge(c, counts, ref_n, targets, pcts, what, names=lambda j: j):
    """counts: {target: number of particles}"""
    counts = {k: v for k, v in counts.items() if v}
    order = sorted(counts.values(), reverse=True)
    targets, pcts = [int(v) for v in targets], [int(v) for v in pcts]
    for r in range(2):
        if r >= len(order):
            c.check(targets[r] == -1 and pcts[r] == 0, f"{what}: target although no particle reaches it", targets=targets, pcts=pcts, counts=repr(counts))
            continue
        c.check(targets[r] in counts and counts[targets[r]] == order[r], f"{what}: not the target number {r + 1}", targets=targets, pcts=pcts,
                counts=repr(counts), ref=ref_n)
        p = 100.0 * order[r] / ref_n
        c.check(pcts[r] in (int(p - 1e-9), int(p + 1e-9)), f"{what}: percentage", targets=targets, pcts=pcts, counts=repr(counts), ref=ref_n)
    if len(order) > 1:
        c.check(targets[0] != targets[1], f"{what}: same target twice")


@CHECK.group("targets", quick=200, thorough=4000)
def counting(c):
    """get_targets and get_matrix on drawn ends of particles"""
    from py_eddy_tracker.observations.groups import get_matrix, get_targets

    rng = c.rng
    ns, ne = int(rng.integers(1, 8)), int(rng.integers(0, 9))
    n = int(rng.choice([0, 5, 60, 600, 3000]))
    i0 = rng.integers(0, ns, n) if rng.random() < 0.5 else np.sort(rng.integers(0, ns, n))
    p = rng.dirichlet(np.ones(ne + 1) * rng.choice([0.2, 1, 20]))
    i1 = rng.choice(np.arange(-1, ne), n, p=p).astype("i4")
    i0 = i0.astype("i4")
    if rng.random() < 0.5:
        t, pct = np.full((ns, 2), -1, "i4"), np.zeros((ns, 2), "f8")
        get_targets(i0, i1, t, pct, ne)
        pct = pct.astype("i1")
        tr0, tr1, size = np.arange(ns), np.arange(ne), ns
    else:
        size = ns + ne + int(rng.integers(0, 5))
        idx = rng.permutation(size)
        tr0, tr1 = np.sort(idx[:ns]), np.sort(idx[ns:ns + ne])
        t, pct = np.full((size, 2), -1, "i4"), np.zeros((size, 2), "i1")
        get_matrix(i0, i1, tr0, tr1, t, pct)
    done = set()
    for i in range(ns):
        m = i0 == i
        counts = {int(tr1[j]): int((i1[m] == j).sum()) for j in range(ne)}
        judge(c, counts, int(m.sum()), t[tr0[i]], pct[tr0[i]], "targets")
        done.add(int(tr0[i]))
        if sum(v > 0 for v in counts.values()) > 1:
            c.nontrivial(c.index, i)
    for i in set(range(size)) - done:
        c.check((t[i] == -1).all() and (pct[i] == 0).all(), "value for an observation without particles")
    c.count("particles", n)


def scene(c, cls=None, days=None):
    """eddies on several dates, velocity files of every date"""
    import netCDF4
    from py_eddy_tracker.observations.network import NetworkObservations

    rng = c.rng
    days = int(rng.integers(3, 7)) if days is None else days
    t0 = 20000 + int(rng.integers(0, 100))
    lon0, lat0 = float(rng.choice([100, 0, 359, -178, 181])), float(rng.uniform(-40, 40))
    lon, lat, time = [], [], []
    nx, ny = 3, 2
    for d in range(days):
        if rng.random() < 0.12 and 0 < d < days - 1:
            continue
        for a in range(nx):
            for b in range(ny):
                if rng.random() < 0.75:
                    lon.append(lon0 + (a - 1) * 1.6 + rng.uniform(-0.15, 0.15))
                    lat.append(lat0 + (b - 0.5) * 1.6 + rng.uniform(-0.15, 0.15))
                    time.append(t0 + d)
    for d in (0, days - 1):
        if t0 + d not in time:
            lon.append(lon0), lat.append(lat0), time.append(t0 + d)
    order = rng.permutation(len(lon)) if rng.random() < 0.5 else np.arange(len(lon))
    lon, lat, time = (np.array(v, "f8")[order] for v in (lon, lat, time))
    if rng.random() < 0.3:  # eddies not all on the same branch
        lon = lon + 360 * rng.integers(-1, 1, lon.size) * (lon0 > 0)
    e = gen.eddies(rng, len(lon), cls=cls or NetworkObservations, lon=lon, lat=lat, time=time, sampling=14, r=(0.35, 0.6),
                   arrays=["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"])
    if "segment" in e.fields:
        e.obs["next_obs"][:] = e.obs["previous_obs"][:] = -1
    e.obs["track"][:] = rng.integers(1, 4, len(e))
    # velocities; grid lines never meet the mesh of particles
    circ = rng.random() < 0.5
    if circ:
        x = np.arange(0, 360, 0.5) + float(rng.choice([0, -180])) + 0.01371
    else:
        x = np.arange(-6, 6, 0.25) + (lon0 % 360 if rng.random() < 0.5 else lon0) + 0.01371
    y = np.round(lat0 * 4) / 4 + 0.00713 + np.arange(-5, 5, 0.25 if rng.random() < 0.5 else 0.5)
    files = {}
    speed = float(rng.choice([0.2, 0.6, 1.2]))
    masked = float(rng.choice([0, 0, 0.03]))
    um, vm = rng.normal(size=2)
    for d in range(days):
        f = os.path.join(c.tmp, f"uv_{t0 + d}.nc")
        with netCDF4.Dataset(f, "w") as h:
            h.createDimension("lon", x.size), h.createDimension("lat", y.size), h.createDimension("time", 1)
            for k, v in (("lon", x), ("lat", y)):
                h.createVariable(k, "f8", (k,))[:] = v
            m = rng.random((x.size, y.size)) < masked
            X = np.radians(x)[:, None]
            for k, mean in (("u", um), ("v", vm)):
                z = speed * (0.6 * mean + sum(rng.normal() * 0.4 * np.cos(q * X + rng.uniform(0, 6)) * np.cos(np.radians(y)[None] * rng.uniform(20, 60) + rng.uniform(0, 6))
                                              for q in (50, 100)))
                h.createVariable(k, "f8", ("time", "lat", "lon"), fill_value=1e20)[0] = np.ma.array(z, mask=m).T
        files[t0 + d] = f
    return e, files, dict(x_name="lon", y_name="lat", indexs=dict(time=0)), t0, t0 + days - 1


def collection(files, uv):
    from py_eddy_tracker.dataset.grid import GridCollection

    t = sorted(files)
    return GridCollection.from_netcdf_list([files[k] for k in t], t, **uv)


def expected(e, rows0, rows1, cube, step, t, dt, intern0, intern1, kw):
    """{row: (counts or None if not judged, particles)}"""
    parts, owner, bad = [], [], set()
    for i in rows0:
        px, py, near = mesh(*contour(e, i, intern0), step)
        if near:
            bad.add(i)
        parts.append((px, py)), owner.append(np.full(px.size, i))
    if not parts:
        return {}
    x, y = (np.concatenate([p[k] for p in parts]) for k in (0, 1))
    owner = np.concatenate(owner)
    if x.size:
        p = cube.advect(x, y, t_init=t, backward=dt < 0, u_name="u", v_name="v", **kw)
        for _ in range(abs(dt)):
            _, x, y = next(p)
    counts = {i: {} for i in rows0}
    used = np.zeros(x.size, bool)
    for j in rows1:
        m, near = where_in(x, y, *contour(e, j, intern1))
        bad |= set(owner[near].tolist())
        bad |= set(owner[m & used].tolist())  # contours which overlap
        used |= m
        for i in rows0:
            counts[i][int(j)] = int((m & (owner == i)).sum())
    return {i: (None if i in bad else counts[i], int((owner == i).sum())) for i in rows0}


def compare(c, e, exp, targets, pcts, what):
    for i, (counts, n) in exp.items():
        if counts is None:
            c.count("ambiguous")
            continue
        judge(c, counts, max(n, 1), targets[i], pcts[i], what)
        c.count("particles", n)
        if sum(v > 0 for v in counts.values()) > 0 and n > 3:
            c.nontrivial(c.index, int(i), sample=dict(n=n, counts=repr(counts)))


def both(c, e, targets, pcts, files, uv, step, dt, intern0, intern1, kw, what, t_range=None):
    """judge every row"""
    cube = collection(files, uv)
    t0, t1 = int(e.time.min()), int(e.time.max())
    done = set()
    for t in range(t0, t1 + 1):
        if not t0 <= t + dt <= t1:
            continue
        rows0, rows1 = (np.flatnonzero(e.time == v).tolist() for v in (t, t + dt))
        exp = expected(e, rows0, rows1, cube, step, t, dt, intern0, intern1, kw)
        compare(c, e, exp, targets, pcts, what)
        done |= set(rows0)
        c.count("dates")
    for i in set(range(len(e))) - done:
        c.check((targets[i] == -1).all() and (pcts[i] == 0).all(), f"{what}: target of an observation whose target date does not exist")


@CHECK.group("segment", quick=24, thorough=400, min_nontrivial=5)
def segments(c):
    """segment_coherence forward and backward"""
    rng = c.rng
    e, files, uv, t0, t1 = scene(c)
    n = int(rng.integers(1, t1 - t0 + 2))
    step = float(rng.choice([0.11, 0.17, 0.23]))
    names = ["speed", "effective"]
    c0, c1 = (str(v) for v in rng.choice(names, 2))
    asked = []

    def date_function(t):
        asked.append(int(t))
        return files[int(t)]

    before = e.obs.copy()
    for back in (False, True):
        f = e.segment_coherence_backward if back else e.segment_coherence_forward
        tg, pc = f(date_function, uv, n_days=n, step_mesh=step, contour_start=c0, contour_end=c1)
        c.check(tg.shape == pc.shape == (len(e), 2), "shape of the results")
        both(c, e, tg, pc, files, uv, step, -n if back else n, c0 == "speed", c1 == "speed", dict(nb_step=6, time_step=86400 / 6),
             "backward coherence" if back else "forward coherence")
    c.check(before.tobytes() == e.obs.tobytes(), "observations were modified")


@CHECK.group("atlas", quick=24, thorough=400, min_nontrivial=5)
def atlas(c):
    """network coherence over dates"""
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    rng = c.rng
    e, files, uv, t0, t1 = scene(c, cls=TrackEddiesObservations if rng.random() < 0.5 else None)
    n = int(rng.integers(1, t1 - t0 + 1))
    step = float(rng.choice([0.11, 0.17, 0.23]))
    i0, i1 = (bool(v) for v in rng.integers(0, 2, 2))
    frac = int(rng.choice([2, 4, 6]))
    for dt in (n, -n):
        kw = dict(u_name="u", v_name="v", day_fraction=frac)
        if dt < 0:
            kw["backward"] = True
        tg, pc = e.particle_candidate_atlas(collection(files, uv), step, dt, start_intern=i0, end_intern=i1, **kw)
        c.check(tg.shape == pc.shape == (len(e), 2), "shape of the results")
        both(c, e, tg, pc, files, uv, step, dt, i0, i1, dict(nb_step=frac, time_step=86400 / frac), "backward atlas" if dt < 0 else "forward atlas")


@CHECK.group("analysis", quick=10, thorough=120)
def analysis(c):
    """the global function is the sequence of its steps, and its files hold its results"""
    import zarr
    from py_eddy_tracker.observations.network import NetworkObservations

    rng = c.rng
    e, files, uv, t0, t1 = scene(c, days=int(rng.integers(5, 8)))
    # segments: one for each place followed in time
    seg = (np.round((e.lon - e.lon.min()) / 1.6) * 3 + np.round((e.lat - e.lat.min()) / 1.6)).astype(int) + 1
    e.obs["segment"][:] = seg
    e.obs["track"][:] = 1
    e.sort()
    for s in np.unique(e.segment):
        r = np.flatnonzero(e.segment == s)
        e.obs["next_obs"][r[:-1]], e.obs["previous_obs"][r[1:]] = r[1:], r[:-1]
    for s in np.unique(e.segment):
        r = np.flatnonzero(e.segment == s)
        ok = np.flatnonzero((e.time < e.time[r[0]]) & (e.segment != s) & (e.next_obs != -1))
        if len(ok) and rng.random() < 0.5:
            e.obs["previous_obs"][r[0]] = rng.choice(ok)
        ok = np.flatnonzero((e.time > e.time[r[-1]]) & (e.segment != s) & (e.previous_obs != -1))
        if len(ok) and rng.random() < 0.5:
            e.obs["next_obs"][r[-1]] = rng.choice(ok)
    opts = dict(dissociate_network=bool(rng.integers(0, 2)), correct_close_events=int(rng.choice([0, 2])), remove_dead_end=int(rng.choice([0, 2])))
    mode = str(rng.choice(["both", "forward", "backward"]))
    n, step = int(rng.integers(1, 3)), 0.21
    other = e.copy()
    out = os.path.join(c.tmp, "out") if rng.random() < 0.7 else None
    clean, res = e.analysis_coherence(lambda t: files[int(t)], uv, advection_mode=mode, n_days=n, step_mesh=step, output_name=out, **opts)
    if opts["dissociate_network"]:
        other.dissociate_network()
    if opts["correct_close_events"]:
        other.correct_close_events(nb_days_max=opts["correct_close_events"])
    if opts["remove_dead_end"]:
        other = other.remove_dead_end(nobs=0, ndays=opts["remove_dead_end"])
    other.numbering_segment()
    c.check(len(clean) == len(other) and clean == other, "network after preparation", opts=opts)
    modes = dict(both=[1, -1], forward=[1], backward=[-1])[mode]
    c.check(len(res) == 2 * len(modes), "number of results")
    if len(other):
        for k, s in enumerate(modes):
            both(c, other, res[2 * k], res[2 * k + 1], files, uv, step, s * n, True, True, dict(nb_step=6, time_step=86400 / 6), "analysis")
    written = out is not None and mode == "both"
    c.check(os.path.exists(out + ".nc") == written if out else True, "file of the network")
    if written:
        back = NetworkObservations.load_file(out + ".nc")
        for f in ("track", "segment", "next_obs", "previous_obs", "time", "lon"):
            c.check(np.allclose(back[f], other[f], atol=1e-4), f"field {f} in the file")
        z = zarr.open(out + ".zarr", mode="r")
        for name, v in zip(("target_forward", "pct_forward", "target_backward", "pct_backward"), res):
            c.equal(z[name][:], v, f"{name} in the file")
        c.count("files")


@CHECK.group("missing", quick=200, thorough=3000)
def missing(c):
    """missing observations are found"""
    from py_eddy_tracker.observations.groups import get_missing_indices

    rng = c.rng
    dt = float(rng.choice([1, 1, 2, 5, 0.5]))
    steps, track, time = [], [], []
    k, t = 0, 0
    exp = []
    flag = bool(rng.integers(0, 2))
    for _ in range(int(rng.integers(1, 7))):
        k_ = int(rng.choice([0, k + 1])) if not track or track[-1] != 0 else k + 1
        k = max(k, k_)
        t = 20000 + float(rng.integers(0, 20))
        for j in range(int(rng.integers(1, 6))):
            if j:
                g = int(rng.choice([1, 1, 2, 3, 6]))
                t += g * dt
                if not (flag and k_ == 0):
                    exp.extend([len(time)] * (g - 1))
            time.append(t), track.append(k_)
    got = get_missing_indices(np.array(time), np.array(track), dt=dt, flag_untrack=flag, indice_untrack=0)
    c.check(got.tolist() == exp, "missing indices", got=got.tolist(), exp=exp, time=time, track=track, dt=dt)
    if exp:
        c.nontrivial(c.index)


@CHECK.group("events", quick=60, thorough=1000)
def events(c):
    """statistics of coherence around splitting and merging events"""
    from py_eddy_tracker.observations.network import get_percentile_around_event

    rng = c.rng
    e = nets.synthetic(rng, arrays=[], max_len=12, n_net=int(rng.integers(2, 6)))
    n = len(e)
    # two targets by observation, in different segments
    seg = e.segment_track_array
    ind = rng.integers(-1, n, (n, 2)).astype("i4")
    for i in range(n):  # mostly in the neighbourhood
        if rng.random() < 0.8:
            ind[i, 0] = e.next_obs[i]
        if rng.random() < 0.4:
            ind[i, 1] = np.clip(ind[i, 0] + rng.integers(-12, 12), -1, n - 1)
    ind[(ind[:, 0] >= 0) & (ind[:, 1] >= 0) & (seg[ind[:, 0]] == seg[ind[:, 1]]), 1] = -1
    pct = np.where(ind >= 0, rng.uniform(0, 100, (n, 2)), 0).astype("f4")
    window, q, nb_min = int(rng.integers(1, 15)), float(rng.choice([0, 25, 50, 80, 100])), int(rng.integers(1, 4))
    parent = bool(rng.integers(0, 2))
    follow = np.asarray(e.next_obs if rng.random() < 0.5 else e.previous_obs)
    k = int(rng.integers(1, 12))
    i, i1, i2 = (rng.integers(0, n, k) for _ in range(3))
    if rng.random() < 0.7:  # real events
        ev = [(int(j), int(e.next_obs[a]), int(j)) for a in range(n) for j in [e.next_obs[a]] if j != -1 and seg[j] != seg[a]]
        ev = [(a, int(e.next_obs[a]), b) for a, _, b in ev if e.next_obs[a] != -1]
        if ev:
            i, i1, i2 = (np.array(v) for v in zip(*ev))
    t = np.asarray(e.time)

    def stat(a, target):
        v, j = [], a
        while j != -1 and seg[j] == seg[a] and abs(t[j] - t[a]) < window:
            v += [pct[j, m] for m in (0, 1) if ind[j, m] != -1 and seg[ind[j, m]] == seg[target]]
            j = follow[j]
        return np.percentile(np.array(v, "f8"), q) if len(v) >= nb_min else np.nan

    got = get_percentile_around_event(i, i1, i2, ind, pct, follow, t, seg, window=window, follow_parent=parent, q=q, nb_min=nb_min)
    for g, o in zip(got, (i1, i2)):
        w = [stat(a, b) if parent else stat(b, a) for a, b in zip(i, o)]
        c.close(g, w, "statistic around events", rtol=1e-5, atol=1e-4)
        if np.isfinite(w).any():
            c.nontrivial(e.obs, ind, pct, window, q)
            c.count("statistics", np.isfinite(w).sum())
