"""Workload generators"""
import numpy as np


def star_polygon(rng, n=None, x0=0.0, y0=0.0, r=1.0, irr=0.5, cw=None):
    """simple polygon, star shaped around (x0, y0), closed (first == last)"""
    n = n or int(rng.integers(3, 40))
    # increasing angles, steps below pi so that the centre is inside
    step = rng.uniform(0.3, 1, n)
    ang = np.cumsum(step) / step.sum() * 2 * np.pi + rng.uniform(0, 2 * np.pi)
    rad = r * (1 - irr * rng.uniform(0, 1, n))
    x, y = x0 + rad * np.cos(ang), y0 + rad * np.sin(ang)
    if cw if cw is not None else rng.random() < 0.5:
        x, y = x[::-1], y[::-1]
    return np.append(x, x[0]), np.append(y, y[0])


def convex_polygon(rng, n=None, x0=0.0, y0=0.0, r=1.0, cw=None):
    n = n or int(rng.integers(3, 30))
    step = rng.uniform(0.2, 1, n)
    ang = np.cumsum(step) / step.sum() * 2 * np.pi + rng.uniform(0, 2 * np.pi)
    e = rng.uniform(0.4, 1)
    x, y = x0 + r * np.cos(ang), y0 + r * e * np.sin(ang)
    if cw if cw is not None else rng.random() < 0.5:
        x, y = x[::-1], y[::-1]
    return np.append(x, x[0]), np.append(y, y[0])


def pad_ring(x, y, size):
    """fixed size contour as the library stores it: closed and padded with the first vertex"""
    n = len(x) - 1
    out_x, out_y = np.full(size, x[0]), np.full(size, y[0])
    n = min(n, size - 1)
    out_x[:n], out_y[:n] = x[:n], y[:n]
    return out_x, out_y


ALL_ARRAYS = ["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s", "uavg_profile"]


def eddies(rng, n, cls=None, lon=None, lat=None, time=None, sampling=12, r=(0.3, 1.0), extra=(), arrays=None,
           sign=None, lat_range=(-60, 60), lon_range=(0, 360), star=True, only=None, pad=True):
    """synthetic observations with all usual fields filled"""
    from py_eddy_tracker.observations.observation import EddiesObservations

    cls = cls or EddiesObservations
    arrays = ["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s", "uavg_profile"] if arrays is None else arrays
    e = cls(n, track_extra_variables=list(extra), track_array_variables=sampling, array_variables=list(arrays),
            only_variables=only)
    e.sign_type = int(rng.choice([-1, 1])) if sign is None else sign
    fill(rng, e, lon, lat, time, r, lat_range, lon_range, star, pad)
    return e


def fill(rng, e, lon=None, lat=None, time=None, r=(0.3, 1.0), lat_range=(-60, 60), lon_range=(0, 360), star=True,
         pad=True):
    n = len(e)
    f = set(e.fields)
    lon = rng.uniform(*lon_range, n) if lon is None else np.asarray(lon, "f8")
    lat = rng.uniform(*lat_range, n) if lat is None else np.asarray(lat, "f8")
    rad = rng.uniform(*r, n)
    km = rad * 111e3 * np.cos(np.radians(lat)) ** 0.5
    vals = dict(
        lon=lon, lat=lat, lon_max=lon + rng.uniform(-0.1, 0.1, n), lat_max=lat + rng.uniform(-0.1, 0.1, n),
        time=np.zeros(n) + (rng.integers(20000, 20010, n) if time is None else time),
        amplitude=rng.uniform(0.005, 0.3, n), speed_average=rng.uniform(0.02, 1, n),
        radius_e=km, radius_s=km * rng.uniform(0.5, 0.95, n),
        speed_area=rng.uniform(1e9, 1e10, n), effective_area=rng.uniform(1e9, 2e10, n),
        shape_error_e=rng.integers(0, 70, n), shape_error_s=rng.integers(0, 70, n),
        height_max_speed_contour=rng.normal(size=n), height_external_contour=rng.normal(size=n),
        height_inner_contour=rng.normal(size=n), num_point_e=rng.integers(10, 200, n),
        num_point_s=rng.integers(10, 200, n), nb_contour_selected=rng.integers(1, 40, n),
        eke=rng.uniform(0, 1, n), cost_association=rng.uniform(0, 1, n), distance_next=rng.uniform(0, 1e5, n),
    )
    for k, v in vals.items():
        if k in f:
            e.obs[k][:] = v
    s = e.track_array_variables
    for sfx, fac in (("e", 1.0), ("s", 0.6)):
        kx, ky = "contour_lon_" + sfx, "contour_lat_" + sfx
        if kx in f or ky in f:
            for i in range(n):
                # the stored sampling: s vertices, last equals first; sometimes padded
                nv = s - 1 if (not pad or rng.random() < 0.7) else int(rng.integers(min(5, s - 1), s))
                if star:
                    x, y = star_polygon(rng, nv, lon[i], lat[i], rad[i] * fac, 0.5)
                else:
                    x, y = convex_polygon(rng, nv, lon[i], lat[i], rad[i] * fac)
                x, y = pad_ring(x, y, s)
                if kx in f:
                    e.obs[kx][i] = x
                if ky in f:
                    e.obs[ky][i] = y
    if "uavg_profile" in f and s:
        e.obs["uavg_profile"][:] = rng.uniform(0, 1, (n, s))
    return e


def tracks(rng, n_tracks, cls=None, max_len=12, gaps=True, sampling=8, t0=20000, first_id=0, id_gaps=True, dt=1,
           min_len=1, step=0.2, lon_range=(0, 360), lat_range=(-60, 60), time_gaps=False, **kw):
    """TrackEddiesObservations ordered by track then time"""
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    cls = cls or TrackEddiesObservations
    lens = rng.integers(min_len, max_len + 1, n_tracks)
    n = int(lens.sum())
    ids, k = [], first_id
    for _ in range(n_tracks):
        ids.append(k)
        k += 1 + (int(rng.integers(0, 3)) if id_gaps else 0)
    track = np.repeat(ids, lens)
    num = np.concatenate([np.arange(l) for l in lens] + [np.zeros(0, int)])
    lon, lat, time = [np.zeros(0)], [np.zeros(0)], [np.zeros(0)]
    for l in lens:
        a = rng.uniform(*lon_range) + np.cumsum(rng.normal(0, step, l))
        b = np.clip(rng.uniform(*lat_range) + np.cumsum(rng.normal(0, step / 2, l)), -75, 75)
        d = np.ones(l, int) * dt
        if time_gaps:
            d = rng.integers(1, 4, l) * dt
        lon.append(a), lat.append(b), time.append(t0 + int(rng.integers(0, 10)) + np.cumsum(d) - d[0])
    extra = kw.pop("extra", [])
    e = eddies(rng, n, cls=cls, lon=np.concatenate(lon), lat=np.concatenate(lat), time=np.concatenate(time),
               sampling=sampling, extra=extra, **kw)
    e.obs["track"][:] = track
    e.obs["n"][:] = num
    if "virtual" in e.fields and gaps:
        e.obs["virtual"][:] = rng.random(n) < 0.15
    return e


def axis(rng, circular=None, nx=None, step=None):
    """longitudes of a regular grid; exact steps"""
    circular = (rng.random() < 0.5) if circular is None else circular
    if circular:
        step = float(rng.choice([5.0, 10.0, 12.0, 15.0, 20.0, 7.5, 4.5]))
        n = int(round(360 / step))
    else:
        step = step or float(rng.choice([0.25, 0.5, 1.0, 2.0, 1.25, 0.1, 1 / 12]))
        n = nx or int(rng.integers(6, 40))
    x0 = float(rng.choice([0.0, -180.0, -25.0, 100.0, 350.0, 0.125])) + float(rng.choice([0, step / 2]))
    return x0 + step * np.arange(n), circular


def grid(rng, circular=None, mask=0.1, names=("z",), dtype="f8", lat_range=(-60, 60), poison=True, nx=None, ny=None,
         smooth=False, ystep=None, units=None, xstep=None):
    """regular grid built with the library's constructor; random values are stored under the mask"""
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    x, circular = axis(rng, circular, nx, xstep)
    dy = ystep or float(rng.choice([0.25, 0.5, 1.0, 2.0, 1 / 12]))
    n = ny or int(rng.integers(6, 30))
    n = max(min(n, int((lat_range[1] - lat_range[0]) / dy) - 1), min(n, 5))
    y0 = rng.uniform(lat_range[0], lat_range[1] - n * dy)
    y = np.round(y0 * 8) / 8 + dy * np.arange(n)
    datas = dict(lon=x, lat=y)
    for k in names:
        datas[k] = field(rng, x, y, circular, mask, dtype, poison, smooth)
    g = RegularGridDataset.with_array(("lon", "lat"), datas, centered=True,
                                      variables_description={k: dict(units=units) for k in names} if units else None)
    return g, circular


def field(rng, x, y, circular=False, mask=0.1, dtype="f8", poison=True, smooth=False):
    shape = (x.size, y.size)
    if smooth:
        z = np.zeros(shape)
        for _ in range(4):
            k = int(rng.integers(1, 4)) if circular else rng.uniform(0.5, 3)
            px = np.radians(x) * (k if circular else k * 360 / max(np.ptp(x), 1) / 4)
            z += rng.normal() * np.cos(px + rng.uniform(0, 6))[:, None] * np.cos(
                y * 2 * np.pi / max(np.ptp(y), 1) * rng.uniform(0.3, 2) + rng.uniform(0, 6))[None, :]
    else:
        z = rng.normal(size=shape)
    m = rng.random(shape) < mask
    if poison:
        z[m] = rng.choice([1e20, -1e20, 1e4, -32768.0], int(m.sum()))
    return np.ma.array(z.astype(dtype), mask=m)
