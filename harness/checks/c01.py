"""C01 distances and local projections"""
import numpy as np

from harness import gen
from harness.core import Check
from harness.ref import R, haversine, wrap180

CHECK = Check("C01", "random positions with antimeridian, pole and whole-turn variants; a case is one batch of "
              "positions, non trivial when its inputs are new",
              ["sphere of radius 6370.997 km", "haversine oracle computed through chords, 1e-6 relative"])


def positions(rng, n):
    mode = rng.integers(0, 5)
    lon = rng.uniform(-180, 360, n)
    lat = rng.uniform(-89.5, 89.5, n)
    if mode == 1:  # antimeridian neighbourhood
        lon = 180 + rng.normal(0, 3, n)
    elif mode == 2:  # Greenwich, both branches
        lon = rng.normal(0, 3, n) + 360 * rng.integers(-1, 2, n)
    elif mode == 3:  # cluster
        lon = rng.uniform(0, 360) + rng.normal(0, 5, n)
        lat = np.clip(rng.uniform(-80, 80) + rng.normal(0, 5, n), -89.5, 89.5)
    elif mode == 4:  # high latitude
        lat = rng.choice([-1, 1]) * rng.uniform(75, 89.5, n)
    return lon, lat


@CHECK.group("pointwise", quick=150, thorough=3000)
def pointwise(c):
    """distance() and its variants against a haversine computed through chords; symmetric, zero only for identical places, unchanged by whole turns"""
    from py_eddy_tracker.generic import distance

    rng = c.rng
    n = int(rng.integers(1, 60))
    lon0, lat0 = positions(rng, n)
    lon1, lat1 = positions(rng, n)
    if rng.random() < 0.5:  # close pairs
        lon1, lat1 = lon0 + rng.normal(0, 0.5, n), np.clip(lat0 + rng.normal(0, 0.5, n), -90, 90)
    d = distance(lon0, lat0, lon1, lat1)
    ref = haversine(lon0, lat0, lon1, lat1)
    near_anti = ref > 0.95 * np.pi * R
    c.close(d[~near_anti], ref[~near_anti], "distance is not the great circle distance", rtol=1e-6, atol=1e-2,
            lon0=lon0, lat0=lat0, lon1=lon1, lat1=lat1)
    c.close(distance(lon1, lat1, lon0, lat0), d, "distance not symmetric", rtol=1e-9, atol=1e-4)
    k = 360.0 * rng.integers(-2, 3, n)
    c.close(distance(lon0 + k, lat0, lon1, lat1), d, "distance changes with a whole turn", rtol=1e-7, atol=1e-2)
    c.close(distance(lon0, lat0, lon0 + k, lat0), np.zeros(n), "distance to itself", atol=1e-2)
    c.nontrivial(lon0, lat0, lon1, lat1, sample=dict(lon0=lon0[:3], lat0=lat0[:3], lon1=lon1[:3], lat1=lat1[:3], d=d[:3]))


def check_table(c, t, lon0, lat0, lon1, lat1):
    ref = haversine(lon0[:, None], lat0[:, None], lon1[None], lat1[None]) / 1e3
    dlat = np.abs(lat0[:, None] - lat1[None])
    dlon = np.abs(wrap180(lon0[:, None] - lon1[None]))
    # float32 inputs are exact in double; leave a margin around the two limits
    near = (dlat < 15 - 1e-3) & (dlon < 20 - 1e-3)
    far = (dlat > 15 + 1e-3) | (dlon > 20 + 1e-3)
    c.close(t[near], ref[near], "table distance", rtol=1e-5, atol=1e-3, lon0=lon0, lat0=lat0, lon1=lon1, lat1=lat1)
    c.check(np.isnan(t[far]).all(), "far pair not marked invalid", lon0=lon0, lat0=lat0, lon1=lon1, lat1=lat1)
    c.count("near_pairs", near.sum())
    c.count("far_pairs", far.sum())


@CHECK.group("table", quick=120, thorough=2000)
def table(c):
    """distance_grid(): every pair equals the pointwise distance, nan only beyond 15 degrees of latitude or 20 of wrapped longitude"""
    from py_eddy_tracker.generic import distance_grid

    rng = c.rng
    n0, n1 = rng.integers(1, 25, 2)
    lon0, lat0 = positions(rng, n0)
    lon1, lat1 = positions(rng, n1)
    if rng.random() < 0.7:
        i = rng.integers(0, n0, n1)
        lon1 = lon0[i] + rng.normal(0, 8, n1) + 360 * rng.integers(-1, 2, n1)
        lat1 = np.clip(lat0[i] + rng.normal(0, 6, n1), -90, 90)
    t = distance_grid(lon0, lat0, lon1, lat1)
    check_table(c, t, lon0, lat0, lon1, lat1)
    c.close(distance_grid(lon1, lat1, lon0, lat0).T, t, "table not symmetric", rtol=1e-6, atol=1e-6)
    c.nontrivial(lon0, lat0, lon1, lat1, sample=dict(shape=[int(n0), int(n1)], lon0=lon0[:3], lon1=lon1[:3]))


@CHECK.group("dataset_distance", quick=15, thorough=200)
def dataset_distance(c):
    """EddiesObservations.distance(): matrix between two datasets"""
    rng = c.rng
    a, b = gen.eddies(rng, int(rng.integers(1, 15))), gen.eddies(rng, int(rng.integers(1, 15)))
    b.lon[:] = a.lon[rng.integers(0, len(a), len(b))] + rng.normal(0, 8, len(b)) + 360 * rng.integers(-1, 2, len(b))
    b.lat[:] = np.clip(a.lat[rng.integers(0, len(a), len(b))] + rng.normal(0, 6, len(b)), -89, 89)
    t = a.distance(b)
    c.check(t.shape == (len(a), len(b)), "shape of the table of distances")
    check_table(c, t, a.lon, a.lat, b.lon, b.lat)
    c.nontrivial(a.lon, b.lon)


@CHECK.group("local", quick=150, thorough=3000)
def local(c):
    """projection to local coordinates and back gives the same positions, at any reference and branch"""
    from py_eddy_tracker.generic import coordinates_to_local, local_to_coordinates

    rng = c.rng
    n = int(rng.integers(1, 50))
    lon0, lat0 = rng.uniform(-180, 360), rng.uniform(-85, 85)
    r = rng.choice([0.01, 1, 10, 40])
    lat = np.clip(lat0 + rng.uniform(-r, r, n), -89, 89)
    lon = lon0 + rng.uniform(-r, r, n)
    # stay away from the point itself (direction undefined) and from the antipode
    lon[np.hypot(lon - lon0, lat - lat0) < 1e-6] += 1e-3
    x, y = coordinates_to_local(lon, lat, lon0, lat0)
    d = haversine(lon, lat, lon0, lat0)
    c.close(np.hypot(x, y), d, "local coordinates do not keep the distance to the reference", rtol=1e-6, atol=1e-2,
            lon=lon, lat=lat, lon0=lon0, lat0=lat0)
    # azimuth from the spherical law, computed with vectors: north and east components at the reference
    la, lo, la0, lo0 = map(np.radians, (lat, lon, lat0, lon0))
    p = np.array([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)])
    east = np.array([-np.sin(lo0), np.cos(lo0), 0])
    north = np.array([-np.sin(la0) * np.cos(lo0), -np.sin(la0) * np.sin(lo0), np.cos(la0)])
    e_, n_ = east @ p, north @ p
    h = np.hypot(e_, n_)
    c.close(x / d, e_ / h, "eastward component", rtol=1e-5, atol=1e-5, lon=lon, lat=lat, lon0=lon0, lat0=lat0)
    c.close(y / d, n_ / h, "northward component", rtol=1e-5, atol=1e-5, lon=lon, lat=lat, lon0=lon0, lat0=lat0)
    lon_, lat_ = local_to_coordinates(x, y, lon0, lat0)
    c.close(lat_, lat, "latitude not recovered", rtol=0, atol=1e-6, lon=lon, lat=lat, lon0=lon0, lat0=lat0)
    c.close(wrap180(lon_ - lon) * np.cos(la), np.zeros(n), "longitude not recovered", rtol=0, atol=1e-6)
    k = 360.0 * rng.integers(-1, 2)
    x2, y2 = coordinates_to_local(lon + k, lat, lon0, lat0)
    c.close(np.array([x2, y2]), np.array([x, y]), "local coordinates change with a whole turn", rtol=1e-6, atol=0.05)
    # the other way round
    X, Y = rng.uniform(-1e6, 1e6, n), rng.uniform(-1e6, 1e6, n)
    la0 = rng.uniform(-70, 70)
    lon_, lat_ = local_to_coordinates(X, Y, lon0, la0)
    X_, Y_ = coordinates_to_local(lon_, lat_, lon0, la0)
    c.close(X_, X, "x not recovered", rtol=1e-5, atol=0.05)
    c.close(Y_, Y, "y not recovered", rtol=1e-5, atol=0.05)
    c.close(haversine(lon_, lat_, lon0, la0), np.hypot(X, Y), "projected distance", rtol=1e-6, atol=0.05)
    c.nontrivial(lon, lat, lon0, lat0, sample=dict(lon0=lon0, lat0=lat0, lon=lon[:3], lat=lat[:3]))


@CHECK.group("circles", quick=25, thorough=300)
def circles(c):
    """circle contours have all points at the radius, at any latitude and longitude"""
    from py_eddy_tracker.generic import build_circle
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    rng = c.rng
    x0, y0, r = rng.normal(size=3) * 100
    r = abs(r) + 1e-3
    x, y = build_circle(x0, y0, r)
    c.close(np.hypot(x - x0, y - y0), np.full(len(x), r), "circle radius", rtol=1e-9)
    c.close([x[0], y[0]], [x[-1], y[-1]], "circle not closed", rtol=1e-6, atol=1e-9 * (1 + r))
    c.check(abs(np.ptp(x) - 2 * r) < 0.02 * r and abs(np.ptp(y) - 2 * r) < 0.02 * r, "circle is not complete")
    e = gen.eddies(rng, int(rng.integers(1, 12)), cls=TrackEddiesObservations, sampling=int(rng.integers(8, 60)),
                   lon_range=(-180, 360), lat_range=(-70, 70))
    only = rng.random() < 0.4
    e.virtual[:] = rng.random(len(e)) < 0.5
    before = e.obs.copy()
    factor = rng.choice([1, 0.5, 2])
    e.circle_contour(only_virtual=only, factor=factor)
    for f in e.fields:
        if not f.startswith("contour"):
            c.equal(e.obs[f], before[f], f"field {f} changed by the circle contour")
    for i in range(len(e)):
        for s in "es":
            cx, cy = e.obs[f"contour_lon_{s}"][i], e.obs[f"contour_lat_{s}"][i]
            if only and not e.virtual[i]:
                c.equal(cx, before[f"contour_lon_{s}"][i], "contour of a real observation changed")
                c.equal(cy, before[f"contour_lat_{s}"][i], "contour of a real observation changed")
                continue
            d = haversine(cx, cy, e.lon[i], e.lat[i])
            # contours are stored in single precision: 360 * 2**-24 degrees
            c.close(d, np.full(len(d), float(e.obs[f"radius_{s}"][i]) * factor), f"contour {s} not at its radius",
                    rtol=1e-4, atol=8)
            c.close([cx[0], cy[0]], [cx[-1], cy[-1]], "contour not closed", atol=1e-4)
            c.count("contours")
    c.nontrivial(before["lon"], factor, only, sample=dict(n=len(e), factor=float(factor), only_virtual=bool(only)))
