"""Sequences of daily detections, with eddies which move, appear, vanish and are missed"""
import os

import numpy as np

from . import gen


class Recorder:
    """what the tracker handed to the association and what it got, in order"""

    def __init__(self):
        self.calls = []


LOG = Recorder()


def _recording(base):
    class Rec(base):
        __slots__ = ()

        def tracking(self, other):
            before = self.obs.copy(), other.obs.copy()
            res = super().tracking(other)
            LOG.calls.append(dict(previous=before[0], current=before[1], i=np.array(res[0]), j=np.array(res[1]),
                                  cost=np.ma.array(res[2]).filled(np.nan).copy(),
                                  same=before[0].tobytes() == self.obs.tobytes() and before[1].tobytes() == other.obs.tobytes()))
            return res

    return Rec


def __getattr__(name):
    # classes must be importable by name, because saved correspondences designate them
    from py_eddy_tracker.featured_tracking.area_tracker import AreaTracker
    from py_eddy_tracker.featured_tracking.old_tracker_reference import CheltonTracker
    from py_eddy_tracker.observations.observation import EddiesObservations

    base = dict(RecDefault=EddiesObservations, RecArea=AreaTracker, RecChelton=CheltonTracker).get(name)
    if base is None:
        raise AttributeError(name)
    cls = _recording(base)
    cls.__name__ = cls.__qualname__ = name
    cls.__module__ = __name__
    globals()[name] = cls
    return cls


def world(rng, days=None, n=None, kind="default", arrays=None, lon0=None, lat0=None, empty=0.03, miss=None, t0=None, extra=(),
          sampling=8, dt=1, sign=None, quiet=0.03):
    """list of daily EddiesObservations"""
    days = int(rng.integers(3, 12)) if days is None else days
    n = int(rng.integers(1, 14)) if n is None else n
    lon0 = float(rng.choice([0, 180, 359.7, 200.3, -100, 340])) if lon0 is None else lon0
    lat0 = float(rng.uniform(-55, 55)) if lat0 is None else lat0
    if kind == "chelton":  # open sea
        lon0, lat0 = [(200, -30), (220, 20), (180, 3), (210, 35), (359.9, -40), (85, -20)][rng.integers(0, 6)]
    spread = rng.choice([1, 3, 6])
    miss = rng.choice([0, 0.1, 0.35]) if miss is None else miss
    t0 = int(rng.integers(9000, 25000)) if t0 is None else t0
    sign = int(rng.choice([-1, 1])) if sign is None else sign
    x, y = lon0 + rng.uniform(-spread, spread, n), lat0 + rng.uniform(-spread, spread, n)
    v = rng.normal(0, 0.15, (n, 2))
    birth = rng.integers(-3, days, n)
    death = birth + rng.integers(1, days + 4, n)
    amp, rad = rng.uniform(0.02, 0.3, n), rng.uniform(0.3, 0.9, n)
    wrap = rng.choice([0, 1, 2])  # 0: own branch, 1: 0-360, 2: any branch
    if kind == "area":
        arrays = ["contour_lon_e", "contour_lat_e"] if arrays is None else arrays
    out = []
    for d in range(days):
        k = np.flatnonzero((birth <= d) & (d < death) & (rng.random(n) > miss))
        if rng.random() < empty:
            k = k[:0]
        if rng.random() < quiet:  # nobody to link
            k = k[:0] if not len(k) else k[:1]
        k = rng.permutation(k)
        px = x[k] + v[k, 0] * d + rng.normal(0, 0.05, len(k))
        py = y[k] + v[k, 1] * d + rng.normal(0, 0.05, len(k))
        if wrap == 1:
            px %= 360
        elif wrap == 2:
            px += 360 * rng.integers(-1, 2, len(k))
            # contours are stored from -147 to 507 degrees
            px = np.where((px < -110) | (px > 460), px % 360, px)
        e = gen.eddies(rng, len(k), lon=px, lat=py, time=t0 + d * dt, sampling=sampling, sign=sign, pad=False,
                       arrays=[] if arrays is None else arrays, extra=extra, r=(0.5, 1.2))
        e.obs["amplitude"][:] = amp[k] * rng.uniform(0.7, 1.3, len(k))
        e.obs["radius_s"][:] = rad[k] * 1e5 * rng.uniform(0.7, 1.3, len(k))
        e.obs["radius_e"][:] = e.obs["radius_s"] * 1.2
        out.append(e)
    return out


def save(worlds, path, name="Eddies", t0=20000):
    """write each dataset in a file; returns the names"""
    from datetime import datetime, timedelta

    os.makedirs(path, exist_ok=True)
    files = []
    for i, e in enumerate(worlds):
        date = datetime(1950, 1, 1) + timedelta(days=int(t0) + i)
        f = os.path.join(path, f"{name}_{date:%Y%m%d}.nc")
        e.write_file(path=path, filename=f.replace("%", "%%"))
        files.append(f)
    return files
