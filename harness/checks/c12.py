"""C12 soundness of identified eddies"""
import os

import numpy as np

from harness import ident
from harness.core import Check
from harness.ident import Ambiguous

CHECK = Check("C12", "random oceans (smooth noise and bumps, land, missing velocities, regional and circular grids, any branch of "
              "longitude) and random parameters (isoline step, shape error, pixel limits, amplitude rules, sampling); every reported "
              "eddy is judged against an independent walk over the isolines; non trivial: new ocean with at least one eddy",
              ["cases where a decision depends on rounding (shape error within 1e-4 of its limit, equal extrema) are skipped and counted",
               "isolines come from contourpy; the joining of pieces over the seam is judged independently"])

RTOL = dict(lon=(0, 1e-5), lat=(0, 1e-5), lon_max=(0, 4e-5), lat_max=(0, 4e-5), radius_s=(1e-5, 0), radius_e=(1e-5, 0),
            shape_error_s=(2e-3, 2e-3), shape_error_e=(2e-3, 2e-3), speed_area=(1e-4, 0), effective_area=(1e-4, 0),
            amplitude=(1e-5, 1e-6), speed_average=(1e-5, 1e-6), height_external_contour=(1e-5, 1e-6),
            height_max_speed_contour=(1e-5, 1e-6), height_inner_contour=(1e-5, 1e-6), num_point_e=(0, 0), num_point_s=(0, 0),
            nb_contour_selected=(0, 0))


def run(c, s, p, **kw):
    """identification on a fresh grid, with monitors of side effects"""
    g = ident.make_grid(s, **kw)
    before = [g.vars[k].copy() for k in "huv"]
    a, cy = g.eddy_identification("h", "u", "v", ident.DATE, **p)
    for k, b in zip("huv", before):
        c.check(bool((np.ma.getmaskarray(g.vars[k]) == np.ma.getmaskarray(b)).all() and
                     (np.ma.getdata(g.vars[k]) == np.ma.getdata(b)).all()), f"identification changes the field {k} of the grid")
    return g, a, cy


def reference(s, g, p, hfac=1.0):
    speed = np.sqrt(np.where(s["mu"], 0, s["u"]) ** 2 + np.where(s["mu"], 0, s["v"]) ** 2)
    kw = {k: p[k] for k in ("pixel_limit", "mle", "nb_step_min", "nb_step_to_be_mle") if k in p}
    return ident.walk(s, s["h"], ident.library_paths(g), np.array(g.contours.levels) / hfac, speed, s["mu"], p["step"],
                      p["shape_error"], **kw)


def isolines(c, s, g, hfac=1.0):
    """the closed contours used are all the closed isolines"""
    h = s["h"] * hfac
    levels = np.asarray(g.contours.levels)
    for l in np.unique(np.linspace(0, len(levels) - 1, 6).astype(int)):
        try:
            ref = ident.closed_loops(s, h, s["m"], levels[l])
        except Ambiguous:
            continue
        got = [np.array(p.vertices) for p in g.contours.contours.collections[l].get_paths()]

        def area(v):
            return 0.5 * abs((v[:-1, 0] * v[1:, 1] - v[1:, 0] * v[:-1, 1]).sum())

        a, b = np.sort([area(v) for v in ref]), np.sort([area(v) for v in got])
        c.check(len(a) == len(b), f"{len(b)} closed contours for {len(a)} closed isolines", level=levels[l], **{k: s[k] for k in "xy"})
        c.close(b, a, "areas of closed isolines", rtol=1e-7, atol=1e-8)
        c.count("isolines", len(a))


def levels_ok(c, s, g, step):
    """isolines are drawn at multiples of the step and cover the field"""
    l = np.asarray(g.contours.levels)
    c.close(np.diff(l), np.full(len(l) - 1, step), "spacing of levels", rtol=1e-6, atol=1e-9)
    c.close(l / step, np.round(l / step), "levels are multiples of the step", rtol=0, atol=1e-6)
    z = s["h"][~s["m"]]
    p = np.percentile(z, (0.001, 99.999))
    lo, hi = (z.min(), z.max()) if np.ptp(z) / np.ptp(p) <= 2 else p
    c.check(bool(l[0] <= lo + 1e-9 and l[-1] >= hi - 1e-9), "levels do not cover the field")


def judge(c, s, p, got, ref, sign):
    c.check(len(got) == len(ref), f"{len(got)} eddies of sign {sign} reported, {len(ref)} eligible", params=p)
    c.check(got.sign_type == sign, "sign of the eddies")
    if not ref:
        return
    d = [ident.derived(e) for e in ref]
    for f, (rt, at) in RTOL.items():
        a, b = np.asarray(got[f], "f8"), np.array([q[f] for q in d], "f8")
        if f in ("lon", "lon_max"):
            c.check(bool(((a >= 0) & (a < 360.0001)).all()), f"{f} out of 0-360")
            a = b + (a - b + 180) % 360 - 180
        c.close(a, b, f"{f} of sign {sign}", rtol=rt, atol=at, params=p)
    t = (ident.DATE - ident.datetime(1950, 1, 1)).total_seconds() / 86400
    c.close(got.time, np.full(len(got), t), "date", rtol=0, atol=1e-9)
    n = p.get("sampling", 50)
    for k, e in enumerate(ref):
        pr = e["profile"]
        ex = np.full(n, pr[0]) if len(pr) == 1 else np.interp(np.arange(n), np.arange(len(pr)) * (n - 1) / (len(pr) - 1), pr)
        c.close(got.uavg_profile[k], ex, "speed profile", rtol=1e-5, atol=1e-6)
        for sfx, v in (("e", e["v"]), ("s", e["vs"])):
            x, y = got[f"contour_lon_{sfx}"][k].astype("f8"), got[f"contour_lat_{sfx}"][k].astype("f8")
            c.check(x.shape == (n,), "sampling of contours")
            c.check(bool((np.abs(x - got.lon[k]) <= 180.001).all()), "contour not around its centre")
            c.check(x[0] == x[-1] and y[0] == y[-1], "stored contour not closed")
            turn = np.round((x.mean() - v[:, 0].mean()) / 360) * 360
            from harness.ref import dist_to_poly

            dd = dist_to_poly(x - turn, y, v[:, 0], v[:, 1])
            tol = 1e-4
            if p.get("sampling_method") == "uniform":
                # chords between the evenly spaced positions
                tol += np.hypot(*np.diff(ident.resample(v, 10), axis=0).T).max()
            c.check(dd.max() < tol, f"stored contour {sfx} off its isoline by {dd.max()}")


def soundness(c, s, got, ref, p):
    """the defining criteria, on the isoline of every eddy (redundant with the walk, stated directly)"""
    for e in ref:
        h = s["h"][e["pix"]]
        c.check(bool((e["sign"] * (h - e["height"]) >= 0).all()), "a cell inside is on the other side of the level")
        c.check(not (s["m"] & e["pix"]).any(), "land inside an eddy")
    for k in range(len(got)):
        c.check(got.amplitude[k] >= p["step"] * p.get("nb_step_min", 2) - 1e-6, "amplitude too small")
        if not np.isnan(got.speed_average[k]):
            c.check(got.speed_average[k] >= got.uavg_profile[k][0] - 1e-6, "speed of the outer contour exceeds the speed of the eddy")


@CHECK.group("regular", quick=72, thorough=1500, jobs=6, min_nontrivial=10, warm=True)
def regular(c):
    """each reported eddy against an independent walk on the isolines: closed, single extremum, sign, shape error, pixels, amplitude, centre, effective and speed contour and their radii; none which satisfies the criteria is missing"""
    rng = c.rng
    s = ident.scene(rng)
    p = ident.params(rng, s)
    g, a, cy = run(c, s, p)
    levels_ok(c, s, g, p["step"])
    isolines(c, s, g)
    try:
        ra, rc = reference(s, g, p)
    except Ambiguous as e:
        c.count("skipped_ambiguous")
        return
    judge(c, s, p, a, ra, 1)
    judge(c, s, p, cy, rc, -1)
    soundness(c, s, a, ra, p), soundness(c, s, cy, rc, p)
    c.count("eddies", len(a) + len(cy))
    c.count("eddies_across_the_seam", sum(bool(s["circular"] and e["pix"][0].any() and e["pix"][-1].any()) for e in ra + rc))
    c.count("inner_contours", sum(len(e["profile"]) - 1 for e in ra + rc))
    if len(a) + len(cy):
        c.nontrivial(s["h"], p, sample=dict(eddies=[len(a), len(cy)], shape=s["h"].shape, params=p, circular=s["circular"]))


@CHECK.group("degenerate", quick=12, thorough=60)
def degenerate(c):
    """fields without any eddy"""
    rng = c.rng
    s = ident.scene(rng)
    k = c.index % 4
    if k == 0:
        s["h"][:] = rng.normal()
    elif k == 1:
        s["h"][:] = 0.01 * s["y"][None, :]
    elif k == 2:
        s["h"] = s["h"] * 0 + 0.02 * s["y"][None, :] ** 2 / 60
    else:
        s["m"][:] = True
        s["m"][:2, :2] = False
    g, a, cy = run(c, s, dict(step=0.01))
    c.check(len(a) == 0 and len(cy) == 0, "eddies in a field without closed isoline")
    c.check(a.sign_type == 1 and cy.sign_type == -1, "signs")
    c.check(set(a.fields) == set(cy.fields) and "contour_lon_e" in a.fields and "uavg_profile" in a.fields, "fields")
    c.nontrivial(s["h"], s["m"])


@CHECK.group("rounded", quick=16, thorough=200, jobs=2)
def rounded(c):
    """heights truncated at a precision: plateaus; criteria only"""
    rng = c.rng
    s = ident.scene(rng)
    p = ident.params(rng, s)
    p["precision"] = p["step"] / float(rng.choice([1.7, 3.3, 7.1]))
    g, a, cy = run(c, s, p)
    z = np.round(s["h"] / p["precision"]) * p["precision"]
    paths, levels = ident.library_paths(g), np.asarray(g.contours.levels)
    for got, sign in ((a, 1), (cy, -1)):
        claimed = s["m"].copy()
        for k in range(len(got)):
            l = int(np.argmin(np.abs(levels - got.height_external_contour[k])))
            x, y = got.contour_lon_e[k], got.contour_lat_e[k]
            cand = [v for v in paths[l] if len(v) == got.num_point_e[k]]
            cand = [v for v in cand if np.abs((np.array([v[:, 0].mean() - x.mean()]) + 180) % 360 - 180).max() < np.ptp(x)
                    and abs(v[:, 1].min() - y.min()) < 0.5 * np.ptp(y) and abs(v[:, 1].max() - y.max()) < 0.5 * np.ptp(y)]
            if len(cand) != 1:
                c.count("contour_not_identified")
                continue
            v = cand[0]
            pix = ident.pixels(s, v)
            c.check(not (pix & claimed).any(), "land or a cell of another eddy inside an eddy")
            claimed |= pix
            c.check(bool((sign * (z[pix] - levels[l]) > -1e-7).all()), "a cell inside is on the other side of the level")
            err = ident.fit(v)[3]
            c.check(err <= p["shape_error"] + 1e-4, f"shape error {err} over {p['shape_error']}")
            lim = p.get("pixel_limit", (4, 1000))
            c.check(lim[0] <= pix.sum() <= lim[1], f"{pix.sum()} cells for limits {lim}")
            c.check(got.amplitude[k] >= p["step"] * p.get("nb_step_min", 2) - 1e-6, "amplitude too small")
            c.check(got.amplitude[k] <= (sign * (z[pix] - levels[l])).max() + 1e-6, "amplitude over the extremum inside")
            c.count("eddies")
    if len(a) + len(cy):
        c.nontrivial(s["h"], p)


@CHECK.group("unregular", quick=10, thorough=150, jobs=2)
def unregular(c):
    """curvilinear grids: criteria on each eddy"""
    from netCDF4 import Dataset

    from py_eddy_tracker.dataset.grid import UnRegularGridDataset

    rng = c.rng
    s = ident.scene(rng, circular=False, mask=False)
    X, Y = np.meshgrid(s["x"], s["y"], indexing="ij")
    sh = rng.uniform(-0.3, 0.3)
    X2, Y2 = X + sh * (Y - Y.mean()), Y + rng.uniform(-0.1, 0.1) * (X - X.mean())
    f = os.path.join(c.tmp, "u.nc")
    with Dataset(f, "w") as h:
        h.createDimension("i", X.shape[0]), h.createDimension("j", X.shape[1])
        for n, z in (("lon", X2), ("lat", Y2), ("h", s["h"]), ("u", s["u"]), ("v", s["v"])):
            w = h.createVariable(n, "f8", ("i", "j"))
            w[:] = z
            w.units = "m" if n == "h" else "m/s"
    g = UnRegularGridDataset(f, "lon", "lat", centered=True)
    p = ident.params(rng, s)
    a, cy = g.eddy_identification("h", "u", "v", ident.DATE, **p)
    from harness.ref import point_in_poly

    levels = np.asarray(g.contours.levels)
    for got, sign in ((a, 1), (cy, -1)):
        claimed = np.zeros(X.shape, bool)
        for k in range(len(got)):
            l = int(np.argmin(np.abs(levels - got.height_external_contour[k])))
            x, y = got.contour_lon_e[k], got.contour_lat_e[k]
            best = min((q.vertices for q in g.contours.contours.collections[l].get_paths()),
                       key=lambda v: abs(len(v) - int(got.num_point_e[k])) * 10 + np.hypot(
                           (v[:, 0].min() + v[:, 0].max() - x.min() - x.max() + 360) % 720 - 360,
                           v[:, 1].min() + v[:, 1].max() - y.min() - y.max()))
            v = np.array(best)
            pix = point_in_poly(X2.ravel(), Y2.ravel(), v[:, 0], v[:, 1]).reshape(X.shape)
            c.check(not (pix & claimed).any(), "a cell of another eddy inside an eddy")
            claimed |= pix
            c.check(bool((sign * (s["h"][pix] - levels[l]) > -1e-7).all()), "a cell inside is on the other side of the level")
            err = ident.fit(v)[3]
            c.check(err <= p["shape_error"] + 1e-3, f"shape error {err} over {p['shape_error']}")
            lim = p.get("pixel_limit", (4, 1000))
            c.check(lim[0] <= pix.sum() <= lim[1], f"{pix.sum()} cells for limits {lim}")
            ex = ident.extrema(s["h"], np.zeros(X.shape, bool), pix, sign, False)
            am = (sign * (s["h"][ex] - levels[l])).max() if ex.any() else np.nan
            ex2 = ident.extrema(s["h"], claimed & ~pix, pix, sign, False)
            am2 = (sign * (s["h"][ex2] - levels[l])).max()
            c.check(min(abs(got.amplitude[k] - am), abs(got.amplitude[k] - am2)) < 1e-6, "amplitude", got=got.amplitude[k], expected=am)
            d = ident.fit(ident.resample(v, 10))
            c.close(got.radius_e[k], d[2], "effective radius", rtol=1e-5)
            c.count("eddies")
    if len(a) + len(cy):
        c.nontrivial(s["h"], p)
