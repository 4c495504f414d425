"""C37 what contours tell after an identification"""
import numpy as np

from harness import ident
from harness.checks.c12 import run
from harness.core import Check
from harness.ident import Ambiguous

CHECK = Check("C37", "random oceans and parameters as for C12, on regional and circular grids and any branch of longitude; flags of all closed contours are compared with an "
              "independent walk over the isolines, drawn collections with the contours which have to be drawn; non trivial: new ocean with used and refused contours",
              ["cases where a decision depends on rounding are skipped and counted", "the reason of refusal is judged for contours that no eddy uses",
               "centres within 1e-4 degree of an isoline are not judged"])


def identified(c, **kw):
    rng = c.rng
    s = ident.scene(rng, **kw)
    p = ident.params(rng, s)
    g, a, cy = run(c, s, p)
    return s, p, g, a, cy


@CHECK.group("flags", quick=56, thorough=900, jobs=5, min_nontrivial=8, warm=True)
def flags(c):
    """contours used by eddies and reasons of refusal of the others, against an independent walk"""
    s, p, g, a, cy = identified(c)
    speed = np.sqrt(np.where(s["mu"], 0, s["u"]) ** 2 + np.where(s["mu"], 0, s["v"]) ** 2)
    kw = {k: p[k] for k in ("pixel_limit", "mle", "nb_step_min", "nb_step_to_be_mle") if k in p}
    fl = dict(used=set(), reject={})
    try:
        ident.walk(s, s["h"], ident.library_paths(g), np.array(g.contours.levels), speed, s["mu"], p["step"], p["shape_error"], flags=fl, **kw)
    except Ambiguous:
        c.count("skipped_ambiguous")
        return
    seen = set()
    for l, coll in enumerate(g.contours.contours.collections):
        for k, path in enumerate(coll.get_paths()):
            u = (l, k) in fl["used"]
            c.check(bool(path.used) == u, f"contour {k} of level {l}: used {path.used}, expected {u}", params=p)
            if not u:
                r = fl["reject"].get((l, k), 0)
                c.check(path.reject == r, f"contour {k} of level {l}: refused for {path.reject}, expected {r}", params=p)
                seen.add(r)
                c.count(f"refused_{r}")
            else:
                c.count("used")
    if fl["used"] and len(seen) > 1:
        c.nontrivial(s["h"], p, sample=dict(used=len(fl["used"]), reasons=sorted(seen), circular=s["circular"]))


def key(v):
    v = np.asarray(v, "f8")
    return (len(v), *np.round(v[0], 9), *np.round(v[-1], 9), *np.round(v.mean(axis=0), 9))


def drawn(ax):
    """segments of the collections added to an axis: key -> colours"""
    out = {}
    for coll in ax.collections:
        col = coll.get_edgecolor()
        for i, seg in enumerate(coll.get_segments()):
            out.setdefault(key(seg), []).append(tuple(np.round(col[i % len(col)], 6)) if len(col) else None)
    return out


def axis():
    from matplotlib.figure import Figure

    return Figure().add_subplot(111)


def same_set(c, ax, paths, what):
    got = drawn(ax)
    exp = {}
    for p in paths:
        exp.setdefault(key(p.vertices), []).append(p)
    c.check(set(got) == set(exp), f"{what}: {len(got)} contours drawn, expected {len(exp)}", lost=len(set(exp) - set(got)), more=len(set(got) - set(exp)))
    for k, v in exp.items():
        c.check(len(got[k]) == len(v), f"{what}: a contour is drawn {len(got[k])} times")
    c.count("contours_drawn", len(exp))
    return got


@CHECK.group("display", quick=30, thorough=500, jobs=4, min_nontrivial=8)
def display(c):
    """collections drawn: used, unused, one level out of several, by reason of refusal, by value of a field"""
    from matplotlib import colors, colormaps

    rng = c.rng
    s, p, g, a, cy = identified(c)
    cc = g.contours
    n = int(rng.choice([1, 1, 2, 3]))
    allp = [q for coll in cc.contours.collections[::n] for q in coll.get_paths()]
    before = [(q.used, q.reject, q.vertices.copy()) for q in allp]
    for what, kw, sel in (("all", {}, lambda q: True), ("used", dict(only_used=True), lambda q: q.used), ("unused", dict(only_unused=True), lambda q: not q.used)):
        ax = axis()
        cc.display(ax, step=n, **kw)
        same_set(c, ax, [q for q in allp if sel(q)], what)
        ax = axis()
        cc.display(ax, step=n, color="r", **kw)
        got = same_set(c, ax, [q for q in allp if sel(q)], what + " in one color")
        c.check(all(k == (1, 0, 0, 1) for v in got.values() for k in v), f"{what}: colour asked is not used")
    ax = axis()
    cc.display(ax, step=n, only_unused=True, display_criterion=True)
    unused = [q for q in allp if not q.used]
    got = same_set(c, ax, unused, "by criterion")
    names = {0: "limegreen", 1: "red", 2: "mediumblue", 3: "black", 4: "gold"}
    for q in unused:
        c.check(tuple(np.round(colors.to_rgba(names[q.reject]), 6)) in got[key(q.vertices)], f"a contour refused for {q.reject} has another colour")
    field = str(rng.choice(["shape_error", "x", "y", "radius"]))
    val = {id(q): dict(zip(("x", "y", "radius", "shape_error"), ident.fit(q.vertices)))[field] for q in allp}
    v = np.array([x for x in val.values() if np.isfinite(x)])
    if v.size > 3:
        bins = np.unique(np.percentile(v, np.sort(rng.uniform(5, 95, int(rng.integers(3, 7))))))
        if len(bins) > 1:
            ax = axis()
            m = cc.display(ax, step=n, field=field, bins=bins, cmap="Spectral_r")
            got = same_set(c, ax, allp, "by " + field)
            cm = colormaps["Spectral_r"].resampled(len(bins) - 1)
            for q in allp:
                x = val[id(q)]
                if not np.isfinite(x) or np.abs(x - bins).min() < 1e-3 * max(abs(x), 1):
                    continue
                k = int((x >= bins).sum())
                w = cm(0.0) if k == 0 else cm(1.0) if k == len(bins) else cm((k - 1) / (len(bins) - 1))
                c.check(tuple(np.round(w, 6)) in got[key(q.vertices)], f"colour of {field} {x} with bins {bins}")
                c.count("colours")
            c.close([m.norm.vmin, m.norm.vmax], bins[[0, -1]], "limits of colours")
    c.check(all(u == q.used and r == q.reject and np.array_equal(w, q.vertices) for (u, r, w), q in zip(before, allp)), "display changes contours")
    if len(unused) and len(unused) < len(allp):
        c.nontrivial(s["h"], p, n, sample=dict(contours=len(allp), unused=len(unused), field=field))


@CHECK.group("several", quick=40, thorough=600, jobs=4, min_nontrivial=8)
def several(c):
    """unused contours which enclose several eddies of the next level"""
    from harness.ref import dist_to_poly, point_in_poly

    rng = c.rng
    if rng.random() < 0.7:
        # pairs of close eddies
        s = ident.scene(rng, scale=6)
        i, j = np.meshgrid(np.arange(s["x"].size), np.arange(s["y"].size), indexing="ij")
        h = 0.05 * s["h"]
        for _ in range(int(rng.integers(2, 6))):
            ci, cj, r, f = rng.uniform(0, s["x"].size), rng.uniform(4, s["y"].size - 4), rng.uniform(1.5, 3), rng.choice([-1, 1])
            w = rng.uniform(2, 3) * r
            t = rng.uniform(0, 6.3)
            for q in (-1, 1):
                d = i - ci - q * w * np.cos(t) / 2
                if s["circular"]:
                    d = (d + s["x"].size / 2) % s["x"].size - s["x"].size / 2
                h = h + f * rng.uniform(0.2, 0.4) * np.exp(-(d ** 2 + (j - cj - q * w * np.sin(t) / 2) ** 2) / r ** 2)
        s["h"] = h
        p = dict(step=float(rng.uniform(0.01, 0.04)), shape_error=float(rng.choice([55, 70])))
        g, a, cy = run(c, s, p)
    else:
        s, p, g, a, cy = identified(c)
    cc = g.contours
    both = bool(rng.random() < 0.6)
    todo = [a, cy] if both else [[a, cy][int(rng.integers(2))]]
    for e in todo:
        cc.label_contour_unused_which_contain_eddies(e)
    # heights are stored as single precision
    lev = np.asarray(cc.cvalues, "f8")
    n = 0
    for l, coll in enumerate(cc.contours.collections):
        for q in coll.get_paths():
            want, doubt = False, False
            v = np.asarray(q.vertices)
            for e in todo:
                nxt = l + e.sign_type
                if q.used or not 0 <= nxt < len(lev) or not len(e):
                    continue
                k = np.abs(e.height_external_contour.astype("f8") - lev[nxt]) < 0.2 * p["step"]
                x, y = e.lon_max[k].astype("f8"), e.lat_max[k].astype("f8")
                mid = (v[:, 0].min() + v[:, 0].max()) / 2
                x = x + np.round((mid - x) / 360) * 360
                if x.size:
                    doubt |= bool((dist_to_poly(x, y, v[:, 0], v[:, 1]) < 1e-3).any())
                want |= bool(point_in_poly(x, y, v[:, 0], v[:, 1]).sum() > 1) if x.size else False
            if doubt:
                continue
            c.check(bool(q.contain_eddies) == want, f"a contour of level {l}: several eddies {q.contain_eddies}, expected {want}",
                    signs=[e.sign_type for e in todo], level=lev[l])
            n += want
            c.count("judged")
    c.count("with_several_eddies", n)
    ax = axis()
    cc.display(ax, only_contain_eddies=True)
    same_set(c, ax, [q for coll in cc.contours.collections for q in coll.get_paths() if q.contain_eddies], "which contain several eddies")
    if n:
        c.nontrivial(s["h"], p, sample=dict(contours=n, signs=[int(e.sign_type) for e in todo], circular=s["circular"]))
