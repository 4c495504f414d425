"""C10 pixels of contours and statistics over them"""
import numpy as np

from harness import gen
from harness.core import Check
from harness.ref import dist_to_poly, point_in_poly

CHECK = Check("C10", "random contours anywhere around circular and regional grids: crossing the seam, on other longitude "
              "branches, over the borders, outside, smaller than a cell; non trivial: new contour and grid",
              ["cells whose centre is closer than 1e-7 to the contour are not judged",
               "contours narrower than the free part of a circle, so that the branch is unambiguous"])


def make(rng, **kw):
    circ = bool(rng.random() < 0.5)
    return gen.grid(rng, circular=circ, nx=None if circ else int(rng.integers(6, 40)), **kw)


def expected(g, vx, vy):
    """bool arrays (nx, ny): inside, too close to judge"""
    mid = (vx.min() + vx.max()) / 2
    x = g.x_c + np.floor((mid - g.x_c) / 360 + 0.5) * 360
    X, Y = np.meshgrid(x, g.y_c, indexing="ij")
    ins = point_in_poly(X.ravel(), Y.ravel(), vx, vy).reshape(X.shape)
    amb = np.zeros(X.shape, bool)
    near = (X >= vx.min() - 1e-3) & (X <= vx.max() + 1e-3) & (Y >= vy.min() - 1e-3) & (Y <= vy.max() + 1e-3)
    amb[near] = dist_to_poly(X[near], Y[near], vx, vy) < 1e-7
    return ins, amb


def contour(rng, g):
    dx, dy = g.x_c[1] - g.x_c[0], g.y_c[1] - g.y_c[0]
    where = rng.integers(0, 4)
    cx = rng.uniform(g.x_c[0] - 2 * dx, g.x_c[-1] + 2 * dx)
    cy = rng.uniform(g.y_c[0] - 2 * dy, g.y_c[-1] + 2 * dy)
    if where == 1:  # seam or west border
        cx = g.x_bounds[0] + rng.uniform(-2, 2) * dx
    elif where == 2:
        cx = g.x_bounds[-1] + rng.uniform(-2, 2) * dx
    elif where == 3:
        cy = g.y_bounds[0 if rng.random() < 0.5 else -1] + rng.uniform(-2, 2) * dy
    r = dx * np.exp(rng.uniform(np.log(0.4), np.log(6)))
    r = min(r, 50)
    x, y = gen.star_polygon(rng, int(rng.integers(4, 30)), 0, 0, 1.0, 0.6)
    return x * r + cx, y * r * dy / dx + cy, r


@CHECK.group("pixels", quick=300, thorough=6000, jobs=2)
def pixels(c):
    """pixels in a contour are the cells whose centre is inside, each once, any branch, cropped at borders"""
    from matplotlib.path import Path

    import py_eddy_tracker.dataset.grid  # noqa

    rng = c.rng
    g, circ = make(rng, mask=0)
    for _ in range(4):
        x, y, r = contour(rng, g)
        turn = 360.0 * int(rng.integers(-2, 3))
        v = np.array([x + turn, y]).T.copy()
        ins, amb = expected(g, v[:, 0], v[:, 1])
        if rng.random() < 0.5:
            p = Path(v)
            i, j = p.pixels_in(g)
            c.check(p.nb_pixel == len(i), "nb_pixel")
            c.equal(np.array(p.pixels_index), np.array([i, j]), "pixels_index")
        else:
            i, j = g.get_pixels_in(v)
        i, j = np.asarray(i), np.asarray(j)
        c.check(bool(((i >= 0) & (i < g.x_c.size) & (j >= 0) & (j < g.y_c.size)).all()), "index outside of the grid", i=i, j=j)
        got = np.zeros(ins.shape, int)
        np.add.at(got, (i, j), 1)
        c.check(got.max(initial=0) <= 1, "a cell is given twice", contour=v)
        bad = (got.astype(bool) != ins) & ~amb
        c.check(not bad.any(), f"{int((got.astype(bool) & bad).sum())} cells outside given and {int((ins & bad).sum())} inside missed",
                contour=v, x=g.x_c, y=g.y_c, circular=circ, turn=turn)
        c.count("pixels", ins.sum()), c.count("turned", int(turn != 0))
        edge = ins[0].any() or ins[-1].any() or ins[:, 0].any() or ins[:, -1].any()
        c.count("on_the_border", int(edge))
    c.nontrivial(g.x_c, g.y_c, v)


def datasets(rng, g, n=8):
    cs = [contour(rng, g) for _ in range(n)]
    s = 32
    e = gen.eddies(rng, n, sampling=s)
    for k, (x, y, r) in enumerate(cs):
        x, y = gen.pad_ring(x, y, s)
        # eddies are written on any branch, contours around their centre or not
        turn = 360.0 * int(rng.integers(-1, 2))
        m = (x.min() + x.max()) / 2
        e.obs["lon"][k], e.obs["lat"][k] = m + turn, y.mean()
        for q in "es":
            e.obs[f"contour_lon_{q}"][k], e.obs[f"contour_lat_{q}"][k] = x + turn, y
        if rng.random() < 0.3:
            e.obs["contour_lon_e"][k] += 360 * int(rng.integers(-1, 2))
        e.obs["contour_lon_s"][k] = (e.obs["contour_lon_s"][k] - m) * 0.7 + m
    return e


@CHECK.group("interp_grid", quick=120, thorough=2000, jobs=2)
def interp_grid(c):
    """statistics of a grid in contours (mean, max, sum, count) use exactly those pixels"""
    rng = c.rng
    g, circ = make(rng, mask=float(rng.choice([0, 0.1, 0.5])))
    e = datasets(rng, g)
    z = g.vars["z"]
    sub = None if rng.random() < 0.5 else np.sort(rng.permutation(len(e))[:4])
    ids = np.arange(len(e)) if sub is None else sub
    for intern in (None, True):
        sfx = "s" if intern else "e"
        sel = []
        for k in ids:
            x, y = e[f"contour_lon_{sfx}"][k].astype("f8"), e[f"contour_lat_{sfx}"][k].astype("f8")
            sel.append(expected(g, x, y))
        for method in ("mean", "max", "min", "count"):
            got = e.interp_grid(g, "z", i=sub, method=method, intern=intern)
            c.check(len(got) == len(ids), "number of results")
            for q, (ins, amb) in enumerate(sel):
                # stored contours are single precision, moved by whole turns: be careful around centres
                if amb.any() or near(g, e, ids[q], sfx):
                    c.count("skipped")
                    continue
                if method == "count":
                    ex = ins.sum()
                else:
                    v = z.data[ins & ~z.mask]
                    ex = np.nan if v.size == 0 else dict(mean=np.mean, max=np.max, min=np.min)[method](v)
                c.close(got[q], ex, f"{method} over the contour", rtol=1e-9, atol=1e-12, nb_pixels=int(ins.sum()), circular=circ)
                c.count("non_empty", int(ins.any()))
    c.nontrivial(z, e.contour_lon_e)


def near(g, e, k, sfx):
    x, y = e[f"contour_lon_{sfx}"][k].astype("f8"), e[f"contour_lat_{sfx}"][k].astype("f8")
    mid = (x.min() + x.max()) / 2
    X, Y = np.meshgrid(g.x_c + np.floor((mid - g.x_c) / 360 + 0.5) * 360, g.y_c, indexing="ij")
    m = (X > x.min() - 0.1) & (X < x.max() + 0.1) & (Y > y.min() - 0.1) & (Y < y.max() + 0.1)
    return m.any() and (dist_to_poly(X[m], Y[m], x, y) < 1e-4).any()
