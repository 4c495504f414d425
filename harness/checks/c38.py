"""C38 what figures draw is what the data hold"""
import matplotlib
import numpy as np
from matplotlib.collections import LineCollection, PathCollection, PolyCollection, QuadMesh
from matplotlib.dates import date2num
from matplotlib.figure import Figure

from harness import gen, nets
from harness.core import Check

CHECK = Check("C38", "random sets of eddies, tracks, networks and grids (on every branch of longitude, over the western boundary of the map, with constant, unsigned and signed "
              "fields, holes in grids and masked cells) drawn with random options; the artists left in the axes are compared with the data; non trivial when the "
              "western boundary cuts a line, values have several colors, or networks have events",
              ["widths, sizes and styles are not judged", "contours filled over the western boundary of the map are only judged vertex by vertex"])


def axes():
    return Figure().add_subplot(111)


def short(d):
    return (d + 180) % 360 - 180


def cut(x, y, ref):
    """pieces of a line on a map which begins at ref"""
    x, y = np.asarray(x, "f8"), np.asarray(y, "f8")
    if ref is None:
        return [np.array([x, y]).T], 0
    w = (x - ref) % 360 + ref
    out, p = [], [(w[0], y[0])]
    for i in range(1, len(x)):
        d = short(x[i] - x[i - 1])
        if abs(w[i] - w[i - 1] - d) > 180:
            out.append(p + [(w[i - 1] + d, y[i])])
            p = [(w[i] - d, y[i - 1])]
        p.append((w[i], y[i]))
    out.append(p)
    return [np.array(p) for p in out], len(out) - 1


def pieces(x, y):
    """pieces of a line drawn, separated by invalid points"""
    x, y = np.ma.filled(np.ma.asarray(x, "f8"), np.nan), np.ma.filled(np.ma.asarray(y, "f8"), np.nan)
    out, p = [], []
    for a, b in zip(x, y):
        if np.isnan(a) or np.isnan(b):
            if p:
                out.append(np.array(p))
            p = []
        else:
            p.append((a, b))
    return out + ([np.array(p)] if p else [])


def same_lines(c, line, rows, ref, what):
    """line drawn holds rows [(x, y), ...] cut at ref"""
    exp, n = [], 0
    for x, y in rows:
        if len(x):
            p, k = cut(x, y, ref)
            exp += p
            n += k
    got = pieces(line.get_xdata(orig=True), line.get_ydata(orig=True))
    c.check(len(got) == len(exp), f"{what}: {len(got)} pieces drawn instead of {len(exp)}", ref=ref)
    for a, b in zip(got, exp):
        c.check(a.shape == b.shape, f"{what}: points of a piece", got=a, expected=b, ref=ref)
        if a.shape == b.shape:
            c.close(a, b, f"{what}: place of a line", atol=1e-3, rtol=0, ref=ref)
    c.count("pieces", len(got))
    c.count("cuts", n)
    return n


def pick_ref(rng, *xs):
    """western boundary, away from the points"""
    for _ in range(20):
        near = float(rng.choice(np.asarray(xs[0], "f8"))) + float(rng.normal(0, 0.3)) if len(xs[0]) else None
        ref = [None, -180, 0, -30.25, 100, 179.3, 250, float(rng.uniform(-180, 360)), near, near, near][rng.integers(11)]
        if ref is None:
            return ref
        d = np.concatenate([np.abs(short(np.asarray(x, "f8").ravel() - ref)) for x in xs])
        d = d[~np.isnan(d)]
        if not len(d) or d.min() > 1e-3:
            return ref
    return None


def field(rng, e):
    """a name or an array, and its values"""
    k = rng.integers(5)
    names = [n for n in ("amplitude", "speed_average", "lon", "n", "track", "time", "observation_number") if n in e.fields]
    if k < 3:
        n = str(rng.choice(names))
        return n, np.asarray(e[n]).astype("f8")
    if k == 3:
        v = np.full(len(e), float(rng.integers(1, 4)))
    else:
        v = rng.integers(0, 9, len(e)).astype(rng.choice(["u1", "u2", "i4", "f4"]))
    return v, v.astype("f8")


def colors(cmap, lut, v, vmin, vmax):
    """color of each value: linear from vmin to vmax, first color when bounds are the same"""
    cm = matplotlib.colormaps[cmap]
    cm = cm.resampled(lut) if lut else cm
    vmin, vmax = v.min() if vmin is None else vmin, v.max() if vmax is None else vmax
    u = np.zeros(len(v)) if vmin == vmax else (v - vmin) / (vmax - vmin)
    near = np.zeros(len(v), bool)
    # a value on the border of two colors can have both
    k = u * cm.N
    near |= (np.abs(k - np.round(k)) < 1e-3) & (u > 1e-9) & (np.abs(u - 1) > 1e-9)
    return cm(u), near, u


def same_colors(c, got, exp, near, what, **kw):
    got = np.asarray(got, "f8")
    c.check(got.shape == exp.shape, f"{what}: number of colors {got.shape} instead of {exp.shape}")
    if got.shape == exp.shape:
        c.close(got[~near], exp[~near], f"{what}: colors", atol=1e-6, **kw)
        c.count("colors", len(np.unique(exp, axis=0)))


def frozen(c, e, f):
    """draw without any change of the data"""
    before = e.obs.copy()
    out = f()
    c.check(before.tobytes() == e.obs.tobytes(), "data changed by a figure")
    return out


@CHECK.group("eddies", quick=200, thorough=2500)
def eddies(c):
    """scatter, filled, display and display_color draw each eddy once, at its place, with the color of its value"""
    rng = c.rng
    e = gen.eddies(rng, int(rng.integers(1, 14)), lon_range=[(0, 360), (-200, 400), (170, 190)][rng.integers(3)], time=None, extra=("n",) if rng.random() < 0.5 else ())
    if "n" in e.fields:
        e["n"][:] = rng.integers(0, 2000, len(e))
    intern = bool(rng.random() < 0.5)
    k = "s" if intern else "e"
    X, Y = np.asarray(e[f"contour_lon_{k}"], "f8"), np.asarray(e[f"contour_lat_{k}"], "f8")
    ref = pick_ref(rng, e.lon, e.contour_lon_e, e.contour_lon_s)
    name, v = field(rng, e)
    factor = float(rng.choice([1, 100, -1, 0.5]))
    kind = str(rng.choice(["scatter", "filled", "display", "color"]))
    ax = axes()
    if kind == "scatter":
        nothing = rng.random() < 0.3
        m = frozen(c, e, lambda: e.scatter(ax, None if nothing else name, ref=ref, factor=factor))
        c.check(ax.collections and ax.collections[0] is m and len(ax.collections) == 1, "scatter: artists of the axes")
        xy = np.ma.filled(m.get_offsets(), np.nan)
        exp = np.asarray(e.lon, "f8") if ref is None else (np.asarray(e.lon, "f8") - ref) % 360 + ref
        c.close(xy[:, 0], exp, "scatter: longitude", atol=1e-4)
        c.close(xy[:, 1], np.asarray(e.lat, "f8"), "scatter: latitude", atol=1e-5)
        if nothing:
            c.check(m.get_array() is None, "scatter: values drawn without name")
        else:
            c.close(np.asarray(m.get_array(), "f8"), v * factor, "scatter: values", rtol=1e-6)
    elif kind in ("filled", "color"):
        lo, hi = [(None, None), (float(np.quantile(v, 0.2)), None), (None, float(np.quantile(v, 0.8))), (float(np.quantile(v, 0.3)), float(np.quantile(v, 0.9)))][rng.integers(4)]
        if kind == "filled":
            lo, hi = (None if b is None else b * factor for b in (lo, hi))
            if lo is not None and hi is not None and lo > hi:
                lo, hi = hi, lo
            v = v * factor
        # bounds in order
        if lo is not None and lo > (v.max() if hi is None else hi) - 1e-3 or hi is not None and hi < (v.min() if lo is None else lo) + 1e-3:
            lo = hi = None
        if rng.random() < 0.4 and lo is not None and lo == int(lo):
            lo = int(lo)
        cmap = str(rng.choice(["magma_r", "jet", "Spectral_r", "viridis"]))
        kw = dict(ref=ref, intern=intern, cmap=cmap)
        if lo is not None:
            kw["vmin"] = lo
        if hi is not None:
            kw["vmax"] = hi
        if kind == "filled":
            lut = [None, 10, 5][rng.integers(3)]
            m = frozen(c, e, lambda: e.filled(ax, name, lut=lut, factor=factor, **kw))
            col, verts, typ = m.get_facecolor(), [p.vertices for p in m.get_paths()], PolyCollection
        else:
            lut = None
            m = frozen(c, e, lambda: e.display_color(ax, name, **kw))
            col, verts, typ = m.get_colors(), [p.vertices for p in m.get_paths()], LineCollection
        c.check(isinstance(m, typ) and len(ax.collections) == 1 and ax.collections[0] is m, f"{kind}: artists of the axes")
        c.check(len(verts) == len(e), f"{kind}: {len(verts)} contours drawn for {len(e)} eddies")
        exp, near, u = colors(cmap, lut, v, lo, hi)
        same_colors(c, col, exp, near, kind, v=v, vmin=lo, vmax=hi)
        c.close([float(m.norm.vmin), float(m.norm.vmax)], [v.min() if lo is None else lo, v.max() if hi is None else hi], f"{kind}: bounds of colors", rtol=1e-6)
        for p, x, y in zip(verts, X, Y):
            p = np.asarray(p, "f8")
            # a polygon is closed by its first point
            if len(p) == len(x) + 1:
                c.close(p[-1], p[0], f"{kind}: polygon not closed")
                p = p[:-1]
            c.check(len(p) == len(x), f"{kind}: points of a contour", got=len(p), expected=len(x))
            if len(p) != len(x):
                continue
            w = x if ref is None else (x - ref) % 360 + ref
            c.close(p[:, 0], w, f"{kind}: longitude of a contour", atol=1e-3, rtol=0)
            c.close(p[:, 1], y, f"{kind}: latitude of a contour", atol=1e-4, rtol=0)
        if len(np.unique(exp, axis=0)) > 1:
            c.nontrivial(kind, v, lo, hi)
    else:
        only = [dict(), dict(extern_only=True), dict(intern_only=True)][rng.integers(3)]
        kw = dict(label="{nb_obs} from {t0} to {t1}") if rng.random() < 0.5 else {}
        m = frozen(c, e, lambda: e.display(ax, ref=ref, **only, **kw))
        which = [k for k in "se" if not (k == "s" and "extern_only" in only or k == "e" and "intern_only" in only)]
        c.check(len(ax.lines) == len(which) and list(ax.lines) == list(m), "display: lines of the axes")
        n = 0
        for l, k in zip(ax.lines, which):
            n += same_lines(c, l, list(zip(e[f"contour_lon_{k}"], e[f"contour_lat_{k}"])), ref, f"display {k}")
            c.check(l.get_linestyle() == ("-" if k == "s" else "-."), f"display: style of contour {k}")
        if kw:
            lab = [l.get_label() for l in ax.lines if not l.get_label().startswith("_")]
            c.check(lab == [f"{len(e)} from {e.time.min()} to {e.time.max()}"], f"display: label {lab}")
        if n:
            c.nontrivial(kind, X, ref)
    if kind == "scatter" and ref is not None:
        c.nontrivial(kind, np.asarray(e.lon), ref)


@CHECK.group("tracks", quick=200, thorough=2000)
def tracks(c):
    """plot and display_shape draw each trajectory apart, without a line through the map when it changes of branch"""
    rng = c.rng
    t = gen.tracks(rng, int(rng.integers(0, 7)), max_len=10, min_len=1, first_id=int(rng.integers(0, 3)), lon_range=[(0, 360), (-10, 10), (355, 365)][rng.integers(3)])
    branch = rng.random()
    if branch < 0.5 and len(t):
        # as in files of detections, all in the same branch
        w = (np.asarray(t["lon"], "f8") % 360)
        for k in ("contour_lon_e", "contour_lon_s"):
            t[k][:] += (w - t["lon"])[:, None]
        t["lon"][:] = w
    ref = pick_ref(rng, t.lon, t.contour_lon_e, t.contour_lon_s)
    kw = dict(label="{nb_tracks} / {nb_obs} / {t0} / {t1}") if rng.random() < 0.5 else {}
    ids = [int(k) for k in dict.fromkeys(t["track"].tolist())]
    rows = [np.where(t["track"] == k)[0] for k in ids]
    ax = axes()
    if rng.random() < 0.7:
        m = frozen(c, t, lambda: t.plot(ax, ref=ref, **kw))
        n = 0
        if len(t):
            n = same_lines(c, ax.lines[0], [(t.lon[i], t.lat[i]) for i in rows], ref, "plot")
        kind = "plot"
    else:
        intern = bool(rng.random() < 0.5)
        m = frozen(c, t, lambda: t.display_shape(ax, ref=ref, intern=intern, **kw))
        k = "s" if intern else "e"
        kind, n = "shape", 0
        got = pieces(ax.lines[0].get_xdata(orig=True), ax.lines[0].get_ydata(orig=True)) if ax.lines else []
        if len(t):
            # every vertex is one of a contour or where two contours cross: no place out of contours, all extremes are there
            g = np.concatenate(got)
            inside = np.zeros(len(g), bool)
            for i in range(len(t)):
                x, y = np.asarray(t[f"contour_lon_{k}"][i], "f8"), np.asarray(t[f"contour_lat_{k}"][i], "f8")
                gx = x.mean() + short(g[:, 0] - x.mean())
                inside |= near_line(gx, g[:, 1], x, y)
            c.check(bool(inside.all()), "display_shape: points out of the contours", points=g[~inside][:5])
            x, y = np.asarray(t[f"contour_lon_{k}"], "f8").ravel(), np.asarray(t[f"contour_lat_{k}"], "f8").ravel()
            for a in (y.argmin(), y.argmax()):
                d = np.hypot(short(g[:, 0] - x[a]), g[:, 1] - y[a]).min()
                c.check(d < 1e-3, "display_shape: extreme point of contours not drawn", x=x[a], y=y[a], distance=d)
            d = max((np.abs(np.diff(p[:, 0])).max() for p in got if len(p) > 1), default=0)
            size = max(np.ptp(np.asarray(v, "f8")) for v in t[f"contour_lon_{k}"])
            c.check(d < size + 1e-3, "display_shape: line longer than a contour", d=d, size=size, ref=ref)
            n = len(ids) > 1 and branch < 0.5
    c.check(len(ax.lines) == 1 and list(ax.lines) == list(m), f"{kind}: lines of the axes")
    if kw and len(t):
        lab = ax.lines[0].get_label()
        c.check(lab == f"{len(ids)} / {len(t)} / {t.time.min()} / {t.time.max()}", f"{kind}: label {lab}")
    if n:
        c.nontrivial(kind, np.asarray(t.lon), ref)


def near_line(px, py, x, y, tol=2e-3):
    """points on a closed line"""
    x, y = np.append(x, x[0]), np.append(y, y[0])
    d = np.full(len(px), np.inf)
    for i in range(len(x) - 1):
        ux, uy = x[i + 1] - x[i], y[i + 1] - y[i]
        n = ux * ux + uy * uy
        s = np.clip(((px - x[i]) * ux + (py - y[i]) * uy) / n, 0, 1) if n else 0
        d = np.minimum(d, np.hypot(px - x[i] - s * ux, py - y[i] - s * uy))
    return d < tol


def one_network(rng):
    for _ in range(10):
        n = nets.synthetic(rng)
        t = np.unique(n.track[n.track != 0])
        if len(t):
            return n.network(int(rng.choice(t)))
    return None


def runs(n):
    """rows of each segment, in order"""
    s = np.asarray(n.segment).astype(int)
    return [(k, np.where(s == k)[0]) for k in sorted(set(s.tolist()))]


def drawn(line):
    x = np.asarray(line.get_xdata(orig=True))
    y = np.asarray(line.get_ydata(orig=True), "f8")
    if x.dtype.kind == "M":
        x = (x - np.datetime64("1950-01-01")).astype("timedelta64[D]").astype(float)
    return tuple(map(tuple, np.round(np.array([x.astype("f8"), y]).T, 4).tolist()))


def pts(*a):
    return tuple(map(tuple, np.round(np.array(a, "f8"), 4).tolist()))


def near_sets(c, got, exp, what):
    """same list of (points, color), without regard to order"""
    c.check(len(got) == len(exp), f"{what}: {len(got)} drawn instead of {len(exp)}", got=got[:6], expected=exp[:6])
    left = list(got)
    for p, col in exp:
        hit = None
        for j, (q, col_) in enumerate(left):
            if len(p) == len(q) and (col is None or col == col_) and np.allclose(np.array(p), np.array(q), atol=2e-3, rtol=1e-5):
                hit = j
                break
        if hit is None:
            c.check(False, f"{what}: not drawn", expected=(p, col), left=left[:6])
        else:
            left.pop(hit)


@CHECK.group("timelines", quick=110, thorough=2500)
def timelines(c):
    """display_timeline, event_timeline and scatter_timeline link each segment with the right observations of others"""
    rng = c.rng
    n = one_network(rng)
    if n is None:
        return
    name, v = field(rng, n)
    kind = str(rng.choice(["display", "events", "scatter"]))
    method = [None, "all"][rng.integers(2)]
    factor = float(rng.choice([1, 100, -1]))
    mode = str(rng.choice(["roll", "y"]))
    use = rng.random() < 0.7
    if isinstance(name, np.ndarray) and name.dtype.kind in "ui":
        name = name.astype("f4")
    if isinstance(name, str) and np.dtype(n[name].dtype).kind in "ui" and kind == "scatter":
        name, v = n[name].astype("f8"), v
    t, nx, pv = np.asarray(n.time, "f8"), np.asarray(n.next_obs).astype(int), np.asarray(n.previous_obs).astype(int)
    seg = np.asarray(n.segment).astype(int)
    if not use:
        factor = 1.0
    rows = runs(n)
    y = np.empty(len(n))
    for k, i in rows:
        y[i] = k if not use else (v[i] * factor if method == "all" else v[i].mean() * factor)
    lines, marks = [], dict(splitting=[], merging=[])
    for j, (k, i) in enumerate(rows):
        col = n.COLORS[j % n.NB_COLORS] if mode == "roll" or kind == "scatter" else n.COLORS[(k - 1) % n.NB_COLORS]
        a, b = i[0], i[-1]
        if nx[b] != -1:
            lines.append((pts((t[b], y[b]), (t[nx[b]], y[nx[b]])), col))
            marks["merging"].append((t[b], y[b]))
        if pv[a] != -1:
            lines.append((pts((t[a], y[a]), (t[pv[a]], y[pv[a]])), col))
            marks["splitting"].append((t[a], y[a]))
    ax = axes()
    kw = dict(field=name, factor=factor) if use else {}
    c.count("events", len(lines))
    event = True
    if kind == "display":
        event = bool(rng.random() < 0.8)
        m = frozen(c, n, lambda: n.display_timeline(ax, event=event, method=method, colors_mode=mode, **kw))
        got = [(drawn(l), l.get_color()) for l in m["lines"]]
        exp = []
        for j, (k, i) in enumerate(rows):
            exp.append((pts(*zip(t[i], y[i])), n.COLORS[j % n.NB_COLORS] if mode == "roll" else n.COLORS[(k - 1) % n.NB_COLORS]))
        near_sets(c, got, exp, "timeline of segments")
        skip = set(map(id, m["lines"]))
    elif kind == "events":
        frozen(c, n, lambda: n.event_timeline(ax, method=method, colors_mode=mode, **kw))
        skip = set()
    else:
        event = bool(rng.random() < 0.8)
        kw = dict(yfield=name, yfactor=factor) if use else {}
        val, vv = field(rng, n)
        f = float(rng.choice([1, 10, -1]))
        m = frozen(c, n, lambda: n.scatter_timeline(ax, val, factor=f, event=event, method=method, **kw))
        s = m["scatter"]
        xy = np.ma.filled(s.get_offsets(), np.nan)
        c.close(xy[:, 0], date2num((t - 7305).astype("i8").astype("datetime64[D]")), "scatter: date")
        c.close(xy[:, 1], y, "scatter: value along y", atol=1e-5, rtol=1e-4, method=method)
        c.close(np.asarray(s.get_array(), "f8"), vv * f, "scatter: values of colors", rtol=1e-6)
        skip = set()
    links, marked = [], dict(splitting=[], merging=[])
    for l in ax.lines:
        if id(l) in skip:
            continue
        if l.get_marker() in ("*", "H"):
            which = dict(zip("*H", ("splitting", "merging")))[l.get_marker()]
            marked[which] += list(drawn(l))
            c.check(l.get_label() == which + " events", f"events: label {l.get_label()}")
        else:
            links.append((drawn(l), l.get_color()))
    if not event:
        lines, marks = [], dict(splitting=[], merging=[])
    near_sets(c, links, lines, "links of events")
    for k in marks:
        near_sets(c, [((p,), None) for p in marked[k]], [(pts(p), None) for p in marks[k]], f"marks of {k}")
    if event and len(lines) > 1 and len(rows) > 1:
        c.nontrivial(kind, t, nx, pv, method, use)


@CHECK.group("maps", quick=220, thorough=2000)
def maps(c):
    """plot, scatter and event_map of networks draw each segment apart, and events from the right observation to the right one"""
    rng = c.rng
    n = nets.synthetic(rng)
    if not len(n):
        return
    if rng.random() < 0.4:
        # some segments only
        key = np.asarray(n.track).astype(int) * 1000 + np.asarray(n.segment)
        m = np.isin(key, rng.choice(np.unique(key), int(rng.integers(1, len(np.unique(key)) + 1)), replace=False))
        n = n.extract_with_mask(m)
    key = list(zip(np.asarray(n.track).astype(int).tolist(), np.asarray(n.segment).astype(int).tolist()))
    ids = list(dict.fromkeys(key))
    rows = [np.array([i for i, k in enumerate(key) if k == s]) for s in ids]
    ref = pick_ref(rng, n.lon)
    kind = str(rng.choice(["plot", "scatter", "events"]))
    cycle = [None, ["r", "g", "b"], ["k"]][rng.integers(3)]
    ax = axes()
    if kind == "plot":
        m = frozen(c, n, lambda: n.plot(ax, ref=ref, **({} if cycle is None else dict(color_cycle=cycle))))
        c.check(list(m) == list(ax.lines) and len(m) == len(rows), f"plot: {len(ax.lines)} lines for {len(rows)} segments")
        cuts = 0
        for j, (l, i) in enumerate(zip(ax.lines, rows)):
            cuts += same_lines(c, l, [(n.lon[i], n.lat[i])], ref, "plot")
            cy = n.COLORS if cycle is None else cycle
            c.check(l.get_color() == cy[j % len(cy)], f"plot: color of segment {j}")
        if cuts or len(rows) > 2:
            c.nontrivial(kind, np.asarray(n.lon), ref)
    elif kind == "scatter":
        name, v = field(rng, n)
        f = float(rng.choice([1, 10, -1]))
        m = frozen(c, n, lambda: n.scatter(ax, name, factor=f, ref=ref, edgecolor_cycle=cycle))
        exp = np.asarray(n.lon, "f8") if ref is None else (np.asarray(n.lon, "f8") - ref) % 360 + ref
        c.check(len(ax.collections) == 1 + (cycle is not None), "scatter: artists of the axes")
        for s in ax.collections:
            xy = np.ma.filled(s.get_offsets(), np.nan)
            c.close(xy[:, 0], exp, "scatter: longitude", atol=1e-4)
            c.close(xy[:, 1], np.asarray(n.lat, "f8"), "scatter: latitude", atol=1e-5)
        c.close(np.asarray(m["scatter"].get_array(), "f8"), v * f, "scatter: values", rtol=1e-6)
        if cycle is not None:
            s, j, e = np.asarray(n.segment).astype(int), 0, []
            for i in range(len(n)):
                j += i > 0 and s[i] != s[i - 1]
                e.append(matplotlib.colors.to_rgba(cycle[j % len(cycle)]))
            c.close(m["edges"].get_edgecolor(), np.array(e), "scatter: color of edges")
        c.nontrivial(kind, v, ref)
    else:
        n = one_network(rng)
        if n is None:
            return
        frozen(c, n, lambda: n.event_map(ax))
        nx, pv = np.asarray(n.next_obs).astype(int), np.asarray(n.previous_obs).astype(int)
        x, y = np.asarray(n.lon, "f8"), np.asarray(n.lat, "f8")
        lines, marks = [], dict(zip("*H", ([], [])))
        for j, (k, i) in enumerate(runs(n)):
            a, b, col = i[0], i[-1], n.COLORS[j % n.NB_COLORS]
            if nx[b] != -1:
                lines.append((pts((x[b], y[b]), (x[nx[b]], y[nx[b]])), col))
                marks["H"].append((pts((x[b], y[b])), None))
            if pv[a] != -1:
                lines.append((pts((x[a], y[a]), (x[pv[a]], y[pv[a]])), col))
                marks["*"].append((pts((x[a], y[a])), None))
        near_sets(c, [(drawn(l), l.get_color()) for l in ax.lines if l.get_marker() not in ("*", "H")], lines, "links of events")
        for k in marks:
            near_sets(c, [(drawn(l), None) for l in ax.lines if l.get_marker() == k], marks[k], "marks of events")
        c.count("events", len(lines))
        if len(lines) > 1:
            c.nontrivial(kind, x, nx, pv)


@CHECK.group("grids", quick=80, thorough=2000)
def grids(c):
    """display and contour draw each cell at its place from the western boundary, and nothing where there is no data"""
    rng = c.rng
    g, circular = gen.grid(rng, circular=bool(rng.random() < 0.5), mask=float(rng.choice([0, 0.1])), names=("z",), smooth=bool(rng.random() < 0.5))
    z = g.grid("z")
    xg, yg = np.asarray(g.x_c, "f8"), np.asarray(g.y_c, "f8")
    h, k = xg[1] - xg[0], yg[1] - yg[0]
    mask = np.ma.getmaskarray(z)
    ref = [None, -180, 0, float(xg[len(xg) // 2] + h / 4), float(xg[rng.integers(len(xg))] - h / 3), 0.1 * h + 77][rng.integers(6)]
    # a column just on the boundary could be drawn on both sides
    if ref is not None and np.abs(short(xg - ref)).min() < 1e-6:
        ref += h / 3
    factor = float(rng.choice([1, 100, -1]))
    name = "z" if rng.random() < 0.6 else z
    ax = axes()
    if rng.random() < 0.5:
        before = np.ma.copy(z)
        m = g.display(ax, name, factor=factor, ref=ref)
        c.check(isinstance(m, QuadMesh) and len(ax.collections) == 1, "display: artists of the axes")
        xy = np.asarray(m.get_coordinates(), "f8")
        a = np.ma.asarray(m.get_array()).reshape(xy.shape[0] - 1, xy.shape[1] - 1)
        seen = {}
        lo, hi = xy[:-1, :-1], xy[1:, 1:]
        for j in range(a.shape[0]):
            for i in range(a.shape[1]):
                if np.ma.getmaskarray(a)[j, i]:
                    continue
                x0, x1, y0, y1 = lo[j, i, 0], hi[j, i, 0], lo[j, i, 1], hi[j, i, 1]
                u, w = np.abs(short(xg - (x0 + x1) / 2)), np.abs(yg - (y0 + y1) / 2)
                p, q = int(u.argmin()), int(w.argmin())
                ok = u[p] < 1e-3 * h and w[q] < 1e-3 * k and abs(x1 - x0 - h) < 1e-3 * h and abs(y1 - y0 - k) < 1e-3 * k
                c.check(ok, "display: a cell drawn is not one of the grid", cell=(x0, x1, y0, y1), step=(h, k), ref=ref)
                if not ok:
                    return
                if ref is not None:
                    c.check(ref - h <= x0 and x1 <= ref + 360 + h, "display: cell out of the map", cell=(x0, x1), ref=ref)
                c.check((p, q) not in seen, "display: cell drawn twice", cell=(p, q))
                seen[p, q] = float(a[j, i])
        c.count("cells", len(seen))
        want = {(int(p), int(q)): float(z[p, q]) * factor for p, q in zip(*np.where(~mask))}
        c.check(set(seen) == set(want), f"display: {len(seen)} cells drawn instead of {len(want)}")
        for pq in set(seen) & set(want):
            c.check(abs(seen[pq] - want[pq]) <= 1e-6 * max(1e-6, abs(want[pq])), "display: value of a cell", cell=pq, got=seen[pq], expected=want[pq])
        c.check(np.array_equal(np.ma.getmaskarray(g.grid("z")), np.ma.getmaskarray(before)) and np.ma.allequal(g.grid("z"), before), "display: grid changed")
        if ref is not None:
            c.nontrivial("display", xg, ref)
        return
    if (~mask).sum() < 4:
        return
    level = float(np.quantile(z.compressed(), rng.uniform(0.2, 0.8))) * factor
    m = g.contour(ax, name, factor=factor, ref=ref, levels=[level])
    f = np.where(mask, np.nan, np.ma.filled(z, 0) * factor)
    # order of columns in the map
    w = xg if ref is None else (xg - ref) % 360 + ref
    o = w.argsort()
    w, f = w[o], f[o]
    joined = np.abs(np.diff(w) - h) < 1e-3 * h
    cross = {}
    for p in m.allsegs[0]:
        for x, y in np.asarray(p, "f8"):
            i, j = np.interp(x, w, np.arange(len(w))), (y - yg[0]) / k
            on_row, on_col = abs(j - round(j)) < 1e-5, abs(i - round(i)) < 1e-5
            if not (on_row or on_col):
                # a cell with one corner without data is drawn up to its diagonal
                i0, j0 = min(int(i), len(w) - 2), min(int(j), len(yg) - 2)
                lost = int(np.isnan(f[i0:i0 + 2, j0:j0 + 2]).sum())
                c.check(lost == 1, "contour: point out of the lines of the grid", x=x, y=y, lost=lost)
                c.check(bool(joined[i0]), "contour: line through a place without data", x=x, ref=ref)
                continue
            i0, j0 = int(np.floor(i + 1e-5)), int(np.floor(j + 1e-5))
            i1, j1 = (i0, min(j0 + 1, len(yg) - 1)) if on_col else (min(i0 + 1, len(w) - 1), j0)
            if on_row and on_col:
                val = f[i0, j0]
                if np.isnan(val):
                    c.check(False, "contour: drawn on a cell without data", x=x, y=y, ref=ref)
                continue
            c.check(on_col or bool(joined[i0]), "contour: line through a place without data", x=x, ref=ref)
            s = j - j0 if on_col else i - i0
            val = f[i0, j0] * (1 - s) + f[i1, j1] * s
            tol = 1e-4 * (abs(f[i0, j0]) + abs(f[i1, j1]) + abs(level))
            c.check(abs(val - level) <= tol, "contour: value along the line is not the level", x=x, y=y, value=val, level=level)
            cross[i0, j0, i1, j1] = True
    valid = ~np.isnan(f)
    quad = valid[:-1, :-1] & valid[1:, :-1] & valid[:-1, 1:] & valid[1:, 1:] & joined[:, None]
    for i in range(quad.shape[0]):
        for j in range(quad.shape[1]):
            if not quad[i, j]:
                continue
            for a, b in (((i, j), (i + 1, j)), ((i, j + 1), (i + 1, j + 1)), ((i, j), (i, j + 1)), ((i + 1, j), (i + 1, j + 1))):
                d = min(abs(f[a] - level), abs(f[b] - level))
                if (f[a] - level) * (f[b] - level) < 0 and d > 1e-4 * abs(f[b] - f[a]):
                    c.check(a + b in cross, "contour: crossing of the level not drawn", a=a, b=b, level=level, ref=ref)
                    c.count("crossings")
    if ref is not None and cross:
        c.nontrivial("contour", xg, ref, level)


@CHECK.group("animation", quick=20, thorough=300)
def animation(c):
    """each frame of an animation shows the contours of the last steps, colored by their value, and the name of eddies of the day"""
    from matplotlib.backends.backend_agg import FigureCanvasAgg

    from py_eddy_tracker.appli.gui import Anim

    rng = c.rng
    t = gen.tracks(rng, int(rng.integers(1, 4)), max_len=8, min_len=2, time_gaps=bool(rng.random() < 0.5))
    if rng.random() < 0.3:
        t.time[t.time > np.median(t.time)] += 9
    intern = bool(rng.random() < 0.5)
    k = "s" if intern else "e"
    nb = int(rng.integers(1, 8))
    txt = [None, "track", "time"][rng.integers(3)]
    col = [None, "time", "lon", "track"][rng.integers(4)]
    f = Figure(figsize=(2, 2), dpi=40)
    FigureCanvasAgg(f)
    rg = (None, None) if rng.random() < 0.6 or col in (None, "time") else tuple(sorted(float(v) for v in rng.uniform(t[col].min() - 1, t[col].max() + 1, 2)))
    a = Anim(t, intern=intern, figure=f, nb_step=nb, field_txt=txt, field_color=col, range_color=rg, cmap="jet")
    cm = matplotlib.colormaps["jet"]
    T = np.asarray(t.time, "f8")
    shown = 0
    t0, t1 = int(T.min()), int(T.max())
    if col not in (None, "time"):
        v = np.asarray(t[col]).astype("f4").astype("f8")
        lo, hi = (v.min(), v.max()) if rg[0] is None else rg
        u = np.zeros(len(v)) if lo == hi else (v - lo) / (hi - lo)
    for now in range(t0, t1 + 1):
        frozen(c, t, lambda: a.func_animation(now))
        lw, paths = np.atleast_1d(a.contour.get_linewidth()), a.contour.get_paths()
        got = []
        for i, p in enumerate(paths):
            w = float(lw[i % len(lw)])
            c.check(w >= 0, "animation: negative width of a line", now=now)
            if w > 1e-9:
                rgb = a.contour.get_color()
                got.append((np.asarray(p.vertices, "f8"), w, None if col is None else tuple(np.asarray(rgb)[i % len(rgb)])))
        want = [i for i in range(len(t)) if 0 <= now - T[i] < nb]
        c.check(len(got) == len(want), f"animation: {len(got)} contours drawn instead of {len(want)}", now=now, nb_step=nb)
        for i in want:
            x, y = np.asarray(t[f"contour_lon_{k}"][i], "f8"), np.asarray(t[f"contour_lat_{k}"][i], "f8")
            hit = [g for g in got if g[0].shape[0] == len(x) and np.allclose(g[0], np.array([x, y]).T, atol=1e-4)]
            c.check(len(hit) >= 1, "animation: contour not drawn", now=now, i=i)
            w = (1 - (now - T[i]) / nb) * 2.5
            hit = [g for g in hit if abs(g[1] - w) < 1e-6]
            c.check(len(hit) >= 1, "animation: width of an old contour", now=now, i=i)
            if col is not None and hit:
                q = (nb - now + T[i]) / nb if col == "time" else u[i]
                near = abs(q * cm.N - round(q * cm.N)) < 1e-3
                c.check(near or any(np.allclose(g[2], cm(float(q)), atol=1e-6) for g in hit), "animation: color of a contour", now=now, got=[g[2] for g in hit], value=q)
        shown += len(want)
        if txt:
            today = sorted((round(float(t.lon[i]), 3), round(float(t.lat[i]), 3), str(t[txt][i])) for i in range(len(t)) if T[i] == now)
            m = sorted((round(float(l.get_position()[0]), 3), round(float(l.get_position()[1]), 3), l.get_text()) for l in a.mappables)
            c.check(len(m) == len(today) and all(abs(p[0] - q[0]) < 2e-3 and abs(p[1] - q[1]) < 2e-3 and p[2] == q[2] for p, q in zip(m, today)), "animation: names of eddies", now=now, got=m, expected=today)
        day = str(np.datetime64("1950-01-01") + np.timedelta64(now, "D")).replace("-", "/")
        c.check(a.txt.get_text() == day, f"animation: date {a.txt.get_text()} instead of {day}")
    c.count("contours", shown)
    if shown > 3:
        c.nontrivial(T, nb, col)
