"""C40 interactive viewers"""
import os

import matplotlib
import numpy as np

from harness import gen
from harness.core import Check

CHECK = Check("C40", "random sets of tracks (one to three, gaps, several samplings of contours) driven by keys, scroll, drag and hover events without screen; what is drawn after each event is compared with "
              "the observations of the date; non trivial when eddies are drawn",
              ["the canvas is an image (agg), events are built by the harness", "tracks do not cross the border of the map"])


class Event:
    def __init__(self, **kw):
        self.__dict__.update(dict(key=None, button=None, inaxes=None, x=0, y=0, xdata=0, ydata=0, canvas=None, guiEvent=None, name=""), **kw)


def lines(x, y):
    """pieces of a line cut by nan"""
    x, y = np.asarray(x, "f8"), np.asarray(y, "f8")
    out, cur = [], []
    for a, b in zip(x, y):
        if np.isnan(a) or np.isnan(b):
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append((round(float(a), 3), round(float(b), 3)))
    return sorted(out + [cur] if cur else out)


def piece(x, y):
    return [(round(float(a), 3), round(float(b), 3)) for a, b in zip(np.asarray(x, "f8"), np.asarray(y, "f8"))]


def same(a, b):
    """same pieces, coordinates within rounding"""
    a, b = sorted(a), sorted(b)
    return len(a) == len(b) and all(len(p) == len(q) and np.allclose(p, q, atol=2e-3) for p, q in zip(a, b))


def atlases(rng, k=None, sampling=None):
    k = int(rng.integers(1, 4)) if k is None else k
    out = {}
    for i in range(k):
        out["ABC"[i]] = gen.tracks(rng, int(rng.integers(1, 6)), max_len=int(rng.choice([4, 12])), t0=20000 + int(rng.integers(0, 6)), sampling=sampling or int(rng.choice([8, 20, 50])),
                                   time_gaps=bool(rng.random() < 0.4), lon_range=(10, 60), lat_range=(-20, 20), first_id=int(rng.integers(0, 3)))
    return out


def verify(c, g, sets, what):
    """what is drawn belongs to the date and the window, and nothing else"""
    now = g.now
    (x0, x1), (y0, y1) = g.map.get_xlim(), g.map.get_ylim()
    names, total = [], 0
    counts = []
    for name, e in sets.items():
        lon, lat, t, tr = np.asarray(e.lon, "f8"), np.asarray(e.lat, "f8"), np.asarray(e.time, "f8"), np.asarray(e.track)
        edge = min((np.abs(lon - v).min() for v in (x0, x1)), default=1) < 1e-4 or min((np.abs(lat - v).min() for v in (y0, y1)), default=1) < 1e-4
        if edge:
            return None
        i = np.flatnonzero((t == now) & (lon > x0) & (lon < x1) & (lat > y0) & (lat < y1))
        total += len(i)
        counts.append(str(len(i)))
        m = g.m[name]
        for s in "se":
            want = [piece(e[f"contour_lon_{s}"][k], e[f"contour_lat_{s}"][k]) for k in i]
            c.check(same(lines(*m[f"contour_{s}"].get_data()), want), f"{what}: contours {s} of {name}", now=now, n=len(i))
        c.check(m["contour_s"].get_label() == f"{name} {len(i)} eddies", f"{what}: legend {m['contour_s'].get_label()}", n=len(i))
        for key, sel in (("path_previous", t <= now), ("path_future", t >= now)):
            want = [piece(lon[w], lat[w]) for w in (np.flatnonzero(sel & (tr == k)) for k in sorted(set(tr[i].tolist()))) if len(w)]
            c.check(same(lines(*m[key].get_data()), want), f"{what}: {key} of {name}", now=now)
        names += [(round(float(lon[k]), 2), round(float(lat[k]), 2), int(e.n[k])) for k in i]
    got = sorted((round(float(v.get_position()[0]), 2), round(float(v.get_position()[1]), 2), int(float(v.get_text()))) for v in g.m["texts"])
    c.check(len(got) == len(names) and all(abs(a[0] - b[0]) < .03 and abs(a[1] - b[1]) < .03 and a[2] == b[2] for a, b in zip(got, sorted(names))), f"{what}: numbers of observations", got=got, expected=names)
    day = np.datetime64("1950-01-01") + np.timedelta64(int(now), "D")
    txt = g.m["time_text"].get_text().split("\n")
    d = day.astype(object)
    c.check(txt == [f"{d.day:02d}/{d.month:02d}/{d.year}"] + counts, f"{what}: date and counts {txt}")
    c.check(float(np.atleast_1d(g.m["time_vline"].get_data()[0])[0]) == now, f"{what}: line of the date")
    return total


@CHECK.group("viewer", quick=40, thorough=500)
def viewer(c):
    """the viewer shows contours, whole paths and numbers of the eddies of the date in the window, after any sequence of keys, scrolls and drags"""
    matplotlib.use("agg")
    from matplotlib import pyplot

    from py_eddy_tracker.gui import GUI

    rng = c.rng
    sets = atlases(rng)
    before = {k: e.obs.tobytes() for k, e in sets.items()}
    g = GUI(**sets)
    t0, t1 = min(float(e.time.min()) for e in sets.values()), max(float(e.time.max()) for e in sets.values())
    c.check(tuple(g.period) == (t0, t1) and g.now == t1, "period of the viewer")
    shown = 0
    try:
        g.bbox = (0, 75, -35, 35)
        c.check(g.bbox == ((0, 75), (-35, 35)), "window")
        g.update()
        now = t1
        n = verify(c, g, sets, "first view")
        for k in range(int(rng.integers(4, 9))):
            a = str(rng.choice(["up", "down", "pageup", "pagedown", "home", "end", "scroll", "drag", "window", "other"]))
            if a == "scroll":
                d = str(rng.choice(["up", "down"]))
                inside = bool(rng.random() < 0.8)
                g.scroll(Event(inaxes=g.map if inside else g.time_ax, button=d))
                now += (1 if d == "up" else -1) * inside
            elif a == "drag":
                to = float(rng.integers(t0, t1 + 1)) + float(rng.choice([0.2, 0.6]))
                p = g.time_ax.transData.transform((now, 0.5))
                ev = Event(inaxes=g.time_ax, x=p[0], y=p[1], xdata=now, ydata=0.5, canvas=g.figure.canvas)
                if not g.m["time_vline"].contains(ev)[0]:
                    continue
                g.press(ev)
                g.move(Event(inaxes=g.time_ax, xdata=to, ydata=0.5))
                g.release(Event(inaxes=g.time_ax))
                now = float(int(to))
            elif a == "window":
                x, y = np.sort(rng.uniform(5, 65, 2)), np.sort(rng.uniform(-25, 25, 2))
                g.bbox = (x[0], x[1] + 1, y[0], y[1] + 1)
                g.update()
            elif a == "other":
                g.keyboard(Event(key="q"))
            else:
                g.keyboard(Event(key=a))
                now = dict(home=t0, end=t1).get(a, now + dict(up=1, down=-1, pageup=5, pagedown=-5).get(a, 0))
            c.check(g.now == now, f"date {g.now} instead of {now} after {a}")
            n = verify(c, g, sets, f"after {a}")
            shown += n or 0
        state = bool(rng.integers(2))
        g.hide_path(state)
        c.check(all(g.m[k][p].get_visible() == state for k in sets for p in ("path_previous", "path_future")), "paths hidden")
        c.check(all(before[k] == e.obs.tobytes() for k, e in sets.items()), "data changed by the viewer")
    finally:
        pyplot.close(g.figure)
    c.count("eddies_shown", shown)
    if shown:
        c.nontrivial(sorted(before.values()), shown)


@CHECK.group("hover", quick=40, thorough=500)
def hover(c):
    """the mouse on a contour describes this eddy and its track; elsewhere nothing is described"""
    matplotlib.use("agg")
    from matplotlib import pyplot

    from py_eddy_tracker.gui import GUI

    rng = c.rng
    sets = atlases(rng)
    g = GUI(**sets)
    hits = 0
    try:
        g.bbox = (0, 75, -35, 35)
        name = str(rng.choice(sorted(sets)))
        e = sets[name]
        g.now = float(rng.choice(e.time))
        g.update()
        todo = [(n, k) for n, s in sets.items() for k in np.flatnonzero(s.time == g.now)]
        rng.shuffle(todo)
        for n, k in todo[:4]:
            n, k = str(n), int(k)
            s = sets[n]
            x, y = np.asarray(s.contour_lon_s[k], "f8"), np.asarray(s.contour_lat_s[k], "f8")
            j = int(rng.integers(0, len(x)))
            p = g.map.transData.transform((x[j], y[j]))
            ev = Event(inaxes=g.map, x=p[0], y=p[1], xdata=x[j], ydata=y[j], canvas=g.figure.canvas)
            # only one contour below the mouse
            near = [(m, int(q)) for m, o in sets.items() for q in np.flatnonzero(o.time == g.now)
                    if np.hypot(*(g.map.transData.transform(np.array([o.contour_lon_s[q], o.contour_lat_s[q]], "f8").T) - p).T).min() < 40]
            if near != [(n, k)]:
                continue
            g.move(ev)
            txt = g.m["annotate"].get_text()
            c.check(g.m["annotate"].get_visible() and g.m["mini_ax"].get_visible(), "no description of the eddy below the mouse", sets=len(sets))
            r = np.flatnonzero(s.track == s.track[k])
            c.check(txt.startswith(f"--{n}--"), "name of the atlas", text=txt)
            c.check(f"Tracks : {int(s.track[k])}  {int(s.n[k])}/{len(r) - 1} " in txt, f"track described instead of {int(s.track[k])}", text=txt)
            for label, f, q, u in (("Amp.", "amplitude", 100, "cm"), ("S. radius", "radius_s", 1e-3, "km"), ("E. radius", "radius_e", 1e-3, "km")):
                v = np.asarray(s[f][r], "f8") * q
                l = [l for l in txt.split("\n") if l.strip().startswith(label)]
                c.check(len(l) == 1, f"description without {label}")
                w = [float(a) for a in l[0].split(":")[1].replace(u, " ").replace("(", " ").replace(")", " ").replace("<-", " ").replace("->", " ").replace("+-", " ").split()] if l else []
                c.check(len(w) == 5 and np.allclose(w, [float(s[f][k]) * q, v.min(), v.max(), v.mean(), v.std()][:1] + [v.min(), v.mean(), v.std(), v.max()], atol=0.0501 + 1e-5 * v.max()),
                        f"description: {label}", text=l, track=v.tolist())
            a = g.m[n]["mini_line"].get_data()
            c.check(np.allclose(a[0], s.time[r]) and np.allclose(a[1], s.radius_s[r] / 1e3), "series of radius of the track")
            c.check(all(len(g.m[o]["mini_line"].get_data()[0]) == 0 for o in sets if o != n), "series of another atlas")
            hits += 1
            if rng.random() < 0.5:
                p = g.map.transData.transform((72, 33))
                g.move(Event(inaxes=g.map, x=p[0], y=p[1], xdata=72, ydata=33, canvas=g.figure.canvas))
                c.check(not g.m["annotate"].get_visible() and not g.m["mini_ax"].get_visible(), "description kept away from any eddy")
    finally:
        pyplot.close(g.figure)
    c.count("eddies_described", hits)
    if hits:
        c.nontrivial(hits, g.now, np.asarray(e.lon))


def recorder():
    from py_eddy_tracker.appli import gui

    class Recording(gui.Anim):
        """what is visible after each update"""
        made = []

        def __init__(self, *args, **kw):
            self.seen, self.hues = [], []
            Recording.made.append(self)
            super().__init__(*args, **kw)

        def update(self):
            super().update()
            lw, paths = np.atleast_1d(self.contour.get_linewidth()), self.contour.get_paths()
            shown = [i for i in range(len(paths)) if float(lw[i % len(lw)]) > 1e-9]
            rgba = np.atleast_2d(self.contour.get_edgecolor())
            self.rgba = [rgba[i % len(rgba)] if len(rgba) in (1, len(paths)) else None for i in shown]
            self.hues.append(self.rgba)
            self.seen.append((float(self.now), [np.asarray(p.vertices, "f8") for i, p in enumerate(paths) if float(lw[i % len(lw)]) > 1e-9], [v.get_text() for v in self.mappables]))

    return gui, Recording


def rings(c, got, e, x, y, want, need, what, hue=None, exp=None):
    """contours drawn are those of the observations need, and at most those of want; exp: color of each observation"""
    a = [piece(*p.T) for p in got]
    if exp is not None:
        for p, h in zip(a, hue):
            same = [i for i in want if len(p) == len(q := piece(x[i], y[i])) and np.allclose(p, q, atol=2e-3)]
            c.check(not same or (h is not None and any(np.allclose(h, q, atol=1e-3) for i in same for q in exp(i))), f"{what}: color of a contour", got=h)
            c.count("colors", len(same) > 0)
    w = {int(i): piece(x[i], y[i]) for i in want}
    left = list(a)
    for i in want:
        k = [j for j, p in enumerate(left) if len(p) == len(w[i]) and np.allclose(p, w[i], atol=2e-3)]
        if k:
            left.pop(k[0])
        else:
            c.check(i not in need, f"{what}: contour not drawn", i=int(i))
    c.check(not left, f"{what}: {len(left)} contours of other dates")


@CHECK.group("steps", quick=30, thorough=400)
def steps(c):
    """going forward and back step by step, each date shows its own eddies and only the asked number of last steps"""
    matplotlib.use("agg")
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    from matplotlib.figure import Figure

    rng = c.rng
    gui, Recording = recorder()
    e = atlases(rng, 1, sampling=8)["A"]
    nb, col = int(rng.integers(1, 6)), [None, "time", "lon"][rng.integers(3)]
    f = Figure(figsize=(2, 2), dpi=40)
    FigureCanvasAgg(f)
    a = Recording(e, figure=f, nb_step=nb, field_color=col, field_txt="track", sleep_event=1e-6)
    T, x, y = np.asarray(e.time, "f8"), np.asarray(e.contour_lon_e, "f8"), np.asarray(e.contour_lat_e, "f8")
    t0, t1 = float(T.min()), float(T.max())
    lut = matplotlib.colormaps["jet"]
    L = np.asarray(e.lon, "f4")
    span = float(L.max() - L.min()) or 1

    def paint(now):
        if col is None:
            return lambda i: [matplotlib.colors.to_rgba("gray")]
        # limits between two colors are not judged
        v = (lambda i: (nb - now + T[i]) / nb) if col == "time" else (lambda i: float(L[i] - L.min()) / span)
        return lambda i: lut([float(v(i)) + d for d in (-1e-5, 0, 1e-5)])

    if rng.random() < 0.5:
        # the whole loop
        import warnings

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            a.show()
        days = [s[0] for s in a.seen]
        c.check(set(np.arange(t0, t1 + 1)) <= set(days), f"dates {sorted(set(np.arange(t0, t1 + 1)) - set(days))} are never shown")
        c.check(days == sorted(set(days)), "order of the dates")
        for (now, got, txt), hue in zip(a.seen, a.hues):
            want = np.flatnonzero((now - T >= 0) & (now - T < nb))
            rings(c, got, e, x, y, want, set(want.tolist()), f"date {now - t0} of {t1 - t0}", hue, paint(now))
            c.check(sorted(txt) == sorted(str(v) for v in e.track[T == now]), "names of the eddies of the date")
        c.nontrivial(T, nb, col)
        return
    a.now = t0 - 1
    a.bg_cache = f.canvas.copy_from_bbox(a.ax.bbox)
    a.keyboard(Event(key=" "))
    c.check(a.pause is True, "pause")
    now, first, moves = t0 - 1, -np.inf, []
    for k in range(int(rng.integers(6, 25))):
        key = str(rng.choice(["right", "right", "right", "left"]))
        moves.append(key)
        a.keyboard(Event(key=key))
        now += 1 if key == "right" else -1
        c.check(a.now == now, f"date {a.now} instead of {now}", moves=moves)
        s = a.seen[-1]
        want = np.flatnonzero((now - T >= 0) & (now - T < nb))
        # oldest steps are not drawn again after a move back
        need = set(want.tolist()) if "left" not in moves else set(np.flatnonzero(T == now).tolist())
        rings(c, s[1], e, x, y, want, need, f"{'back' if key == 'left' else 'forward'}", a.rgba, paint(now))
        c.check(sorted(s[2]) == sorted(str(v) for v in e.track[T == now]), "names of the eddies of the date", moves=moves)
    w = a.sleep_event
    a.keyboard(Event(key="+"))
    c.check(a.sleep_event < w, "speed increased")
    a.keyboard(Event(key="-"))
    a.keyboard(Event(key="-"))
    c.check(a.sleep_event > w * 0.9, "speed decreased")
    a.keyboard(Event(key=" "))
    c.check(a.pause is False, "pause released")
    if "left" in moves and "right" in moves:
        c.nontrivial(T, nb, col, moves)


@CHECK.group("command", quick=12, thorough=120)
def command(c):
    """EddyAnim and GUIEddy show the asked tracks, centered on the first one if asked, from the first to the last date"""
    matplotlib.use("agg")
    import sys
    import warnings

    from matplotlib import pyplot

    rng = c.rng
    gui, Recording = recorder()
    e = atlases(rng, 1, sampling=8)["A"]
    e.lon[:] += 330
    for k in "se":
        e[f"contour_lon_{k}"][:] += 330
    turn = 360 * rng.integers(-1, 1, len(e))
    e.lon[:] += turn
    for k in "se":
        e[f"contour_lon_{k}"][:] += turn[:, None]
    f = os.path.join(c.tmp, "t.nc")
    e.write_file(filename=f)
    argv, anim, viewer, writer = sys.argv, gui.Anim, gui.GUI, gui.FuncAnimation

    class Movie:
        """stands for the encoder of movies: draws each frame"""

        def __init__(self, fig, func, frames, **kw):
            self.func, self.frames = func, frames

        def save(self, path, **kw):
            for v in self.frames:
                self.func(v)

    intern, center, every = (bool(v) for v in rng.random(3) < 0.5)
    ids = sorted(set(e.track.tolist()))
    ids = ids if every else [int(v) for v in rng.choice(ids, int(rng.integers(1, len(ids) + 1)), replace=False)]
    nb = int(rng.integers(1, 6))
    movie = rng.random() < 0.4
    args = [f, "--keep_step", str(nb), "--time_sleep", "1e-6", "-v", "ERROR"] + (["--all"] if every else [str(v) for v in ids])
    args += ["--intern"] * intern + ["--first_centered"] * center + (["--mp4", os.path.join(c.tmp, "t.mp4")] if movie else [])
    Recording.made.clear()
    try:
        sys.argv = ["EddyAnim"] + (args if every else [args[0], *args[7:7 + len(ids)], *args[1:7], *args[7 + len(ids):]])
        gui.Anim, gui.FuncAnimation = Recording, Movie
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            gui.anim()
        a = Recording.made[-1]
        shown = []
        gui.GUI = type("V", (viewer,), dict(show=lambda s: (s.update(), shown.append(s)) and None))
        sys.argv = ["GUIEddy", f, "-v", "ERROR"] + ["--med"] * intern + ["--nopath"] * center
        gui.guieddy()
        g = shown[-1]
    finally:
        sys.argv, gui.Anim, gui.GUI, gui.FuncAnimation = argv, anim, viewer, writer
        pyplot.close("all")
    r = np.flatnonzero(np.isin(e.track, ids))
    k = "s" if intern else "e"
    T, x, y = np.asarray(e.time, "f8")[r], np.asarray(e[f"contour_lon_{k}"], "f8")[r], np.asarray(e[f"contour_lat_{k}"], "f8")[r]
    lon = np.asarray(e.lon, "f8")[r]
    if center:
        new = (lon - lon[0] + 180) % 360 + lon[0] - 180
        x, lon = x + (new - lon)[:, None], new
    days = sorted({s[0] for s in a.seen})
    c.check(set(np.arange(T.min(), T.max() + 1)) <= set(days), f"dates {sorted(set(np.arange(T.min(), T.max() + 1)) - set(days))} are never shown", movie=bool(movie))
    for now, got, txt in a.seen:
        want = np.flatnonzero((now - T >= 0) & (now - T < nb))
        # contours are packed in files
        w = [np.array([x[i], y[i]]).T for i in want]
        c.check(len(got) == len(w) and all(any(p.shape == q.shape and np.allclose(p, q, atol=0.021) for p in got) for q in w), "contours of the tracks asked", now=now, got=len(got), want=len(w))
        c.check(sorted(txt) == sorted(str(v) for v in e.track[r][T == now]), "names of the tracks asked")
    c.check(len(g.datasets) == 1 and all(len(v) == len(e) and np.array_equal(v.track, e.track) for v in g.datasets.values()), "atlas of the viewer")
    c.check(all(g.m[n]["path_previous"].get_visible() is not center for n in g.datasets), "option nopath")
    if intern:
        c.check(g.bbox == ((-6, 37), (30, 46)), "option med")
    c.nontrivial(T, nb, intern, center)
