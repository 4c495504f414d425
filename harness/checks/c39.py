"""C39 summaries and names of variables"""
import re

import numpy as np

from harness import gen, nets, ref
from harness.core import Check

CHECK = Check("C39", "random eddies, tracks and networks (empty, of one day, with virtual observations, with few variables) whose printed summaries are parsed, number by number, and "
              "compared with direct counts; variables are read by each of their names; non trivial when several bins are filled or events exist",
              ["numbers are compared at the printed precision"])


def numbers(text, label):
    """numbers printed after a label"""
    for l in text.split("\n"):
        if label in l:
            return [float(v) for v in re.findall(r"[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|nan|inf)", l.split(label, 1)[1])]
    return None


def near(c, got, exp, what, tol=0.011, rel=2e-4):
    exp = np.atleast_1d(np.asarray(exp, "f8"))
    c.check(got is not None, f"{what}: not printed")
    if got is None:
        return
    got = np.array(got[:len(exp)])
    c.check(len(got) == len(exp), f"{what}: {len(got)} numbers printed")
    if len(got) == len(exp):
        bad = ~((np.abs(got - exp) <= tol + rel * np.abs(exp)) | (np.isnan(got) & np.isnan(exp)))
        c.check(not bad.any(), f"{what}: printed {got.tolist()} instead of {exp.tolist()}")


def split(v, bins, w=None):
    """sum in each bin; the last bound belongs to the last bin"""
    v, w = np.asarray(v, "f8"), np.ones(len(v)) if w is None else np.asarray(w, "f8")
    return np.array([w[(v >= a) & ((v < b) if b != bins[-1] else (v <= b))].sum() for a, b in zip(bins[:-1], bins[1:])])


def share(v):
    with np.errstate(invalid="ignore", divide="ignore"):
        return v / v.sum() * 100


def common(c, e, text):
    t = np.asarray(e.time, "f8")
    n = len(e)
    period = t.max() - t.min() + 1
    m = re.match(r"\s*\|\s*(\d+) observations from (\S+) to (\S+) \((\S+) days, ~(\S+) obs/day\)", text)
    c.check(m is not None, "summary: first line", text=text.split("\n")[0])
    if m:
        near(c, [float(v) for v in m.groups()], [n, t.min(), t.max(), period, np.round(n / period)], "observations and period", tol=0.51 if n / period % 1 == .5 else 0.011)
    lines = text.split("Intepolated")[0]
    near(c, numbers(lines, "Speed area      :"), np.asarray(e.speed_area, "f8").sum() / period / 1e12, "speed area by day")
    near(c, numbers(lines, "Effective area  :"), np.asarray(e.effective_area, "f8").sum() / period / 1e12, "effective area by day")
    lat, amp = np.asarray(e.lat, "f8"), np.asarray(e.amplitude, "f8") * 100
    rs, re_ = np.asarray(e.radius_s, "f8") / 1000, np.asarray(e.radius_e, "f8") / 1000
    ba, br, bl = (0, 1, 2, 3, 4, 5, 10, 500), (0, 15, 30, 45, 60, 75, 100, 200, 2000), (-90, -60, -15, 15, 60, 90)
    # percents follow the title of each distribution
    a, r, l = text.index("Distribution in Amplitude"), text.index("Distribution in Radius"), text.index("Distribution in Latitude")
    near(c, numbers(text[a:r], "Percent of eddies         :"), share(split(amp, ba)), "percent by amplitude")
    part = text[r:l]
    near(c, numbers(part, "Percent of eddies         :"), share(split(rs, br)), "percent by speed radius")
    near(c, numbers(part[part.index("Effective radius"):], "Percent of eddies         :"), share(split(re_, br)), "percent by effective radius")
    part = text[l:]
    with np.errstate(invalid="ignore", divide="ignore"):
        k = split(lat, bl)
        near(c, numbers(part, "Percent of eddies         :"), share(k), "percent by latitude")
        near(c, numbers(part, "Percent of speed area     :"), share(split(lat, bl, e.speed_area)), "percent of speed area by latitude")
        near(c, numbers(part, "Percent of effective area :"), share(split(lat, bl, e.effective_area)), "percent of effective area by latitude")
        near(c, numbers(part, "Mean speed radius (km)    :"), split(lat, bl, rs) / k, "mean speed radius by latitude")
        near(c, numbers(part, "Mean effective radius (km):"), split(lat, bl, re_) / k, "mean effective radius by latitude")
        near(c, numbers(part, "Mean amplitude (cm)       :"), split(lat, bl, amp) / k, "mean amplitude by latitude")
    return period, (k > 0).sum()


def away(e):
    """no value on the bound of a bin"""
    for f, k, b in (("amplitude", 100, (1, 2, 3, 4, 5, 10)), ("radius_s", 1e-3, (15, 30, 45, 60, 75, 100, 200)), ("radius_e", 1e-3, (15, 30, 45, 60, 75, 100, 200)), ("lat", 1, (-60, -15, 15, 60))):
        v = np.asarray(e[f], "f8") * k
        if len(v) and min(np.abs(v - x).min() for x in b) < 1e-4:
            return False
    return True


def scales(rng, e):
    """sizes in every bin"""
    e["amplitude"][:] = rng.choice([0.005, 0.02, 0.06, 0.3], len(e)) * rng.uniform(0.6, 1.4, len(e))
    for k in "se":
        e[f"radius_{k}"][:] = rng.choice([1e4, 4e4, 9e4, 3e5], len(e)) * rng.uniform(0.6, 1.4, len(e))
    for f in ("speed_area", "effective_area"):
        e[f][:] = rng.uniform(1e9, 1e11, len(e))


@CHECK.group("eddies", quick=60, thorough=1500)
def eddies(c):
    """summary of eddies and tracks: period, areas, distributions, lifetimes and distances are those of the observations"""
    rng = c.rng
    track = rng.random() < 0.5
    if rng.random() < 0.1:
        e = (gen.tracks(rng, 2) if track else gen.eddies(rng, 3))
        e = e.extract_with_mask(np.zeros(len(e), bool))
        c.check(re.match(r"\s*\|\s*0 observations from nan to nan", repr(e)) is not None, "summary of an empty dataset", text=repr(e)[:200])
        c.check("0 observations" in e._repr_html_() and e.get_infos()["nb_obs"] == 0, "infos of an empty dataset")
        return
    lat = [(-80, 80), (20, 50), (-14, 14)][rng.integers(3)]
    if track:
        e = gen.tracks(rng, int(rng.integers(1, 12)), max_len=int(rng.choice([3, 12, 60])), first_id=int(rng.integers(0, 3)), lat_range=lat)
        e["virtual"][:] = rng.random(len(e)) < rng.choice([0, 0.2])
    else:
        e = gen.eddies(rng, int(rng.integers(1, 60)), lat_range=lat)
        e.time[:] = 20000 + rng.integers(0, int(rng.choice([1, 10, 1000])), len(e))
    scales(rng, e)
    if not away(e):
        return
    before = e.obs.tobytes()
    text = repr(e)
    c.check(before == e.obs.tobytes(), "data changed by a summary")
    period, nb = common(c, e, text)
    i = e.get_infos()
    c.check(i["nb_obs"] == len(e) and i["t0"] == e.time.min() and i["t1"] == e.time.max() and i["period"] == period, "get_infos", infos=str(i))
    c.check(f"{len(e)} observations from {e.time.min()} to {e.time.max()}" in e._repr_html_(), "html summary")
    if track:
        t = np.asarray(e.track).astype(int)
        ids, k = np.unique(t, return_counts=True)
        v = np.asarray(e["virtual"]) != 0
        near(c, numbers(text, "    | "), None or [len(e)], "observations")
        m = re.search(r"\| (\d+) tracks \(\s*(\S+) obs/tracks, shorter (\d+) obs, longer (\d+) obs\)", text)
        c.check(m is not None, "summary of tracks")
        if m:
            near(c, [float(x) for x in m.groups()], [len(ids), len(e) / len(ids), k.min(), k.max()], "number and size of tracks")
        m = re.search(r"\|\s+(\d+) filled observations \((\S+) obs/tracks, (\S+) % of total\)", text)
        c.check(m is not None, "summary of filled observations")
        if m:
            near(c, [float(x) for x in m.groups()], [v.sum(), v.sum() / len(ids), v.mean() * 100], "filled observations")
        near(c, numbers(text, "Intepolated speed area      :"), np.asarray(e.speed_area, "f8")[v].sum() / period / 1e12, "filled speed area")
        near(c, numbers(text, "Intepolated effective area  :"), np.asarray(e.effective_area, "f8")[v].sum() / period / 1e12, "filled effective area")
        x, y = np.asarray(e.lon, "f8"), np.asarray(e.lat, "f8")
        d = [np.array([ref.haversine(x[a], y[a], x[a + 1], y[a + 1]) / 1000 for a in np.where(t == j)[0][:-1]]) for j in ids]
        step, total = np.concatenate(d), np.array([a.sum() for a in d])
        if len(step):
            for l, w in (("Distance by day             :", step), ("Distance by track           :", total)):
                got = numbers(text, l)
                near(c, got, [w.mean(), np.median(w)], l.strip(" :"), rel=2e-3)
        bt = (1, 30, 90, 180, 270, 365, 1000, 10000)
        part = text[text.index("Distribution in lifetime"):]
        near(c, numbers(part, "Percent of tracks         :"), share(split(k, bt)), "percent of tracks by lifetime")
        near(c, numbers(part, "Percent of eddies         :"), share(split(k, bt, k)), "percent of eddies by lifetime")
        nb += len(ids) > 1
    if nb > 1:
        c.nontrivial(np.asarray(e.lat), np.asarray(e.time))


@CHECK.group("networks", quick=60, thorough=1500)
def networks(c):
    """summary of networks: numbers of networks, segments, observations, events and trash are those of the link graph"""
    rng = c.rng
    n = nets.synthetic(rng)
    if rng.random() < 0.1:
        n = n.extract_with_mask(np.zeros(len(n), bool))
        text = repr(n)
        c.check([int(v) for v in re.findall(r"(?<![\d.])(\d+) (?:networks|segments|observations|merging|splitting)\b", text)] == [0] * 8 and n.infos() == "0 obs 0 segments",
                "summary of an empty network", text=text)
        return
    if not len(n) or n.time.min() == n.time.max():
        return
    t, s = np.asarray(n.track).astype(int), np.asarray(n.segment).astype(int)
    nx, pv = np.asarray(n.next_obs).astype(int), np.asarray(n.previous_obs).astype(int)
    years = (float(n.time.max()) - float(n.time.min())) / 365.25
    text = repr(n)
    m = re.search(r"Atlas with (\d+) networks \((\S+) networks/year\), (\d+) segments \((\S+) segments/year\), (\d+) observations \((\S+) observations/year\)", text)
    c.check(m is not None, "summary of networks", text=text)
    segs = set(zip(t.tolist(), s.tolist()))
    nb = len(set(t.tolist()))
    if m:
        near(c, [float(x) for x in m.groups()], [nb, nb / years, len(segs), len(segs) / years, len(n), len(n) / years], "networks, segments and observations", tol=0.51)
    key = list(zip(t.tolist(), s.tolist()))
    last = [max(i for i in range(len(n)) if key[i] == k) for k in segs]
    first = [min(i for i in range(len(n)) if key[i] == k) for k in segs]
    # an event by observation where segments join or leave
    merging, splitting = {int(nx[i]) for i in last if nx[i] != -1}, {int(pv[i]) for i in first if pv[i] != -1}
    m = re.search(r"(\d+) merging \((\S+) merging/year\), (\d+) splitting \((\S+) splitting/year\)", text)
    c.check(m is not None, "summary of events")
    if m:
        k, l = len([i for i in last if nx[i] != -1]), len([i for i in first if pv[i] != -1])
        got = [float(x) for x in m.groups()]
        c.check(len(merging) <= got[0] <= k and len(splitting) <= got[2] <= l, "summary: number of events", got=got, merging=k, splitting=l)
        near(c, [got[1], got[3]], [got[0] / years, got[2] / years], "events by year", tol=0.51)
    sizes = np.array([(t == k).sum() for k in set(t.tolist())])
    m = re.search(r"with (\d+) network with more than 50000 obs and the biggest have (\d+) observations \((\d+) observations cumulate\)", text)
    c.check(m is not None, "summary of sizes")
    if m:
        near(c, [float(x) for x in m.groups()], [0, sizes.max(), 0], "sizes of networks")
    m = re.search(r"(\d+) observations in trash", text)
    c.check(m is not None and int(m[1]) == (t == 0).sum(), "summary: observations in trash", text=text)
    k = int(rng.choice(t))
    o = n.network(k)
    c.check(o.infos() == f"{(t == k).sum()} obs {len(set(s[t == k].tolist()))} segments", f"infos: {o.infos()}")
    if merging or splitting:
        c.nontrivial(t, nx, pv)


@CHECK.group("names", quick=60, thorough=1000)
def names(c):
    """each variable is the same by its internal and public names, and the table of variables lists them all with their units"""
    from py_eddy_tracker import VAR_DESCR

    rng = c.rng
    k = int(rng.integers(3))
    e = [lambda: gen.eddies(rng, int(rng.integers(0, 8))), lambda: gen.tracks(rng, int(rng.integers(1, 4))), lambda: nets.synthetic(rng)][k]()
    if rng.random() < 0.4:
        drop = [str(f) for f in rng.choice([f for f in e.fields if f in ("amplitude", "num_point_e", "lon_max", "uavg_profile", "contour_lon_s", "radius_e")], 2)]
        full, e = e, e.remove_fields(*drop)
        c.check(set(e.fields) == set(full.fields) - set(drop), "fields removed")
        for f in drop:
            c.raises(lambda: e[f], "removed variable is still read", exc=KeyError)
            c.check(not hasattr(e, f), "removed variable is still an attribute")
    public = set()
    for f in e.fields:
        p = VAR_DESCR[f].get("nc_name", f)
        public.add(p)
        for name in (f, p):
            v = e[name]
            c.check(np.shares_memory(v, e.obs[f]) or v.size == 0, f"{name} is not the variable stored as {f}")
            c.equal(v, e.obs[f], f"{name}")
            if name not in dir(type(e)):
                c.equal(getattr(e, name), e.obs[f], f"attribute {name}")
        c.check({f, p} <= set(dir(e)), f"{f} not listed by dir")
    c.raises(lambda: e["not_a_variable"], "an unknown variable is read", exc=KeyError)
    c.raises(lambda: e.not_a_variable, "an unknown attribute is read", exc=AttributeError)
    rows = e.field_table().values
    c.check(len(rows) == len(e.fields) + 1, f"table of {len(rows) - 1} variables for {len(e.fields)} fields")
    exp = sorted(f"{VAR_DESCR[f].get('nc_name', f)} ({VAR_DESCR[f]['nc_attr'].get('units', '')})" for f in e.fields)
    c.check(sorted(r[0] for r in rows[1:]) == exp, "names and units of the table")
    html = e.field_table()._repr_html_()
    c.check(html.count("<tr>") == len(rows) and all(p in html for p in exp), "table as html")
    c.check(e.sign_legend == ("Anticyclonic" if e.sign_type == 1 else "Cyclonic"), "legend of rotation")
    c.nontrivial(k, sorted(e.fields), len(e))
