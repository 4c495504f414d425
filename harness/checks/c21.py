"""C21 identities along time"""
import numpy as np

from harness import worlds
from harness.core import Check

CHECK = Check("C21", "sequences of 2 to 12 daily files of 0 to 14 crowded moving eddies, missed some days, tracked with 0 to 4 virtual "
              "steps by the default, overlap and Chelton trackers; non trivial when at least one track is linked over two steps; every "
              "call of the association is recorded and the recorded history replayed by an independent model of identities",
              ["the association itself is judged by C20", "positions of virtual observations are compared within the storage of a longitude"])

NAME = dict(default="RecDefault", area="RecArea", chelton="RecChelton")


def replay(c, files, log, corr, nb_virtual):
    """independent model of identities fed by the recorded associations"""
    # one track: list of nodes (file, index or None when virtual), position and attributes of the last one, displacement
    nid = 0
    of = {}  # (file, index) -> track
    T = {}
    code = {}  # identity of the library -> track
    n_virtual = n_links = rebirth = 0
    c.check(len(log) == len(files) - 1, f"{len(log)} associations for {len(files)} files")
    c.check(len(corr) == len(files) - 1, f"{len(corr)} steps stored for {len(files)} files")
    for t, call in enumerate(log):
        prev, cur = call["previous"], call["current"]
        c.check(call["same"], "association modified its inputs")
        real = files[t].obs
        c.check(len(cur) == len(files[t + 1]), "current observations are not those of the file")
        for f in cur.dtype.names:
            if f in files[t + 1].fields:
                c.equal(cur[f], files[t + 1].obs[f], f"step {t}: {f} of current observations")
        nr = len(real)
        c.check(len(prev) >= nr, "previous observations are less than those of the file")
        for f in prev.dtype.names:
            if f in files[t].fields:
                c.equal(prev[f][:nr], real[f], f"step {t}: {f} of previous observations")
        # virtual observations expected
        alive = {k: v for k, v in T.items() if 0 < t - v["last"] <= nb_virtual}
        c.check(len(prev) - nr == len(alive), f"step {t}: {len(prev) - nr} virtual observations, {len(alive)} tracks in a gap "
                f"of at most {nb_virtual} steps")
        row = {}
        if alive:
            keys = sorted(alive)
            P = np.array([[alive[k]["x"], alive[k]["y"]] + alive[k]["attr"] for k in keys], "f8")
            names = [f for f in ("amplitude", "radius_s", "radius_e") if f in prev.dtype.names]
            G = np.array([[r["lon"], r["lat"]] + [r[f] for f in names] for r in prev[nr:]], "f8")
            D = np.abs(G[:, None] - P[None])
            D[..., 0] = np.abs((D[..., 0] + 180) % 360 - 180)
            scale = np.r_[2e-3, 2e-3, [2e-3 * max(1e-9, np.abs(P[:, 2 + q]).max()) for q in range(len(names))]]
            ok = (D <= scale).all(-1)
            for g in range(len(keys)):
                cand = [k for k in np.flatnonzero(ok[g]) if keys[k] not in row.values()]
                c.check(len(cand) > 0, f"step {t}: virtual observation at {G[g, :2].tolist()} is not the continuation of a track",
                        expected=P[:, :2], got=G[:, :2])
                row[nr + g] = keys[min(cand, key=lambda k: D[g, k, 0])]
            n_virtual += len(alive)
            for f in prev.dtype.names:
                if f.startswith("contour_"):  # the overlap tracker keeps the last contour seen
                    for r, k in row.items():
                        c.equal(prev[f][r], T[k]["obs"][f], f"step {t}: {f} of virtual observation")
            # several virtual observations at the same place can't be told apart
            if (ok.sum(1) > 1).any():
                return None
        # links of the library
        L = corr[t]
        got = sorted((int(a), int(b), float(w)) for a, b, w in zip(L["in"], L["out"], L["cost_value"]))
        exp = sorted((int(a), int(b), float(np.float32(w))) for a, b, w in zip(call["i"], call["j"], call["cost"]))
        c.check(got == exp, f"step {t}: links stored are not those of the association", got=got, expected=exp)
        c.check(len({g[1] for g in got}) == len(got) and len({g[0] for g in got}) == len(got), f"step {t}: an eddy is linked twice")
        n_links += len(got)
        for l in L:
            a, b, i = int(l["in"]), int(l["out"]), int(l["id"])
            if a >= nr:
                k = row[a]
                gap = t - T[k]["last"]
                rebirth += 1
                c.check(bool(l["virtual"]), f"step {t}: link from a virtual observation is not flagged")
                c.check(int(l["virtual_length"]) == gap, f"step {t}: gap of {gap} steps stored as {l['virtual_length']}")
            else:
                if nb_virtual:
                    c.check(not l["virtual"] and int(l["virtual_length"]) == 255, f"step {t}: link between observations flagged virtual")
                k = of.get((t, a))
            if k is None:  # birth
                k = nid
                nid += 1
                c.check(i not in code, f"step {t}: a new track gets the identity {i} of an older one")
                code[i] = k
                T[k] = dict(nodes=[(t, a)], prev=(float(real["lon"][a]), float(real["lat"][a])))
                of[t, a] = k
            c.check(code.get(i) == k, f"step {t}: identity {i} given to another track")
            tr = T[k]
            tr["nodes"].append((t + 1, b))
            c.check((t + 1, b) not in of, f"observation {b} of file {t + 1} has two identities")
            of[t + 1, b] = k
            x, y = float(cur["lon"][b]), float(cur["lat"][b])
            ax, ay = (float(prev["lon"][a]), float(prev["lat"][a]))
            tr.update(last=t + 1, obs=cur[b], d=((x - ax + 180) % 360 - 180, y - ay), x=x, y=y,
                      attr=[float(cur[f][b]) for f in ("amplitude", "radius_s", "radius_e") if f in cur.dtype.names])
        # continuation of tracks without observation
        for k, v in T.items():
            if v["last"] < t + 1:
                v["x"], v["y"] = v["x"] + v["d"][0], v["y"] + v["d"][1]
    c.check(set(code) == set(range(nid)), f"identities {sorted(code)} for {nid} tracks")
    c.check(int(corr.current_id) == nid, f"next identity is {corr.current_id} after {nid} tracks")
    for v in T.values():
        d = [f for f, _ in v["nodes"]]
        c.check(len(set(d)) == len(d), "a track has two observations on a date")
    c.count("links", n_links), c.count("virtual", n_virtual), c.count("rebirth", rebirth), c.count("tracks", nid)
    return T, code, rebirth


def setup(c, kind, days=None, **kw):
    rng = c.rng
    w = worlds.world(rng, days=int(rng.integers(2, 12)) if days is None else days, kind=kind, **kw)
    names = worlds.save(w, c.tmp)
    return w, names


def run(c, kind):
    from py_eddy_tracker.tracking import Correspondances

    rng = c.rng
    cls = getattr(worlds, NAME[kind])
    w, names = setup(c, kind)
    nb_virtual = int(rng.choice([0, 1, 2, 4])) if kind != "area" else int(rng.choice([0, 0, 2]))
    kw = dict(cmin=float(rng.choice([0.05, 0.4]))) if kind == "area" and rng.random() < 0.5 else None
    given = [list(names), np.array(names), np.array(names, "S500")][rng.integers(0, 3)]
    corr = Correspondances(given, virtual=nb_virtual, class_method=cls, class_kw=kw, memory=bool(rng.random() < 0.3))
    worlds.LOG.calls.clear()
    corr.track()
    log = list(worlds.LOG.calls)
    files = [cls.load_file(f) for f in names]
    res = replay(c, files, log, corr, nb_virtual)
    if res is None:
        return
    T, code, rebirth = res
    # sizes used to assemble the tracks
    corr.prepare_merging()
    if T:
        size = {k: v["last"] - v["nodes"][0][0] + 1 for k, v in T.items()}
        c.equal(np.asarray(corr.nb_obs_by_tracks), np.array([size[code[i]] for i in range(len(code))]), "number of observations by track")
        c.check(int(corr.nb_obs) == sum(size.values()), f"{corr.nb_obs} observations to join, expected {sum(size.values())}")
        c.equal(np.asarray(corr.i_current_by_tracks), np.cumsum([0] + [size[code[i]] for i in range(len(code))])[:-1], "index of tracks")
    if any(len(v["nodes"]) > 2 for v in T.values()):
        c.nontrivial([x.obs for x in files], nb_virtual, sample=dict(files=len(names), eddies=[len(f) for f in files], tracks=len(T),
                                                                     virtual=nb_virtual, rebirth=rebirth))


@CHECK.group("default", quick=160, thorough=3000, jobs=4, warm=True)
def default(c):
    """default tracker: recorded history of associations replayed by a model of identities and virtual steps"""
    run(c, "default")


@CHECK.group("area", quick=60, thorough=1200, jobs=3, warm=True)
def area(c):
    """overlap tracker, contours of virtual observations"""
    run(c, "area")


@CHECK.group("chelton", quick=50, thorough=1000, jobs=3, warm=True)
def chelton(c):
    """Chelton tracker"""
    run(c, "chelton")
