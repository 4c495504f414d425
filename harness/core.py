"""Common machinery of the runtime monitors.

A check is a set of *groups*; a group is a function run on many generated *cases*.  Every case drives
the real code of /repo and lets oracles (monitors) observe the execution; ``case.check`` is the deciding
step.  Cases are a pure function of (VERIF_SEED, group name, case index), so a violation is replayed with
``./run.sh <ID> --replay <file>``.

Groups run in forked worker processes (one per group slice) under a watchdog: a case that crashes the
interpreter (SIGSEGV, SIGABRT, SIGBUS, SIGFPE) or never ends is a violation as well.
"""
import hashlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PET_REPO", "/repo")
SRC = os.path.join(REPO, "src")
CASE_TIMEOUT = 240.0


class Violation(Exception):
    def __init__(self, msg, key=None, data=None):
        super().__init__(msg)
        self.msg, self.key, self.data = msg, key, data


def jsonable(o, depth=0):
    import numpy as np

    if depth > 6:
        return repr(o)[:200]
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(o.items())[:60]}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(o)[:60]]
    if isinstance(o, np.ma.MaskedArray):
        return jsonable(o.filled(np.nan) if o.dtype.kind == "f" else o.tolist(), depth + 1)
    if isinstance(o, np.ndarray):
        if o.size > 400:
            return {"shape": list(o.shape), "head": jsonable(o.ravel()[:40].tolist(), depth + 1)}
        return jsonable(o.tolist(), depth + 1)
    if isinstance(o, np.generic):
        return jsonable(o.item(), depth + 1)
    if isinstance(o, float):
        return o if o == o and abs(o) != float("inf") else repr(o)
    if isinstance(o, (int, str, bool)) or o is None:
        return o
    return repr(o)[:400]


def digest(*objs):
    import numpy as np

    h = hashlib.blake2b(digest_size=12)

    def feed(o):
        if isinstance(o, np.ma.MaskedArray):
            feed(np.ma.getmaskarray(o))
            feed(o.filled(0))
        elif isinstance(o, np.ndarray):
            h.update(str((o.dtype.str, o.shape)).encode())
            h.update(np.ascontiguousarray(o).tobytes())
        elif isinstance(o, (list, tuple)):
            for x in o:
                feed(x)
        elif isinstance(o, dict):
            for k in sorted(o, key=str):
                h.update(str(k).encode())
                feed(o[k])
        else:
            h.update(repr(o).encode())

    for o in objs:
        feed(o)
    return h.hexdigest()


class Case:
    """One execution observed by the monitors"""

    def __init__(self, check, group, index, seed, tier, tmp):
        import numpy as np

        self.id, self.group, self.index, self.seed, self.tier = check, group, index, seed, tier
        self.rng = np.random.default_rng([seed, zlib.crc32(group.encode()), index])
        self.tmp_root = tmp
        self._tmp = None
        self.events = {}
        self.key = None
        self.sample = None
        self.data = {}
        self.known = []
        self.trace = None  # list of the observed values, for the sanitizers

    @property
    def thorough(self):
        return self.tier == "thorough"

    @property
    def tmp(self):
        """scratch directory of this case, removed afterwards"""
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="case_", dir=self.tmp_root)
        return self._tmp

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)

    def count(self, name, n=1):
        """number of monitored events"""
        self.events[name] = self.events.get(name, 0) + int(n)

    def nontrivial(self, *key, sample=None):
        """declare the case non trivial, identified by the digest of its inputs"""
        self.key = digest(key)
        if sample is not None:
            self.sample = sample

    def check(self, cond, msg, key=None, **data):
        self.count("oracle_decisions")
        import numpy as np

        if self.trace is not None:
            self.trace.append((msg, None))
        if not (cond if isinstance(cond, bool) else bool(np.all(cond))):
            self.data.update(data)
            raise Violation(msg, key, dict(self.data))

    def close(self, a, b, msg, rtol=1e-9, atol=1e-12, key=None, **data):
        """element-wise closeness, nan at the same places"""
        import numpy as np

        a, b = np.asarray(a), np.asarray(b)
        if self.trace is not None:
            self.trace.append((msg, a.copy()))
        if a.shape != b.shape:
            self.check(False, f"{msg}: shapes {a.shape} and {b.shape}", key=key, got=a, expected=b, **data)
        ok = np.isclose(a.astype("f8"), b.astype("f8"), rtol=rtol, atol=atol, equal_nan=True)
        if not ok.all():
            i = tuple(int(k) for k in np.argwhere(~ok)[0]) if ok.ndim else ()
            self.check(False, f"{msg}: {int((~ok).sum())}/{ok.size} differ, first at {i}: got {a[i]!r} expected {b[i]!r}",
                       key=key, got=a, expected=b, **data)
        self.count("oracle_decisions")
        self.count("values_compared", a.size)

    def equal(self, a, b, msg, key=None, **data):
        import numpy as np

        a, b = np.asarray(a), np.asarray(b)
        if self.trace is not None:
            self.trace.append((msg, a.copy()))
        if a.shape != b.shape:
            self.check(False, f"{msg}: shapes {a.shape} and {b.shape}", key=key, got=a, expected=b, **data)
        if a.dtype.kind == "f" and b.dtype.kind == "f":
            ok = (a == b) | ((a != a) & (b != b))
        else:
            ok = a == b
        ok = np.asarray(ok)
        if not ok.all():
            i = tuple(int(k) for k in np.argwhere(~ok)[0]) if ok.ndim else ()
            self.check(False, f"{msg}: {int((~ok).sum())}/{ok.size} differ, first at {i}: got {a[i]!r} expected {b[i]!r}",
                       key=key, got=a, expected=b, **data)
        self.count("oracle_decisions")
        self.count("values_compared", a.size)

    def raises(self, f, msg, key=None, exc=Exception):
        try:
            f()
        except exc:
            self.count("oracle_decisions")
            return
        self.check(False, msg, key=key)


class Check:
    def __init__(self, id, rule, assumptions=()):
        self.id, self.rule, self.assumptions = id, rule, list(assumptions)
        self.groups = {}

    def group(self, name, quick, thorough=None, jobs=1, min_nontrivial=1, warm=False):
        """register a case function

        jobs: number of worker processes sharing the cases of the group
        warm: run one case before the workers are forked, so that they share the compiled kernels"""

        def deco(f):
            self.groups[name] = dict(f=f, quick=quick, thorough=thorough or quick * 10, jobs=jobs,
                                     min_nontrivial=min_nontrivial, warm=warm)
            return f

        return deco


# ------------------------------------------------------------------------------------------------ runner
def load_known(pid):
    """findings listed in known_findings.txt, by key"""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" ")
                out[key.replace("key=", "")] = text
    return out


def run_case(check, group, index, seed, tier, tmp, trace=None):
    """-> dict result"""
    case = Case(check.id, group, index, seed, tier, tmp)
    case.trace = trace
    t0 = time.time()
    res = dict(group=group, index=index)
    try:
        check.groups[group]["f"](case)
    except Violation as e:
        res["violation"] = dict(msg=e.msg, key=e.key, data=jsonable(e.data))
    except Exception as e:  # a crash of the code under test on a valid input
        res["violation"] = dict(msg=f"unexpected {type(e).__name__}: {e}", key=None,
                                data=dict(traceback=traceback.format_exc()[-3000:], **jsonable(case.data)))
    finally:
        case.cleanup()
    res.update(events=case.events, key=case.key, sample=jsonable(case.sample), dt=time.time() - t0)
    return res


def observe_lines():
    """development aid (PET_COV=folder): lines of the code under test that were executed"""
    lines = set()
    mon = sys.monitoring
    src = os.path.realpath(SRC)

    def on_line(code, line):
        f = code.co_filename
        if f.startswith(SRC) or f.startswith(src):
            lines.add((f[f.index("/src/") + 5:], line))
        return mon.DISABLE

    mon.use_tool_id(mon.COVERAGE_ID, "pet")
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    return lines


def save_lines(lines, name):
    if lines is not None:
        with open(os.path.join(os.environ["PET_COV"], f"{name}.{os.getpid()}.json"), "w") as h:
            json.dump(sorted(lines), h)


def worker(check, jobs, seed, tier, tmp, out, cur, deadline, lines=None):
    import faulthandler

    logf = open(out + ".log", "w")
    os.dup2(logf.fileno(), 1)
    os.dup2(logf.fileno(), 2)
    faulthandler.enable(logf)
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    nviol = {}
    with open(out, "w") as h:
        for group, index in jobs:
            if nviol.get(group, 0) >= 3:
                continue
            if time.time() > deadline:
                h.write(json.dumps(dict(group=group, index=index, skipped=True)) + "\n")
                continue
            with open(cur + ".t", "w") as c:
                json.dump([group, index, time.time()], c)
            os.replace(cur + ".t", cur)
            r = run_case(check, group, index, seed, tier, tmp)
            if "violation" in r and os.environ.get("PET_FAILFAST"):
                open(os.path.join(tmp, "stop"), "w").write(f"{group}[{index}] {r['violation']['msg']}")
            if "violation" in r:
                nviol[group] = nviol.get(group, 0) + 1
            h.write(json.dumps(r) + "\n")
            h.flush()
    if os.path.exists(cur):
        os.unlink(cur)
    save_lines(lines, check.id)


def main(check, argv):
    t_start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    replay = None
    scale = 1.0
    i = 0
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]; i += 1
        elif argv[i] == "--seed":
            seed = int(argv[i + 1]); i += 1
        elif argv[i] == "--group":
            only = argv[i + 1].split(","); i += 1
        elif argv[i] == "--replay":
            replay = argv[i + 1]; i += 1
        elif argv[i] == "--scale":
            scale = float(argv[i + 1]); i += 1
        i += 1
    if tier not in ("quick", "thorough"):
        tier = "quick"
    tmp = os.environ["PET_TMP"]
    known = load_known(check.id)
    if replay:
        r = json.load(open(replay))
        res = run_case(check, r["group"], r["index"], r["seed"], r["tier"], tmp)
        print(json.dumps(res, indent=1)[:20000])
        v = res.get("violation")
        if v and v["key"] not in known:
            print(f"VIOLATION property={check.id} replay={replay}")
            return 1
        return 0

    lines = observe_lines() if os.environ.get("PET_COV") else None
    # the library is imported once, workers are forked afterwards
    import py_eddy_tracker.observations.network  # noqa
    import py_eddy_tracker.dataset.grid  # noqa

    expected_src = os.path.realpath(SRC)
    if not os.path.realpath(py_eddy_tracker.__file__).startswith(expected_src):
        print("code under test is not /repo:", py_eddy_tracker.__file__)
        return 2

    budget = float(os.environ.get("PET_BUDGET", 540 if tier == "quick" else 3000))
    deadline = t_start + budget
    plans = []
    planned = {}
    for name, g in check.groups.items():
        if only and name not in only:
            continue
        n = max(1, int(g[tier] * scale))
        planned[name] = n
        nj = min(g["jobs"] if tier == "quick" else max(g["jobs"], 4), n)
        for k in range(nj):
            plans.append([(name, i) for i in range(k, n, nj)])
    nproc = int(os.environ.get("PET_PROC", "8"))
    for name in planned:
        if check.groups[name]["warm"]:
            devnull, saved = os.open(os.devnull, os.O_WRONLY), (os.dup(1), os.dup(2))
            os.dup2(devnull, 1), os.dup2(devnull, 2)
            try:
                run_case(check, name, 0, seed, tier, tmp)
            finally:
                sys.stdout.flush(), sys.stderr.flush()
                os.dup2(saved[0], 1), os.dup2(saved[1], 2)
                for fd in (devnull, *saved):
                    os.close(fd)
    running, results, fatal = {}, [], []
    todo = list(range(len(plans)))
    killed = set()
    sys.stdout.flush()
    while todo or running:
        while todo and len(running) < nproc:
            k = todo.pop(0)
            out, cur = os.path.join(tmp, f"w{k}.jsonl"), os.path.join(tmp, f"w{k}.cur")
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    worker(check, plans[k], seed, tier, tmp, out, cur, deadline, lines)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            running[pid] = (k, out, cur, time.time())
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.05)
            if os.environ.get("PET_FAILFAST") and os.path.exists(os.path.join(tmp, "stop")):
                for p in running:
                    os.kill(p, signal.SIGKILL)
                print(f"VIOLATION property={check.id} (first one, run stopped) " + open(os.path.join(tmp, "stop")).read()[:300])
                return 1
            for p, (k, out, cur, t0) in list(running.items()):
                try:
                    g, ix, t = json.load(open(cur))
                except Exception:
                    continue
                if time.time() - t > CASE_TIMEOUT and p not in killed:
                    killed.add(p)
                    os.kill(p, signal.SIGKILL)
            continue
        if pid not in running:
            continue
        k, out, cur, t0 = running.pop(pid)
        if os.path.exists(out):
            for line in open(out):
                try:
                    results.append(json.loads(line))
                except ValueError:
                    pass
        if os.WIFSIGNALED(status) or os.WEXITSTATUS(status):
            sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
            try:
                g, ix, t = json.load(open(cur))
            except Exception:
                g, ix = plans[k][0]
            log = open(out + ".log").read()[-3000:] if os.path.exists(out + ".log") else ""
            if pid in killed:
                results.append(dict(group=g, index=ix, events={}, key=None, dt=0,
                                    violation=dict(msg=f"case still running after {CASE_TIMEOUT} s", key=None, data={})))
            elif sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
                results.append(dict(group=g, index=ix, events={}, key=None, dt=0,
                                    violation=dict(msg=f"process died by signal {sig}", key=None, data=dict(log=log))))
            else:
                fatal.append(f"worker of {g} ended with status {status}: {log}")
    # ---------------------------------------------------------------- verdict and evidence
    import numpy as np

    results.sort(key=lambda r: (r["group"], r["index"]))
    done = [r for r in results if not r.get("skipped")]
    events, keys, per_group, samples = {}, set(), {}, []
    for r in done:
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        g = per_group.setdefault(r["group"], dict(cases=0, distinct_nontrivial=set(), seconds=0.0, events={}))
        g["cases"] += 1
        g["seconds"] += r["dt"]
        for k, v in r["events"].items():
            g["events"][k] = g["events"].get(k, 0) + v
        if r["key"]:
            keys.add((r["group"], r["key"]))
            g["distinct_nontrivial"].add(r["key"])
        if r.get("sample") is not None and sum(s["group"] == r["group"] for s in samples) < 1:
            samples.append(dict(group=r["group"], index=r["index"], case=r["sample"]))
    viol, seen_known = [], {}
    for r in done:
        v = r.get("violation")
        if not v:
            continue
        if v["key"] is not None and v["key"] in known:
            seen_known[v["key"]] = v["msg"]
        else:
            viol.append(r)
    # violations already known keep being reported, whether or not the drawn cases met them again
    for k, text in known.items():
        print(f"KNOWN-FINDING: property={check.id} {k}: {text}")
    code = 0
    rdir = os.path.join(VERIF, "evidence", "replay")
    if viol:
        os.makedirs(rdir, exist_ok=True)
        code = 1
        for r in viol[:10]:
            path = os.path.join(rdir, f"{check.id}-{r['group']}-{r['index']}.json")
            with open(path, "w") as h:
                json.dump(dict(property=check.id, group=r["group"], index=r["index"], seed=seed, tier=tier,
                               violation=r["violation"]), h, indent=1)
            print(f"VIOLATION property={check.id} replay={path}")
            print(f"   {r['group']}[{r['index']}]: {' '.join(r['violation']['msg'].split())[:300]}")
    weak = []
    if not viol and not only:
        for name, n in planned.items():
            g = per_group.get(name)
            if any(r["group"] == name and r.get("skipped") for r in results):
                continue  # slow machine: what was not reached is told in the evidence
            if g is None or len(g["distinct_nontrivial"]) < min(check.groups[name]["min_nontrivial"], n):
                weak.append(name)
    if fatal or weak:
        for f in fatal:
            print("ERROR", f)
        for w in weak:
            print(f"ERROR group {w} observed nothing of interest")
        if code == 0:
            code = 2
    ev = dict(
        property=check.id, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=len(done),
            distinct_nontrivial=len(keys),
            rule=check.rule,
            samples=samples[:12],
            monitor_events=events,
            groups={k: dict(cases=g["cases"], distinct_nontrivial=len(g["distinct_nontrivial"]),
                            seconds=round(g["seconds"], 2), events=g["events"]) for k, g in per_group.items()},
            cases_not_reached_in_budget=len(results) - len(done),
            known_findings_met=sorted(seen_known),
        ),
        assumptions=check.assumptions,
        wall_s=round(time.time() - t_start, 2),
        violations=len(viol),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{check.id}.json"), "w") as h:
        json.dump(ev, h, indent=1)
    print(f"{check.id} {tier} seed={seed}: {len(done)} cases, {len(keys)} distinct non trivial, "
          f"{events.get('oracle_decisions', 0)} oracle decisions, {len(viol)} violations, {ev['wall_s']} s")
    return code
