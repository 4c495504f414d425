"""C33 sanitizers: bounds checking, interpretation and poisoned heap under the workloads of all other checks"""
import importlib
import os
import pickle
import re
import signal
import subprocess
import sys

import numpy as np

from harness.core import Check

HERE = os.path.dirname(os.path.abspath(__file__))
CHECK = Check("C33", "the generated workloads of every other check, including their empty, single-element and border cases, run (1) twice with freshly allocated "
              "and released memory filled with different bytes: all observed values must be identical bit for bit; (2) with kernels compiled with bounds "
              "checking; (3) interpreted, without compilation: oracles, which hold values to their tolerances, must reach the same verdict as with compiled kernels; "
              "non trivial: a group of cases with observed values",
              ["what is wrong in the same way in all modes belongs to the other checks", "bounds checking doesn't see negative indexes inside the array"])
# number of cases by group (quick): default, and groups whose cases are long
N = dict(heap=7, bounds=14, interp=4)
MODULES = [f"C{i:02d}" for i in list(range(1, 33)) + [34]]
LIMIT = dict(heap=60, bounds=60, interp=8)
BUDGET = dict(heap=70, bounds=80, interp=40)


def launch(c, name, mode, groups):
    env = dict(os.environ)
    env["NUMBA_CACHE_DIR"] = env["NUMBA_CACHE_DIR"] + "_" + mode if mode == "bounds" else env["NUMBA_CACHE_DIR"]
    env["PET_TMP"] = c.tmp
    env["PYTHONMALLOC"] = "malloc" if mode == "heap" else "default"
    if mode == "bounds":
        env["NUMBA_BOUNDSCHECK"] = "1"
    elif mode == "interp":
        env["NUMBA_DISABLE_JIT"] = "1"
    out = os.path.join(c.tmp, f"{name}_{mode}.pkl")
    k = 6 if c.thorough else 1
    log = open(out + ".log", "w+")
    code = subprocess.call([sys.executable, os.path.join(HERE, "..", "sanitize.py"), name, mode, str(c.seed), out, str(BUDGET[mode] * k),
                            ",".join(f"{g}:{n}" for g, n in groups), str(LIMIT[mode])], env=env, stdout=log, stderr=log)
    res, last = {}, None
    if os.path.exists(out):
        with open(out, "rb") as h:
            while True:
                try:
                    g, i, r, t = pickle.load(h)
                except (EOFError, pickle.UnpicklingError):
                    break
                if r == "start":
                    last = (g, i)
                elif r is not None:
                    res.setdefault((g, i), []).append((r, t))
                    last = None
                else:
                    res[(g, i)] = None
                    last = None
                    c.count(f"{mode}_not_reached")
        os.unlink(out)
    log.seek(0)
    tail = log.read()[-2500:]
    if -code in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
        c.check(False, f"{name} {mode}: process died by signal {-code} in {last}", log=tail)
    if code:
        raise RuntimeError(f"sanitized run failed ({code}): {tail[-600:]}")
    return {k: v for k, v in res.items() if v}


def verdict(r):
    v = r["violation"]
    return None if v is None else v["msg"]


def plan(c, name, mode):
    mod = importlib.import_module("harness.checks." + name.lower()).CHECK
    n = N[mode] * (6 if c.thorough else 1)
    return [(g, max(1, min(n, v["quick"]))) for g, v in mod.groups.items()]


def same_bits(a, b):
    if a is None or b is None:
        return a is b
    if a.dtype != b.dtype or a.shape != b.shape:
        return False
    if a.dtype.kind == "O":
        return repr(a) == repr(b)
    if a.dtype.kind == "f":
        return bool(((a == b) | ((a != a) & (b != b))).all())
    return a.tobytes() == b.tobytes()


def module(c):
    return MODULES[c.index % len(MODULES)]


@CHECK.group("heap", quick=len(MODULES), thorough=len(MODULES), jobs=8, min_nontrivial=20)
def heap(c):
    """uninitialised or released memory has no influence"""
    name = module(c)
    res = launch(c, name, "heap", plan(c, name, "heap"))
    n = 0
    for (g, i), runs in sorted(res.items()):
        if len(runs) < 2:
            continue
        (r0, t0), (r1, t1) = runs
        what = f"{name} {g}[{i}]"
        c.check(verdict(r0) == verdict(r1), f"{what}: verdict depends on the content of fresh memory", first=verdict(r0), second=verdict(r1))
        c.check(len(t0) == len(t1) and all(a[0] == b[0] for a, b in zip(t0, t1)), f"{what}: course depends on the content of fresh memory", diff=repr([(a[0], b[0]) for a, b in zip(t0, t1) if a[0] != b[0]][:3]), sizes=[len(t0), len(t1)])
        for (m, a), (_, b) in zip(t0, t1):
            c.check(same_bits(a, b), f"{what}: {m}: value depends on the content of fresh memory")
            n += 1 if a is None else a.size
        c.count("cases_twice")
    c.count("values", n)
    if n:
        c.nontrivial(name, sample=dict(module=name, values=n, cases=len(res)))


@CHECK.group("bounds", quick=len(MODULES), thorough=len(MODULES), jobs=8, min_nontrivial=20)
def bounds(c):
    """no index out of the arrays"""
    name = module(c)
    res = launch(c, name, "bounds", plan(c, name, "bounds"))
    todo = [(k, runs[0][0]) for k, runs in sorted(res.items())]
    for (g, i), r in todo:
        v = r["violation"]
        c.count("cases_checked")
        if v is None:
            continue
        text = v["msg"] + str(v.get("data", {}).get("traceback", ""))
        # other failures have to be compared with the ordinary mode
        ordinary = ordinary_verdict(c, name, g, i)
        c.check(v["msg"] == ordinary or ordinary is not None and "out of bounds" not in text, f"{name} {g}[{i}] with bounds checking: {v['msg']}",
                data=v.get("data"))
    if todo:
        c.nontrivial(name, sample=dict(module=name, cases=len(todo)))


def ordinary_verdict(c, name, group, index):
    from harness.core import run_case

    v = run_case(importlib.import_module("harness.checks." + name.lower()).CHECK, group, index, c.seed, "quick", c.tmp).get("violation")
    return None if v is None else re.sub(r"/[^ ']*case_[a-z0-9_]+", "", v["msg"])


@CHECK.group("interp", quick=len(MODULES), thorough=len(MODULES), jobs=8, min_nontrivial=20)
def interp(c):
    """compiled kernels do what their source says"""
    name = module(c)
    res = launch(c, name, "interp", plan(c, name, "interp"))
    for (g, i), runs in sorted(res.items()):
        r = runs[0][0]
        v = r["violation"]
        c.count("cases_interpreted")
        if v is not None:
            ordinary = ordinary_verdict(c, name, g, i)
            c.check(ordinary is not None, f"{name} {g}[{i}] interpreted: {v['msg']}", data=v.get("data"))
    if res:
        c.nontrivial(name, sample=dict(module=name, cases=len(res)))
