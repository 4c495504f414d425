"""Runs cases of another check in a sanitized interpreter and writes what was observed.

sanitize.py <check> <mode> <seed> <out> <budget> <group:n,...>
mode heap: each case twice, freshly allocated and released memory being filled with different bytes
mode bounds / interp: NUMBA_BOUNDSCHECK / NUMBA_DISABLE_JIT are set by the caller
"""
import ctypes
import importlib
import os
import pickle
import re
import signal
import sys
import time
import warnings

M_PERTURB = -6


class TooLong(BaseException):
    pass


late = []


def alarm(*_):
    late.append(1)
    raise TooLong()


def plain_types():
    """numba types used as dtypes don't exist for numpy"""
    import types as pytypes

    import numba
    import numpy as np
    import py_eddy_tracker.observations.network  # noqa
    import py_eddy_tracker.featured_tracking.area_tracker  # noqa
    import py_eddy_tracker.featured_tracking.old_tracker_reference  # noqa
    import py_eddy_tracker.tracking  # noqa

    class Types(pytypes.SimpleNamespace):
        def __getattr__(self, k):
            return {"bool_": np.bool_, "boolean": np.bool_, "intp": np.intp, "uintp": np.uintp}.get(k) or getattr(np, k)

    for k, m in list(sys.modules.items()):
        if k.startswith("py_eddy_tracker"):
            for n, v in list(vars(m).items()):
                if v is numba.types:
                    setattr(m, n, Types())


def main(name, mode, seed, out, budget, groups, limit):
    import faulthandler

    faulthandler.enable()
    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    from harness.core import run_case

    if mode == "interp":
        plain_types()
    libc = ctypes.CDLL(None)
    check = importlib.import_module("harness.checks." + name.lower()).CHECK
    tmp = os.environ["PET_TMP"]
    t_end = time.time() + budget
    signal.signal(signal.SIGALRM, alarm)
    with open(out, "wb") as h:
        for group, n in groups:
            for i in range(n):
                # the alarm could have been lost in a callback of the compiler, which then is in a bad state
                if time.time() > t_end or late and mode != "interp":
                    pickle.dump((group, i, None, None), h)
                    continue
                nb_late = len(late)
                for k in ((0x2A, 0xD5) if mode == "heap" else (0,)):
                    libc.mallopt(M_PERTURB, k)
                    pickle.dump((group, i, "start", k), h), h.flush()
                    trace = []
                    signal.setitimer(signal.ITIMER_REAL, limit)
                    try:
                        r = run_case(check, group, i, seed, "quick", tmp, trace)
                    except TooLong:
                        r = None
                    finally:
                        signal.setitimer(signal.ITIMER_REAL, 0)
                    if r is None or len(late) > nb_late:
                        pickle.dump((group, i, None, None), h)
                        break
                    libc.mallopt(M_PERTURB, 0)
                    # names of scratch folders change
                    clean = lambda m: re.sub(r"/[^ ']*case_[a-z0-9_]+", "", m)
                    trace = [(clean(m), a) for m, a in trace]
                    v = r.get("violation")
                    if v is not None:
                        v["msg"] = clean(v["msg"])
                    pickle.dump((group, i, dict(k=k, violation=v, events=r["events"], dt=r["dt"]), trace), h)
                    h.flush()


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    a = sys.argv[1:]
    main(a[0], a[1], int(a[2]), a[3], float(a[4]), [(g.split(":")[0], int(g.split(":")[1])) for g in a[5].split(",")], float(a[6]))
