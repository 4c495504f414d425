"""Entry point: run.py <ID> [--tier T] [--seed N] [--group a,b] [--replay file]"""
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def launch(argv):
    """Runs the check in a clean environment with its own scratch folder (numba cache included)"""
    repo = os.environ.get("PET_REPO", "/repo")
    if "--replay" in argv:
        i = argv.index("--replay") + 1
        argv = argv[:i] + [os.path.abspath(argv[i])] + argv[i + 1:]
    tmp = tempfile.mkdtemp(prefix="pet_check_")
    env = dict(os.environ)
    if "PET_NUMBA_CACHE" in env:
        # development only: numba does not see changes of inlined functions of other files
        h = hashlib.sha1()
        for root, dirs, files in sorted(os.walk(os.path.join(repo, "src"))):
            for f in sorted(files):
                if f.endswith(".py"):
                    h.update(open(os.path.join(root, f), "rb").read())
        env["PET_NUMBA_CACHE"] = os.path.join(env["PET_NUMBA_CACHE"], h.hexdigest()[:12])
    env.update(PET_TMP=tmp, PET_CHILD="1", MPLBACKEND="agg", MPLCONFIGDIR=os.path.join(tmp, "mpl"),
               NUMBA_CACHE_DIR=env.get("PET_NUMBA_CACHE", os.path.join(tmp, "numba")),
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               PYTHONPATH=os.pathsep.join([os.path.join(repo, "src"), VERIF]), OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1", TMPDIR=tmp, HOME=tmp, TZ="UTC", LC_ALL="C.UTF-8")
    for k in ("MALLOC_PERTURB_", "NUMBA_BOUNDSCHECK", "NUMBA_DISABLE_JIT"):
        env.pop(k, None)
    if "PET_NOJIT" in env:  # development only
        env["NUMBA_DISABLE_JIT"] = "1"
    os.makedirs(os.path.join(tmp, "mpl"))
    try:
        code = subprocess.call([sys.executable, os.path.abspath(__file__), *argv], env=env, cwd=tmp)
        if -code in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
            # only the warm up, which runs code under test, can do this
            path = os.path.join(VERIF, "evidence", "replay", argv[0] + "-crash.json")
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as h:
                json.dump(dict(property=argv[0], violation=f"process died by signal {-code} in the first cases"), h)
            print(f"VIOLATION property={argv[0]} replay={path}")
            return 1
        return code
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    if os.environ.get("PET_CHILD") != "1":
        code = launch(sys.argv[1:])
        sys.exit(code if code >= 0 else 3)
    sys.path.insert(0, VERIF)
    mod = importlib.import_module("harness.checks." + sys.argv[1].lower())
    from harness.core import main

    sys.exit(main(mod.CHECK, sys.argv[2:]))
