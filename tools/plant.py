"""Build and verify planted bugs in a scratch copy of /repo bind-mounted over /repo in a private namespace.

plant.py verify ID [--no-test] [--check [EXTRA...]]   (everything below /tmp, removed at the end)
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = "/verif"
ENV = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")


def ns(copy, cmd, timeout=1500, log=None):
    """Run a command with copy in place of /repo"""
    full = ["unshare", "-Urm", "bash", "-c", f"mount --bind {copy} /repo && cd /repo && {cmd}"]
    r = subprocess.run(full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=ENV, text=True)
    return r.returncode, r.stdout


def scratch():
    d = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    subprocess.check_call(["git", "-C", d + "/repo", "checkout", "-q", "--", "."])
    return d


def make(id, prop, needs, breaks, edits, demo):
    """edits: list of (path below src/py_eddy_tracker, old, new)"""
    root = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
    d = scratch()
    try:
        for p, old, new in edits:
            f = f"{d}/repo/src/{p}" if p.startswith("scripts/") else f"{d}/repo/src/py_eddy_tracker/{p}"
            s = open(f).read()
            assert s.count(old) == 1, (p, s.count(old), old)
            open(f, "w").write(s.replace(old, new))
        patch = subprocess.check_output(["git", "-C", d + "/repo", "diff"], text=True)
        # removed lines have to come from the original tree
        for p, old, new in edits:
            f = f"src/{p}" if p.startswith("scripts/") else f"src/py_eddy_tracker/{p}"
            diff = subprocess.check_output(["git", "-C", d + "/repo", "diff", "-U0", "--", f], text=True)
            bl = subprocess.check_output(["git", "-C", d + "/repo", "blame", "-l", "HEAD", "--", f], text=True).split("\n")
            for l in diff.split("\n"):
                if l.startswith("@@"):
                    a = l.split()[1][1:].split(",")
                    s0, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    for i in range(s0, s0 + n):
                        if not bl[i - 1].lstrip("^").startswith(root[:30]):
                            print("  WARNING line of a fix:", bl[i - 1][41:])
    finally:
        shutil.rmtree(d)
    o = f"{V}/seeded/{id}"
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(patch)
    open(o + "/demo.py", "w").write(demo)
    open(o + "/demo.sh", "w").write('#!/bin/bash\n# exit 0 when the property holds on this input\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg\nD=$(mktemp -d); trap \'rm -rf "$D"\' EXIT\nexport NUMBA_CACHE_DIR=$D/numba MPLCONFIGDIR=$D/mpl\nH=$(cd "$(dirname "$0")" && pwd)\ncd "${REPO:-/repo}" || exit 2\nPYTHONPATH=$PWD/src SCRATCH=$D /opt/venv/bin/python "$H/demo.py"\n')
    os.chmod(o + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + "/meta.json", "w"), indent=1)


def verify(id, test=True, check=True, extra=()):
    o = f"{V}/seeded/{id}"
    prop = json.load(open(o + "/meta.json"))["property"]
    d = scratch()
    res = []
    try:
        rc, out = ns(d + "/repo", f"bash {o}/demo.sh")
        res.append("demo clean ok" if rc == 0 else "DEMO FAILS ON CLEAN TREE\n" + out[-1500:])
        subprocess.check_call(["git", "-C", d + "/repo", "apply", o + "/patch.diff"])
        rc, out = ns(d + "/repo", f"bash {o}/demo.sh")
        res.append("demo patched fails: " + out.strip().split("\n")[-1][:150] if rc else "DEMO PASSES WITH PATCH")
        if test:
            rc, out = ns(d + "/repo", f"bash /opt/vp/build.sh && bash /opt/vp/test.sh {d}/t.json")
            res.append("tests: " + out.strip().split("\n")[-1])
        if check:
            for p in (extra or [prop]):
                rc, out = ns(d + "/repo", f"cd {V} && PET_EVIDENCE={d}/ev ./run.sh {p}")
                v = [l for l in out.split("\n") if l.startswith("VIOLATION")]
                res.append(f"check {p}: " + (f"CAUGHT {len(v)} " + v[0][:200] if v and rc == 1 else f"MISSED rc={rc} {out[-300:]}"))
    finally:
        shutil.rmtree(d)
    return res


if __name__ == "__main__":
    a = sys.argv[1:]
    ids = [i for i in a[1:] if not i.startswith("--")]
    if a[0] == "verify":
        for i in ids:
            res = verify(i, "--no-test" not in a, "--no-check" not in a)
            for r in res:
                print(i, "|", r, flush=True)
            if res[-1].startswith("check"):
                with open(V + "/tools/plants.json", "a+") as h:
                    import fcntl

                    fcntl.flock(h, fcntl.LOCK_EX)
                    h.seek(0)
                    rec = json.loads(h.read() or "{}")
                    g = re.findall(r"replay/C..-([a-z0-9_]+)-\d", res[-1])
                    rec[i] = f"caught ({g[0]})" if "CAUGHT" in res[-1] and g else res[-1].split(":")[1].split()[0].lower()
                    h.truncate(0)
                    h.write(json.dumps(rec, indent=1, sort_keys=True))
