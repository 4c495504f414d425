"""Mutation campaign (development aid): which changes of executed lines does no check notice?

mutate.py list COVDIR COVNJDIR OUT.json [seed]     sample of mutants, with the checks that execute the line
mutate.py run OUT.json LOG.jsonl SLOT NSLOTS        run them (in scratch copies below /tmp)
"""
import ast
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

V = "/verif"
SKIP = re.compile(r"display|plot|scatter|anim|hist|timeline|__repr__|__str__|_repr_html|infos|print|hovmoller|event_map|mosaic|"
                  r"bar|animate|start_logger|formatter|usage|GUI|gui|bbox_lim|set_legend|contour_|__doc__|log")
PAD = "#" * 400 + "\n"


def mutants(path, rel):
    src = open(path).read()
    lines = src.split("\n")
    tree = ast.parse(src)
    out = []

    def text(n):
        if n.lineno != n.end_lineno:
            return None
        return lines[n.lineno - 1].encode()[n.col_offset:n.end_col_offset].decode()

    def add(fn, njit, n, new, op):
        if n.lineno == n.end_lineno:
            out.append(dict(file=rel, func=fn, njit=njit, line=n.lineno, c0=n.col_offset, c1=n.end_col_offset, new=new, op=op,
                            old=text(n)))

    CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="]}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Mod: "*", ast.FloorDiv: "*", ast.BitAnd: "|", ast.BitOr: "&"}
    SWAP = {"min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin", "floor": "ceil", "ceil": "floor", "sin": "cos", "cos": "sin",
            "any": "all", "all": "any", "ones": "zeros", "zeros": "ones", "cummin": "cummax", "nanmin": "nanmax", "minimum": "maximum",
            "maximum": "minimum"}

    def visit(n, fn, njit):
        for ch in ast.iter_child_nodes(n):
            f2, nj2 = fn, njit
            if isinstance(ch, (ast.FunctionDef,)):
                f2 = ch.name
                nj2 = njit or any("njit" in ast.unparse(d) or "jit" in ast.unparse(d) for d in ch.decorator_list)
                if SKIP.search(ch.name):
                    continue
                body = ch.body
                for b in body:
                    one(b, f2, nj2)
                    visit(b, f2, nj2)
                continue
            if fn:
                one(ch, fn, njit)
            visit(ch, f2, nj2)

    def one(n, fn, njit):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            l, r = text(n.left), text(n.comparators[0])
            if l and r:
                for o in CMP[type(n.ops[0])]:
                    add(fn, njit, n, f"{l} {o} {r}", "cmp")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            l, r = text(n.left), text(n.right)
            if l and r and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                # parentheses are lost with the span of the operands, keep the text between
                t = text(n)
                if t and t.startswith(l) and t.endswith(r):
                    mid = t[len(l):len(t) - len(r)]
                    sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Mod: "%", ast.FloorDiv: "//", ast.BitAnd: "&", ast.BitOr: "|"}[type(n.op)]
                    if mid.count(sym) == 1:
                        add(fn, njit, n, l + mid.replace(sym, BIN[type(n.op)]) + r, "bin")
        if isinstance(n, ast.Constant) and type(n.value) is int and n.value >= 0:
            add(fn, njit, n, str(n.value + 1), "int+1")
            if n.value > 0:
                add(fn, njit, n, str(n.value - 1), "int-1")
        if isinstance(n, ast.Constant) and type(n.value) is float:
            add(fn, njit, n, repr(n.value * 1.01 + 0.001), "float")
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            add(fn, njit, n, str(not n.value), "bool")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert, ast.USub)) and text(n.operand):
            add(fn, njit, n, "(" + text(n.operand) + ")", "unary")
        if isinstance(n, ast.BoolOp) and text(n):
            vals = [text(v) for v in n.values]
            if all(vals):
                for k in range(len(vals)):
                    rest = vals[:k] + vals[k + 1:]
                    add(fn, njit, n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(f"({v})" for v in rest) + ")", "boolop")
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in SWAP:
                add(fn, njit, f, SWAP[f.id], "swap")
            if isinstance(f, ast.Attribute) and f.attr in SWAP and text(f.value):
                add(fn, njit, f, text(f.value) + "." + SWAP[f.attr], "swap")
            if isinstance(f, ast.Attribute) and f.attr == "copy" and not n.args and text(f.value):
                add(fn, njit, n, text(f.value), "nocopy")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and text(n) and not text(n).startswith(("logger", "print")):
            add(fn, njit, n, "pass", "drop")
        if isinstance(n, (ast.AugAssign,)) and text(n):
            add(fn, njit, n, "pass", "drop")
        if isinstance(n, ast.Assign) and text(n) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            add(fn, njit, n, "pass", "drop")
        if isinstance(n, (ast.If,)) and text(n.test):
            add(fn, njit, n.test, "False", "if")
            add(fn, njit, n.test, "True", "if")
        if isinstance(n, ast.Continue):
            add(fn, njit, n, "pass", "flow")
        if isinstance(n, ast.Break):
            add(fn, njit, n, "pass", "flow")

    visit(tree, None, False)
    seen, res = set(), []
    for m in out:
        k = (m["line"], m["c0"], m["c1"], m["new"])
        t = lines[m["line"] - 1]
        if k in seen or "logger" in t or "print(" in t or "raise " in t or m["new"] == m["old"]:
            continue
        seen.add(k)
        new = (t.encode()[:m["c0"]] + m["new"].encode() + t.encode()[m["c1"]:]).decode()
        try:
            ast.parse("\n".join(lines[:m["line"] - 1] + [new] + lines[m["line"]:]))
        except SyntaxError:
            continue
        m["text"], m["newtext"] = t.strip(), new.strip()
        res.append(m)
    return res


def lines_of(d):
    cov = {}
    for f in glob.glob(d + "/C*.json"):
        c = os.path.basename(f)[:3]
        for p, l in json.load(open(f)):
            cov.setdefault((p, l), set()).add(c)
    return cov


def listing(cov, covnj, out, seed):
    cov, covnj = lines_of(cov), lines_of(covnj)
    src = {f"C{i:02d}": open(f"{V}/harness/checks/c{i:02d}.py").read() for i in range(1, 1 + len(glob.glob(V + "/harness/checks/c[0-9][0-9].py")))}
    res, uncovered = [], {}
    for f in sorted(glob.glob("/repo/src/**/*.py", recursive=True) + glob.glob("/repo/src/scripts/*")):
        rel = f[len("/repo/src/"):]
        if "/gui" in rel or "_version" in rel or "/web" in rel or not open(f).read(30000).strip() or os.path.basename(f) in (
                "GUIEddy", "EddyAnim", "EddyTranslate.py"):
            continue
        for m in mutants(f, rel):
            c = cov.get((rel, m["line"]), set()) | (covnj.get((rel, m["line"]), set()))
            if not c:
                uncovered.setdefault((rel, m["func"]), set()).add(m["line"])
                continue
            rank = {k: len(re.findall(r"\b%s\b" % m["func"], src[k])) for k in c}
            m["checks"] = sorted(c, key=lambda k: (-rank[k], k))[:4]
            m["mention"] = max(rank.values())
            res.append(m)
    rng = random.Random(seed)
    rng.shuffle(res)
    # round robin over functions
    by = {}
    for m in res:
        by.setdefault((m["file"], m["func"]), []).append(m)
    order = []
    while by:
        keys = sorted(by)
        rng.shuffle(keys)
        for k in keys:
            order.append(by[k].pop())
            if not by[k]:
                del by[k]
    json.dump(order, open(out, "w"), indent=0)
    print(len(order), "mutants")
    for k in sorted(uncovered):
        print("not executed:", *k, sorted(uncovered[k]))


def run_check(cid, repo, cache, tmp, verif, nproc, timeout):
    t = tempfile.mkdtemp(dir=tmp)
    env = dict(os.environ)
    env.update(PET_REPO=repo, PET_TMP=t, PET_CHILD="1", MPLBACKEND="agg", MPLCONFIGDIR=t + "/mpl", NUMBA_CACHE_DIR=cache,
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=f"{repo}/src:{verif}", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1", TMPDIR=t, HOME=t, TZ="UTC", LC_ALL="C.UTF-8", PET_FAILFAST="1",
               PET_PROC=str(nproc), PET_BUDGET=str(timeout - 60), VERIF_SEED="1", VERIF_TIER="quick")
    os.makedirs(t + "/mpl")
    try:
        p = subprocess.Popen([sys.executable, verif + "/harness/run.py", cid], env=env, cwd=t, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True, start_new_session=True)
        try:
            out = p.communicate(timeout=timeout)[0]
            return (p.returncode if p.returncode != 1 or "VIOLATION" in out else 98), out[-400:]
        except subprocess.TimeoutExpired:
            return 99, "timeout"
        finally:
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            p.wait()
    finally:
        shutil.rmtree(t, ignore_errors=True)


def run(mfile, log, slot, nslots):
    muts = json.load(open(mfile))
    base = f"/tmp/mut/slot{slot}"
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    verif, repo, cache = base + "/verif", base + "/repo", base + "/cache"
    os.makedirs(verif + "/evidence")
    shutil.copytree(V + "/harness", verif + "/harness")
    subprocess.check_call(["cp", "-a", "/repo", repo])
    subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
    for f in glob.glob(repo + "/src/**/*.py", recursive=True) + glob.glob(repo + "/src/scripts/*"):
        open(f, "a").write(PAD)
    nproc = max(2, 8 // nslots)
    done = {json.dumps([m["file"], m["line"], m["c0"], m["new"]]) for l in (open(log) if os.path.exists(log) else []) for m in [json.loads(l)]}
    for m in muts[slot::nslots]:
        if json.dumps([m["file"], m["line"], m["c0"], m["new"]]) in done:
            continue
        if os.path.exists("/tmp/mut/stop"):
            break
        f = f"{repo}/src/{m['file']}"
        src = open(f, "rb").read()
        st = os.stat(f)
        L = src.split(b"\n")
        t = L[m["line"] - 1]
        assert t.decode().strip() == m["text"], m
        L[m["line"] - 1] = t[:m["c0"]] + m["new"].encode() + t[m["c1"]:]
        new = b"\n".join(L)
        d = len(new) - len(src)
        new = new + b"#" * -d if d < 0 else new[:len(new) - d]
        assert len(new) == len(src)
        open(f, "wb").write(new)
        os.utime(f, ns=(st.st_atime_ns, st.st_mtime_ns))
        cc = tempfile.mkdtemp(dir=base) if m["njit"] else cache
        t0 = time.time()
        res, verdict = {}, "SURVIVED"
        try:
            for c in m["checks"]:
                rc, out = run_check(c, repo, cc, base, verif, nproc, 420)
                res[c] = rc
                if rc != 0:
                    verdict = "caught" if rc in (1, 99) else f"rc{rc}"
                    m["msg"] = out[:300]
                    if rc in (1, 99):
                        break
        finally:
            open(f, "wb").write(src)
            os.utime(f, ns=(st.st_atime_ns, st.st_mtime_ns))
            if m["njit"]:
                shutil.rmtree(cc)
        m.update(res=res, verdict=verdict, dt=round(time.time() - t0))
        with open(log, "a") as h:
            h.write(json.dumps(m) + "\n")
    shutil.rmtree(base)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "list":
        listing(a[1], a[2], a[3], int(a[4]) if len(a) > 4 else 1)
    else:
        run(a[1], a[2], int(a[3]), int(a[4]))
