"""Writes the generated part of DESIGN.md (between the markers) from the checks, the planted bugs and the findings"""
import ast
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def const(n):
    try:
        return ast.literal_eval(n)
    except ValueError:
        return None


def describe(id):
    tree = ast.parse(open(f"{V}/harness/checks/{id.lower()}.py").read())
    rule, assume, groups = "", [], []
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "CHECK":
            a = n.value
            rule = const(a.args[1]) if len(a.args) > 1 else ""
            assume = const(a.args[2]) if len(a.args) > 2 else []
            for k in a.keywords:
                if k.arg == "rule":
                    rule = const(k.value)
                if k.arg == "assumptions":
                    assume = const(k.value)
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "attr", "") == "group":
                    kw = {k.arg: const(k.value) for k in d.keywords}
                    groups.append((const(d.args[0]), kw.get("quick"), kw.get("thorough"), ast.get_docstring(n)))
    return rule, assume or [], groups


def main():
    out = []
    for l in open(V + "/properties.jsonl"):
        p = json.loads(l)
        rule, assume, groups = describe(p["id"])
        out.append(f"### {p['id']} {p['title']}\n")
        out.append(f"Workload and what counts as non trivial: {rule}.\n")
        out.append("| group | executions quick / thorough | what the monitor decides |\n|---|---|---|")
        for g, q, t, doc in groups:
            out.append(f"| {g} | {q} / {t} | {' '.join((doc or '').split())} |")
        if assume:
            out.append("\nAssumed: " + "; ".join(assume if isinstance(assume, (list, tuple)) else [assume]) + ".")
        out.append("")
    return "\n".join(out)



def plants():
    rec = json.load(open(V + "/tools/plants.json")) if os.path.exists(V + "/tools/plants.json") else {}
    out = ["## Planted bugs", "", "Each was written from the text of a property and the code, then verified with tools/plant.py: the demonstration passes on the tree,",
           "fails with the patch, the stable tests pass with it. The last column is what the quick check (seed 1) says with the patch.", "",
           "| plant | property | needs | verdict of the check |", "|---|---|---|---|"]
    for d in sorted(glob.glob(V + "/seeded/*")):
        m, i = json.load(open(d + "/meta.json")), os.path.basename(d)
        out.append(f"| {i} | {m['property']} | {m['needs']} | {rec.get(i, 'not recorded')} |")
    return "\n".join(out) + "\n"


def findings():
    out = ["## Findings on the original tree", "",
           "All were met by the checks (or while writing them), reproduced on the real code, and repaired by one `fix:` commit each; the checks report",
           "them again if they return. None is left open.", ""]
    for l in open(V + "/known_findings.txt"):
        if l.startswith("fixed:"):
            _, p, c, t = l.strip().split(" ", 3)
            out.append(f"- {p.replace('property=', '')} `{c}` {t}")
    return "\n".join(out) + "\n"


def part(n):
    return open(f"{V}/tools/design/{n}.md").read()


if __name__ == "__main__":
    with open(V + "/DESIGN.md", "w") as h:
        h.write("\n".join([part("head"), main(), plants(), part("campaign"), findings(), part("alarms"), part("tail")]))
