"""Writes MANIFEST.json from properties.jsonl and the checks present in harness/checks"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness/checks", i.lower() + ".py")):
        checks.append(dict(
            property=i, quick_cmd=f"./run.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {i}",
            technique=NOTE.get(i, "runtime monitoring: online oracles (independent reference implementation and "
                                  "metamorphic relations) on executions of the real code under generated hostile workloads, "
                                  "in watched worker processes"),
            level="exploration",
            level_note="every explored execution is judged by an independent oracle; reach is by workload diversity, "
                       "so a violation outside the generated families can be missed"))
        if i == "C33":
            checks[-1]["technique"] = ("runtime sanitizing: numba bounds checking, interpreted execution and heap "
                                       "perturbation, compared differentially with the compiled kernels")
    else:
        na.append(dict(property=i, reason="no check built yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
