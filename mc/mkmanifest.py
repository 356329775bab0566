"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C16": "explicit-state model checking: BFS over file/env/load histories of the real loader against a reference model, plus full enumeration of dataset subsets",
    "C17": "explicit-state model checking: BFS over file/env/load histories of the real loader against a reference model, plus full enumeration of curves and patterns",
    "C18": "fault-enumerating model checking: every configuration and a failure injected at every model call of the real retrieval and script, against a reference model",
    "C20": "explicit-state model checking: all public-call histories to a depth, differential against fresh-process results",
    "C21": "bounded exhaustive exploration of transformation words over the real kernels, differential against plain calls",
    "C29": "stateless model checking: all schedules of two real calls with a bounded number of preemptions under a controlled scheduler, a switch possible at every source line of the package",
    "C30": "fault-enumerating model checking: the real calls broken off at every source line, every continuation compared with an undisturbed process",
    "C24": "explicit-state exploration of import histories x configurations in real subprocesses, differential oracle",
}
DEF = "bounded exhaustive state-space exploration of the real code, every leaf checked against an executable reference model"
NOTE = ("Holds on every element of the finite alphabets stated in DESIGN.md (measured counts in the evidence file); "
        "trusts the numpy reference model, CPU float64 arithmetic and the stated tolerances; values outside the alphabets are not covered.")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "mc", "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="./run.sh %s --tier quick" % i, thorough_cmd="./run.sh %s --tier thorough" % i,
                           technique=TECH.get(i, DEF), level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every check drives the public API (and the script) of the working tree."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
