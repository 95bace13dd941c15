#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, subprocess
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], text=True, stdout=subprocess.PIPE).stdout
hooks = [l.split()[0] for l in log.splitlines() if "Verification hooks" in l]
T = {
 "C15": "model-based property testing: generated histories with dump/undump round trips across managers and orders",
 "C16": "structure-aware mutation fuzzing of dump files inside generated histories, sanitizers as crash oracle, model for state",
 "C18": "property testing: printed text parsed back and evaluated against the truth-table model",
 "C19": "model-based property testing of generated programs over the C++ classes, reference balance checked against the model",
 "C25": "stateful model-based property testing on small diagrams with 10^12 and more paths, exact results against a reference BDD package and a time limit per case",
 "C26": "property testing of generated operation sequences repeated thousands of times: metamorphic relation between repetitions (results, memory, node counts)",
 "C27": "stateful model-based property testing: statistics printed at generated points of generated histories, parsed and compared with the model and the queries",
 "C20": "stateful property testing of the memory manager against an interval/content model",
 "C14": "stateful model-based property testing with generated node limits (fault injection at arbitrary points)",
 "C21": "stateful model-based property testing of several managers, allocation tracking at destruction",
}
D = "stateful model-based property testing: generated histories against a truth-table reference model, with sanitizers and shrinking"
note = ("Exploration of generated inputs: an absence of violations over the cases counted in the evidence, not a proof. "
        "Truth-table cases use functions over at most 7 (occasionally 13) variables that matter inside managers of up to a few hundred variables; wide cases use diagrams of up to tens of thousands of nodes against a reference BDD package. "
        "Trusts the reference model in pbt/ and gcc's sanitizers.")
m = {"version": 1,
     "setup_cmd": "bash pbt/build.sh",
     "hooks": {"guard": "CAL_VERIF_HOOKS",
               "enable": "pbt/build.sh compiles /repo/src/*.c with -DCAL_VERIF_HOOKS; the harness (pbt/memwrap.cpp) defines the run-time variables the hooks read",
               "source_commits": hooks},
     "checks": [{"property": x["id"], "quick_cmd": "VERIF_TIER=${VERIF_TIER:-quick} ./check.sh " + x["id"],
                 "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + x["id"],
                 "evidence_file": "evidence/%s.json" % x["id"],
                 "technique": T.get(x["id"], D), "level": "exploration", "level_note": note} for x in props],
     "not_applicable": [],
     "notes": "Replays: ./replay.sh FILE re-executes one. Unrepaired and repaired defects: known_findings.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
