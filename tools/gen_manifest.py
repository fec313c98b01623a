#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
TEXT = ("exhaustive enumeration of bounded input sequences on the real parser (explicit-state exploration), "
        "every execution compared with a reference grammar; plus a bounded pushdown model searched breadth-first whose every transition is replayed")
HIST = "exhaustive enumeration of API call histories on the real code, compared step by step with a reference model"
TREE = "exhaustive enumeration of hand-built trees (scripts of a stack machine) on the real code, compared with a reference"
tech = {"C11": TEXT + "; and " + TREE, "C16": HIST, "C17": HIST, "C18": TREE, "C21": TREE,
        "C24": TEXT + "; and " + TREE, "C25": TREE, "C26": TREE, "C27": HIST, "C29": TEXT + "; each tree's lists rebuilt by every push operation", "C30": TREE,
        "C23": "exhaustive enumeration of repetitions and nestings of constructs, the work of every execution counted and its growth bounded",
        "C28": "exhaustive enumeration of repetitions of constructs and pairs of constructs, the work of every execution counted and its growth bounded",
        "C31": "exhaustive enumeration of repetitions and nestings of constructs and pairs of constructs, the stack every execution reaches measured and its growth bounded",
        "C32": "exhaustive enumeration of repetitions and nestings of constructs and pairs of constructs, and of histories of different texts, the memory every execution holds counted and its growth bounded"}
NOTE = {
 "text": "Decides the property for every sequence within the stated bounds (alphabets, depths, lists in the evidence file). Beyond the bounds it says nothing. Trusts the reference grammar in mc/src/spec.rs, which was written from the property, and the extraction of the implementation's trees through its public API.",
 "hist": "Decides the property for every history within the stated bounds. Trusts the reference models in mc/src/api.rs, mc/src/up.rs and mc/src/spec.rs.",
 "tree": "Decides the property for every tree denoted by a script within the stated bounds. Trusts the reference in mc/src/build.rs, mc/src/api.rs, mc/src/up.rs and mc/src/edit.rs.",
 "cost": "Decides growth of the bytes allocated, the bytes moved and the basic blocks executed (compiler instrumentation of the crate and of the standard library) for every construct and pair of constructs in the list, between 4 and 512 repetitions.",
}
NOTE["flat"] = NOTE["cost"].replace("between 4 and 512 repetitions", "over lengthenings by a factor of eight, from 64 repetitions to 1024 or 4096 (quick), 8192 or 32768 (thorough)")
NOTE["room"] = "Decides growth of the stack (its lowest address at any basic block of the instrumented crate and standard library) or of the memory held (a counting allocator) for every construct and pair of constructs in the list, from 16 repetitions to 1024 or 4096 side by side (quick; 8192 or 32768 thorough), and up to 128 or 256 levels of nesting (quick; 256 or 512 thorough)."
kind = {"C16": "hist", "C17": "hist", "C18": "tree", "C21": "tree", "C23": "cost", "C25": "tree", "C26": "tree", "C27": "hist", "C28": "flat", "C30": "tree", "C31": "room", "C32": "room"}
m = {"version": 1, "setup_cmd": "./check.sh", "checks": [], "not_applicable": [],
     "notes": "Known and repaired defects: known-findings.txt. Design, bounds and planted bugs: DESIGN.md. No hooks in /repo: everything goes through the public API."}
for p in props:
    i = p["id"]
    m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                        "evidence_file": f"evidence/{i}.json", "technique": tech.get(i, TEXT), "level": "model_checking",
                        "level_note": NOTE[kind.get(i, "text")]})
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
