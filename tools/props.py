#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing; both outputs are committed)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from table import CHECKS

TECH = ("deterministic simulation with fault injection: seeded search over operation histories and fault windows "
        "on the real library inside one process under a simulated allocator/clock/random source, judged against an "
        "executable reference model after every step")
TECH_CONC = ("deterministic simulation with fault injection: seeded scheduler interleaving simulated threads at every "
             "memory access of the real code, with stalled and dying threads, judged by a linearizability search or "
             "invariants over the recorded history")

P = []


def prop(id, title, statement, over, text, tests, files, mech, state=(), observe=(), na=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                  mech=mech, state=state, observe=observe, na=na, note=note))


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        if not p["na"] and p["id"] not in CHECKS:
            continue
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                        "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")

checks, na = [], []
for p in P:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    if p["id"] not in CHECKS:
        continue
    c = CHECKS[p["id"]]
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": TECH_CONC if c["flavour"] == "conc" else TECH,
        "level": "exploration",
        "level_note": p["note"] or "Seeded search, not exhaustive; assertions checked after every simulated step.",
    })
guard = "BFDEV_SIM_HOOKS"
man = {
    "version": 1, "setup_cmd": "sh setup.sh",
    "hooks": {"guard": guard, "enable": "Nothing to enable: every seam the checks use already exists in the library "
              "(allocator operations, callbacks, caller-supplied clocks, rand()) or is supplied by the compiler "
              "(-fsanitize=thread call-outs linked to the simulator), so no guarded hook was added to /repo.",
              "source_commits": []},
    "checks": checks, "not_applicable": na,
    "notes": "check.py builds /repo's current tree into a private directory under .build and removes it afterwards; "
             "'check.py replay FILE' re-executes a replay file; 'check.py determinism' compares event-log hashes across "
             "processes and job counts. DESIGN.md has the details.",
}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
