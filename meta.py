#!/usr/bin/env python3
"""The properties and the manifest: writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
TECH = "symbolic execution of the LLVM bitcode of the real sources; SMT (z3) and a complete finite-field decision procedure over all values within bounds; counterexamples replayed natively"
P = []
def prop(id, title, statement, over, text, why, files, mech, level_note=None, na=None, observe=None, tech=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=level_note, na=na, observe=observe, tech=tech))
exec(open(V + "/properties.py").read())
def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"] or [], "hook_needed": None}}) + "\n")
    checks = [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"], "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["tech"] or TECH, "level": "model_checking", "level_note": p["note"]} for p in P if not p["na"]]
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
         "notes": "No hooks in /repo. The tier is read from VERIF_TIER; the thorough tier adds jobs and multiplies every time limit by six."}
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
if __name__ == "__main__": main()
