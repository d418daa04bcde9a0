"""Writes /verif/MANIFEST.json from the registered checks and the notes below."""
import json, os, subprocess
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOT_YET = "Not claimed yet: the check for this property is still being built."
NOTE = "TLC explores the bounded spec exhaustively; the real code is bound to it by replaying spec-generated and seeded random scenarios and validating every recorded event as a step of the spec."
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none", "enable": "", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "All checks: python3 tools/check.py <ID>, which honours VERIF_TIER and VERIF_SEED. See DESIGN.md."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 tools/check.py " + i,
                            "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": "TLA+ specification checked with TLC; conformance by trace validation of the real code",
                            "level": "model_checking", "level_note": checks.NOTES.get(i, NOTE)})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_YET})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
