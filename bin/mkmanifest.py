import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import suites
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    c = suites.PROPS[i]
    models = ", ".join(c.get("mc", [])) or None
    checks.append(dict(
        property=i, quick_cmd=f"python3 bin/check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 bin/check.py {i}",
        evidence_file=f"evidence/{i}.json",
        technique="TLA+ specification checked with TLC" + (f" (models: {models}; behaviours replayed on the code)" if models else "")
        + "; recorded executions of the code validated against it (traces: " + ", ".join(c["traces"]) + ")",
        level="model_checking",
        level_note=c.get("note", "The model is explored exhaustively within the stated constants; the code is bound to it by "
                         "replaying model behaviours and by validating seeded recorded executions, so code paths no replayed or "
                         "recorded execution reaches are not covered. Trusts TLC, the executor's recording, and the specification.")))
json.dump(dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=[],
               notes="No hooks: everything is observed through the public API. Language: TLA+ with TLC. See DESIGN.md."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
