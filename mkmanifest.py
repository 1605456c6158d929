"""writes MANIFEST.json from the table below (kept in step with units/ and bounded/)"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
exec(open(os.path.join(HERE, "levels.py")).read())
checks = []
for p in props:
    if p in CLAIMED:
        level, technique, note = CLAIMED[p]
        checks.append(dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p} --thorough", evidence_file=f"evidence/{p}.json", technique=technique, level=level, level_note=note))
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, "no contract for this property has been built yet; see DESIGN.md")) for p in props if p not in CLAIMED]
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na, notes="pyver: contract-based deductive verifier for the Python source in /repo (see DESIGN.md)"), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
