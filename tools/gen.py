"""Writes properties.jsonl and MANIFEST.json from the table below (python3 tools/gen.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []
BASE_NOTE = "Decided on the compiler's MIR of the current tree without running it. Numbers are abstracted to exact reals with a small positive tolerance (rounding, overflow and NaN are outside); the standard library is trusted as modelled in engine/models.py. An obligation is proved by normal-form identity of the extracted summary with the specification; a violation is raised only when the two normal forms differ on a region shown inhabited; anything else is reported as undecided in the evidence."


def prop(id, title, statement, over, quant, why, files, mech, technique="value-graph abstract interpretation of MIR, normal forms compared with the specification", note=None, claim=True, na=None, state=None):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, (id, statement)
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
                  "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "hook_needed": None, **({"state": state} if state else {})},
                  "_t": technique, "_n": (note + " " if note else "") + BASE_NOTE if note is None or not note.startswith("!") else note[1:], "_claim": claim, "_na": na})


exec(open(os.path.join(V, "tools", "table.py")).read())
ids = [p["id"] for p in PROPS]
assert len(ids) == len(set(ids))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "python3 engine/extract.py",
       "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": p["_t"], "level": "other", "level_note": p["_n"]} for p in PROPS if p["_claim"]],
       "not_applicable": [{"property": p["id"], "reason": p["_na"]} for p in PROPS if not p["_claim"]],
       "notes": "Static analysis only: a rustc_private driver extracts MIR facts of /repo on every run; engine/ interprets them abstractly; specs/ hold the specifications. See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(PROPS), "properties,", len(man["checks"]), "checks")
