#!/usr/bin/env python3
"""regenerates MANIFEST.json from the lists below and properties.jsonl"""
import json
CLAIMED = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31".split()
NOTE = ("Deductive proof by Verus: every function the property depends on carries a contract, each is checked for all inputs against its callees' "
        "contracts, on text mechanically translated from the current source on every run. Trusts the translator, the contracts assumed for external "
        "crates and the IC system API (spec/prelude.rs) and the listed environment assumptions; machine arithmetic is checked, not idealised. ")
EXTRA = {}
PENDING = {}
NA = {}
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": "contract-based deductive verification (Verus) of the translated source",
                       "level": "proof", "level_note": NOTE + EXTRA.get(i, "")})
    else:
        na.append({"property": i, "reason": NA.get(i) or PENDING.get(i) or "contracts for the functions this property rests on are not complete yet"})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks: /repo is compiled and translated as it is. Known findings and fixes: known_findings.json. Method and trusted base: DESIGN.md."},
          open("MANIFEST.json", "w"), indent=1)
