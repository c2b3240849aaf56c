"""MANIFEST.json from properties.jsonl and pbt/modules.json"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mods = json.load(open(H + "/pbt/modules.json"))
STATEFUL = {"C12", "C17", "C19", "C20", "C23", "C27", "C30", "C31", "C32", "C35"}
checks, na = [], []
for l in open(H + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p not in mods:
        na.append(dict(property=p, reason="check not built yet"))
        continue
    checks.append(dict(
        property=p, quick_cmd=f"bash check.sh {p}", thorough_cmd=f"VERIF_TIER=thorough bash check.sh {p}",
        technique="property-based testing (Hypothesis): " + ("stateful histories against a reference model" if p in STATEFUL
                  else "generated inputs against independent oracles and metamorphic relations"),
        level="exploration",
        level_note="Generated-input search, not proof: no violation among the cases counted in the evidence file. Trusts the "
                   "oracles in /verif/pbt (independent physics formulas, numpy/scipy) and the stated domain and tolerances."))
m = dict(version=1, setup_cmd="bash check.sh --smoke", checks=checks, not_applicable=na,
         notes="No hooks in /repo: observation is at the public interface only.")
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
