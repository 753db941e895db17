"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
# Core obligations hold for all inputs, with no bound.
PROOF = ["C01", "C02", "C03", "C04", "C06", "C08", "C09", "C10", "C11", "C12",
         "C15", "C16", "C18", "C23"]
# Obligations hold for all data, but for schemas, parallelism or numbers of
# changes up to a bound that each unit states.
LEVEL = {p: "proof" for p in PROOF}
NOTE = {}
PNOTE = ("Obligations generated from the current source by engine/ and "
         "discharged by z3/cvc5, function by function, for all inputs; how "
         "they compose is argued in DESIGN.md section 4, not machine-checked. "
         "Trusted: the generator engine/, solvers, library contracts "
         "(section 3), mathematical integers and reals. ")
ENOTE = ("Obligations generated from the current source and discharged by "
         "z3/cvc5 for all data, but some central units bound the number of "
         "fields, tasks or changes (coverage.bounded_obligations), so the "
         "property as a whole is claimed as bounded. Trusted as in DESIGN.md "
         "section 3. ")
RNOTE = ("The same contracts are evaluated on the real code over sampled "
         "histories (bounded), which also decides obligations left undecided.")
TECH = "contract-based deductive verification"


def main():
  props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
  checks = []
  for p in props:
    pid = p["id"]
    if pid in NA:
      continue
    level = LEVEL.get(pid, "exploration")
    checks.append({
        "property": pid,
        "quick_cmd": f"bin/check {pid} quick",
        "thorough_cmd": f"bin/check {pid} thorough",
        "technique": TECH,
        "level": level,
        "level_note": NOTE.get(
            pid, (PNOTE if level == "proof" else ENOTE) + RNOTE),
    })
  man = {"version": 1, "setup_cmd": "bin/setup", "checks": checks,
         "not_applicable": [{"property": k, "reason": v}
                            for k, v in NA.items()]}
  with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")


if __name__ == "__main__":
  main()
