import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "TLA+ specification checked by TLC; TLC trace validation of recorded runs and replay of TLC-enumerated behaviours against the real code"
NOTE = {
}
DEF = ("TLC decides every recorded step of a seeded campaign (exact rationals, named clause per property) and "
       "all behaviours of a small scope enumerated from the specification are replayed into the code; "
       "bounded, sampled beyond the small scope. Trusts TLC, the BigInteger override of Rat, the recorder; equality up to rounding.")
checks = [dict(property=p["id"],
               quick_cmd="/opt/venv/bin/python -B harness/check.py %s" % p["id"],
               thorough_cmd="/opt/venv/bin/python -B harness/check.py %s --thorough" % p["id"],
               evidence_file="evidence/%s.json" % p["id"],
               technique=TECH, level="model_checking",
               level_note=NOTE.get(p["id"], DEF)) for p in props]
json.dump(dict(version=1, setup_cmd="sh setup.sh", checks=checks, not_applicable=[],
               notes="No hooks in /repo are needed: every observation is at the public interface. "
                     "Defects repaired in /repo are listed in known_findings.txt."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
