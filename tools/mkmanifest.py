#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the notes below.
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
done = set(sys.argv[1].split(",")) if len(sys.argv) > 1 else None
NOTE = {
 "I": "Verus discharges every contract of the bounds/interval functions this property depends on, for every ordered value type T and every input, on text woven mechanically from /repo/src on each run. Assumes T's comparisons are a lawful total order and (where end points are cloned or computed) lawful Clone/arithmetic of T; trait dispatch of split impls is trusted. A bounded exhaustive replay on the real code accompanies it.",
 "C": "Verus discharges the contracts of the circular-buffer functions this property depends on, for every element type, capacity and position, on text woven mechanically from /repo/src on each run. Assumptions and functions outside the subset are listed in the evidence; those are covered by a bounded replay on the real code only.",
 "D": "Verus discharges the contracts of the disjoint-set functions this property depends on, for every history (via the representation invariant), on text woven mechanically from /repo/src on each run. Assumes lawful Eq/Hash/Clone of the element type; functions outside the subset are listed in the evidence and covered by a bounded replay only.",
 "K": "Verus discharges the contracts of the counter functions this property depends on, for every key type and history, on text woven mechanically from /repo/src on each run. Assumes lawful Eq/Hash/Clone of the key type and no count overflow; functions outside the subset are listed in the evidence and covered by a bounded replay only.",
}
checks, na = [], []
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)["id"]
    if done is not None and not any(p.startswith(d) for d in done):
        na.append({"property": p, "reason": "no check yet (work in progress)"}); continue
    checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p, "technique": "contract-based deductive verification (Verus) of the source as woven on each run, with replay of counterexamples on the real code",
        "level": "proof", "level_note": NOTE[p[0]]})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
  "notes": "See DESIGN.md. Checks exit 0 or 1 only; a run whose proof could not be carried out says so in its evidence (level exploration)."},
  open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
