#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from bin/props.py."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
sys.path.insert(0, os.path.join(R, "bin"))
from props import PROPS
NOTE = {
 "exploration": "Held on the executions observed: seeded generated workloads judged by an oracle independent of the crate. Trusts the oracle in harness/ and the compiler.",
 "fault_enumeration": "Held at every fault or cut point of the generated workloads that were run; the workloads themselves are sampled. Trusts the oracle in harness/ and the compiler.",
}
m = {
 "version": 1,
 "setup_cmd": "python3 bin/check.py --setup",
 "checks": [
  {"property": p, "quick_cmd": f"python3 bin/check.py {p}", "thorough_cmd": f"python3 bin/check.py {p}",
   "technique": "runtime monitoring: " + t, "level": l, "level_note": NOTE[l]}
  for p, (_, l, t, _) in PROPS.items()],
 "not_applicable": [],
 "notes": "No hooks in /repo are needed: every property is observed through the public API. VERIF_TIER selects quick or thorough, VERIF_SEED every random choice. See DESIGN.md.",
}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
