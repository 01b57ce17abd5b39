#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from properties.jsonl"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "default": "Bounded: TLC enumerates every layout and argument within the constants of bin/profiles.py plus seeded random histories; every "
               "recorded call of the real code is validated by TLC against spec/CBTrace.tla. Trusted: g++, TLC, the recording driver.",
    "fault": "As the other checks, and each plan is repeated once for every element operation, iterator operation and allocation it performs, with "
             "exactly that one failing. Single failures only.",
    "debug": "Compiled with BOOST_CB_ENABLE_DEBUG; assertion failures are intercepted and recorded. Bounded as the other checks.",
}
FAULT = {"C10", "C11", "C13", "C14", "C21"}
DEBUG = {"C17", "C18", "C28"}
checks = []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)["id"]
    checks.append(dict(property=p, quick_cmd="python3 bin/cbv.py check " + p, thorough_cmd="VERIF_TIER=thorough python3 bin/cbv.py check " + p,
                       evidence_file="evidence/%s.json" % p,
                       technique="TLA+ specification; TLC-generated behaviours replayed on the real code; TLC trace validation of the recordings",
                       level="model_checking", level_note=NOTE["fault" if p in FAULT else "debug" if p in DEBUG else "default"]))
json.dump(dict(version=1, setup_cmd="python3 bin/cbv.py setup", checks=checks, not_applicable=[],
               notes="No hooks in /repo: the public API, the allocator and the element type of the harness expose everything that is recorded. "
                     "'python3 bin/cbv.py model' checks the specification itself; 'python3 bin/cbv.py replay replays/FILE' runs a violation again."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
