#!/usr/bin/env python3
# Writes /verif/MANIFEST.json. CLAIMED maps property -> (technique, level, level_note).
import json
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
MON = "Runtime monitoring: "
TRUST = " Trusted: the harness's own monitors and reference code, the compiler, and the third-party primitives named in DESIGN.md."
CLAIMED = {
 "C01": (MON + "online outcome monitor over generated honest sessions of all 41 stacks, interleaved and in both roles", "exploration",
         "Held on every observed session; inputs sampled from categories, not exhausted." + TRUST),
 "C02": (MON + "key-agreement monitor over sessions whose passwords differ by one mutation", "exploration",
         "Held on every observed pair of different passwords; 21 kinds of difference sampled." + TRUST),
 "C03": (MON + "key-agreement monitor over sessions that disagree in one context value", "exploration",
         "Held on every observed disagreement on session id, role, peer or authority." + TRUST),
}
try:
    from manifest_more import MORE
    CLAIMED.update(MORE)
except ImportError:
    pass
checks = []
for i in ids:
    if i in CLAIMED:
        t, l, n = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": l, "level_note": n})
m = {"version": 1, "setup_cmd": "./check.sh --build",
     "checks": checks,
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in CLAIMED],
     "notes": "No hooks in /repo: the checks use the public interfaces, the extern C symbols of the bindings, interposed libc entropy and independent reference implementations."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed")
