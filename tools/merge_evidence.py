#!/usr/bin/env python3
# merge_evidence.py <out.json> <part.json>...   One evidence file from the parts of a check.
# Parts of the same build are shards: their counts are added and judged against the needs they name.
# Exits 2 when too little was observed.
import json, os, sys
out, parts = sys.argv[1], sys.argv[2:]
ev, short, builds = None, [], {}
for f in parts:
    try:
        e = json.load(open(f))
    except (OSError, ValueError) as x:
        print(f"INCONCLUSIVE no evidence from {os.path.basename(f)}: {x}")
        sys.exit(2)
    builds.setdefault(e["coverage"]["build"], []).append((f, e))
total = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "builds": {}, "samples": [], "cases_skipped_for_time": 0}
wall = viol = 0
alldistinct, shown = set(), set()
for b, es in builds.items():
    obs, groups, sets, need, evals = {}, {}, {}, {}, 0
    for f, e in es:
        c = e["coverage"]
        evals += c["evaluations"]
        for k, v in c["observed"].items():
            if not k.startswith("distinct "):
                obs[k] = obs.get(k, 0) + v
        for k, v in c["cases_per_group"].items():
            groups[k] = groups.get(k, 0) + v
        need.update(c.get("need", {}))
        total["rule"] = c["rule"]
        total["cases_skipped_for_time"] += c["cases_skipped_for_time"]
        for x in c["samples"]:
            key = (b, x.split(": ")[0])
            if key not in shown and sum(k[0] == b for k in shown) < 24 // len(builds):
                shown.add(key)
                total["samples"].append(f"{b}: {x}")
        wall += e["wall_s"]
        viol += e["violations"]
        if os.path.exists(f + ".sets"):
            for l in open(f + ".sets"):
                h, k = l.rstrip("\n").split(" ", 1)
                sets.setdefault(k, set()).add(h)
    own = sets.pop("nontrivial", set())
    alldistinct |= own
    for k, v in sets.items():
        obs["distinct " + k] = len(v)
    for k, v in need.items():
        have = len(own) if k == "nontrivial" else max(obs.get(k, 0), obs.get("distinct " + k, 0))
        if have < v:
            short.append(f"{b}: {k} {have} < {v}")
    if not evals or not own:
        short.append(f"{b}: evaluations {evals} nontrivial {len(own)}")
    total["evaluations"] += evals
    total["builds"][b] = {"evaluations": evals, "distinct_nontrivial": len(own), "processes": len(es), "observed": obs,
                          "cases_per_group": groups if len(groups) <= 60 else {"groups": len(groups), "cases": sum(groups.values())}}
total["distinct_nontrivial"] = len(alldistinct)
e0 = next(iter(builds.values()))[0][1]
ev = {"property": e0["property"], "tier": e0["tier"], "seed": e0["seed"], "level": e0["level"], "coverage": total,
      "assumptions": e0["assumptions"], "wall_s": round(wall, 3), "violations": viol}
json.dump(ev, open(out, "w"), indent=1)
for f in parts:
    if os.path.exists(f + ".sets"):
        os.remove(f + ".sets")
print(f"{ev['property']}: {len(parts)} processes, evaluations={total['evaluations']} distinct={len(alldistinct)} violations={viol}")
if short and not viol:
    print("INCONCLUSIVE too little observed: " + ", ".join(short))
    sys.exit(2)
