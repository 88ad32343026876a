#!/usr/bin/env python3
"""Collects what the sequences in Miri did, for the evidence of A02."""
import json, os, re, sys
w, jobs, seed, bad = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
tot, ran, other = {}, 0, []
for i in range(1, jobs + 1):
    t = open(f"{w}/miri-{i}.log", errors="replace").read()
    m = re.search(r"^SEQS (\{.*\})$", t, re.M)
    if m:
        ran += 1
        for k, v in json.loads(m.group(1)).items(): tot[k] = tot.get(k, 0) + v
    else:
        other.append([l for l in t.splitlines() if l.strip()][-1:] or ["time limit"])
json.dump({"coverage": {"evaluations": tot.get("sequences", 0), "observed_events": tot}, "wall_s": 0, "violations": bad},
    open(f"{w}/A02-miri.json", "w"))
print(f"miri: {ran} of {jobs} runs completed, {tot.get('sequences', 0)} sequences, {tot.get('handles created', 0)} handles")
for o in other: print("  without result:", o[0][:200])
if bad:
    root = os.path.dirname(w)
    os.makedirs(f"{root}/replays", exist_ok=True)
    os.makedirs(f"{root}/evidence", exist_ok=True)
    p = f"{root}/replays/A02-{seed}-miri.json"
    json.dump({"property": "A02", "seed": seed, "group": "miri", "index": 0, "part": "miri", "what": "see the report above"}, open(p, "w"), indent=1)
    json.dump({"property": "A02", "tier": os.environ.get("VERIF_TIER", "quick"), "seed": seed, "level": "exploration",
        "coverage": {"evaluations": max(1, tot.get("sequences", 0)), "distinct_nontrivial": 0, "rule": "stopped by Miri", "samples": []}, "wall_s": 0.0, "violations": 1},
        open(f"{root}/evidence/A02.json", "w"))
    print(f"VIOLATION property=A02 replay={p}")
