"""merge_evidence.py OUT SEED PART...: adds up the evidence of the rounds of one check."""
import json, sys

out, seed, parts = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
evs = [json.load(open(p)) for p in parts]
acc = evs[0]


def add(a, b):
    for k, v in b.items():
        if isinstance(v, bool) or isinstance(v, str):
            a.setdefault(k, v)
        elif isinstance(v, dict):
            add(a.setdefault(k, {}), v)
        elif isinstance(v, list):
            if k == "samples":
                a[k] = (a.get(k, []) + v)[:6]
            else:
                a.setdefault(k, v)
        else:
            a[k] = a.get(k, 0) + v


for e in evs[1:]:
    mp = max(acc["coverage"].get("max_parallel_blocking_sections", 0), e["coverage"].get("max_parallel_blocking_sections", 0))
    acc["wall_s"] += e["wall_s"]
    acc["violations"] += e["violations"]
    ps = e["coverage"].pop("program_seed", None)
    acc["coverage"].setdefault("program_seeds", [acc["coverage"].get("program_seed")]).append(ps)
    add(acc["coverage"], e["coverage"])
    acc["coverage"]["max_parallel_blocking_sections"] = mp
acc["seed"] = seed
c = acc["coverage"]
if acc["wall_s"] > 0:
    c["seeds_per_hour"] = int(c["evaluations"] / acc["wall_s"] * 3600)
    c["requests_per_hour"] = int(c["requests_simulated"] / acc["wall_s"] * 3600)
json.dump(acc, open(out, "w"), indent=1)
