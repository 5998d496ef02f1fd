"""Slowest cases of the last run: tools/slow.py C09 [n]"""
import json, os, sys
e = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence", sys.argv[1].upper() + ".json")))
c = e["coverage"]["cases"]
for n in sorted(c, key=lambda n: -c[n]["seconds"])[:int(sys.argv[2]) if len(sys.argv) > 2 else 12]:
    print(f"{c[n]['seconds']:8.1f}s {c[n]['paths']:6d} {n}")
print("sum", sum(v["seconds"] for v in c.values()), "wall", e["wall_s"], "validated", e["coverage"]["traces_validated_against_impl"])
