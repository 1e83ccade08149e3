"""Writes DESIGN.md from tools/DESIGN.in.md, the contracts, the seeds and known-findings.json."""
import collections
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from engine.common import *

for f in sorted(glob.glob(HERE + "/contracts/*.py")):
    importlib.import_module("contracts." + os.path.basename(f)[:-3])
cs, bs = collections.defaultdict(list), collections.defaultdict(list)
for c in Contract.registry:
    for p in c.props:
        t = f"{c.name.replace('op:', '')} ({len(c.variants)}{'' if c.symbolic else ', native evaluation only'})".replace("|", "\\|")
        if t not in cs[p]:
            cs[p].append(t)
for b in Bounded.registry:
    for p in b.props if isinstance(b.props, (list, tuple)) else [b.props]:
        bs[p].append(f"{b.name}: {b.bound}")
rows = []
for line in open(HERE + "/properties.jsonl"):
    d = json.loads(line)
    p = d["id"]
    bb = [x for x in bs[p] if "of 8)" not in x or "(1 of 8)" in x]
    rows.append(f"| {p} {d['title']} | {', '.join(cs[p])} | {'; '.join(bb) or 'none'} |")
seeds = []
for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    d = json.load(open(f))
    sid = os.path.basename(os.path.dirname(f))
    by = {"c11-not-here": "missed"}.get(sid, "check " + d["property"])
    seeds.append(f"| {sid}: {d['what_it_breaks']} | {d['property']} | {by} |")
s = open(HERE + "/tools/DESIGN.in.md").read()
fixed = json.load(open(HERE + "/known-findings.json"))["fixed"]
s = s.replace("@@TABLE@@", "\n".join(rows)).replace("@@SEEDS@@", "\n".join(seeds)).replace("@@NFIX@@", str(len(fixed)))
open(HERE + "/DESIGN.md", "w").write(s)
print(len(rows), len(seeds), len(s))
