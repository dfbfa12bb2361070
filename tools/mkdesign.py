#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, and per property the oracle text plus what harness/*.cpp states about bounds and entries."""
import json, re, glob, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = open(R + "/tools/design_head.md").read()
TAIL = open(R + "/tools/design_tail.md").read()
O = {}
for b in re.split(r"^## ", open(R + "/tools/design_oracles.md").read(), flags=re.M)[1:]:
    i, t = b.split("\n", 1); O[i.strip()] = t.strip()
out = [HEAD.rstrip(), "", "## Properties", ""]
for l in open(R + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; fs = sorted(glob.glob(f"{R}/harness/{i}.cpp") + glob.glob(f"{R}/harness/{i}_*.cpp"))
    out += [f"### {i} {p['title']}", "", "*Specified and oracle.* " + O[i], "", "*Why tests cannot settle it.* " + p["why_tests_cant"], ""]
    for f in fs:
        s = open(f).read(); g = lambda k: " ".join(re.findall(r"^//@ %s (.*)$" % k, s, re.M)); st = re.findall(r"^//@ stub (.*)$", s, re.M)
        ent = re.findall(r'^//@ entry (\w+).*?quick="([^"]*)"', s, re.M)
        out += [f"* `harness/{os.path.basename(f)}`, {len(ent)} entries (quick parameters): " + ", ".join(n + (f" [{q}]" if q else "") for n, q in ent) + ".", f"* Bounds: {g('bounds')}.", f"* Outside: {g('outside')}."]
        if st: out.append("* Extra stubs: " + ", ".join(f"`{x}`" for x in st) + ".")
    out.append("")
kf = [x for x in open(R + "/known-findings.txt") if x.startswith("fixed:")]
out += [TAIL.replace("@FIXES@", "\n".join("* " + re.sub(r"^fixed: property=(\w+) (\w+) ", r"\1, commit \2: ", x.strip()) for x in kf)).rstrip(), ""]
open(R + "/DESIGN.md", "w").write("\n".join(out))
