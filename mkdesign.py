#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md: one section per property, from properties.jsonl, spec.py and known_findings.json."""
import json, os, glob
from spec import PROPS
try:
    from na import NA
except ImportError:
    NA = []
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
kf = json.load(open(f"{here}/known_findings.json"))
na = {n["property"]: n["reason"] for n in NA}
seeds = {}
for m in glob.glob(f"{here}/seeded/*/meta.json"):
    j = json.load(open(m))
    seeds.setdefault(j["property"], []).append((os.path.basename(os.path.dirname(m)), j["needs"], j["what_it_breaks"]))
out = []
for p in props:
    i = p["id"]
    out.append(f"### {i}: {p['title']}\n")
    if i in na:
        out.append(f"Not applicable: {na[i]}\n")
        continue
    s = PROPS[i]
    q, t = s["quick"], s.get("thorough", [])
    crates = sorted({h["crate"] for h in q})
    out.append(f"- Real code executed symbolically: {', '.join(s.get('fns', p['anchors']['observe_at']))} ({'; '.join(p['anchors']['files'])})")
    out.append(f"- Harnesses: {', '.join(crates)}; {len(q)} runs in the quick tier" + (f", {len(t)} more in the thorough tier" if t else ""))
    out.append(f"- Bounds: {s['bounds']}")
    if s.get("outside"):
        out.append(f"- Outside: {s['outside']}")
    for a in s.get("assumptions", []):
        out.append(f"- Assumes: {a}")
    out.append(f"- Beyond the tests: {p['why_tests_cant']}")
    for f in kf["findings"]:
        if f["property"] == i:
            out.append(f"- Known finding ({f['harness']}): {f['what']}")
    for f in kf["fixed"]:
        if f"property={i} " in f:
            out.append("- Repaired: " + f.split(f"property={i} ", 1)[1])
    for n, needs, br in sorted(seeds.get(i, [])):
        out.append(f"- Planted `{n}`, caught: {br} (needs: {needs})")
    out.append("")
d = open(f"{here}/DESIGN.md").read().split("<!-- generated below by mkdesign.py -->")[0]
open(f"{here}/DESIGN.md", "w").write(d + "<!-- generated below by mkdesign.py -->\n\n## Properties\n\n" + "\n".join(out))
