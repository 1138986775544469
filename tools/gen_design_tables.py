#!/usr/bin/env python3
"""fills the generated tables of DESIGN.md (between <!-- X --> and <!-- /X -->)"""
import json, os, re, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys; sys.path.insert(0, R + "/vx")
from properties import PROPS
props = {json.loads(l)["id"]: json.loads(l) for l in open(R + "/properties.jsonl")}
d = open(R + "/DESIGN.md").read()
def put(tag, body):
    global d
    d = re.sub(rf"(<!-- {tag} -->\n).*?(<!-- /{tag} -->)", lambda m: m.group(1) + body + m.group(2), d, flags=re.S)
put("SEEDS", "| planted change | property | what it needs | caught by |\n|---|---|---|---|\n" + "".join(
    (lambda n, m: f"| {n} | {m['property']} | {m['needs']} | {m['property']} |\n")(os.path.basename(os.path.dirname(f)), json.load(open(f))) for f in sorted(glob.glob(R + "/seeded/*/meta.json"))))
put("UNITS", "| property | title | units | left to the bounded search |\n|---|---|---|---|\n" + "".join(
    f"| {p} | {props[p]['title']} | {', '.join(u for u, _ in PROPS[p]['units'])} | {PROPS[p]['bounded_for']} |\n" for p in sorted(PROPS)))
rows = [re.match(r"fixed: property=(\S+) (\S+) (.*)", l) for l in open(R + "/known_findings.txt")]
put("FIXES", "| property | commit | what failed |\n|---|---|---|\n" + "".join(f"| {m.group(1)} | {m.group(2)} | {m.group(3)} |\n" for m in rows if m))
open(R + "/DESIGN.md", "w").write(d)
