#!/usr/bin/env python3
"""Refreshes the generated tables (between the marker lines) of DESIGN.md: sub-checks and planted bugs."""
import json, os, re, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = subprocess.run([here + "/harness/target/release/harness", "list"], capture_output=True, text=True, check=True).stdout
subs = "\n".join(f"* **{p}/{n}**: {r}" for p, n, r in (l.split("\t") for l in out.splitlines()))
res = {}
f = os.path.join(here, "tools/seed_results.txt")
if os.path.exists(f):
    for l in open(f):
        k, _, v = l.partition(":")
        m = re.search(r"(C\d\d/\w+)", v)
        res[k] = m.group(1) if m else "missed"
rows = ["| planted bug | breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['what_it_breaks']} | {m['needs']} | {res.get(d, '?')} |")
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
for name, text in (("subs", subs), ("bugs", "\n".join(rows))):
    s = re.sub(rf"(<!-- {name} -->\n).*?(<!-- end {name} -->)", lambda m: m.group(1) + text + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)
