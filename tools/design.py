"""Writes DESIGN.md from tools/design_src.md, properties.jsonl, known_findings.json and seeded/*/meta.json."""

import json
import os
import re
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
src = open(os.path.join(here, "tools", "design_src.md")).read()
head, body = src.split("<!-- properties -->\n")
body, tail = body.split("<!-- end -->\n")
notes = {}
for m in re.finditer(r"^## (C\d+)\n(.*?)(?=^## C|\Z)", body, re.M | re.S):
    notes[m[1]] = m[2].strip()
kf = json.load(open(os.path.join(here, "known_findings.json")))
kf = kf["findings"]
props = [json.loads(x) for x in open(os.path.join(here, "properties.jsonl"))]
out = head
for p in props:
    pid = p["id"]
    if pid not in notes:
        raise SystemExit(f"no notes for {pid}")
    text = open(os.path.join(here, "rv", "props", pid.lower() + ".py")).read()
    subs = re.findall(r'Sub\("([^"]+)".*?quick=(\d+)', text)
    out += f"### {pid}  {p['title']}\n\n{notes[pid]}\n\n"
    out += "Cases per quick run: " + ", ".join(f"{n} {q}" for n, q in subs) + "; thorough 12 times as many.\n\n"
    fixed = [k for k in kf if k["property"] == pid and k["status"] == "fixed"]
    known = [k for k in kf if k["property"] == pid and k["status"] == "known"]
    if fixed or known:
        out += f"Defects found: {len(fixed)} repaired, {len(known)} recorded.\n\n"
lines = "".join(f"* {k['id']}: {k['what']}\n" for k in kf if k["status"] == "known")
tail = tail.replace("<!-- known -->\n", lines)
short = lambda w: w if len(w) < 230 else w[:220].rsplit(" ", 1)[0] + " …"
lines = "".join(f"* {short(k["what"][7:].strip())}\n" for k in kf if k["status"] == "fixed")
tail = tail.replace("<!-- fixed -->\n", lines)
lines = ""
for name in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", name, "meta.json")))
    lines += f"| {name} | {m['property']} | {m['needs']} |\n"
tail = tail.replace("<!-- seeded -->\n", lines)
open(os.path.join(here, "DESIGN.md"), "w").write(out + tail)
