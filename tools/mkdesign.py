#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design.md with the per-property section taken from the harnesses."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
tech = json.load(open(V + "/tools/techniques.json"))
notes = json.load(open(V + "/tools/design_notes.json"))
def strs(t): return "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', t))
out = []
for p in props:
    i = p["id"]; src = open("%s/harness/%s.cpp" % (V, i.lower())).read()
    src = src.replace("SCHED_RULE", '", under generated schedules"').replace("SCHED_ASSUME", '"the scheduler is sequentially consistent"')
    lit = r'"(?:[^"\\]|\\.)*"'
    rule = strs(re.search(r'\b[ur]\.rule\s*=\s*((?:%s\s*)+);' % lit, src).group(1))
    ass = re.search(r'\b[ur]\.assumptions\s*=\s*\{((?:\s*%s\s*,?)*)\}' % lit, src)
    ass = re.findall(r'"((?:[^"\\]|\\.)*)"', ass.group(1)) if ass else []
    subs = re.findall(r'\{"(\w+)",\s*[\w<>:, ]+?,\s*(\d+),\s*(\d+),', src)
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("Decided by: %s.\n" % tech[i])
    out.append("Generated and compared: %s\n" % (rule if rule.endswith(".") else rule + "."))
    if ass: out.append("Bounds and assumptions: %s.\n" % "; ".join(a.rstrip(".") for a in ass))
    if subs: out.append("Sub-checks (cases quick/thorough): %s.\n" % ", ".join("%s %s/%s" % s for s in subs))
    if i in notes: out.append(notes[i] + "\n")
seeded = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    seeded.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), m.get("caught_by", m["property"])))
t = open(V + "/tools/design.md").read()
t = t.replace("@@PROPERTIES@@", "\n".join(out)).replace("@@SEEDED@@", "\n".join(["| change | property | what it breaks | caught by |", "|---|---|---|---|"] + seeded))
t = t.replace("@@FIXED@@", "\n".join("- " + l[7:].strip() for l in open(V + "/known_findings.txt") if l.startswith("fixed:")))
open(V + "/DESIGN.md", "w").write(t)
