#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md: findings from known_findings.txt, planted bugs from seeded/ and a log of
seedtest.sh (first argument), rates from the evidence of the last runs."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"
s = open(p).read()

def fill(name, text):
    global s
    a, b = f"<!-- {name} -->\n", f"<!-- end {name} -->"
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + text + s[j:]

fill("FINDINGS", "".join("* " + re.sub(r"^fixed: property=(\S+) (\S+) ", r"\1, \2: ", l)
     for l in open(V + "/known_findings.txt") if l.startswith("fixed:")))
if len(sys.argv) > 1:
    res = {}
    for l in open(sys.argv[1]):
        m = re.match(r"(\S+) (\S+): (\w+) \(.*\) (\w+) \(exit (\d+), (\d+)s\)", l)
        if m:
            res[m[1]] = m
    rows = "| bug | property | needs | caught by |\n|---|---|---|---|\n"
    for d in sorted(os.listdir(V + "/seeded")):
        m = json.load(open(f"{V}/seeded/{d}/meta.json"))
        r = res.get(d)
        by = "?" if r is None else (m["property"] if r[4] == "caught" else "not caught")
        rows += f"| {d} | {m['property']} | {m['needs']} | {by} |\n"
    fill("SEEDS", rows)
rows = "| check | tier | runs | non-trivial, distinct | runs per hour |\n|---|---|---|---|---|\n"
for f in sorted(os.listdir(V + "/evidence")):
    e = json.load(open(f"{V}/evidence/{f}"))
    c = e["coverage"]
    if e.get("violations", 0) == 0:
        rows += f"| {e['property']} | {e['tier']} | {c['evaluations']} | {c['distinct_nontrivial']} | {c['seeds_per_hour']} |\n"
if len(sys.argv) > 2:
    fill("RATES", rows)
open(p, "w").write(s)
