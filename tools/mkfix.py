#!/usr/bin/env python3
"""Regenerates known_findings.json's "fixed" list from (property, what failed) below and the fix commits in /repo."""
import json, subprocess, sys
log = subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines()
fix = {}
for l in log:
    h, s = l.split(" ",1)
    if s.startswith("fix:"): fix[s[4:].strip()] = h
P = json.load(open("tools/fixprops.json"))
out, missing = [], []
for s,h in fix.items():
    if s not in P: missing.append(s); continue
    for p in P[s].split(","): out.append(f"fixed: property={p} {h} {s}")
if missing: print("no property for:", *missing, sep="\n  ")
try: k = json.load(open("known_findings.json"))
except FileNotFoundError: k = {"findings": []}
k["fixed"] = out
json.dump(k, open("known_findings.json","w"), indent=1); open("known_findings.json","a").write("\n")
