#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
t = {}
for m in sorted(glob.glob("seeded/*/meta.json")):
    t.setdefault(json.load(open(m))["property"], []).append(m.split("/")[1])
head = "| Property and check | Planted |\n|----|----|\n"
s = open("DESIGN.md").read()
a = s.index(head) + len(head)
b = a
while s[b:b + 1] == "|":
    b = s.index("\n", b) + 1 if "\n" in s[b:] else len(s)
s = s[:a] + "".join("| %s | %s |\n" % (k, ", ".join(t[k])) for k in sorted(t)) + s[b:]
open("DESIGN.md", "w").write(s)
