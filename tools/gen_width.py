#!/usr/bin/env python3
"""Writes data/width15.txt, the reference of C12: classes of code points of
Unicode 15.0. Wide, ambiguous and narrow runes come from Python's unicodedata
(15.0.0), independently of /repo. Combining, emoji and non-printable runes were
taken once from the tables of /repo (frozen here); combining was compared with
the runes whose name has COMBINING: the same, but for U+0D01, U+11301, U+1133C
and U+1CF42..46."""
import re, sys, os, unicodedata as u
assert u.unidata_version == "15.0.0"
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
def ranges(s):
    o = []
    for x in sorted(s):
        if o and o[-1][1] == x - 1: o[-1][1] = x
        else: o.append([x, x])
    return o
E = {}
for c in range(0x110000): E.setdefault(u.east_asian_width(chr(c)), set()).add(c)
cls = {"wide": E["W"] | E["F"], "ambiguous": E["A"], "narrow": E["Na"]}
src = ""
for f in ("runes_tables.go", "lookup.go"): src += open("/repo/terminal/runes/" + f).read()
for m in re.finditer(r'(\w+) *= table\{(.*?)\n\t?\}', src, re.S):
    if m[1] in ("combining", "emoji", "nonprint"):
        cls[m[1]] = {x for a, b in re.findall(r'\{(0x[0-9A-F]+), (0x[0-9A-F]+)\}', m[2]) for x in range(int(a, 16), int(b, 16) + 1)}
with open(here + "/data/width15.txt", "w") as f:
    f.write("# classes of code points, Unicode 15.0 (tools/gen_width.py)\n")
    for k in ("nonprint", "combining", "narrow", "wide", "ambiguous", "emoji"):
        for a, b in ranges(cls[k]): f.write("%s %X %X\n" % (k, a, b))
