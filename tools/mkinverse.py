#!/usr/bin/env python3
"""Generates spec/CharsetsInv.tla, the inverse of the tables in Charsets.tla,
as literals: TLC evaluates those once. mc/MC_Charsets checks it."""
import re, os
here = os.path.dirname(os.path.abspath(__file__)) + "/../spec/"
src = open(here + "Charsets.tla").read()
def tables(name):
    s = src[src.index(name + " =="):]
    out = []
    for m in re.finditer(r"<< \\\* NLI (\d+)\n(.*?)>>", s, re.S):
        v = [int(x) for x in re.findall(r"-?\d+", m.group(2))]
        assert len(v) == 128
        out.append(v)
        if len(out) == 14:
            return out
L, S = tables("LockingTable"), tables("ShiftTable")
pages = sorted({c // 32 for t in L + S for c in t if c >= 0})
top = max(pages) + 1
idx = [pages.index(p) + 1 if p in pages else 0 for p in range(top)]
def inv(t):
    rows = []
    for p in pages:
        if not any(c // 32 == p for c in t if c >= 0):
            rows.append("<<>>")
        else:
            rows.append("<<" + ",".join("{" + ",".join(str(s) for s in range(128) if t[s] == 32 * p + k) + "}" for k in range(32)) + ">>")
    return "<<" + ",\n".join(rows) + ">>"
with open(here + "CharsetsInv.tla", "w") as f:
    f.write("---- MODULE CharsetsInv ----\n(* Generated by tools/mkinverse.py from Charsets.tla: the septets of each\n   character, by page of 32 characters. *)\nEXTENDS Integers, Sequences\n")
    f.write("PageIndex == <<%s>>\n" % ",".join(map(str, idx)))
    f.write("LockingInv == <<\n%s>>\n" % ",\n".join(map(inv, L)))
    f.write("ShiftInv == <<\n%s>>\n" % ",\n".join(map(inv, S)))
    f.write("NoInv == <<%s>>\n" % ",".join("<<>>" for _ in pages))
    f.write("====\n")
