#!/usr/bin/env python3
"""Regenerate harness/ucd_tables.inc from UnicodeData.txt files (run once, at the pinned commit).
usage: mk_ucd.py REPO > harness/ucd_tables.inc"""
import sys
repo = sys.argv[1]
print("// Snapshot of the Unicode Character Database, versions 7..16; see tools/mk_ucd.py")
for v in range(7, 17):
    assigned, lower, lo = [], [], None
    def add(a, b):
        if assigned and assigned[-1][1] + 1 == a: assigned[-1][1] = b
        else: assigned.append([a, b])
    for line in open(f"{repo}/source/bits{v}/UnicodeData.txt"):
        f = line.rstrip("\n").split(";")
        c = int(f[0], 16)
        if f[2] in ("Cs", "Co"): continue
        if f[1].endswith(", First>"): lo = c
        elif f[1].endswith(", Last>"): add(lo, c)
        else: add(c, c)
        if f[13]:
            l = int(f[13], 16)
            lower.append((c, l))
    runs = []   # (first, last, step, delta)
    for c, l in lower:
        d = l - c
        if runs and runs[-1][3] == d and (runs[-1][2] == c - runs[-1][1] or runs[-1][2] == 0) and c - runs[-1][1] <= 2:
            runs[-1][2] = c - runs[-1][1]; runs[-1][1] = c
        else: runs.append([c, c, 0, d])
    print(f"static const uint32_t kAssigned{v}[][2] = {{")
    print(",\n".join("  {0x%X,0x%X}" % tuple(r) for r in assigned)); print("};")
    print(f"static const int32_t kLower{v}[][4] = {{")
    print(",\n".join("  {0x%X,0x%X,%d,%d}" % tuple(r) for r in runs)); print("};")
