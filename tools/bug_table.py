"""Turns the output of a run over seeded/ (ID: CAUGHT violated: CLASS, ... | N scenarios T s) into a table for DESIGN.md."""
import re, sys
rows = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+): (\S+) (.*)", l.strip())
        if not m: continue
        i, st, rest = m.groups()
        c = re.match(r"violated: (.*), scenario", rest)
        n = re.search(r"\| (\d+) scenarios", rest); t = re.search(r"([\d.]+) s$", rest)
        rows[i] = (st, c.group(1) if c else "", n.group(1) if n else "", t.group(1) if t else "")
print("| bug | reported as | scenarios | s |\n|---|---|---|---|")
for i in sorted(rows):
    st, c, n, t = rows[i]
    print(f"| {i} | {c if st == 'CAUGHT' else '**missed**'} | {n} | {t} |")
