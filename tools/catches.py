#!/usr/bin/env python3
"""usage: catches.py [LOG]: writes the table of planted bugs into DESIGN.md.
Without a log, only what each needs. LOG has lines "id property CAUGHT|MISSED... seconds  facet NAME: ..."."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = {}
for l in open(sys.argv[1]) if len(sys.argv) > 1 else []:
    m = re.match(r"(P\d\d-\S+)\s+(P\d\d) (CAUGHT|MISSED rc=\d+)\s+(\d+)s\s*(?:facet ([^:]+):)?", l)
    if m:
        log[m[1]] = (m[3], m[5] or "")
rows = []
ids = sorted(os.listdir(f"{root}/seeded"))
for i in ids:
    meta = json.load(open(f"{root}/seeded/{i}/meta.json"))
    how, facet = log.get(i, ("not run", ""))
    rows.append(f"| {i} | {meta['needs']} | {'caught by ' + meta['property'] + (', facet ' + facet if facet else '') if how == 'CAUGHT' else how} |")
s = open(f"{root}/DESIGN.md").read()
a, b = "<!-- bugs -->\n", "<!-- end -->\n"
if not log:
    rows = [r.rsplit("|", 2)[0] + "|" for r in rows]
table = ("| planted bug | needs | quick check |\n|-|-|-|\n" if log else "| planted bug | needs |\n|-|-|\n") + "\n".join(rows) + "\n"
head, rest = s.split(a)
s = head + a + table + b + rest.split(b)[1]
s = re.sub(r"`seeded/` holds \S+ changes", f"`seeded/` holds {len(ids)} changes", s)
open(f"{root}/DESIGN.md", "w").write(s)
print(len(ids), "bugs,", sum(1 for i in ids if log.get(i, ("",))[0] == "CAUGHT"), "caught, not:", [i for i in ids if log.get(i, ("",))[0] != "CAUGHT"])
