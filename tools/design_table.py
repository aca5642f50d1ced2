#!/usr/bin/env python3
"""Writes the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = "rbt-shared-no-balance vec-clone-root vec-extend-hint htm-getmut-always-clones list-partial-cmp-ptr rbt-range-fold vec-iter-two-levels queue-peek-iter rbts-subset-window rbt-del-right-absent vec-mask-u16 list-cmp-recursive rbt-size-after-collect hts-subset-shared".split()
extra = os.path.join(root, "tools/plant/missed.txt")
if os.path.exists(extra):
    MISSED += open(extra).read().split()
rows = []
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append((m["property"], d, m["needs"].strip().replace("|", "/"), "after strengthening" if d in MISSED else "yes"))
rows.sort()
text = "| check | planted change | needs | caught |\n|---|---|---|---|\n" + "".join("| %s | %s | %s | %s |\n" % r for r in rows)
p = root + "/DESIGN.md"
s = open(p).read()
mark = "<!-- table -->\n"
open(p, "w").write(s[: s.index(mark) + len(mark)] + text)
