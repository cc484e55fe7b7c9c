#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json. A bug is listed with the checks known to
catch it: its own property's, and those in ALSO."""
import json, os, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALSO = {"c02-tie": "C13", "c26-filter-refs": "C09", "c21-double-put": "C02", "c27-stale-tmp": "C23"}
LATE = {
    "c29-try-profile": "after profiles were added to what may not be touched",
    "c18-flush-early": "after statement-level exploration of the counting commands",
    "c31-lazy-tags": "after package-level variables were made to start afresh in every run",
    "c31-widgets-direct": "after displays over several passes were added",
    "c02-tie": "C02 after the order of map iterations was controlled",
    "c21-double-put": "after what the commands put back was watched",
    "c28-write-behind": "after threads could give way before file operations",
    "c13-freq16": "after strings with more than 65535 uses were added",
    "c29-pass-digits": "after extreme numbers of passes were added",
    "c27-stale-tmp": "after builds of a smaller file after a kill were added",
    "c06-page": "after larger alignments were added",
    "c31-pool-plain": "after blocks larger than the buffers were added",
    "c19-zero": "after ids of every width were added",
    "c13-role16": "after tables of many strings were put through tagfilter",
    "c19-buffer": "after files with much to find were added",
}
MISS = {}
rows = ["| bug | property | what it breaks | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    by = m["property"] + (" " + ALSO[d] if d in ALSO else "") + (f" ({LATE[d]})" if d in LATE else "")
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), MISS.get(d, by)))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- planted -->\n).*?(<!-- /planted -->)", lambda x: x[1] + "\n".join(rows) + "\n" + x[2], s, flags=re.S)
open(p, "w").write(s)
