#!/usr/bin/env python3
"""Writes DESIGN.md: tools/DESIGN.head.md, checks of the harness, findings, planted bugs, tools/DESIGN.tail.md."""
import glob
import json
import os
import re
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(*p):
    with open(os.path.join(ROOT, *p), encoding="utf-8") as f:
        return f.read()


out = [read("tools", "DESIGN.head.md")]
out.append("| property | check | what is generated; what counts as non-trivial | quick | thorough |\n|---|---|---|---|---|\n")
rows = [l.split("\t") for l in subprocess.run(
    ["bash", "-c", ". /opt/vp/env.sh && GOFLAGS=-mod=mod GOPROXY=off go run . list"],
    cwd=os.path.join(ROOT, "harness"), stdout=subprocess.PIPE, check=True, text=True).stdout.splitlines()]
for r in sorted(rows):
    out.append("| %s | %s | %s | %s | %s |\n" % tuple(r))
out.append("\n## Findings\n\nKnown (recorded, not repaired; `known_findings.txt`):\n\n")
fixed = {}
for l in read("known_findings.txt").splitlines():
    m = re.match(r"known: property=(\w+) sub=(.*?) match=.* :: (.*)", l)
    if m:
        out.append("* %s (%s): %s\n" % m.groups())
    m = re.match(r"fixed: property=(\w+) (\w+) (?:repaired so that: )?(.*)", l)
    if m:
        fixed.setdefault(m[1], []).append("%s (%s)" % (m[3], m[2]))
out.append("\nRepaired, one `fix:` commit each; the checks pass with the repairs and report the failure without them:\n\n")
for k in sorted(fixed):
    out.append("* %s: %s\n" % (k, "; ".join(fixed[k])))
out.append("\n## Planted bugs\n\nEach is in `seeded/` with a demonstration; written from the statement of the property and the code, then run "
           "against the quick check of that property.\n\n| bug | needs | breaks | caught by |\n|---|---|---|---|\n")
esc = lambda s: re.sub(r"\s+", " ", str(s)).replace("|", "\\|")
notes = json.loads(read("tools", "seeded_notes.json"))
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(f, encoding="utf-8"))
    name = os.path.basename(os.path.dirname(f))
    out.append("| %s | %s | %s | %s |\n" % (name, esc(m["needs"]), esc(m["what_it_breaks"]),
                                            m["property"] + " quick" + (" (%s)" % notes[name] if name in notes else "")))
out.append(read("tools", "DESIGN.tail.md"))
with open(os.path.join(ROOT, "DESIGN.md"), "w", encoding="utf-8") as f:
    f.write("".join(out))
