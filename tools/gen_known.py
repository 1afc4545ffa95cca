#!/usr/bin/env python3
"""Regenerates the `fixed:` lines of known_findings.txt from /repo's fix: commits and the table below."""
import subprocess, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# commit -> (properties, what failed)
T = [l.split(" | ") for l in open(H + "/tools/fixed.txt").read().splitlines() if l.strip()]
log = {l.split(" ", 1)[0]: l.split(" ", 1)[1] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()}
out = ["# known: property=<id> key=<key> <what fails>   - recorded, not repaired (printed as KNOWN-FINDING)",
       "# fixed: property=<id> <commit> <what failed>   - repaired in /repo, suppresses nothing"]
done = set()
known = H + "/tools/known.txt"
if os.path.exists(known): out += open(known).read().splitlines()
for c, ps, txt in T:
    assert c in log and log[c].startswith("fix:"), c
    done.add(c)
    for p in ps.split(","):
        out.append("fixed: property=%s %s %s" % (p, c, txt))
for c, s in log.items():
    if s.startswith("fix:") and c not in done: print("not listed:", c, s)
open(H + "/known_findings.txt", "w").write("\n".join(out) + "\n")
