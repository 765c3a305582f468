#!/usr/bin/env python3
"""Says which planted patches do not apply to /repo's HEAD, or change only lines that /repo's own commits added."""
import os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = subprocess.check_output("git -C /repo rev-list --max-parents=0 HEAD", shell=True, text=True).split()[0]
new = set(x[:8] for x in subprocess.check_output("git -C /repo rev-list 264a28a..HEAD", shell=True, text=True).split())
bad = 0
for d in sorted(os.listdir(V + "/seeded")):
    p = f"{V}/seeded/{d}/patch.diff"
    if subprocess.call(["git", "-C", "/repo", "apply", "--check", p]):
        print(d, "does not apply"); bad += 1; continue
    old = []; f = None; n = 0
    for l in open(p):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"): old.append((f, n)); n += 1
        elif l.startswith(" "): n += 1
    mine = 0
    for f, n in old:
        b = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "--abbrev=8", "-L", f"{n},{n}", "HEAD", "--", f], text=True)
        if b.lstrip("^")[:8] in new: mine += 1
    if not old or mine: print(d, "removes", len(old), "lines,", mine, "of them added by fixes or hooks"); bad += 1
print(bad, "to look at")
