#!/usr/bin/env python3
"""Which removed lines of each planted bug are the original repository's (and which were added by our own commits)."""
import subprocess, re, glob, os
base = "0349e1f"
for d in sorted(glob.glob(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/seeded/*")):
    f = None; n = 0; orig = own = 0; ol = []
    for l in open(d + "/patch.diff"):
        m = re.match(r"--- a/(.*)", l)
        if m: f = m[1].strip(); continue
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m[1]); continue
        if l.startswith("-") and f:
            b = subprocess.run(["git", "-C", "/repo", "blame", "-s", "--abbrev=12", "-L", f"{n},{n}", "HEAD", "--", f], capture_output=True, text=True).stdout
            if subprocess.run(["git", "-C", "/repo", "merge-base", "--is-ancestor", b.split()[0].lstrip("^"), base]).returncode == 0: orig += 1
            else: own += 1; ol.append(l.strip())
            n += 1
        elif l.startswith(" "): n += 1
    print(os.path.basename(d), "original", orig, "own", own, ol if own else "")
