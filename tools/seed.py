#!/usr/bin/env python3
"""Confirm a planted bug: seed.py ID [--check]  (applies to /repo, builds, tests, demo, optional check, undoes)."""
import sys, os, subprocess, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def one(i, check, fast):
    d = f"{V}/seeded/{i}"
    m = json.load(open(d + "/meta.json"))
    out = [i, m["property"]]
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo not clean"
    a = sh(f"git -C /repo apply {d}/patch.diff")
    if a.returncode: return out + ["APPLY FAILED " + a.stderr]
    try:
        if not fast:
            r0 = None
            b = sh("bash /opt/vp/build.sh")
            out.append("build " + ("ok" if b.returncode == 0 else "FAILED " + b.stdout[-300:]))
            t = sh("bash /opt/vp/test.sh /tmp/seed_t.json")
            out.append(t.stdout.strip().split("\n")[-1])
            r = sh(f"bash {d}/demo.sh", cwd="/repo", timeout=300)
            out.append(f"demo patched rc={r.returncode} {(r.stdout + r.stderr)[-200:].strip()}")
        if check:
            r = sh(f"python3 {V}/run.py {m['property']} --no-evidence", cwd=V)
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
            why = [l.strip() for l in r.stdout.split("\n") if l.startswith("  ")][:1]
            out.append(f"check rc={r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'MISSED'} {why} {r.stdout[-300:] if not v else ''}")
    finally:
        sh("git -C /repo checkout -- .")
    if not fast:
        r = sh(f"bash {d}/demo.sh", cwd="/repo", timeout=300)
        out.append(f"demo clean rc={r.returncode} {(r.stdout + r.stderr)[-200:].strip() if r.returncode else ''}")
    return out
args = [a for a in sys.argv[1:] if not a.startswith("-")]
ids = args or sorted(os.path.basename(p) for p in glob.glob(V + "/seeded/*"))
for i in ids: print(" | ".join(one(i, "--check" in sys.argv, "--fast" in sys.argv)), flush=True)
