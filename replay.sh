#!/bin/bash
# replay.sh <ID> <counterexample.ce>: rebuild the harness natively from /repo and run the counterexample.
set -e
V=$(cd "$(dirname "$0")" && pwd)
exec python3 - "$1" "$2" "$V" <<'PY'
import sys, os, re, tempfile, shutil
sys.argv, (prop, ce, V) = [sys.argv[0]], sys.argv[1:4]
src = open(os.path.join(V, "run.py")).read().rsplit("sys.exit(main())", 1)[0]
g = {"__file__": os.path.join(V, "run.py")}
exec(compile(src, "run.py", "exec"), g)
import glob
entry = re.search(r"# entry (\S+)", open(ce).read())[1]
tmp = tempfile.mkdtemp()
try:
    for p in sorted(glob.glob(V + "/harness/*.cpp")):
        h = g["parse"](p)
        if h.get("prop") != prop or not any(j["entry"] == entry for j in h["jobs"]): continue
        r = g["compile_native"](h, tmp + "/x")
        if r.returncode: print(r.stderr); sys.exit(3)
        code, log = g["replay"](tmp + "/x", entry, ce)
        print(log); print("result:", code)
finally:
    shutil.rmtree(tmp)
PY
