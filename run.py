#!/usr/bin/env python3
"""Decide one property: compile its harness against /repo's working tree, run the
symbolic executor on every job, replay counterexamples natively, write evidence.

usage: run.py <ID> [--tier quick|thorough] [--jobs N] [--only SUBSTR] [--keep]
"""
import argparse, concurrent.futures as cf, glob, itertools, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SYMX = os.path.join(VERIF, ".build", "symx")
UB = "signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,unreachable,return"
INC = ["-I" + os.path.join(VERIF, "harness"), f"-I{REPO}/api/include", f"-I{REPO}/api/src"]
BASE = ["-std=c++20", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-w", "-Wno-everything"]


def parse(path):
    h = dict(path=path, jobs=[], covers=set(), wraps=[], flags=[], bounds=[], assume=[], title="")
    for line in open(path):
        m = re.match(r"//\s*(PROPERTY|JOB|COVERS|WRAP|FLAGS|BOUNDS|ASSUME|OUTSIDE)\s+(.*)", line)
        if not m:
            continue
        k, v = m.groups()
        v = v.strip()
        if k == "PROPERTY": h["prop"] = v.split()[0]
        elif k == "COVERS": h["covers"].update(v.split())
        elif k == "WRAP": h["wraps"] += v.split()
        elif k == "FLAGS": h["flags"] += v.split()
        elif k == "BOUNDS": h["bounds"].append(v)
        elif k == "OUTSIDE": h["bounds"].append("outside the claim: " + v)
        elif k == "ASSUME": h["assume"].append(v)
        elif k == "JOB":
            toks = v.split()
            opts, axes = {}, []
            for t in toks[1:]:
                a, b = t.split("=", 1)
                if a in ("time", "tier", "steps", "enum", "qt"):
                    opts[a] = b
                    continue
                r = re.match(r"^(\d+)\.\.(\d+)$", b)
                if r: vals = range(int(r[1]), int(r[2]) + 1)
                else: vals = [int(x, 0) for x in b.strip("{}").split(",")]
                axes.append([(a, x) for x in vals])
            for combo in itertools.product(*axes):
                h["jobs"].append(dict(entry=toks[0], params=list(combo), **opts))
    return h


def pkg_flags(h):
    if "GTK" in h["wraps"]:
        return subprocess.run(["pkg-config", "--cflags", "gtk4"], capture_output=True, text=True).stdout.split()
    return []


def compile_bc(h, out):
    cmd = ["clang++-18", *BASE, "-DSYMX_IR", "-O1", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
           "-fno-discard-value-names", "-fno-pic", f"-fsanitize={UB}", f"-fsanitize-trap={UB}", *INC, *h["flags"], *pkg_flags(h),
           "-emit-llvm", "-c", h["path"], "-o", out]
    return subprocess.run(cmd, capture_output=True, text=True)


def compile_native(h, out):
    wr = [f"-Wl,--wrap={w}" for w in h["wraps"] if w != "GTK"]
    cmd = ["clang++-18", *BASE, "-O1", "-g1", f"-fsanitize=address,{UB}", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern",
           "-rdynamic", *INC, *h["flags"], *pkg_flags(h), h["path"], os.path.join(VERIF, "harness", "native.cpp"), "-o", out, *wr, "-ldl"]
    return subprocess.run(cmd, capture_output=True, text=True)


def replay(exe, entry, ce, timeout=20):
    env = dict(os.environ, ASAN_OPTIONS="exitcode=95:detect_leaks=0:max_malloc_fill_size=4000000:hard_rss_limit_mb=6000:malloc_fill_byte=170:detect_stack_use_after_return=1:allocator_may_return_null=1",
               UBSAN_OPTIONS="exitcode=94:print_stacktrace=0", LC_ALL="C")
    try:
        p = subprocess.run([exe, entry, ce], capture_output=True, text=True, timeout=timeout, env=env, errors="replace")
        return p.returncode, (p.stdout + p.stderr)[-3000:]
    except subprocess.TimeoutExpired:
        return "timeout", "did not terminate within %d s" % timeout


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    budget = 700 if tier == "quick" else 6 * 3600
    hs = [h for h in (parse(p) for p in sorted(glob.glob(os.path.join(VERIF, "harness", "*.cpp")))) if h.get("prop") == a.prop]
    if not hs:
        print("no harness for", a.prop)
        return 3
    if not os.path.exists(SYMX):
        subprocess.run(["bash", os.path.join(VERIF, "engine", "build.sh")], check=True)
    known = {}
    kf = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(kf):
        for line in open(kf):
            m = re.match(r"known:\s+property=(\S+)\s+id=(\S+)\s+(.*)", line)
            if m and m[1] == a.prop: known[m[2]] = m[3].strip()
    tmp = tempfile.mkdtemp(prefix="symx_" + a.prop + "_")
    rc = 3
    try:
        rc = decide(a, tier, hs, known, tmp, t0, budget)
    finally:
        if a.keep: print("kept", tmp)
        else: shutil.rmtree(tmp, ignore_errors=True)
    return rc


def decide(a, tier, hs, known, tmp, t0, budget):
    errors, results, viol, knownSeen, unconf, incomplete = [], [], [], {}, [], {}
    validated = mism = 0
    stop = threading.Event()
    rdir = os.path.join(VERIF, "replays", a.prop)
    shutil.rmtree(rdir, ignore_errors=True)
    pool = cf.ThreadPoolExecutor(max_workers=a.jobs)
    natpool = cf.ThreadPoolExecutor(max_workers=2)
    nat = {}
    lock = threading.Lock()

    bcs = {}
    for i, h in enumerate(hs):
        h["bc"] = os.path.join(tmp, f"h{i}.bc")
        bcs[i] = pool.submit(compile_bc, h, h["bc"])
        h["exe"] = os.path.join(tmp, f"h{i}.exe")
        nat[i] = natpool.submit(compile_native, h, h["exe"])
    for i, h in enumerate(hs):
        r = bcs[i].result()
        if r.returncode:
            errors.append("harness does not compile: " + r.stderr[-1500:])

    def run_job(i, h, j, n):
        if stop.is_set(): return None
        left = budget - 60 - (time.time() - t0)
        if left < 5: return dict(entry=j["entry"], params=dict(j["params"]), skipped=True)
        tl = min(float(j.get("time", 240 if tier == "quick" else 7200)), left)
        out = os.path.join(tmp, f"r{i}_{n}.json")
        cmd = ["prlimit", "--as=14000000000", SYMX, "--entry", j["entry"], "--out", out, "--ce-dir", tmp, "--suffix", f"_{i}_{n}", "--time", str(tl),
               "--witnesses", "4" if tier == "quick" else "16", "--query-timeout", str(int(float(j.get("qt", 120 if tier == "quick" else 600)) * 1000)),
               "--max-steps", j.get("steps", "3000000"), "--max-enum", j.get("enum", "300")]
        for k, v in j["params"]: cmd += ["--param", f"{k}={v}"]
        cmd.append(h["bc"])
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        try:
            while True:
                try:
                    so, se = p.communicate(timeout=1)
                    break
                except subprocess.TimeoutExpired:
                    if stop.is_set() or time.time() - t0 > budget - 20:
                        p.kill()
                        p.communicate()
                        return dict(entry=j["entry"], params=dict(j["params"]), skipped=True)
        finally:
            if p.poll() is None: p.kill()
        if not os.path.exists(out):
            return dict(entry=j["entry"], params=dict(j["params"]), crashed=(se or "")[-400:] + f" rc={p.returncode}")
        res = json.load(open(out))
        res["params"] = dict(j["params"])
        res["h"] = i
        res["wit"] = sorted(glob.glob(os.path.join(tmp, f"{j['entry']}_{i}_{n}_*.wit")))
        for v in res["violations"]:
            handle(i, h, j, v)
        return res

    def handle(i, h, j, v):
        r = nat[i].result()
        if r.returncode:
            with lock: errors.append("native replay does not compile: " + r.stderr[-800:])
            return
        code, log = replay(h["exe"], j["entry"], v["ce"], 60 if v["kind"] == "nontermination" else 20)
        v["replay_rc"], v["replay_log"] = code, log[-1200:]
        ok = code in (99, 98, 97, 95, 94) or (isinstance(code, int) and code < 0) or (code == "timeout")
        with lock:
            os.makedirs(rdir, exist_ok=True)
            dst = os.path.join(rdir, os.path.basename(v["ce"]))
            with open(dst, "w") as f:
                f.write(open(v["ce"]).read())
                f.write(f"# params {dict(j['params'])}\n# replay: {VERIF}/replay.sh {a.prop} {dst}\n# native result: {code}\n")
                f.write("".join("# | " + l + "\n" for l in log.splitlines()[-30:]))
                f.write("".join("# at " + l + "\n" for l in v["stack"]))
            v["file"] = dst
            if v["known"] and v["known"] in known and (code == 98 or v["kind"] == "memory" and ok):
                knownSeen[v["known"]] = v
            elif ok:
                viol.append(v)
                stop.set()
            else:
                unconf.append(v)

    futs = []
    if not errors:
        for i, h in enumerate(hs):
            for n, j in enumerate(h["jobs"]):
                if j.get("tier") == "thorough" and tier != "thorough": continue
                if j.get("tier") == "quick" and tier != "quick": continue
                if a.only and a.only not in j["entry"]: continue
                futs.append(pool.submit(run_job, i, h, j, n))
    for f in futs:
        r = f.result()
        if r: results.append(r)
    done = [r for r in results if "paths" in r]
    for r in results:
        if "crashed" in r: incomplete[f"engine failed on {r['entry']} {r['params']}: {r['crashed']}"] = 1
        if r.get("skipped") and not viol: incomplete["not run in the time budget: " + r["entry"]] = incomplete.get("not run in the time budget: " + r["entry"], 0) + 1
        for k, v in r.get("incomplete", {}).items(): incomplete[f"{r['entry']}: {k}"] = incomplete.get(f"{r['entry']}: {k}", 0) + v
        if r.get("model_mismatch"): errors.append("solver model disagrees with the evaluator in " + r["entry"])
    # vacuity
    covers = {}
    for r in done:
        for k, v in r["covers"].items(): covers[k] = covers.get(k, 0) + v
    want = set().union(*(h["covers"] for h in hs))
    missing = sorted(want - set(covers)) if not (viol or a.only or errors or incomplete) else []
    # replay path witnesses natively: the engine's paths must be real runs without a violation
    if not viol and not errors:
        def wit(r, w):
            h = hs[r["h"]]
            if nat[r["h"]].result().returncode: return None
            return replay(h["exe"], r["entry"], w) + (w,)
        ws = [pool.submit(wit, r, w) for r in done for w in r["wit"]]
        for f in ws:
            x = f.result()
            if x is None: continue
            validated += 1
            if x[0] in (99, 97, 95, 94): # the real code fails on this input: a violation, whatever the engine made of it
                os.makedirs(rdir, exist_ok=True)
                dst = os.path.join(rdir, os.path.basename(x[2]) + ".ce")
                shutil.copy(x[2], dst)
                viol.append(dict(kind="native", msg="the path's witness fails when run: " + x[1][-300:].strip().replace("\n", " "), where="", replay_rc=x[0], file=dst, known=""))
            elif x[0] == "timeout":
                validated -= 1
                incomplete["a path's witness took too long to replay"] = incomplete.get("a path's witness took too long to replay", 0) + 1
            elif x[0] not in (0, 98):
                mism += 1
                errors.append(f"path witness disagrees with the native run: rc={x[0]} {x[1][-300:]} {open(x[2]).read()[:300]}")
    pool.shutdown(wait=True)
    natpool.shutdown(wait=True)

    tot = lambda k: sum(r[k] for r in done)
    wall = time.time() - t0
    ev = dict(property=a.prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
              coverage=dict(
                  states=tot("paths"), transitions=tot("forks"), traces_validated_against_impl=validated,
                  explanation="bounded symbolic execution of the real code's LLVM IR (regenerated from /repo); states = symbolic path end states, transitions = two-way symbolic branches taken; every assertion and memory-safety condition is decided by Z3 for all values on its path; traces_validated_against_impl = path witnesses re-run on a native sanitizer build of the same code",
                  samples=[dict(entry=r["entry"], params=r["params"], inputs=s) for r in done[:12] for s in r["samples"][:2]][:16],
                  jobs=len(done), harness_entries=sorted({r["entry"] for r in done}),
                  solver_queries=tot("queries"), sat=tot("sat"), unsat=tot("unsat"), unknown=tot("unknown"), query_cache_hits=tot("cache_hits"),
                  assertions_checked=tot("asserts"), assertions_symbolic=tot("asserts_symbolic"), symbolic_memory_checks=tot("symbolic_memory_checks"),
                  solver_s=round(tot("solver_s"), 2), max_query_s=round(max([r["max_query_s"] for r in done] or [0]), 2), instructions=tot("instructions"),
                  max_symbolic_bits=max([r["symbolic_bits"] for r in done] or [0]),
                  functions_encoded=sorted({f for r in done for f in r["functions"]}),
                  bounds=[b for h in hs for b in h["bounds"]], covers=covers, complete=not incomplete and not errors, incomplete=incomplete,
                  unconfirmed=[dict(kind=v["kind"], msg=v["msg"], where=v["where"]) for v in unconf],
                  known_findings=sorted(knownSeen), errors=errors[:5]),
              assumptions=["allocation succeeds; IEEE-754 doubles; C locale; x86-64 LP64 little-endian data layout; clang 18 -O1 IR of the sources"] + [x for h in hs for x in h["assume"]],
              wall_s=round(wall, 2), violations=len(viol))
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w"), indent=1)
    if os.environ.get("SYMX_LINES"):
        lines = {}
        for r in done:
            for k, v in r["lines"].items(): lines.setdefault(k, set()).update(v)
        json.dump({k: sorted(v) for k, v in lines.items()}, open(os.environ["SYMX_LINES"], "w"))
    slow = sorted(done, key=lambda r: -r["wall_s"])[:4]
    print(f"{a.prop} [{tier}]: {len(done)} jobs, {tot('paths')} paths, {tot('queries')} queries ({tot('unsat')} unsat), solver {tot('solver_s'):.1f} s, "
          f"{validated} witnesses replayed, wall {wall:.1f} s; slowest: " + ", ".join(f"{r['entry']}{r['params'] or ''} {r['wall_s']:.0f}s" for r in slow))
    for k, v in sorted(knownSeen.items()):
        print(f"KNOWN-FINDING: property={a.prop} {k}: {known[k]}")
    for v in unconf:
        print(f"UNCONFIRMED (not reported): {v['kind']}: {v['msg']} at {v['where']} (native replay rc {v['replay_rc']}) {v['file']}")
    if viol:
        for v in viol[:4]:
            print(f"  {v['kind']}: {v['msg']} at {v['where']} (native replay: {v['replay_rc']})")
        print(f"VIOLATION property={a.prop} replay={viol[0]['file']}")
        return 1
    for e in errors: print("ERROR:", e)
    for k, v in incomplete.items(): print(f"INCOMPLETE: {k} x{v}")
    if missing: print("ERROR: vacuous: never reached:", ", ".join(missing))
    if errors or missing or not done or tot("paths") == 0: return 3
    return 0


sys.exit(main())
