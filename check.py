#!/usr/bin/env python3
"""Check of one property: python3 check.py C07 --tier quick|thorough
Rebuilds the harness (and with it /repo's crate) to LLVM IR, executes the property's harnesses symbolically with
engine/, and writes evidence/<id>.json.  Exit 0: held on everything explored; 1: VIOLATION; 2: no answer."""
import argparse, fcntl, glob, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS"):
    ENV.pop(k, None)


def sh(cmd, cwd, target, log):
    env = dict(ENV, CARGO_TARGET_DIR=target)
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    log.append(p.stdout)
    return p.returncode


def build_engine(tdir, log):
    exe = os.path.join(tdir, "engine/release/engine")
    if sh(["cargo", "build", "--offline", "--release", "--locked"], os.path.join(V, "engine"), os.path.join(tdir, "engine"), log) != 0:
        return None
    drv = os.path.join(tdir, "driver")
    p = subprocess.run(["gcc", "-O1", "-rdynamic", "-o", drv, os.path.join(V, "replay/driver.c"), "-ldl", "-lm"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    log.append(p.stdout)
    return (exe, drv) if p.returncode == 0 and os.path.exists(exe) else None


def build_harness(tdir, mod, log):
    t = os.path.join(tdir, "sym")
    for f in glob.glob(os.path.join(t, "sym/.fingerprint/financelib-*")) + glob.glob(os.path.join(t, "sym/.fingerprint/harness-*")):
        shutil.rmtree(f, ignore_errors=True)
    for f in glob.glob(os.path.join(t, "sym/deps/harness*.ll")) + glob.glob(os.path.join(t, "sym/libharness.so")) + glob.glob(os.path.join(t, "sym/deps/libharness*.so")):
        os.remove(f)
    r = sh(["cargo", "rustc", "--offline", "--profile", "sym", "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "--cfg", mod], os.path.join(V, "harness"), t, log)
    ll = glob.glob(os.path.join(t, "sym/deps/harness*.ll"))
    so = os.path.join(t, "sym/libharness.so")
    return (ll[0], so) if r == 0 and len(ll) == 1 and os.path.exists(so) else None


def setup():
    tdir = os.path.join(V, "target")
    os.makedirs(tdir, exist_ok=True)
    log = []
    ok = build_engine(tdir, log)
    sys.stdout.write("" if ok else "".join(log))
    return 0 if ok else 2


def report(pid, viol, drv, so):
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    for v in viol:
        path = os.path.join(V, "replays", "%s-%s.json" % (pid, v["harness"]))
        v["command"] = "printf '%%s\\n' <inputs> | %s %s %s" % (drv, so, v["harness"])
        json.dump(v, open(path, "w"), indent=1)
        print("counterexample in %s: %s; inputs %s" % (v["harness"], v["what"], " ".join(v["pretty"])[:2000]))
        print("native replay: " + v["replay"].replace("\n", " | ")[:600])
        print("VIOLATION property=%s replay=%s" % (pid, path))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", help="development: run one harness")
    a = ap.parse_args()
    if a.property == "setup":
        sys.exit(setup())
    pid, t0 = a.property.upper(), time.time()
    mod = pid.lower()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tdir = os.environ.get("VERIF_TARGET", os.path.join(V, "target"))
    os.makedirs(tdir, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    lock = open(os.path.join(tdir, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    logs, res = ([], []), [None, None]
    th = threading.Thread(target=lambda: res.__setitem__(0, build_engine(tdir, logs[0])))
    th.start()
    res[1] = build_harness(tdir, mod, logs[1])
    th.join()
    build_s = time.time() - t0
    if not res[0] or not res[1]:
        print("ERROR: build failed")
        print("".join(logs[0] + logs[1])[-6000:])
        sys.exit(2)
    (exe, drv), (ll, so) = res
    names = subprocess.run([exe, "--ll", ll], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.split()
    names = [h for h in names if h.startswith("h_" + mod + "_") and (tier == "thorough" or not h.endswith("_deep"))]
    if a.only:
        names = [h for h in names if h == a.only]
    if not names:
        print("ERROR: no harness for", pid)
        sys.exit(2)
    dl = 780 - build_s if tier == "quick" else 3300
    out = os.path.join(tdir, "result.json")
    cmd = [exe, "--ll", ll, "--out", out, "--jobs", str(os.cpu_count() or 4), "--deadline", "%d" % dl, "--seed", str(seed), "--replay", drv + ":" + so]
    env = dict(ENV)
    if tier == "thorough":
        cmd.append("--deep")
        env["VERIF_DEEP"] = "1"
    if os.path.exists(out):
        os.remove(out)
    p = subprocess.run(cmd + names, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(out):
        early = [json.loads(l[5:]) for l in p.stdout.splitlines() if l.startswith("VIOL ")]
        if early:
            report(pid, early, drv, so)
            sys.exit(1)
        print("ERROR: engine failed")
        print(p.stdout[-4000:])
        sys.exit(2)
    r = json.load(open(out))
    hs = r["harnesses"]
    tot = lambda k: sum(h[k] for h in hs.values())
    def cat(k):
        d = {}
        for h in hs.values():
            for x, n in h[k].items():
                d[x] = d.get(x, 0) + n
        return d
    src = open(os.path.join(V, "harness/src/%s.rs" % mod)).read()
    labels = set(re.findall(r'"(%s [^"]*)"' % mod, src))
    deep_only = set(re.findall(r'"(%s [^"]*)"[^\n]*// deep' % mod, src))
    if tier == "quick":
        labels -= deep_only
    hit = set(cat("assert_ids")) | set(cat("reached"))
    viol = [v for h in hs.values() for v in h["violations"]]
    errors, undec = cat("errors"), cat("undecided")
    hit -= {l for l, n in cat("assert_ids").items() if sum(k for x, k in undec.items() if l in x) >= n}
    unrep = [v for h in hs.values() for v in h["unreproduced"]]
    cuts = cat("cut_reasons")
    bad_cuts = {k: v for k, v in cuts.items() if k not in ("declared fork bound", "violation")}
    vac = [] if viol or a.only else sorted(labels - hit) + [h for h, s in hs.items() if s["asserts"] == 0]
    funcs = sorted({f for h in hs.values() for f in h["functions"]})
    lib = [f for f in funcs if "financelib" in f and "harness::" not in f]
    meta = {}
    for line in src.splitlines():
        m = re.match(r"//! (\w[\w ]*): (.*)", line)
        if m:
            meta.setdefault(m.group(1), []).append(m.group(2))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("steps"), "traces_validated_against_impl": tot("witness_ok"),
            "samples": [x[:1500] for h in hs.values() for x in h["samples"] if x.strip().rstrip(':') != "" and not x.endswith(": ")][:12],
            "explanation": "states: symbolic paths executed (each stands for all inputs satisfying its path condition); transitions: LLVM instructions interpreted symbolically; traces_validated_against_impl: solver models of finished paths run natively on the compiled library without a failing assertion",
            "bounds": meta.get("bounds", []), "outside": meta.get("outside", []),
            "functions_encoded": lib, "functions_encoded_total": len(funcs),
            "queries": tot("queries"), "query_cache_hits": tot("cache_hits"), "solver_time_s": round(tot("solver_time"), 3),
            "slowest_query_s": max(h["max_query"] for h in hs.values()),
            "assertions": tot("asserts"), "assertions_unsat_by_solver": tot("proved_solver"), "assertions_settled_by_simplifier": tot("proved_syntactic"),
            "assertion_labels": cat("assert_ids"), "reached": cat("reached"),
            "paths_completed": tot("done"), "paths_panicking_as_required": tot("expected_panics"), "paths_outside_assumptions": tot("assumed_out"),
            "paths_cut_at_bound": cuts, "branches_explored_both_ways_without_solver_answer": tot("branches_unknown"),
            "witness_mismatches": [x for h in hs.values() for x in h["witness_bad"]],
            "undecided": undec, "unreproduced": [{k: v[k] for k in ("harness", "what", "pretty")} for v in unrep], "errors": errors, "vacuous": vac,
            "per_harness": {h: {k: s[k] for k in ("paths", "asserts", "queries", "solver_time", "wall")} for h, s in hs.items()},
            "build_s": round(build_s, 1),
        },
        "assumptions": meta.get("assumes", []) + [
            "floating-point operations are treated as exact real operations unless stated otherwise; comparisons therefore use a tolerance",
            "symbolic floats are finite; rustc/LLVM -O1 code generation, the IR interpreter in engine/, z3 and cvc5 are trusted",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    code = 0
    if viol:
        report(pid, viol, drv, so)
        code = 1
    else:
        # parts left open are named; without any decided assertion for one of the labels there is no answer at all
        for k, d in (("engine error", errors), ("undecided", undec), ("cut", bad_cuts)):
            for x, n in d.items():
                print("INCOMPLETE: %s: %s (%d)" % (k, x[:500], n))
        for v in unrep[:5]:
            print("INCOMPLETE: unreproduced counterexample in %s: %s; inputs %s" % (v["harness"], v["what"], " ".join(v["pretty"])[:800]))
        for x in vac:
            print("NO-ANSWER: never decided: " + x)
        if vac:
            code = 2
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d harnesses, %d paths, %d assertions (%d by solver, %d by simplifier), %d queries, %.1fs solver, %d witness replays (%d differ), build %.1fs, wall %.1fs -> exit %d" % (
        pid, tier, len(hs), tot("paths"), tot("asserts"), tot("proved_solver"), tot("proved_syntactic"), tot("queries"), tot("solver_time"), tot("witness_ok"), len(ev["coverage"]["witness_mismatches"]), build_s, time.time() - t0, code))
    sys.exit(code)


if __name__ == "__main__":
    main()
