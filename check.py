#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property: compiles /repo's current source together with the harness crate to one
closed LLVM module, lets symex execute the property's entry points symbolically (z3 decides every
branch and assertion), replays what the solver says against natively compiled code, and writes
evidence/PROPERTY.json.  Exit 0: held; 1: VIOLATION line; 2: the check itself failed.
"""
import glob, json, os, subprocess, sys, time, re, shutil

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARN = os.path.join(ROOT, "harness")
WORK = os.path.join(ROOT, "work")
T0 = time.time()
sys.path.insert(0, ROOT)


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def die(msg):
    print("CHECK-ERROR:", msg, flush=True)
    sys.exit(2)


def run(cmd, cwd=None, env=None, timeout=600, ok=(0,)):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable")
    e.pop("CARGO_TARGET_DIR", None)
    e.pop("RUSTFLAGS", None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace", timeout=timeout)
    if ok is not None and p.returncode not in ok:
        print(p.stdout[-6000:])
        die("%s failed with %d" % (" ".join(cmd[:4]), p.returncode))
    return p


def entries():
    r = []
    for f in sorted(glob.glob(HARN + "/src/*.rs")):
        r += re.findall(r"^entry!\((\w+),", open(f).read(), re.M)
    return r


def build_symex():
    run(["cargo", "build", "--release", "--offline"], cwd=ROOT + "/symex")


HOOKS = " --cfg yamux_verif"


def hooked(f):
    """Build with the hooks in /repo; without them if the current source does not compile with them."""
    global HOOKS
    if HOOKS:
        p = f(None)
        if p.returncode == 0:
            return
        if "verif" not in p.stdout and "yamux/src" not in p.stdout:
            print(p.stdout[-6000:])
            die("build failed")
        HOOKS = ""
        log("the hooks do not compile with the current source: building without them")
    f((0,))


def build_symbolic(plain=False):
    """The harness and the crate under test as one LLVM module, optimised lightly; `plain`: as a release build
    has it, without overflow checks and debug assertions."""
    tgt = HARN + ("/target/symplain" if plain else "/target/sym")
    env = {"CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS": "false", "CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS": "false"} if plain else {}
    for f in glob.glob(tgt + "/release/deps/*.bc"):
        os.remove(f)
    # cargo does not see the intermediate files: have it link again
    for f in glob.glob(tgt + "/release/deps/libharness*") + glob.glob(tgt + "/release/libharness*"):
        os.remove(f)
    for d in glob.glob(tgt + "/release/.fingerprint/harness-*"):
        shutil.rmtree(d)
    flags = "--cfg vsym_symbolic -C save-temps -C no-vectorize-loops -C no-vectorize-slp"
    hooked(lambda ok: run(["cargo", "rustc", "--offline", "--release", "--lib", "--crate-type", "cdylib", "--target-dir", tgt],
                          cwd=HARN, env=dict(env, RUSTFLAGS=flags + HOOKS), ok=ok))
    bcs = glob.glob(tgt + "/release/deps/harness.*.lto.input.bc")
    if len(bcs) != 1:
        die("no linked bitcode")
    sysroot = run(["rustc", "--print", "sysroot"]).stdout.strip()
    lt = glob.glob(sysroot + "/lib/rustlib/*/bin")[0]
    os.makedirs(WORK, exist_ok=True)
    x = WORK + ("/xp" if plain else "/x")
    run([lt + "/opt", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(entries()),
         bcs[0], "-o", x + ".bc"])
    run([lt + "/llvm-dis", x + ".bc", "-o", x + ".ll"])
    os.remove(x + ".bc")
    return x + ".ll"


def build_native(profile, memo={}):
    if profile not in memo:
        memo[profile] = build_native_now(profile)
    return memo[profile]


def build_native_now(profile):
    tgt = HARN + "/target/native"
    cmd = ["cargo", "build", "--offline", "--bin", "replay", "--target-dir", tgt]
    if profile == "plain":
        cmd += ["--profile", "plain"]
    hooked(lambda ok: run(cmd, cwd=HARN, env={"RUSTFLAGS": HOOKS.strip()}, ok=ok))
    return tgt + ("/plain" if profile == "plain" else "/debug") + "/replay"


def replay(exe, entry, values, timeout=20):
    args = [exe, entry] + ["%d:%d" % (w, v) for (_, w, v) in values]
    try:
        p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return "hang", "does not finish within %d s" % timeout


def demangle(names):
    for t in ("llvm-cxxfilt", "llvm-cxxfilt-18", "c++filt"):
        if shutil.which(t):
            p = subprocess.run([t], input="\n".join(names), stdout=subprocess.PIPE, text=True)
            return [x.strip() for x in p.stdout.splitlines()]
    return list(names)


def main():
    if len(sys.argv) < 2:
        die("usage: check.py PROPERTY [quick|thorough]")
    if sys.argv[1] == "--build":
        build_symex()
        build_symbolic()
        build_symbolic(True)
        build_native("dev")
        build_native("plain")
        return
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from props import PROPS
    spec = PROPS[pid]
    todo = list(spec["quick"]) + (list(spec.get("thorough", [])) if tier == "thorough" else [])
    if tier == "thorough":
        # everything again as a release build has it
        todo += [dict(t, plain=True) for t in spec["quick"] if not t.get("plain")]
    known = []
    kf = os.path.join(ROOT, "known-findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)).get("known", []) if k["property"] == pid]
    ev = os.path.join(ROOT, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.remove(ev)

    build_symex()
    log("symex built")
    ll = build_symbolic()
    log("module built from %s: %d kB" % (REPO, os.path.getsize(ll) // 1024))
    dbg = build_native("dev")
    log("native replay built")
    if not HOOKS:
        todo = [t for t in todo if not t.get("hook")]

    llp = None
    budget = 420 if tier == "quick" else 3000
    results, errors, bad = [], [], []
    for t in todo:
        plain = t.get("plain", False)
        if plain and not llp:
            llp = build_symbolic(True)
        name = t["entry"] + (" (release)" if plain else "")
        out = WORK + "/%s%s.json" % (t["entry"], "-plain" if plain else "")
        if os.path.exists(out):
            os.remove(out)
        left = budget - (time.time() - T0)
        secs = max(20, min(t.get("secs", 300 if tier == "quick" else 1800), left))
        cmd = [ROOT + "/symex/target/release/symex", llp if plain else ll, "--entry", t["entry"], "--workers", str(os.cpu_count() or 4),
               "--timeout-ms", str(t.get("timeout_ms", 20000)), "--max-secs", "%d" % secs,
               "--steps", str(t.get("steps", 3_000_000)), "--max-viol", "6", "--out", out]
        p = run(cmd, ok=None, timeout=secs + 200)
        if p.returncode != 0 or not os.path.exists(out):
            print(p.stdout[-4000:])
            die("symex failed on %s" % t["entry"])
        d = json.load(open(out))
        r = d[0] if isinstance(d, list) else d.get("entries", [d])[0]
        r["spec"] = t
        r["entry"] = name
        results.append(r)
        log("%s: %d paths, %d queries (%.1f s), %d violations%s%s" % (
            name, r["paths"], r["queries"], r["solver_s"], r["nviol"],
            ", UNFINISHED" if r["unfinished"] else "", ", %d errors" % r["nerr"] if r["nerr"] else ""))

        # what the solver says, against the real code
        for v in r["violations"]:
            key = v["msg"]
            if re.search(r" at src/\w+\.rs:\d+$", key):
                errors.append("%s: the harness itself panics: %s" % (t["entry"], key))
                continue
            hit = next((k for k in known if k["entry"] == t["entry"] and k["message"] in key), None)
            code, txt = replay(build_native("plain") if plain else dbg, t["entry"], v["values"])
            ok = code not in (0, 43)
            how = "release" if plain else "dev"
            if not ok and not plain:
                code2, txt2 = replay(build_native("plain"), t["entry"], v["values"])
                if code2 not in (0, 43):
                    ok, how, code, txt = True, "release", code2, txt2
            rep = {"property": pid, "entry": t["entry"], "message": key, "values": v["values"], "stack": v["stack"],
                   "native_profile": how, "native_exit": code, "native_output": txt[-2000:],
                   "how": "harness/target/native/%s/replay %s %s" % (
                       "debug" if how == "dev" else "plain", t["entry"],
                       " ".join("%d:%d" % (w, x) for (_, w, x) in v["values"]))}
            if hit:
                bad.append(("known", rep, hit))
            elif ok:
                bad.append(("viol", rep, None))
            else:
                errors.append("%s: solver's violation '%s' does not reproduce natively (exit %s: %s)" % (
                    t["entry"], key, code, txt[-300:]))
        for e in r["errors"]:
            errors.append("%s: not encodable: %s at %s" % (t["entry"], e["msg"], " < ".join(e["stack"][:3])))
        if r["unknown"]:
            errors.append("%s: %d queries undecided" % (t["entry"], r["unknown"]))
        if any(b[0] == "viol" for b in bad) and tier == "quick":
            break

    # the executor against the implementation: sampled paths must behave natively as predicted
    validated = 0
    for r in results:
        t = r["spec"]
        for s in r["samples"]:
            if any(b[0] == "viol" for b in bad):
                break
            code, txt = replay(build_native("plain") if t.get("plain") else dbg, t["entry"], s["values"])
            want = s["msg"][len("witness "):] if s["msg"].startswith("witness ") else None
            good = code == 0 if not want else ("VSYM-WITNESS " + want) in txt and code in (0, 43)
            if not good:
                errors.append("%s: sample '%s' predicted by symex diverges natively (exit %s): %s" % (
                    t["entry"], s["msg"], code, txt[-300:]))
            else:
                validated += 1
        for wname in t.get("need", []):
            if not r["witnesses"].get(wname) and not r["unfinished"]:
                errors.append("%s: vacuous: '%s' was never reached" % (t["entry"], wname))

    viols = [b for b in bad if b[0] == "viol"]
    funcs = set()
    for r in results:
        funcs |= set(r["funcs"])
    names = sorted(set(n for n in demangle(sorted(funcs))))
    mine = [n for n in names if "yamux" in n]
    wall = time.time() - T0
    cov = {
        "states": sum(r["paths"] for r in results),
        "transitions": sum(r["forks"] for r in results),
        "traces_validated_against_impl": validated,
        "samples": [{"entry": r["entry"], "what": s["msg"], "inputs": s["values"][:60]}
                    for r in results for s in r["samples"][:2]][:12],
        "exhaustive": all(not r["unfinished"] for r in results) and not viols,
        "explanation": "states = symbolic paths executed to their end, each standing for all input values that "
                       "satisfy its path condition; transitions = branches where the solver found both sides feasible",
        "bounds": {t["entry"] + (" (release)" if t.get("plain") else ""): t.get("bounds", "") for t in todo},
        "entries": [{k: r[k] for k in ("entry", "paths", "done", "pruned", "forks", "insns", "queries", "sat", "unsat",
                                       "unknown", "solver_s", "cache_hits", "max_syms", "max_steps", "unfinished",
                                       "checks", "witnesses", "nviol", "nerr")} for r in results],
        "smt_queries": sum(r["queries"] for r in results),
        "smt_unsat": sum(r["unsat"] for r in results),
        "solver_s": round(sum(r["solver_s"] for r in results), 3),
        "instructions": sum(r["insns"] for r in results),
        "functions_encoded": mine,
        "functions_encoded_total": len(names),
        "solver": "z3 (libz3), integer encoding first, bit-vectors otherwise",
    }
    if errors:
        cov["errors"] = errors[:20]
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
           "assumptions": spec.get("assumptions", []) + COMMON + ([] if HOOKS else [
                   "built without the hooks: entries that need them were left out"]), "wall_s": round(wall, 2), "violations": len(viols)},
              open(ev, "w"), indent=1)
    rd = WORK + "/replays"
    os.makedirs(rd, exist_ok=True)
    for i, (k, rep, hit) in enumerate(bad):
        p = "%s/%s-%d.json" % (rd, pid, i)
        json.dump(rep, open(p, "w"), indent=1)
        if k == "known":
            print("KNOWN-FINDING: property=%s %s" % (pid, hit["what"]), flush=True)
        else:
            print("  %s: %s (native %s: exit %s)" % (rep["entry"], rep["message"], rep["native_profile"],
                                                     rep["native_exit"]))
            print("VIOLATION property=%s replay=%s" % (pid, p), flush=True)
    for e in errors:
        print("CHECK-ERROR:", e, flush=True)
    log("done: %d paths, %d queries, %d violations" % (cov["states"], cov["smt_queries"], len(viols)))
    if viols:
        sys.exit(1)
    sys.exit(2 if errors else 0)


COMMON = [
    "every interleaving of whole API calls within the bounds is covered; preemption inside a call by another thread only "
    "in C27, at lock operations and on entering the transport (memory is sequentially consistent)",
    "memory allocation does not fail; locks are uncontended",
    "the hash table of streams uses a constant hash (iteration order is insertion-independent of identifiers)",
    "the clock is a model: frozen or advanced by symbolic amounts as the harness says",
]

if __name__ == "__main__":
    main()
