#!/usr/bin/env python3
"""Build (from /repo's working tree) and run the checks.   check.py PROP [--tier quick|thorough] [--seed N] [pbt options]"""
import sys, os, subprocess, hashlib, json, time, shutil, fcntl, argparse, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VERIF_REPO", "/repo"); B = os.path.join(V, "build")
# property -> (source file, [variants], evidence level)
PROPS = json.load(open(os.path.join(V, "checks.json")))
LIBFLAGS = {
 "plain": "-O2 -g1 -fno-omit-frame-pointer -fsanitize-coverage=inline-8bit-counters",
 "san": "-O1 -g1 -fno-omit-frame-pointer -fsanitize-coverage=inline-8bit-counters -fsanitize=address,bounds,null,object-size,integer-divide-by-zero,shift-exponent,signed-integer-overflow,float-cast-overflow,alignment,bool,enum,pointer-overflow,vla-bound,unreachable,return -fno-sanitize-recover=all",
 "cli": "-O2 -g1",
}
OPTS = {"22k": ["-DUSE_44KHZ=OFF"], "8bit": ["-DUSE_16BITS_SAMPLES=OFF"]}
def sh(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    if r.returncode: raise SystemExit("BUILD FAILED: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout
def tree_hash(paths, exts=None):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p): fs = [p]
        else: fs = sorted(os.path.join(d, f) for d, _, ff in os.walk(p) for f in ff)
        for f in fs:
            if exts and not f.endswith(exts): continue
            h.update(os.path.relpath(f, "/").encode()); h.update(b"\0")
            with open(f, "rb") as x: h.update(hashlib.sha256(x.read()).digest())
    return h.hexdigest()[:16]
def lib_hash():
    return tree_hash([REPO + "/CMakeLists.txt", REPO + "/arm-wt-22k", REPO + "/fakes", REPO + "/example", REPO + "/sonivox.pc.in", REPO + "/sonivox-static.pc.in", REPO + "/sonivox-config.cmake.in", os.path.join(V, "check.py")])
class Lock:
    def __init__(s, name): os.makedirs(B, exist_ok=True); s.f = open(os.path.join(B, name + ".lock"), "w")
    def __enter__(s): fcntl.flock(s.f, fcntl.LOCK_EX)
    def __exit__(s, *a): fcntl.flock(s.f, fcntl.LOCK_UN); s.f.close()
def prune(prefix, keep):
    for d in os.listdir(B):
        if d.startswith(prefix) and d != keep and not d.endswith(".lock"):
            p = os.path.join(B, d)
            if time.time() - os.path.getmtime(p) > 3600: shutil.rmtree(p, ignore_errors=True)
def build_lib(variant):
    base, _, opt = variant.partition("-"); key = "lib-%s-%s" % (variant, lib_hash()); d = os.path.join(B, key)
    with Lock(key):
        if not os.path.exists(d + "/ok"):
            prune("lib-" + variant + "-", key)
            shutil.rmtree(d, ignore_errors=True)
            env = dict(os.environ); env.pop("CFLAGS", None)
            cmd = ["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DBUILD_TESTING=OFF", "-DBUILD_SONIVOX_SHARED=OFF", "-DBUILD_EXAMPLE=%s" % ("ON" if base == "cli" else "OFF"),
                   "-DCMAKE_C_COMPILER=clang", "-DCMAKE_CXX_COMPILER=clang++", "-DCMAKE_C_FLAGS=" + LIBFLAGS[base]] + OPTS.get(opt, [])
            sh(cmd, env=env)
            sh(["ninja", "-C", d, "-j8"], env=env)
            open(d + "/ok", "w").close()
    return d
def find_lib(d):
    for dd, _, ff in os.walk(d):
        for f in ff:
            if f.startswith("libsonivox") and f.endswith(".a"): return os.path.join(dd, f)
    raise SystemExit("no static library built")
WRAP = "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=strdup"
def build(src, variant):
    base = variant.partition("-")[0]
    hh = tree_hash([V + "/pbt", os.path.join(V, "check.py")], (".h", ".cc", ".py")) + "-" + lib_hash()[:8]
    key = "h-%s-%s" % (variant, hh); d = os.path.join(B, key)
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, src)
    with Lock(key + src):
        if os.path.exists(exe): return exe
        prune("h-" + variant + "-", key)
        with cf.ThreadPoolExecutor(4) as ex:
            fl = ex.submit(build_lib, variant)
            flags = ["-std=c++17", "-O1", "-g1", "-Wall", "-Wno-unused-function"] + (["-fsanitize=address", "-DVERIF_ASAN"] if base == "san" else [])
            def cc(f, inc=[]):
                o = os.path.join(d, os.path.basename(f) + ".o")
                if not os.path.exists(o): sh(["clang++"] + flags + inc + ["-c", f, "-o", o + ".tmp%d" % os.getpid()]); os.rename(o + ".tmp%d" % os.getpid(), o)
                return o
            f1 = ex.submit(cc, V + "/pbt/main.cc"); f2 = ex.submit(cc, V + "/pbt/memtrack.cc")
            ld = fl.result()
            inc = ["-I" + ld + "/libsonivox", "-I" + REPO + "/arm-wt-22k/include/libsonivox", "-I" + REPO + "/arm-wt-22k/include", "-I" + REPO + "/arm-wt-22k/host_src", "-I" + V + "/pbt", "-I" + REPO + "/arm-wt-22k/lib_src"]
            o3 = cc(V + "/pbt/props/" + src + ".cc", inc)
            t = exe + ".tmp%d" % os.getpid()
            sh(["clang++"] + (["-fsanitize=address,undefined"] if base == "san" else []) + [f1.result(), f2.result(), o3, find_lib(ld), WRAP, "-lm", "-lpthread", "-o", t]); os.rename(t, exe)
    return exe
def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay"); ap.add_argument("--only"); ap.add_argument("--cases"); ap.add_argument("--time", type=float); ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args(); t0 = time.time(); os.chdir(V)
    if a.tier not in ("quick", "thorough"): a.tier = "quick"
    if a.prop == "all":
        for p in PROPS: subprocess.run([sys.executable, __file__, p, "--tier", a.tier, "--seed", str(a.seed)])
        return 0
    P = PROPS[a.prop]; runs = []; rc = 0
    # findings listed for this property (the file is only read): the text before " || " is printed, the rest identifies the finding to the check
    finds = [l.strip() for l in open(os.path.join(V, "known_findings.txt")) if l.startswith("KNOWN-FINDING: property=%s " % a.prop)]
    os.environ["VERIF_KNOWN"] = " ".join(l.partition(" || ")[2] for l in finds)
    os.makedirs("evidence", exist_ok=True)
    if a.replay:
        var = json.load(open(a.replay)).get("variant", "plain"); exe = build(P["src"], var); env = dict(os.environ)
        if "cli" in P: env["VERIF_CLI"] = cli()
        return subprocess.run([exe, "--prop", a.prop, "--replay", a.replay, "--variant", var], env=env).returncode
    variants = [a.only] if a.only else P.get("variants_thorough", P["variants"]) if a.tier == "thorough" else P["variants"]
    env = dict(os.environ)
    if P.get("cli"): env["VERIF_CLI"] = cli()
    exes = [(v, build(P["src"], v)) for v in variants]
    if a.build_only: return 0
    cap = a.time or (P.get("cap_thorough", 1500) if a.tier == "thorough" else P.get("cap_quick", 240))
    for v, exe in exes:
        out = os.path.join("evidence", ".%s-%s.part" % (a.prop, v)); 
        if os.path.exists(out): os.unlink(out)
        sub = P.get("props", [a.prop])
        cmd = [exe, "--prop", a.prop, "--seed", str(a.seed), "--tier", a.tier, "--out", out, "--time", str(cap / len(exes)), "--variant", v, "--replay-dir", "replays"]
        frac = P.get("share", {}).get(v)
        if a.cases: cmd += ["--cases", a.cases]
        elif frac: cmd += ["--cases", str(frac[0] if a.tier == "quick" else frac[1])]
        r = subprocess.run(cmd, env=env)
        if r.returncode not in (0, 1): print("check error: exit", r.returncode); return 3
        if r.returncode == 1: rc = 1
        runs.append(json.load(open(out))); os.unlink(out)
        if rc: break
    if rc == 0:
        for l in finds: print(l.partition(" || ")[0])
    labels = {}
    for r in runs:
        for k, n in r["labels"].items(): labels[k] = labels.get(k, 0) + n
    ev = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": P.get("level", "exploration"),
      "coverage": {"evaluations": sum(r["evaluations"] for r in runs), "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in runs),
        "rule": runs[0]["rule"], "samples": [s for r in runs for s in r["samples"]][:4] or ["(none: run ended at a violation)"], "discarded": sum(r["discarded"] for r in runs),
        "library_edges_covered": {r["variant"]: "%d/%d" % (r["edges_covered"], r["edges_total"]) for r in runs}, "time_capped": any(r["time_capped"] for r in runs), "labels": labels},
      "assumptions": P.get("assumptions", []) + [l.partition(" || ")[0] for l in finds], "wall_s": round(time.time() - t0, 2), "violations": sum(r["violations"] for r in runs)}
    with open("evidence/%s.json" % a.prop, "w") as f: json.dump(ev, f, indent=1)
    return rc
def cli():
    d = build_lib("cli")
    for dd, _, ff in os.walk(d):
        if "sonivoxrender" in ff and os.access(os.path.join(dd, "sonivoxrender"), os.X_OK): return os.path.join(dd, "sonivoxrender")
    raise SystemExit("sonivoxrender not built")
sys.exit(main())
