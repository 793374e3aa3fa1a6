#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] : decide one property by symbolic execution of the real code.

Steps: compile the repository's translation units the property depends on (plus the harness) to LLVM IR from
/repo's current working tree, link, run every harness entry in the symbolic executor (engine/, z3), aggregate
the verdicts; every counterexample is replayed on natively compiled code before it is reported.
Exit 0: held on everything explored; 1: violation (line "VIOLATION property=<id> replay=<path>"); 2: no answer.
"""
import sys, os, re, json, time, hashlib, subprocess, shutil, glob, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(V, "build")
CLANG = "/usr/bin/clang++-18"
sys.path.insert(0, V)
from props import PROPS, HARNESS

FLAGS = ("-std=gnu++17 -O1 -fno-inline -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fno-pic -DNDEBUG -DLM_EXPORTS "
         "-DLM_USE_CONFIG_RELEASE -D_GLIBCXX_EXTERN_TEMPLATE=0 -DGLM_FORCE_INTRINSICS -w").split()
NCPU = os.cpu_count() or 4

def log(*a): print(*a, flush=True)
def run(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **k)

def incs(): return ["-I" + REPO + "/include", "-I" + REPO + "/pch", "-I" + BUILD + "/gen", "-I/opt/vp/external", "-I" + V + "/rt", "-I" + V + "/rt/omp", "-I" + V + "/harness"]

def ensure_engine():
    os.makedirs(BUILD + "/gen", exist_ok=True); os.makedirs(BUILD + "/cache", exist_ok=True)
    with open(BUILD + "/gen/versiondef.h", "w") as f:
        f.write('#pragma once\n#define LM_VERSION_MAJOR 3\n#define LM_VERSION_MINOR 0\n#define LM_VERSION_PATCH 0\n#define LM_VERSION_REVISION "x"\n#define LM_BUILD_TIMESTAMP "x"\n')
    r = run(["make", "-j4", "-C", V + "/engine", "OUT=" + BUILD])
    if r.returncode: log(r.stdout[-2000:], r.stderr[-3000:]); log("engine build failed"); sys.exit(2)

def hfiles(h): return hashlib.sha256(open(h, "rb").read()).hexdigest()
_hdr = None
def header_hash():
    global _hdr
    if _hdr is None:
        m = hashlib.sha256()
        for d in (REPO + "/include", REPO + "/pch", V + "/rt", V + "/harness", REPO + "/src/ext"):
            for p in sorted(glob.glob(d + "/**/*", recursive=True)):
                if os.path.isfile(p) and p.endswith((".h", ".hpp", ".inl")): m.update(p.encode()); m.update(open(p, "rb").read())
        m.update(" ".join(FLAGS).encode()); _hdr = m.hexdigest()
    return _hdr

def compile_bc(src, extra=()):
    m = hashlib.sha256((header_hash() + src + " ".join(extra)).encode()); m.update(open(src, "rb").read())
    out = BUILD + "/cache/" + os.path.basename(src)[:-4] + "-" + m.hexdigest()[:20] + ".bc"
    if os.path.exists(out): return out, ""
    tmp = out + ".%d.tmp" % os.getpid()
    r = run([CLANG] + FLAGS + list(extra) + incs() + ["-emit-llvm", "-c", src, "-o", tmp])
    if r.returncode: return None, r.stderr[-3000:]
    os.rename(tmp, out); return out, ""

ALLOW_UNDEF = re.compile(r"^_ZN2lm3log|^_ZN2lm9exception|^_ZN2lm8progress|^_ZN2lm5debug|^_ZT[VIS]")
def all_srcs():
    return [p for p in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)) if os.path.basename(p) not in ("pylm.cpp", "version.cpp", "logger.cpp", "debug.cpp", "exception.cpp")]

def build_harness(h, pool):
    """returns dict(bc=..., nobc=[...], err=...)"""
    spec = HARNESS[h]; hs = V + "/harness/" + h + ".cpp"
    srcs = [REPO + "/" + s for s in spec["src"]]; missing = [s for s in srcs if not os.path.exists(s)]
    if missing: srcs = all_srcs()
    ex = tuple(spec.get("flags", ()))
    futs = {s: pool.submit(compile_bc, s, ex) for s in srcs + [hs, V + "/rt/rt.cpp"]}
    bcs = {}; errs = []
    for s, f in futs.items():
        o, e = f.result()
        if o: bcs[s] = o
        else: errs.append(s + ": " + e)
    if hs not in bcs or V + "/rt/rt.cpp" not in bcs: return dict(err="\n".join(errs), h=h)
    tmp = BUILD + "/link/%d" % os.getpid(); os.makedirs(tmp, exist_ok=True)
    core = [bcs[s] for s in srcs if s in bcs] + [bcs[hs]]
    rt = [bcs[V + "/rt/rt.cpp"]]
    out = tmp + "/" + h + ".bc"; pure = tmp + "/" + h + ".pure.bc"
    r = run(["llvm-link-18"] + core + ["-o", pure])
    if r.returncode: return dict(err=r.stderr, h=h)
    nm = run(["llvm-nm-18", "--undefined-only", "--format=just-symbols", pure]).stdout.split()
    und = [n for n in nm if re.match(r"^_ZNK?2lm", n) and not ALLOW_UNDEF.match(n)]
    if [n for n in und if not n.startswith(tuple(spec.get("undef", ())))]:
        rest = [s for s in all_srcs() if s not in srcs]
        extra = [f.result()[0] for f in [pool.submit(compile_bc, s, ex) for s in rest]]; extra = [e for e in extra if e]
        full = tmp + "/" + h + ".rest.bc"
        if extra and run(["llvm-link-18"] + extra + ["-o", full]).returncode == 0:
            p2 = pure + "2"
            if run(["llvm-link-18", pure, "--only-needed", full, "-o", p2]).returncode == 0: os.replace(p2, pure)
    if "vpr_" in open(hs).read():
        r = run([BUILD + "/vpsym", "--redirect", pure, pure + "i"])
        if r.returncode: return dict(err="redirect: " + r.stderr, h=h)
        os.replace(pure + "i", pure)
    if spec.get("threads"):
        tb = [compile_bc(V + "/rt/" + x + ".cpp")[0] for x in ("thr", "omp")]; plain = pure + ".plain"; shutil.copy(pure, plain)
        r = run([BUILD + "/vpsym", "--instrument", pure, pure + "i"])
        if r.returncode: return dict(err="instrument: " + r.stderr, h=h)
        r = run(["llvm-link-18", pure + "i"] + tb + ["-o", pure])
        if r.returncode: return dict(err=r.stderr, h=h)
        run(["llvm-link-18", plain, tb[1], "-o", plain])
    r = run(["llvm-link-18", pure] + rt + ["-o", out])
    if r.returncode: return dict(err=r.stderr, h=h)
    return dict(bc=out, pure=pure, err="", h=h, tmp=tmp, srcs=srcs, undefined=und)

def build_native(b, pool, asan):
    out = b["tmp"] + "/" + b["h"] + (".tsan" if asan == "tsan" else ".det" if asan == "det" else ".asan" if asan else ".nat")
    if os.path.exists(out): return out, ""
    nr, e = compile_bc(V + "/rt/nrng.cpp")
    if not nr: return None, e
    x = out + ".bc"
    r = run(["llvm-link-18", b["pure"] + (".plain" if asan == "tsan" else ""), "--override=" + nr, "-o", x])
    if r.returncode: return None, r.stderr
    if asan:
        r = run(["opt-18", "-passes=forceattrs", "-force-attribute=sanitize_" + ("thread" if asan in ("tsan", "det") else "address"), x, "-o", x + "2"])
        if r.returncode == 0: os.replace(x + "2", x)
    native = open(V + "/rt/native.cpp").read()
    stubs = [n for n in run(["llvm-nm-18", "--undefined-only", "--format=just-symbols", x]).stdout.split() if re.match(r"^_ZN2lm(3log|9exception|8progress|5debug)", n) and '"%s"' % n not in native]
    r = run([CLANG, "-O1", "-std=gnu++17", "-w", "-g0", "-I" + V + "/rt", x, "-x", "c++", V + "/rt/native.cpp", "-x", "none", "-rdynamic", "-no-pie", "-ldl", "-lpthread", "-lfmt", "-lstdc++fs",
             "-Wl,--unresolved-symbols=ignore-all", "-o", out] + ["-Wl,--defsym=%s=vp_stub" % n for n in stubs] + (["-fsanitize=thread", "-DVP_TSAN"] if asan == "tsan" else ["-fsanitize=thread", "-DVP_TSAN", "-DVP_DET"] if asan == "det" else ["-fsanitize=address"] if asan else []) + ["-latomic"])
    if r.returncode: return None, r.stderr[-3000:]
    return out, ""

def run_entry(b, entry, mode, opts, tmp):
    out = tmp + "/" + entry + ".json"
    cmd = [BUILD + "/vpsym", b["bc"], "--entry", "vp_h_" + entry, "--mode", mode, "--out", out, "--tmp", tmp]
    for k, v in opts.items(): cmd += ["--" + k, str(v)]
    budget = float(opts.get("budget", 120))
    t = time.time(); why = ""
    try: r = run(cmd, timeout=budget + 90); why = r.stderr[-400:]
    except subprocess.TimeoutExpired: r = None; why = "timeout"
    try: d = json.load(open(out))
    except Exception as e: d = dict(failed=True, error="engine gave no result: %s %s" % (why, e), labels={}, violations=[], endings={}, end_msgs={}, functions=[])
    d["entry"] = entry; d["t"] = time.time() - t
    return d

def replay(native, entry, inputs, tmp, seed, tries, secs, maxmode=2, trust=0):
    f = tmp + "/in-%s-%d.txt" % (entry, abs(hash(str(inputs))) % 10**9)
    with open(f, "w") as h:
        for k, x in inputs.items(): h.write("%s %s\n" % (k, x))
    cmd = [native, entry, f, str(seed), str(tries), str(maxmode), str(int(bool(trust)))]
    try: r = run(cmd, timeout=secs, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="halt_on_error=1"))
    except subprocess.TimeoutExpired: return None
    m = re.search(r"^FAIL label=(\S+) detail=(.*)$", r.stdout, re.M)
    if m:
        t = re.search(r"^TRY (\d+)$", r.stdout, re.M)
        if t and int(t.group(1)) > 0:  # found after other attempts in the same process: it has to fail in a fresh process as well
            ins = dict(re.findall(r"^INPUT (\S+) (\S+)$", r.stdout, re.M))
            if not replay(native, entry, ins, tmp, seed, 0, secs, maxmode, 1): return None
        return dict(label=m.group(1), detail=m.group(2), stdout=r.stdout[-4000:])
    if "symbol lookup error" in r.stderr: log("  replay of %s could not run: %s" % (entry, r.stderr[-300:]))
    if r.returncode < 0 or (r.returncode not in (0, 3)): return dict(label="crash", detail="exit %d" % r.returncode, stdout=(r.stdout + r.stderr)[-3000:]) if r.returncode < 0 else None
    return None

def load_known(pid):
    p = V + "/known_findings.jsonl"; out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get("property") == pid and d.get("status") == "known": out.append(d)
    return out

def main():
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=None); ap.add_argument("--only"); ap.add_argument("-v", action="store_true"); ap.add_argument("--selftest", type=int, default=0)
    a = ap.parse_args(); pid = a.prop; tier = a.tier or os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time(); P = PROPS[pid]; ensure_engine()
    entries = [e for e in P["entries"] if (tier == "thorough" or not e.get("thorough")) and (not a.only or re.search(a.only, e["name"]))]
    hs = sorted(set(e["h"] for e in entries))
    pool = ThreadPoolExecutor(NCPU); bpool = ThreadPoolExecutor(4)
    built = {h: f.result() for h, f in [(h, bpool.submit(build_harness, h, pool)) for h in hs]}
    tb = time.time() - t0
    for h, b in built.items():
        if b["err"]: log("harness %s could not be compiled against the tree:\n%s" % (h, b["err"][-2500:]))
    tmp = tempfile.mkdtemp(prefix="vp", dir=BUILD)
    res = []
    def go(e):
        b = built[e["h"]]
        if b["err"]: return dict(entry=e["name"], failed=True, error="harness not compiled", labels={}, violations=[], endings={}, end_msgs={}, functions=[])
        o = dict(P.get("opts", {})); o.update(e.get("opts", {}))
        o.setdefault("budget", 100 if tier == "quick" else 900); o.setdefault("assert-ms", 6000 if tier == "quick" else 60000); o.setdefault("branch-ms", 1500 if tier == "quick" else 6000); o.setdefault("ext-secs", 4 if tier == "quick" else 60)
        if a.v: o["v"] = ""
        o.pop("v", None)
        return run_entry(b, e["name"], e.get("mode", "R"), o, tmp)
    rpool = ThreadPoolExecutor(NCPU)
    futs = [(e, rpool.submit(go, e)) for e in sorted(entries, key=lambda e: -e.get("cost", 1))]
    tot = dict(paths=0, completed=0, queries=0, cached=0, trivial=0, sat=0, unsat=0, unknown=0, external_queries=0, solver_s=0.0, instructions=0)
    fns = set(); undecided = []; viol = []; nlab = 0; vac = []; per = []; known = load_known(pid); knownhit = set()
    def confirm(e, v, reason):
        b = built[e["h"]]; outs = []
        asan = v["label"] in ("memory-safety", "crash") or e.get("asan")
        if v["label"] == "data-race":
            nat, err = build_native(b, pool, "det")
            if nat:
                r = replay(nat, e["name"], v["inputs"], tmp, seed, 0, 60)
                if r: return r
            nat, err = build_native(b, pool, "tsan")
            if not nat: undecided.append("%s: replay build failed: %s" % (e["name"], err[-300:])); return None
            return replay(nat, e["name"], v["inputs"], tmp, seed, 60, 60)
        for az in ([True, False] if asan else [False]):
            nat, err = build_native(b, pool, az)
            if not nat: undecided.append("%s: replay build failed: %s" % (e["name"], err[-300:])); continue
            mm = 2
            r = replay(nat, e["name"], v["inputs"], tmp, seed, 0, 60, 2, v.get("solver_sat") and v.get("has_model"))
            if r and v.get("solver_sat") and r["label"] != v["label"] and v["label"] not in ("memory-safety", "crash"): r = replay(nat, e["name"], v["inputs"], tmp, seed, 0, 60)
            if not r: r = replay(nat, e["name"], v["inputs"], tmp, seed, e.get("tries", 30000), 45, mm)
            if r: return r
        return None
    for e, f in futs:
        d = f.result(); res.append((e, d))
        for k in tot: tot[k] += d.get(k, 0) or 0
        fns.update(x for x in d.get("functions", []) if "lm::" in x and not x.startswith("std::") and "nlohmann" not in x.split("(")[0])
        inc = {k: n for k, n in d.get("endings", {}).items() if k not in ("completed", "assume", "end", "infeasible", "assert-failed", "memory-error", "uncaught", "nonfinite", "abort", "unreachable", "data-race", "deadlock")}
        problems = []
        if d.get("failed"): problems.append(d["error"])
        if not d.get("init_ok", True): problems.append("static initialisation: " + d.get("init_err", ""))
        if inc: problems.append("paths not decided: %s %s" % (inc, list(d.get("end_msgs", {}).items())[:4]))
        if d.get("budget_hit"): problems.append("budget hit, %s states unexplored" % d.get("unexplored"))
        exp_nonfinite = e.get("nonfinite", False)
        labs = d.get("labels", {})
        for l, x in labs.items():
            nlab += 1
            if not x.get("witness") and x["proved"] and not l.startswith(("memory", "uncaught")): vac.append(e["name"] + ":" + l)
        if not labs and not d.get("failed"): vac.append(e["name"] + ": no assertion reached")
        done = False
        for v in d.get("violations", []):
            if done: break
            r = confirm(e, v, "")
            if r:
                kf = [k for k in known if k["entry"] == e["name"] and k["label"] == r["label"]]
                if kf: knownhit.add(json.dumps(kf[0], sort_keys=True)); continue
                viol.append((e, v, r)); done = True
            else: undecided.append("%s: %s %s — not reproduced natively" % (e["name"], v["label"], "solver counterexample" if v.get("solver_sat") else "solver undecided"))
        if problems:
            undecided += [e["name"] + ": " + p for p in problems]
            if not done and not built[e["h"]]["err"]:
                r = confirm(e, dict(label="incomplete", inputs={}), "")
                if r:
                    kf = [k for k in known if k["entry"] == e["name"] and k["label"] == r["label"]]
                    if kf: knownhit.add(json.dumps(kf[0], sort_keys=True))
                    else: viol.append((e, dict(label="incomplete", detail="; ".join(problems)[:300], inputs={}), r))
        if a.selftest and not built[e["h"]]["err"]:
            for az in (True, False) if e.get("asan") else (False,):
                nat, err = build_native(built[e["h"]], pool, az)
                r = replay(nat, e["name"], {}, tmp, seed, a.selftest, 300) if nat else dict(label="build", detail=err, stdout="")
                o = run([nat, e["name"], "-", str(seed), str(min(a.selftest, 2000))]).stdout.strip().splitlines() if nat else []
                log("  selftest %s asan=%s: %s %s" % (e["name"], az, ("FAIL " + r["label"] + " " + r["detail"] + "\n" + r["stdout"]) if r else "ok", o[-1] if o else ""))
        per.append(dict(entry=e["name"], mode=e.get("mode", "R"), bounds=e.get("bounds", ""), paths=d.get("paths", 0), completed=d.get("completed", 0), queries=d.get("queries", 0), solver_s=round(d.get("solver_s", 0) or 0, 3), wall_s=round(d.get("t", 0), 2), assertions={l: dict(discharged=x["proved"], by_canonicalisation=x.get("trivial", 0), violated=x["violated"], unknown=x["unknown"]) for l, x in labs.items()}, endings=d.get("endings", {})))
        if a.v or d.get("failed") or d.get("t", 0) > 60 or problems:
            log("  %-28s paths=%s q=%s %.1fs %s %s" % (e["name"], d.get("paths"), d.get("queries"), d.get("t", 0), {l: (x["proved"], x["violated"], x["unknown"]) for l, x in labs.items()}, d.get("endings")))
    wall = time.time() - t0
    os.makedirs(V + "/evidence/replay", exist_ok=True)
    for k in sorted(knownhit): kk = json.loads(k); log("KNOWN-FINDING: property=%s %s" % (pid, kk["what"]))
    lines = []
    for e, v, r in viol:
        p = V + "/evidence/replay/%s-%s-%s.txt" % (pid, e["name"], re.sub(r"\W", "_", r["label"]))
        b = built[e["h"]]
        with open(p, "w") as fh:
            fh.write("property %s\nharness %s entry %s\nsolver obligation: %s %s\nnative replay: assertion '%s' failed: %s\n\n%s\n" % (pid, e["h"], e["name"], v["label"], v.get("detail", ""), r["label"], r["detail"], r["stdout"]))
        log("  entry %s: assertion '%s' violated (%s) %s" % (e["name"], r["label"], r["detail"], v.get("detail", "")[:300])); lines.append("VIOLATION property=%s replay=%s" % (pid, p))
    decided = sum(1 for e, d in res if not d.get("failed"))
    cov = dict(entries=per, functions_encoded=sorted(fns)[:400], functions_encoded_count=len(fns), bounds=P.get("bounds", ""), outside_bounds=P.get("outside", ""), obligations=nlab, symbolic_paths=tot["paths"], queries=tot["queries"], queries_cached=tot["cached"], discharged_by_canonicalisation=tot["trivial"], sat=tot["sat"], unsat=tot["unsat"], solver_unknown=tot["unknown"], external_solver_queries=tot["external_queries"], solver_s=round(tot["solver_s"], 3), instructions_interpreted=tot["instructions"], undecided=undecided[:60], vacuous=vac[:60], build_s=round(tb, 2), translation_units=sorted(set(os.path.relpath(s, REPO) for b in built.values() if not b["err"] for s in b["srcs"])), exhaustive_within_bounds=not undecided)
    json.dump(dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=P.get("assumptions", []) + COMMON_ASSUMPTIONS, wall_s=round(wall, 2), violations=len(viol)), open(V + "/evidence/%s.json" % pid, "w"), indent=1)
    if not os.environ.get("VP_KEEP"): shutil.rmtree(tmp, ignore_errors=True); shutil.rmtree(BUILD + "/link/%d" % os.getpid(), ignore_errors=True)
    log("%s [%s]: %d entries, %d obligations, %d paths, %d queries (%d discharged by canonicalisation), solver %.1fs, build %.1fs, wall %.1fs, undecided %d, vacuous %d" % (pid, tier, len(entries), nlab, tot["paths"], tot["queries"], tot["trivial"], tot["solver_s"], tb, wall, len(undecided), len(vac)))
    for u in undecided[:12]: log("  undecided: " + u[:600])
    for u in vac[:12]: log("  vacuous: " + u)
    if lines:
        for l in sorted(set(lines)): log(l)
        sys.exit(1)
    if not decided: sys.exit(2)
    sys.exit(0)

COMMON_ASSUMPTIONS = [
    "R-mode entries treat floating-point arithmetic as exact real arithmetic (literals snapped to nearby rationals / multiples of pi); rounding error is outside the claim.",
    "sin/cos/exp/log/acos/atan2/pow are axiomatised (algebraic identities, sign and monotonicity facts), which over-approximates them; every counterexample is replayed natively before it is reported.",
    "Divisions by exactly zero are assumed away unless the entry enables the division check.",
    "libstdc++ containers are executed from their header IR; out-of-line library pieces, formatting and logging are replaced by the models in rt/rt.cpp.",
]
if __name__ == "__main__": main()
