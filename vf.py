#!/usr/bin/env python3
"""Driver: builds the executor and the IR of /repo's current tree, runs the jobs of a
property, replays counterexamples against the natively compiled real code, writes evidence."""
import sys, os, subprocess, json, time, hashlib, shutil, glob, re, signal
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
LIB = os.path.join(REPO, "lib")
JOBS = int(os.environ.get("VF_JOBS", "8"))
SETTINGS = """#pragma once
#define LA_THREADED
#define LOONGARCH_VERSION_MAJOR
#define LOONGARCH_VERSION_MINOR
#define LA_PAGE_SIZE 4096
#define LA_MACHINE_ALIGNMENT 64
#define LA_MASKED_MEMORY_BITS 0ULL
"""
CORE_TUS = """cpu debug decoded_exec_segment decoder_cache elf_loader la64 machine machine_accelerate
machine_backtrace memory memory_rw shared_exec_segment threaded_dispatch threaded_inaccurate_dispatch
threaded_rewriter linux/syscalls linux/syscalls_threads posix/signals posix/threads util/crc32c
machine_bytecode_stats serialize""".split()
SKIP_TUS = {"cpu_dispatch", "bytecode_impl", "tailcall_dispatch", "tailcall_inaccurate_dispatch",
            "tr_api", "tr_compiler", "tr_emit", "tr_translate"}
CLANGFLAGS = ("-std=gnu++20 -fno-rtti -O1 -D_GLIBCXX_EXTERN_TEMPLATE=0 -fno-vectorize -fno-slp-vectorize "
              "-fno-strict-aliasing -fno-access-control -gline-tables-only -mcrc32 -w -fno-discard-value-names "
              "-ffp-contract=off -fno-pic -fno-pie").split()
INC = ["-I" + os.path.join(BUILD, "gen"), "-I" + LIB, "-I" + os.path.join(LIB, "libloong"),
       "-I" + os.path.join(VERIF, "rt"), "-I" + os.path.join(VERIF, "harness"), "-I" + REPO]

class BuildError(Exception): pass

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd)[:400], r.stdout[-4000:]))
    return r.stdout

def sha(*paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        with open(p, "rb") as f: h.update(f.read())
    return h.hexdigest()[:20]

def write_if_changed(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not (os.path.exists(p) and open(p).read() == s):
        with open(p, "w") as f: f.write(s)

def build_engine():
    eng = os.path.join(VERIF, "engine")
    srcs = sorted(glob.glob(eng + "/*.[ch]pp")) + [eng + "/build.sh"]
    out = os.path.join(BUILD, "vse-" + sha(*srcs))
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        for o in glob.glob(BUILD + "/vse-*"): os.unlink(o)
        run([eng + "/build.sh", out + ".tmp"]); os.rename(out + ".tmp", out)
    return out

def repo_hash():
    """content hash of every file the encoding can depend on"""
    fs = []
    for d in ("lib",):
        for r, _, f in os.walk(os.path.join(REPO, d)):
            if "_build" in r: continue
            fs += [os.path.join(r, x) for x in f if x.endswith((".cpp", ".hpp", ".h", ".inc", ".in"))]
    return sha(*sorted(fs), extra=" ".join(CLANGFLAGS))

def tus():
    found = []
    for r, _, f in os.walk(os.path.join(LIB, "libloong")):
        for x in f:
            if x.endswith(".cpp"):
                n = os.path.relpath(os.path.join(r, x), os.path.join(LIB, "libloong"))[:-4]
                if n not in SKIP_TUS: found.append(n)
    return sorted(found)

def cc_ir(src, out, extra=()):
    run(["clang++", *CLANGFLAGS, *extra, *INC, "-c", "-emit-llvm", src, "-o", out])

def build_ir(rh):
    """LLVM IR of the whole library + runtime, one bitcode file"""
    write_if_changed(os.path.join(BUILD, "gen", "libloong_settings.h"), SETTINGS)
    d = os.path.join(BUILD, "ir-" + rh + "-" + sha(VERIF + "/rt/vs_rt.cpp", VERIF + "/rt/vs.hpp"))
    out = os.path.join(d, "all.bc")
    if os.path.exists(out): return out
    for o in glob.glob(BUILD + "/ir-*") + glob.glob(BUILD + "/nat-*"): shutil.rmtree(o, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    jobs = [(os.path.join(LIB, "libloong", t + ".cpp"), os.path.join(d, t.replace("/", "_") + ".bc")) for t in tus()]
    jobs.append((VERIF + "/rt/vs_rt.cpp", d + "/vs_rt.bc", ["-fno-builtin"]))
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(lambda j: cc_ir(*j), jobs))
    run(["llvm-link-18", *[j[1] for j in jobs], "-o", out + ".tmp"]); os.rename(out + ".tmp", out)
    return out

def build_harness(h, allbc, defs=()):
    d = os.path.dirname(allbc)
    src = os.path.join(VERIF, "harness", h + ".cpp")
    hh = sha(src, *sorted(glob.glob(VERIF + "/harness/*.hpp")), VERIF + "/rt/vs.hpp", extra=" ".join(defs))
    out = os.path.join(d, "h_%s_%s.bc" % (h, hh))
    if os.path.exists(out): return out
    tmp = out + ".o.bc"
    cc_ir(src, tmp, [*defs])
    # harness definitions override the runtime's weak ones
    run(["llvm-link-18", tmp, allbc, "-o", out + ".tmp"]); os.rename(out + ".tmp", out)
    return out

NATFLAGS = ("-std=gnu++20 -O1 -g1 -fsanitize=address -fno-omit-frame-pointer -fno-access-control -fno-rtti -w -pthread "
            "-fno-strict-aliasing -ffp-contract=off -DVS_NATIVE").split()
NATMAP = ["-Dmmap=verif_mmap", "-Dmunmap=verif_munmap", "-Dmadvise=verif_madvise"]
def build_native(h, rh, defs=()):
    """the same harness against the real code compiled natively (gcc + ASan)"""
    d = os.path.join(BUILD, "nat-" + rh); os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "replay_" + h + "_" + hashlib.sha256(" ".join(defs).encode()).hexdigest()[:6])
    src = os.path.join(VERIF, "harness", h + ".cpp")
    if os.path.exists(out) and os.path.getmtime(out) > max(os.path.getmtime(f) for f in [src, *glob.glob(VERIF + "/harness/*.hpp"), *glob.glob(VERIF + "/rt/*")]): return out
    objs = []
    def one(a):
        s, o, fl = a
        if not os.path.exists(o) or s.startswith(VERIF): run(["g++", *NATFLAGS, *fl, *INC, "-c", s, "-o", o])
        return o
    jobs = [(os.path.join(LIB, "libloong", t + ".cpp"), os.path.join(d, t.replace("/", "_") + ".o"), NATMAP) for t in tus()]
    jobs.append((VERIF + "/rt/vs_native.cpp", d + "/vs_native.o", []))
    jobs.append((src, d + "/h_" + h + ".o", NATMAP + list(defs)))
    with ThreadPoolExecutor(JOBS) as ex: objs = list(ex.map(one, jobs))
    run(["g++", *NATFLAGS, "-rdynamic", *objs, "-o", out, "-ldl"])
    return out

def replay_text(v):
    L = []
    for k, x in v.get("params", {}).items(): L.append("p %s %d" % (k, x & (2**64 - 1)))
    for i in v.get("inputs", []):
        nm = i["name"].replace(" ", "_")
        if "hex" in i: L.append("v %s %d %s" % (nm, len(i["hex"]) // 2, i["hex"]))
        else:
            e = i["entries"]
            L.append("a %s %d %d %s" % (nm, i["default"], len(e), " ".join("%d %d" % (a & (2**64 - 1), b) for a, b in e)))
    return "\n".join(L) + "\n"

def replay_once(exe, fn, path, seed=None, timeout=60):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=47:abort_on_error=0:allocator_may_return_null=1:handle_segv=0:handle_sigfpe=0:handle_abort=0:handle_sigill=0:handle_sigbus=0:detect_stack_use_after_return=0")
    try:
        r = subprocess.run([exe, fn, path] + ([str(seed)] if seed is not None else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return r.returncode, r.stdout.decode("utf8", "replace")[-3000:]
    except subprocess.TimeoutExpired:
        return 44, "REPLAY: timed out"

def confirm(v, job, exe, path):
    rc, out = replay_once(exe, v["fn"], path)
    if rc in (0, 77, 2):
        # uninterpreted floating-point: the model's operand bits need not be distinguishing
        if job.get("fp"):
            with ThreadPoolExecutor(JOBS) as ex:
                for rc2, out2 in ex.map(lambda s: replay_once(exe, v["fn"], path, s), range(1, 97)):
                    if rc2 not in (0, 77, 2): return True, rc2, out2
        return False, rc, out
    return True, rc, out

T0 = time.time(); BUDGET = float(os.environ.get("VF_BUDGET", "690"))
def run_job(vse, bc, job, tier, seed):
    out = os.path.join(BUILD, "out-%d-%s.json" % (os.getpid(), hashlib.sha256(json.dumps(job, sort_keys=True).encode()).hexdigest()[:12]))
    tmo = job.get("time", 60) if tier == "quick" else max(job.get("time", 0), 900)
    if tier == "quick": tmo = max(5, min(tmo, int(BUDGET - (time.time() - T0)))) # a check has 900 s: leave time to replay
    cmd = [vse, bc, "--fn", job["fn"], "--out", out, "--time", str(tmo), "--query", str(job.get("query", 20)), "--seed", str(seed), "--mem", str(job.get("mem", 3500))]
    if "maxviol" in job: cmd += ["--maxviol", str(job["maxviol"])]
    for k, x in job.get("params", {}).items(): cmd += ["-D", "%s=%d" % (k, x)]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tmo + (90 if tier == "quick" else 180), errors="replace")
    except subprocess.TimeoutExpired:
        return dict(error="engine timed out", job=job)
    try:
        res = json.load(open(out)); os.unlink(out)
    except Exception:
        return dict(error="engine failed (%s): %s" % (r.returncode, r.stdout[-600:]), job=job)
    res["job"] = job; res["stderr"] = r.stdout[-2000:]
    return res

def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def check(prop, tier, only=None, verbose=False, nowrite=False):
    import checks
    t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = checks.CHECKS[prop]
    jobs = [j for j in spec["jobs"](tier)]
    if only: jobs = [j for j in jobs if re.search(only, j["name"])]
    with ThreadPoolExecutor(2) as ex:
        fe = ex.submit(build_engine)
        rh = repo_hash()
        fi = ex.submit(build_ir, rh)
        vse, allbc = fe.result(), fi.result()
    hs = sorted(set((j["h"], tuple(j.get("defs", ()))) for j in jobs))
    with ThreadPoolExecutor(JOBS) as ex: bcs = dict(zip(hs, ex.map(lambda h: build_harness(h[0], allbc, h[1]), hs)))
    tb = time.time() - t0
    results = []
    with ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(run_job, vse, bcs[(j["h"], tuple(j.get("defs", ())))], j, tier, seed): j for j in sorted(jobs, key=lambda j: -j.get("cost", 1))}
        for f in as_completed(futs):
            r = f.result(); results.append(r)
            if verbose:
                j = r["job"]
                if "error" in r: print("  %-40s ERROR %s" % (j["name"], r["error"]))
                else: print("  %-40s paths=%d q=%d solver=%.1fs wall=%.1fs proved=%d+%d viol=%d inc=%s cov=%s%s" % (j["name"], r["paths"], r["queries"], r["solver_s"], r["wall_s"], r["asserts_proved"], r["asserts_trivial"], len(r["violations"]), r["incomplete"] or "", ",".join(r["cover"]), " NOTES " + str(r["notes"]) if r["notes"] else ""))
                for m in sorted(set(v["kind"] + ": " + v["msg"] + " @ " + v.get("where", "")[:90] for v in r["violations"])) if "error" not in r else []: print("      VIOL " + m)
                if r.get("stderr", "").strip() and verbose: print("     " + r["stderr"].strip().replace("\n", "\n     "))
                sys.stdout.flush()
    # ---- counterexamples
    kf = [k for k in known_findings() if k.get("property") == prop and k.get("status", "known") == "known"]
    confirmed, unconfirmed, knownhit = [], [], {}
    rdir = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    cand = []
    for r in results:
        for v in r.get("violations", []): cand.append((r, v, False))
        for v in r.get("known", []): cand.append((r, v, True))
    replays = 0
    nconf = 0
    exes = {}
    for r, v, isk in cand:
        job = r["job"]
        if (nconf >= 6 or nconf and tier == "quick" and time.time() - T0 > BUDGET) and not isk: break
        if tier == "quick" and time.time() - T0 > BUDGET + 100: unconfirmed.append((job, v, "no time left to replay")); continue
        key = (job["h"], tuple(job.get("defs", ())))
        try:
            if key not in exes: exes[key] = build_native(job["h"], rh, key[1])
        except BuildError as e:
            print("replay build failed: %s" % e); exes[key] = None
        name = "%s_%s_%s" % (prop, job["name"].replace("/", "_"), hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:8])
        path = os.path.join(rdir, name + ".txt")
        with open(path, "w") as f: f.write(replay_text(v))
        json.dump(dict(v, property=prop, job=job["name"], harness=job["h"]), open(path[:-4] + ".json", "w"), indent=1)
        if exes[key] is None: unconfirmed.append((job, v, "no native build")); continue
        if isk: os.environ["VS_KNOWN"] = "1"
        ok, rc, out = confirm(v, job, exes[key], path); replays += 1
        os.environ.pop("VS_KNOWN", None)
        with open(path[:-4] + ".log", "w") as f: f.write("rc=%d\n%s" % (rc, out))
        if isk:
            kid = v["msg"].split(":")[0]
            if any(k["id"] == kid for k in kf): knownhit.setdefault(kid, (v, ok))
            elif ok: confirmed.append((job, v, path, rc, out)); nconf += 1
            else: unconfirmed.append((job, v, out))
            continue
        if not ok: unconfirmed.append((job, v, out)); continue
        m = None
        for k in kf:
            if "match" in k and re.search(k["match"], v["msg"]) and re.search(k.get("job", "."), job["name"]) and re.search(k.get("where", "."), v.get("where", "")): m = k
        if m: knownhit.setdefault(m["id"], (v, ok))
        else: confirmed.append((job, v, path, rc, out)); nconf += 1
    # ---- evidence
    errs = [r for r in results if "error" in r]
    good = [r for r in results if "error" not in r]
    fns = sorted(set(f for r in good for f in r["functions"] if "loongarch::" in f))
    cover = {}
    for r in good:
        for k, x in r["cover"].items(): cover[k] = cover.get(k, 0) + x
    missing = sorted(set(c for r in good for c in r["job"].get("cover", []) if c not in r["cover"]))
    inc = {}
    for r in good:
        for k, x in r["incomplete"].items(): inc[k] = inc.get(k, 0) + x
    cov = dict(
        explanation="Bounded symbolic execution of the LLVM IR of the current source; every assertion, memory access and trap "
                    "condition on every path is decided by Z3 for all values of the symbolic inputs within the bounds.",
        functions_encoded=len(fns), functions=fns[:400],
        jobs=len(jobs), paths=sum(r["paths"] for r in good), instructions=sum(r["steps"] for r in good),
        forks=sum(r["forks"] for r in good),
        queries=sum(r["queries"] for r in good), queries_sat=sum(r["sat"] for r in good), queries_unsat=sum(r["unsat"] for r in good), queries_unknown=sum(r["unknown"] for r in good),
        solver_seconds=round(sum(r["solver_s"] for r in good), 2),
        assertions_proved_by_solver=sum(r["asserts_proved"] for r in good), assertions_discharged_by_simplification=sum(r["asserts_trivial"] for r in good),
        access_bounds_proved=sum(r["bounds_proved"] for r in good),
        bounds=spec["bounds"], reachability_witnesses=cover, missing_witnesses=missing, incomplete=inc, errors=[e["error"][:300] for e in errs],
        counterexamples_replayed=replays, unconfirmed=[dict(job=j["name"], msg=v["msg"], where=v.get("where", "")) for j, v, _ in unconfirmed][:20],
        known_findings=sorted(knownhit), notes={k: x for r in good for k, x in r["notes"].items()},
        samples=[dict(job=r["job"]["name"], fn=r["job"]["fn"], params=r["job"].get("params", {}), paths=r["paths"], proved=dict(list(r["proved"].items())[:4])) for r in good[:8]],
        build_seconds=round(tb, 1))
    ev = dict(property=prop, tier=tier, seed=seed, level="other", coverage=cov, assumptions=spec.get("assumptions", []) + checks.COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    if not nowrite:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: jobs=%d paths=%d queries=%d proved=%d solver=%.1fs wall=%.1fs unconfirmed=%d incomplete=%s%s" % (
        prop, tier, len(jobs), cov["paths"], cov["queries"], cov["assertions_proved_by_solver"] + cov["assertions_discharged_by_simplification"], cov["solver_seconds"], ev["wall_s"], len(unconfirmed), inc, " MISSING WITNESSES %s" % missing if missing else ""))
    for e in errs: print("  job error: %s: %s" % (e["job"]["name"], e["error"]))
    for j, v, o in unconfirmed[:10]: print("  unconfirmed: %s: %s [%s] @ %s :: %s" % (j["name"], v["kind"], v["msg"], v.get("where", ""), o.strip()[-160:]))
    for k, (v, ok) in sorted(knownhit.items()):
        print("KNOWN-FINDING: property=%s %s%s" % (prop, k + ": " + next(x["what"] for x in kf if x["id"] == k), "" if ok else " (replay did not reproduce)"))
    if confirmed:
        for j, v, path, rc, out in confirmed:
            print("  counterexample: job=%s %s: %s @ %s (replay rc=%d: %s)" % (j["name"], v["kind"], v["msg"], v.get("where", ""), rc, out.strip().split("\n")[-1][:200] if out.strip() else ""))
        print("VIOLATION property=%s replay=%s" % (prop, confirmed[0][2]))
        return 1
    return 0

def main():
    a = sys.argv[1:]
    sys.path.insert(0, VERIF)
    if a[0] == "setup":
        build_engine(); build_ir(repo_hash()); print("setup ok"); return 0
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick"); only = None; vb = False
        if "--tier" in a: tier = a[a.index("--tier") + 1]
        if "--only" in a: only = a[a.index("--only") + 1]
        vb = "-v" in a
        try:
            return check(a[1], tier, only, vb)
        except BuildError as e:
            print("BUILD ERROR: %s" % e); return 3
    if a[0] == "replay":   # replay <file.txt>: re-run a recorded counterexample natively
        meta = json.load(open(a[1][:-4] + ".json")); import checks
        build_ir(repo_hash())
        exe = build_native(meta["harness"], repo_hash()); rc, out = replay_once(exe, meta["fn"], a[1]); print(out, rc); return rc
    return 2
if __name__ == "__main__": sys.exit(main())
