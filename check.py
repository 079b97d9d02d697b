#!/usr/bin/env python3
"""Runs the generated-input search that decides one property of zpl (see DESIGN.md).

usage: check.py <ID> --tier quick|thorough [--seed N] [--scale X] [--only SUB]
       check.py <ID> --replay FILE

exit 0: the property held on everything explored (listed known findings excepted)
exit 1: violated; prints VIOLATION property=<id> replay=<path>
exit 2: the check could not give an answer (build failure, search incomplete)
"""
import argparse, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ZPL_REPO", "/repo")
CC, CXX = "clang", "clang++"
LEVEL = "exploration"

def parse_known(pid):
    """known_findings.txt -> {finding id: text} for this property"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+id=(\S+)\s+(.*)", line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out

def meta(src):
    d = {}
    for line in open(src):
        m = re.match(r"//\s*@([\w-]+)\s+(.*)", line)
        if m: d[m.group(1)] = m.group(2).strip()
    return d

def run_all(cmds, log):
    """run compiler commands in parallel; returns list of failures"""
    ps = [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for c in cmds]
    bad = []
    for c, p in ps:
        o, _ = p.communicate()
        if p.returncode:
            bad.append((c, o.decode(errors="replace")))
    for c, o in bad:
        sys.stderr.write("BUILD FAILED: %s\n%s\n" % (" ".join(c), o[-6000:]))
    return bad

def build(pid, bdir, fuzz):
    src = os.path.join(VERIF, "harness", pid + ".cpp")
    m = meta(src)
    defs = m.get("defines", "").split()
    san = m.get("sanitize", "address")
    inc = ["-I", os.path.join(REPO, "code"), "-I", os.path.join(VERIF, "lib"), "-I", os.path.join(VERIF, "harness")]
    base = ["-g1", "-fsanitize=" + san, "-fno-omit-frame-pointer", "-fexceptions", "-w", "-pthread",
            "-ftrivial-auto-var-init=pattern"] + defs + inc
    copt = ["-O1", "-std=gnu11"]
    cxx = ["-O1", "-std=gnu++17"]
    def objs(tag, fz, only=None):
        extra = ["-fsanitize=fuzzer-no-link"] if fz else []
        o = lambda n: os.path.join(bdir, "%s_%s.o" % (n, tag))
        cmds = [[CC] + copt + base + ["-include", "heap_live.h"] + extra + ["-c", os.path.join(VERIF, "lib", "zpl_impl.c"), "-o", o("zpl")],
                [CXX] + cxx + base + (["-DPBT_FUZZ"] if fz else []) + ["-c", os.path.join(VERIF, "lib", "pbt_main.cpp"), "-o", o("main")],
                [CXX] + cxx + base + extra + ["-c", src, "-o", o("harness")]]
        return cmds, [o("zpl"), o("main"), o("harness")]
    c1, o1 = objs("pbt", False)
    c2, o2 = objs("fuzz", True) if fuzz else ([], [])
    # "@so NAME compiler flags...": harness/NAME.cpp built as a shared object with its own copy of zpl in another configuration
    c3 = []
    if "so" in m:
        w = m["so"].split()
        so = os.path.join(bdir, w[0] + ".so")
        c3 = [w[1:] + ["-shared", "-fPIC", "-fvisibility=hidden", "-w", "-pthread", "-g1"] + inc + [os.path.join(VERIF, "harness", w[0] + ".cpp"), "-o", so]]
        os.environ["PBT_SO"] = so
    if run_all(c1 + c2 + c3, None): return None, None
    libs = ["-ldl", "-lm", "-lpthread"]
    exe = os.path.join(bdir, "pbt")
    links = [[CXX, "-fsanitize=" + san, "-pthread"] + o1 + ["-o", exe] + libs]
    fexe = None
    if fuzz:
        fexe = os.path.join(bdir, "fuzz")
        links.append([CXX, "-fsanitize=fuzzer," + san, "-pthread"] + o2 + ["-o", fexe] + libs)
    if run_all(links, None): return None, None
    return exe, fexe

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--scale", type=float, default=1.0); ap.add_argument("--only"); ap.add_argument("--replay"); ap.add_argument("--show")
    ap.add_argument("--no-fuzz", action="store_true"); ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 8))
    a = ap.parse_args()
    t0 = time.time(); pid = a.pid
    src = os.path.join(VERIF, "harness", pid + ".cpp")
    m = meta(src)
    bdir = os.path.join(VERIF, "build", pid); os.makedirs(bdir, exist_ok=True)
    odir = os.path.join(bdir, "out"); shutil.rmtree(odir, ignore_errors=True); os.makedirs(odir)
    rdir = os.path.join(VERIF, "build", "replays"); os.makedirs(rdir, exist_ok=True)
    known = parse_known(pid)
    fz = float(m.get("fuzz-" + a.tier, "0")) if not (a.no_fuzz or a.replay or a.only) else 0
    exe, fexe = build(pid, bdir, fz > 0)
    if not exe:
        print("%s: the harness does not build against the current tree; no answer" % pid); sys.exit(2)
    scratch = tempfile.mkdtemp(prefix="pbt-%s-" % pid)
    os.chmod(scratch, 0o755)
    env = dict(os.environ)
    env["PBT_SCRATCH"] = scratch; env["TZ"] = "UTC"; env["LC_ALL"] = "C"
    env["ASAN_OPTIONS"] = ("exitcode=72:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:"
                           "max_malloc_fill_size=65536:malloc_fill_byte=170:hard_rss_limit_mb=4000:handle_abort=1:"
                           "detect_odr_violation=0:strict_memcmp=0:intercept_strlen=1:quarantine_size_mb=16:malloc_context_size=6:print_summary=1")
    env["PBT_KNOWN"] = ",".join(known)
    rc = 2
    try:
        rc = run(a, pid, m, bdir, odir, rdir, known, fz, exe, fexe, env, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def run(a, pid, m, bdir, odir, rdir, known, fz, exe, fexe, env, t0):
    lim = ["--cpu-limit", m.get("cpu-limit", "20"), "--wall-limit", m.get("wall-limit", "120")]
    if a.replay:
        return subprocess.call([exe, "--replay", a.replay, "--known", ",".join(known)] + lim, env=env)
    cap = float(m.get("cap-" + a.tier, "420" if a.tier == "quick" else "3600"))
    cmd = [exe, "--tier", a.tier, "--seed", str(a.seed), "--out", odir + "/summary.json", "--outdir", odir, "--timecap", str(cap),
           "--scale", str(a.scale), "--known", ",".join(known), "--workers", str(min(a.workers, int(m.get("workers", "64"))))] + lim
    if a.only: cmd += ["--only", a.only]
    if a.show: cmd += ["--show", a.show]
    print("%s: %s tier, seed %d" % (pid, a.tier, a.seed), flush=True)
    r = subprocess.call(cmd, env=env, stdout=sys.stderr if not a.show else None)
    if a.show: return 0
    if r not in (0, 1) or not os.path.exists(odir + "/summary.json"):
        print("%s: search driver ended with %s; no answer" % (pid, r)); return 2
    s = json.load(open(odir + "/summary.json"))
    fuzz_cov = None
    fails = list(s["failures"])
    if fz > 0:
        fuzz_cov = run_fuzz(a, pid, m, odir, known, fz, exe, fexe, env, lim, fails)
    # report
    rc = 0
    still = {k["id"]: k["fails"] for k in s["known"]}
    for k, text in known.items():
        if k not in still:
            print("%s: listed finding %s has no probe" % (pid, k)); rc = 2; continue
        if still[k]: print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, text))
        else: print("note: listed finding %s no longer fails" % k)
    for f in fails:
        dst = os.path.join(rdir, "%s-%s-%d.replay" % (pid, f["sub"], a.seed))
        shutil.copyfile(f["replay"], dst)
        print(f["report"][:3000])
        print("VIOLATION property=%s replay=%s" % (pid, dst), flush=True)
        rc = 1
    inconc = [q["name"] for q in s["subs"] if q["labels"].get("unreproduced_failure")]
    if inconc: print("%s: inconclusive (failure not reproduced) in %s" % (pid, inconc))
    short = [q["name"] for q in s["subs"] if q["cases"] < min(q["planned"], 50) and not any(f["sub"] == q["name"] for f in fails)]
    if short: print("%s: search incomplete in %s" % (pid, short)); rc = rc or 2
    samples = []
    for q in s["subs"]:
        for t in q["samples"][:1]: samples.append({"check": q["name"], "case": t})
    ev = {"property": pid, "tier": a.tier, "seed": a.seed, "level": LEVEL,
          "coverage": {"evaluations": int(s["cases"]), "distinct_nontrivial": int(s["distinct_nontrivial"]),
                       "rule": "; ".join("%s: %s" % (q["name"], q["rule"]) for q in s["subs"]),
                       "samples": samples[:12],
                       "subchecks": [{k: q[k] for k in ("name", "cases", "discarded", "choices", "nontrivial", "distinct_nontrivial", "planned", "seconds", "labels")} for q in s["subs"]]},
          "assumptions": [x for x in [m.get("assume", "")] if x] + [
              "zpl compiled by clang -std=gnu11 -O1 with AddressSanitizer on x86-64 Linux; each sanitizer report, crash or hang in the code under test counts as a violation",
              "distinct counts are of generated choice sequences (hash), so two different sequences may describe equal inputs"],
          "wall_s": round(time.time() - t0, 2), "violations": len(fails)}
    if fuzz_cov: ev["coverage"]["coverage_guided"] = fuzz_cov
    if known: ev["known_findings"] = [{"id": k, "what": v, "still_fails": bool(still.get(k))} for k, v in known.items()]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d cases, %d distinct non-trivial, %d violation(s), %.1fs" % (pid, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], len(fails), ev["wall_s"]))
    return rc

def run_fuzz(a, pid, m, odir, known, fz, exe, fexe, env, lim, fails):
    fd = os.path.join(odir, "fuzz"); os.makedirs(fd)
    procs = []
    for w in range(a.workers):
        art = os.path.join(fd, "a%d_" % w); corp = os.path.join(fd, "c%d" % w); os.makedirs(corp)
        cmd = [fexe, "-seed=%d" % (a.seed * 1000 + w + 1), "-max_total_time=%d" % int(fz), "-max_len=%s" % m.get("fuzz-max-len", "2048"), "-len_control=50",
               "-timeout=60", "-rss_limit_mb=3500", "-print_final_stats=1", "-artifact_prefix=" + art, "-verbosity=1", "-use_value_profile=1", corp]
        log = open(os.path.join(fd, "log%d" % w), "wb")
        procs.append((subprocess.Popen(cmd, env=env, stdout=log, stderr=log), w))
    for p, w in procs:
        try: p.wait(timeout=fz + 120)
        except subprocess.TimeoutExpired: p.kill(); p.wait()
    ex = 0; cov = 0; rej = 0
    for p, w in procs:
        t = open(os.path.join(fd, "log%d" % w), errors="replace").read()
        x = re.search(r"stat::number_of_executed_units:\s*(\d+)", t); ex += int(x.group(1)) if x else 0
        c = re.findall(r"cov: (\d+)", t); cov = max(cov, int(c[-1])) if c else cov
    seen = set(f["sub"] for f in fails)
    for art in sorted(glob.glob(os.path.join(fd, "a*_*")))[:6]:
        if os.path.basename(art).split("_", 1)[1].startswith("slow-unit"): continue
        # the plain harness has to fail on the same input before anything is reported
        o = os.path.join(fd, "o"); shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
        r = subprocess.run([exe, "--bytes", art, "--outdir", o, "--known", ",".join(known)] + lim, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        rp = os.path.join(o, "fuzz.replay")
        if r.returncode == 1 and os.path.exists(rp):
            sub = re.search(r"^sub (\S+)", open(rp, errors="replace").read(), re.M).group(1)
            if sub in seen: continue
            if subprocess.call([exe, "--replay", rp, "--known", ",".join(known)] + lim, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) == 1:
                seen.add(sub); keep = os.path.join(odir, sub + "_fuzz.replay"); shutil.copyfile(rp, keep)
                fails.append({"sub": sub, "replay": keep, "report": open(rp, errors="replace").read()[-3000:]})
        else: rej += 1
    return {"engine": "libFuzzer + AddressSanitizer, %d processes x %d s" % (a.workers, int(fz)), "executions": ex, "edges_covered": cov, "artifacts_not_reproduced": rej}

if __name__ == "__main__":
    main()
