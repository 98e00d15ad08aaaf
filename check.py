#!/usr/bin/env python3
"""check.py <property-id> [--tier quick|thorough] [--seed N] [--scale X] [--only TEST]

Builds the library from /repo's working tree together with the harness of one property,
searches generated inputs for a violation, writes evidence/<id>.json and reports.
exit 0: held on everything explored; exit 1: VIOLATION; exit 2: the check could not run.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ENVE_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
PBT = os.path.join(VERIF, "pbt")
EIGEN = ["-isystem", "/usr/include/eigen3"]

# harness sources per property, library variant, search budgets in seconds (quick, thorough)
SRC = {}
for ids, spec in [
    ("C01 C02 C03 C04 C06 C07", dict(tu=["t_contact.cc"])),
    ("C05 C10", dict(tu=["t_metamorphic.cc"])),
    ("C08 C09 C11", dict(tu=["t_shell.cc"])),
    ("C12", dict(tu=["t_threads.cc"], variant="tsan")),
    ("S05 P01", dict(tu=["t_rib.cc"])),
    ("S01 S02 S03 S04", dict(tu=["t_pose.cc"])),
    ("G01 G02 G03 G04", dict(tu=["t_ground.cc"])),
    ("F01 F02", dict(tu=["t_files.cc"])),
    ("F03", dict(tu=["t_files.cc"], variant="asan")),
    ("I01", dict(tu=["t_sfun.cc"], sfun=True)),
    ("K01 K02 K08", dict(tu=["t_inter.cc"])),
    ("K03", dict(tu=["t_entity.cc"])),
    ("K04 K05", dict(tu=["t_measure.cc"])),
    ("K06 K07", dict(tu=["t_boxes.cc"])),
    ("K09", dict(tu=["t_tol.cc"])),
    ("P02", dict(tu=["t_print.cc"])),
    # the copy of the library that the MATLAB toolbox ships, under the checks of the original
    ("T01", dict(tu=["t_contact.cc", "t_metamorphic.cc", "t_shell.cc", "t_rib.cc", "t_pose.cc", "t_ground.cc", "t_files.cc"], toolbox=True, scale=0.08,
                 props="C01,C02,C03,C04,C05,C06,C07,C08,C09,C10,C11,S01,S02,S03,S04,S05,P01,G01,G02,G03,G04,F01,F02,F03")),
    # every sequential harness of the library under sanitizers, with leak accounting
    ("R01", dict(tu=["t_contact.cc", "t_metamorphic.cc", "t_shell.cc", "t_rib.cc", "t_pose.cc", "t_ground.cc", "t_files.cc", "t_inter.cc", "t_entity.cc", "t_measure.cc", "t_boxes.cc", "t_tol.cc", "t_print.cc"],
                 variant="memory", scale=0.004, leaks=True,
                 props="C01,C02,C03,C04,C05,C06,C07,C08,C09,C10,C11,S01,S02,S03,S04,S05,P01,P02,G01,G02,G03,G04,F01,F02,F03,K01,K02,K03,K04,K05,K06,K07,K08,K09")),
    ("M01", dict(tu=["t_mex.cc"], mex=True, toolbox=True, variant="asan")),
    ("M02", dict(tu=["t_mlab.cc"], mex=True, toolbox=True)),
]:
    for i in ids.split():
        SRC[i] = spec

VARIANTS = {
    # the project's own flags plus container checks
    "plain": ("g++", ["-O2", "-D_GLIBCXX_ASSERTIONS"]),
    "asan": ("g++", ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined",
                     "-fno-sanitize-recover=all"]),
    # the same, with locals that are never initialised set to a conspicuous pattern
    # (clang++: gcc 13 overwrites returned objects with that pattern)
    "memory": ("clang++", ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined",
                       "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"]),
    # for the coverage-guided stage of the thorough tier
    "guided": ("clang++", ["-O1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=fuzzer-no-link"]),
    "tsan": ("g++", ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=thread"]),
}


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def lib_sources(spec):
    if spec.get("toolbox"):  # the copy that the MATLAB toolbox compiles
        return sorted(glob.glob(REPO + "/toolbox/src/*.cc"))
    dup = {os.path.basename(p) for p in glob.glob(REPO + "/src/*.cc")}
    s = sorted(glob.glob(REPO + "/src/*.cc"))
    s += sorted(p for p in glob.glob(REPO + "/toolbox/src/*.cc") if os.path.basename(p) not in dup)
    if spec.get("sfun"):
        s += sorted(glob.glob(REPO + "/sfun/src_sfun/*.cc"))
    return s


def headers():
    hs = []
    for d in ("src", "toolbox/src", "sfun/include_sfun", "toolbox/src_mex"):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            hs += [os.path.join(root, f) for f in files if f.rsplit(".", 1)[-1] in ("hh", "hxx", "h", "hpp", "cc", "tcc", "inl")]
    return sorted(h for h in hs if not h.endswith(".cc"))


def compile_all(spec):
    cxx, flags = VARIANTS[spec.get("variant", "plain")]
    inc = ([] if spec.get("toolbox") else ["-I" + REPO + "/src"]) + ["-I" + REPO + "/toolbox/src", "-I" + REPO + "/sfun/include_sfun"] + EIGEN
    hkey = sha(*[x for h in headers() for x in (h, read(h))])
    pkey = sha(*[x for h in sorted(glob.glob(PBT + "/*.hh") + glob.glob(PBT + "/mock/*.h")) for x in (h, read(h))])
    jobs = []
    guided = spec.get("variant") == "guided"
    for s in [PBT + "/" + t for t in spec["tu"]] + [PBT + ("/guided.cc" if guided else "/main.cc")]:
        # Eigen allocates differently from C++17 on; the library is C++11
        fl = ["-std=c++17", "-DEIGEN_MAX_CPP_VER=14", "-I" + PBT, "-w"] + flags
        if s.endswith(("main.cc", "guided.cc")):
            fl = [f for f in fl if "sanitize" not in f]
        if guided:  # the compilers evaluate arguments in different orders: choices keep their meaning with one compiler
            fl = [f for f in fl if "sanitize" not in f]
        if spec.get("variant", "plain") == "plain":
            fl = ["-O1" if f == "-O2" else f for f in fl]
        if spec.get("mex"):
            fl += ["-I" + PBT + "/mock", "-I" + REPO + "/toolbox/src_mex"]
        jobs.append((s, fl, sha(hkey, pkey, read(s), s, "g++" if guided else cxx, *inc, *fl)))
    if spec.get("mex"):  # the MATLAB gateways, each with its entry point under its own name
        for s in sorted(glob.glob(REPO + "/toolbox/src_mex/*.cc")):
            fl = ["-std=c++11", "-g", "-w", "-I" + PBT + "/mock", "-DmexFunction=gate_" + os.path.basename(s)[:-3]] + flags
            jobs.append((s, fl, sha(hkey, pkey, read(s), s, cxx, *inc, *fl)))
    for s in lib_sources(spec):
        fl = ["-std=c++11", "-g", "-w"] + flags
        jobs.append((s, fl, sha(hkey, read(s), s, cxx, *inc, *fl)))
    os.makedirs(OUT + "/obj", exist_ok=True)
    errs, objs = [], []

    def one(j):
        s, fl, key = j
        cc = "g++" if guided and s.startswith(PBT) else cxx
        o = "%s/obj/%s_%s.o" % (OUT, os.path.basename(s), key)
        if not os.path.exists(o):
            tmp = o + ".%d.tmp" % os.getpid()
            p = subprocess.run([cc, *fl, *inc, "-c", s, "-o", tmp], capture_output=True, text=True)
            if p.returncode:
                errs.append((s, p.stderr[:2500]))
                return None
            os.rename(tmp, o)
        return o

    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        objs = list(ex.map(one, jobs))
    if errs:
        for s, e in errs:
            sys.stderr.write("cannot compile %s\n%s\n" % (s, e))
        return None
    exe = "%s/run_%s" % (OUT, sha(*objs))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        lf, libs = [f for f in flags if "sanitize" in f], []
        if guided:  # guided.cc brings its own main
            libs = [subprocess.run([cxx, "--print-file-name=libclang_rt.fuzzer_no_main-x86_64.a"], capture_output=True, text=True).stdout.strip()]
        p = subprocess.run([cxx, *lf, *objs, *libs, "-o", tmp, "-lpthread", "-ldl", "-lm"], capture_output=True, text=True)
        if p.returncode:
            sys.stderr.write("cannot link\n" + p.stderr[-3000:])
            return None
        os.rename(tmp, exe)
    return exe


def guided_stage(pid, spec, tests, exe, env, replays, seconds):
    """libFuzzer over the choices of each test; a failing case counts when the plain binary replays it."""
    gx = compile_all(dict(spec, variant="guided"))
    if gx is None:
        return None, [], []
    info, viol, unstable = [], [], []
    for name in tests:
        d = OUT + "/guided_%s_%d" % (name.replace("/", "_"), os.getpid())
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/corpus")
        e = dict(env, PBT_TEST=name, PBT_REPLAY=d + "/found.replay", PBT_WORK=d)
        subprocess.run([gx, "--seeds", "400", d + "/corpus"], env=e, cwd=d, stderr=subprocess.DEVNULL)
        ps = []
        for w in range(8):
            wd = d + "/w%d" % w
            os.makedirs(wd)
            ps.append(subprocess.Popen([gx, "-max_len=32768", "-len_control=0", "-timeout=30", "-rss_limit_mb=3000", "-reload=1",
                                        "-max_total_time=%d" % max(5, seconds / len(tests)), "-print_final_stats=1", "-seed=%d" % (w + 1),
                                        "-artifact_prefix=%s/" % wd, d + "/corpus"],
                                       env=dict(e, PBT_WORK=wd), cwd=wd, stderr=open(wd + "/log", "w"), stdout=subprocess.DEVNULL))
        for p in ps:
            p.wait()
        execs = cov = 0
        for w in range(8):
            log = open(d + "/w%d/log" % w, errors="replace").read()
            m = re.findall(r"number_of_executed_units:\s*(\d+)", log)
            execs += int(m[-1]) if m else max([int(x) for x in re.findall(r"^#(\d+)", log, re.M)] or [0])
            cov = max([cov] + [int(x) for x in re.findall(r"cov: (\d+)", log)])
        info.append(dict(test=name, executions=execs, edges=cov, corpus=len(os.listdir(d + "/corpus"))))
        found = d + "/found.replay"
        if not os.path.exists(found):
            for f in sorted(glob.glob(d + "/w*/crash-*") + glob.glob(d + "/w*/timeout-*")):
                b = read(f)
                ch = [int.from_bytes(b[i:i + 8], "little") for i in range(0, len(b) // 8 * 8, 8)]
                with open(found, "w") as o:
                    o.write("test: %s\nguided search\nchoices: %s\n" % (name, " ".join(map(str, ch))))
                break
        if os.path.exists(found):
            rp = replays + "/%s_guided.replay" % name.replace("/", "_")
            shutil.copy(found, rp)
            r = subprocess.run([exe, "--shrink", rp], env=env, cwd=d, capture_output=True, text=True)
            print(r.stdout[-3000:])
            (viol if r.returncode == 1 else unstable).append((rp, name, r.stdout[-1500:]))
        shutil.rmtree(d, ignore_errors=True)
    return info, viol, unstable


def prune():
    # keep the cache small: drop everything but the newest files
    fs = sorted(glob.glob(OUT + "/obj/*.o") + glob.glob(OUT + "/run_*"), key=os.path.getmtime)
    tot = sum(os.path.getsize(f) for f in fs)
    for f in fs:
        if tot < 2.5e9 or os.path.getmtime(f) > time.time() - 1800:
            break
        tot -= os.path.getsize(f)
        os.unlink(f)


def known_findings():
    p = VERIF + "/known_findings.json"
    return json.loads(read(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED") or "1")
    ap.add_argument("--scale", default="1")
    ap.add_argument("--guided", help="seconds of coverage-guided search (thorough tier: 180)")
    ap.add_argument("--only")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    t0 = time.time()
    spec = SRC[a.id]
    exe = compile_all(spec)
    if exe is None:
        return 2
    if a.build_only:
        print("built in %.1f s" % (time.time() - t0))
        return 0
    tb = time.time() - t0
    work = OUT + "/work_%s_%d" % (a.id, os.getpid())
    os.makedirs(work, exist_ok=True)
    replays = OUT + "/replay"
    os.makedirs(replays, exist_ok=True)
    res = work + "/result.json"
    env = dict(os.environ, PBT_WORK=work, PBT_REPO=REPO,
               ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096",
               UBSAN_OPTIONS="print_stacktrace=1",
               TSAN_OPTIONS="halt_on_error=1:die_after_fork=0:second_deadlock_stack=1:report_signal_unsafe=0")
    cmd = [exe, "--prop", spec.get("props", a.id), "--seed", str(int(a.seed)), "--out", res, "--replaydir", replays,
           "--budget", "500" if tier == "quick" else "540", "--scale", str(float(a.scale) * spec.get("scale", 1))]
    if tier == "thorough":
        cmd.append("--thorough")
    if spec.get("leaks"):
        cmd.append("--leaks")
    if "props" in spec:  # the findings belong to the properties themselves
        cmd.append("--no-known")
    if a.only:
        cmd += ["--only", a.only]
    p = subprocess.run(cmd, env=env, cwd=work)
    if not os.path.exists(res):
        sys.stderr.write("harness gave no result (exit %s)\n" % p.returncode)
        shutil.rmtree(work, ignore_errors=True)
        return 2
    r = json.loads(read(res))
    guided = None
    gviol, gunstable = [], []
    if (tier == "thorough" or a.guided) and not any(t["failed"] for t in r["tests"]) and spec.get("variant", "plain") in ("plain", "asan") and not spec.get("toolbox"):
        secs = float(a.guided or 180)
        guided, gviol, gunstable = guided_stage(a.id, spec, [a.id + "/" + t["name"] for t in r["tests"]], exe, env, replays, secs)
    shutil.rmtree(work, ignore_errors=True)
    listed = {f["key"]: f for f in known_findings()["findings"] if f["property"] == a.id}
    viol = list(gviol)
    unstable = list(gunstable)
    for t in r["tests"]:
        if t["failed"]:
            if t["unstable"]:
                unstable.append(t)
            else:
                viol.append((t["replay"], t["name"], t["message"]))
    still = []
    for k in r["known"]:
        if k["key"] in listed:
            if k["still"]:
                still.append((k["key"], k["still"]))
        elif k["still"]:
            rp = replays + "/%s_%s.replay" % (a.id, k["key"])
            with open(rp, "w") as f:
                f.write("regression: %s/%s\n%s\n" % (a.id, k["key"], k["still"]))
            viol.append((rp, k["key"], k["still"]))
    ev = {
        "property": a.id, "tier": tier, "seed": int(a.seed), "level": "exploration",
        "coverage": {
            "evaluations": sum(t["evaluated"] for t in r["tests"]),
            "distinct_nontrivial": sum(t["distinct"] for t in r["tests"]),
            "discarded": sum(t["discarded"] for t in r["tests"]),
            "rule": " | ".join("%s: %s" % (t["name"], t["rule"]) for t in r["tests"]),
            "samples": [s for t in r["tests"] for s in t["samples"]][:12],
            "tests": [{k: t[k] for k in ("name", "rule", "evaluated", "discarded", "distinct", "labels", "budget_hit", "wall")} for t in r["tests"]],
            "guided": guided,
            "regressions": [k["key"] for k in r["known"]],
        },
        "assumptions": ["inputs come from the generators described in DESIGN.md",
                        "configurations within the stated tolerance of a decision boundary accept either answer"],
        "known_findings": [k for k, _ in still],
        "violations": [{"test": n, "replay": rp, "message": m[:2000]} for rp, n, m in viol],
        "build_s": round(tb, 1), "wall_s": round(time.time() - t0, 1),
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(VERIF + "/evidence/%s.json" % a.id, "w") as f:
        json.dump(ev, f, indent=1)
    prune()
    for k, s in still:
        print("KNOWN-FINDING: property=%s %s: %s" % (a.id, k, listed[k].get("what", s)))
    for rp, n, m in viol:
        print("VIOLATION property=%s replay=%s" % (a.id, rp))
    if viol:
        return 1
    if unstable:
        sys.stderr.write("a failure did not replay; see above\n")
        return 2
    print("OK property=%s evaluations=%d nontrivial=%d build=%.0fs total=%.0fs" % (
        a.id, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], tb, time.time() - t0))
    return 0


sys.exit(main())
