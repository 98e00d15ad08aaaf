#!/usr/bin/env python3
"""mutate.py OUT.jsonl COUNT [--seed N] [--files a,b] [--scale X] [--workers N] [--rerun IN.jsonl]

Small changes to the library, each judged by all plain checks in one binary: the survivors
show where the checks are weak (or that the change has no effect). Works in /tmp/mut_<pid>,
never in /repo.
"""
import argparse, glob, json, os, random, re, shutil, subprocess, sys, time, concurrent.futures as cf
V = "/verif"
ap = argparse.ArgumentParser()
ap.add_argument("out"); ap.add_argument("count", type=int)
ap.add_argument("--seed", type=int, default=1); ap.add_argument("--files"); ap.add_argument("--scale", default="0.03")
ap.add_argument("--workers", default="8"); ap.add_argument("--rerun"); ap.add_argument("--repo", default="/repo"); ap.add_argument("--lines")
a = ap.parse_args()
W = "/tmp/mut_%d" % os.getpid()
os.makedirs(W + "/o")
shutil.copytree(a.repo + "/src", W + "/src"); shutil.copytree(a.repo + "/toolbox/src", W + "/toolbox/src"); shutil.copytree(a.repo + "/sfun", W + "/sfun")
INC = ["-I" + W + "/src", "-I" + W + "/toolbox/src", "-I" + W + "/sfun/include_sfun", "-isystem", "/usr/include/eigen3"]
tus = [t for t in sorted(glob.glob(V + "/pbt/t_*.cc")) if not t.endswith(("t_mex.cc", "t_threads.cc"))] + [V + "/pbt/main.cc"]
enve = sorted(glob.glob(W + "/src/*.cc")); dup = {os.path.basename(p) for p in enve}
libs = enve + sorted(p for p in glob.glob(W + "/toolbox/src/*.cc") if os.path.basename(p) not in dup) + glob.glob(W + "/sfun/src_sfun/*.cc")

def cc(s, o, std):
    fl = ["-std=c++17", "-DEIGEN_MAX_CPP_VER=14", "-I" + V + "/pbt", "-O1"] if std == 17 else ["-std=c++11", "-O1"]
    return subprocess.run(["g++", "-w", "-D_GLIBCXX_ASSERTIONS", *fl, *INC, "-c", s, "-o", o], capture_output=True, text=True)
def obj(s): return W + "/o/" + os.path.basename(s) + ".o"
with cf.ThreadPoolExecutor(8) as ex:
    for p in list(ex.map(lambda s: cc(s, obj(s), 17 if s.startswith(V) else 11), tus + libs)):
        if p.returncode: sys.exit(p.stderr[:2000])
PROPS = "P02,C01,C02,C06,C07,C08,C09,S01,S02,S03,S05,G01,G02,G03,G04,K01,K02,K03,K04,K05,K06,K07,K08,C11,P01,F01,F02,F03,I01,S04,C03,C04,C05,C10"
AC = {"K": "K01,K02,K03,K04,K05,K06,K07,K08,K09,"}

def strip(l):
    l = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\x00" * len(m.group(0)), l)
    i = l.find("//")
    return l[:i] if i >= 0 else l
OPS = [(r"(?<![<>=!\-])<(?![<=])(?=[\s])", ["<=", ">"]), (r"<=", ["<", ">="]), (r"(?<![->])>(?![>=])(?=[\s])", [">=", "<"]), (r">=", [">", "<="]),
       (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r"\s\*\s", [" / "]), (r" / ", [" * "]),
       (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"!(?=[a-zA-Z(])", [""]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]),
       (r"\.x\(\)", [".y()"]), (r"\.y\(\)", [".z()", ".x()"]), (r"\.z\(\)", [".x()"]), (r"[\[(]0[\])]", None), (r"[\[(]1[\])]", None), (r"[\[(]2[\])]", None),
       (r"\breal\(\d+\.?\d*\)|\b\d+\.\d+\b", None), (r"(?<=[(,=] )-(?=[a-zA-Z(])", [""]), (r"\bcos\b", ["sin"]), (r"\bsin\b", ["cos"]), (r"\bcontinue\b", ["break"]), (r"\bbreak\b", ["continue"]),
       (r"\btolerance\b", ["(tolerance * 100)"]), (r"\bEPSILON\w*\b", ["(1e-4)"]), (r"\bpush_back\b", None), (r"\bfront\b", ["back"]), (r"\breturn [^;]+;", None),
       (r"\b(\w+)\s*,\s*(\w+)(?=\s*[,)])", None), (r"\bMax\b|max_?\b", None), (r"\+\+(?=i|j|k)", None), (r"\b1\b", ["2", "0"]), (r"\b0\b", ["1"]), (r"\bif\s*\(", None), (r"^\s*[\w.>()\[\]-]+\s*[=(].*;\s*$", None), (r"\bpos\b", ["neg"]), (r"\bleft\b", ["right"]), (r"\.norm\(\)", [".squaredNorm()"]), (r"\bcross\b", ["cwiseProduct"]), (r"\.(origin|vertex|direction|normal)\(\)", None), (r"\+\+", ["--"]), (r"vertex\(0\)", ["vertex(1)"])]

def mutants(path):
    out = []
    lines = open(path).read().split("\n")
    ass = 0
    for n, l in enumerate(lines):
        s = strip(l)
        if re.search(r"ASSERT|ERROR", s): ass = 1
        if ass:
            if ";" in s or s.strip() == ")": ass = 0
            if re.search(r"\)\s*;?\s*$", s): ass = 0
            continue
        if not s.strip() or s.strip().startswith(("#", "*", "/*", "using")): continue
        for rx, rep in OPS:
            for m in re.finditer(rx, s):
                t = m.group(0)
                if rep is None:
                    if t[0] in "[(": rs = [t[0] + str((int(t[1]) + 1) % 3) + t[-1]]
                    elif re.match(r"real\(", t): rs = ["real(%s+0.01)" % t[5:-1], "real(0.0)"]
                    elif re.match(r"\d", t): rs = [t + "+0.01"]
                    elif t == "push_back": rs = ["size(); (void)sizeof"] if False else []
                    elif t.startswith("if"): rs = ["if (true || ", "if (false && "]
                    elif t.startswith("return"): rs = []
                    elif re.match(r"(\w+)\s*,\s*(\w+)$", t): rs = [re.sub(r"(\w+)(\s*,\s*)(\w+)$", r"\3\2\1", t)]
                    elif t.rstrip().endswith(";") and not s.strip().startswith(("return", "break", "continue", "}")): rs = [";"]
                    else: rs = []
                else: rs = rep
                for r in rs:
                    if r != t: out.append((n, l[:m.start()] + r + l[m.end():]))
    return lines, out
jobs = []
rng = random.Random(a.seed)
if a.rerun:
    for x in map(json.loads, open(a.rerun)):
        if x["result"] == "SURVIVED": jobs.append((os.path.join(W, x["file"]), x["line"] - 1, x["new"]))
else:
    per = []
    for p in libs:
        rel = os.path.relpath(p, W)
        if a.files and not any(f in rel for f in a.files.split(",")): continue
        lines, ms = mutants(p)
        if a.lines:
            lo, hi = map(int, a.lines.split("-")); ms = [m for m in ms if lo <= m[0] + 1 <= hi]
        per += [(p, n, new) for n, new in ms]
    rng.shuffle(per)
    jobs = per[:a.count]
def prepare(k):
    p, n, new = jobs[k]
    lines = open(p).read().split("\n")
    old = lines[n]; lines[n] = new
    d = W + "/m%d" % k
    os.makedirs(d)
    q = d + "/" + os.path.basename(p)
    open(q, "w").write("\n".join(lines))
    r = cc(q, q + ".o", 11)
    if r.returncode: shutil.rmtree(d); return k, None, old
    exe = d + "/run"
    os_ = [obj(s) for s in tus + libs if s != p] + [q + ".o"]
    r = subprocess.run(["g++", *os_, "-o", exe, "-lpthread"], capture_output=True, text=True)
    return k, (exe if r.returncode == 0 else None), old
t0 = time.time()
cnt = {}
with cf.ThreadPoolExecutor(3) as ex, open(a.out, "a") as f:
    pend = {}
    for k in range(len(jobs)):
        for j in range(k, min(k + 4, len(jobs))):
            if j not in pend: pend[j] = ex.submit(prepare, j)
        _, exe, old = pend.pop(k).result()
        p, n, new = jobs[k]
        if exe is None: res, by = "nocompile", ""
        else:
            acme = os.path.basename(p) not in dup and "sfun" not in p
            props = (AC["K"] if acme else "") + PROPS
            if acme: props = "K01,K02,K03,K04,K05,K06,K07,K08,K09,P02,G01,G02,G03,C03,C04,C01"
            env = dict(os.environ, PBT_WORK=os.path.dirname(exe), PBT_REPO=a.repo)
            r = subprocess.run(["timeout", "900", exe, "--prop", props, "--first", "--scale", a.scale, "--seed", "7", "--workers", a.workers, "--budget", "600", "--replaydir", os.path.dirname(exe)],
                               env=env, cwd=os.path.dirname(exe), capture_output=True, text=True)
            m = re.search(r"FIRST (\S+)", r.stdout)
            res, by = ("killed", m.group(1)) if m else ("SURVIVED", "") if r.returncode == 0 else ("killed", "rc%d" % r.returncode)
        shutil.rmtree(W + "/m%d" % k, ignore_errors=True)
        cnt[res] = cnt.get(res, 0) + 1
        f.write(json.dumps(dict(file=os.path.relpath(p, W), line=n + 1, old=old, new=new, result=res, by=by)) + "\n"); f.flush()
        print(k, "%.0fs" % (time.time() - t0), cnt, flush=True)
shutil.rmtree(W, ignore_errors=True)
