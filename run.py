#!/usr/bin/env python3
"""run.py <property> [quick|thorough] [--replay TOKEN]   or   run.py --setup

Builds the library from /repo's working tree together with the property's explorer (outside /repo), runs the
explorer in parallel shards, writes evidence/<property>.json, and reports violations.
Exit: 0 held on everything explored, 1 violation, 2 the check could not be carried out.
"""
import glob, hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import registry

REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
PYTHON = "/opt/vp/venv/bin/python"  # the interpreter /repo's own build uses: has numpy, scipy, matplotlib and Cython
NSH = int(os.environ.get("VERIF_SHARDS", "8"))

VARIANTS = {
    # -ffp-contract=off keeps rounding independent of how expressions are grouped into statements
    "plain": ["-O2", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS"],
}
COMMON = ["g++", "-std=c++14", "-w", "-fopenmp", '-DVERSION="check"', "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "lib")]


def die(msg):
    print("ERROR " + msg)
    sys.exit(2)


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        die("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-3000:]))
    return p.stdout


def digest(paths, extra):
    h = hashlib.sha1(repr(extra).encode())
    for p in sorted(paths):
        h.update(p.encode())
        h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


def build(c, variant):
    """compile library + explorer; cached by content"""
    os.makedirs(BUILD, exist_ok=True)
    hdrs = glob.glob(REPO + "/include/*.hpp") + glob.glob(HERE + "/lib/*.hpp")
    flags = COMMON + VARIANTS[variant]
    jobs, objs = [], []
    for src in sorted(glob.glob(REPO + "/src/*.cpp")):
        if os.path.basename(src) == "main.cpp":
            continue
        o = os.path.join(BUILD, "%s-%s.o" % (os.path.basename(src)[:-4], digest([src] + glob.glob(REPO + "/include/*.hpp"), flags)))
        objs.append(o)
        if not os.path.exists(o):
            jobs.append(flags + c.get("libflags", []) + ["-c", src, "-o", o])
    cs = os.path.join(HERE, "checks", c["src"] + ".cpp")
    extra = [os.path.join(HERE, "lib", x) for x in c.get("extra", [])]
    for x in [cs] + extra:
        f = flags + (["-D" + d for d in c["defs"]] if x == cs else [])
        if x in extra and variant == "tsan":
            f = [y for y in f if not y.startswith("-fsanitize")]
        o = os.path.join(BUILD, "%s-%s.o" % (os.path.basename(x)[:-4], digest([x] + hdrs, f)))
        objs.append(o)
        if not os.path.exists(o):
            jobs.append(f + ["-c", x, "-o", o])

    def one(cmd):
        tmp = cmd[-1] + ".%d.tmp" % os.getpid()
        sh(cmd[:-1] + [tmp])
        os.rename(tmp, cmd[-1])

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    exe = os.path.join(BUILD, "%s-%s" % (c["src"], digest(objs, [flags, c["defs"]])))
    if not os.path.exists(exe):
        link = c.get("link") or (["-fopenmp"] if variant != "tsan" else [])
        san = [f for f in VARIANTS[variant] if f.startswith("-fsanitize")] if not c.get("link") else []
        sh(["g++"] + san + link[:1] * 0 + objs + ["-o", exe + ".tmp"] + link + ["-lgsl", "-lgslcblas", "-ldl", "-lpthread"])
        os.rename(exe + ".tmp", exe)
    return exe


def build_py():
    """the Python package with its compiled wrapper, and the C++ oracle library, outside /repo"""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(REPO, "python", "arcticpy")
    inc = ["-I" + os.path.join(src, "include"), "-I" + sh([PYTHON, "-c", "import numpy; print(numpy.get_include())"]).strip(),
           "-I" + sh([PYTHON, "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"]).strip()]
    flags = [f for f in COMMON if not f.startswith("-std")] + ["-std=c++17", "-O2", "-fPIC", "-D_GLIBCXX_ASSERTIONS", "-DNPY_NO_DEPRECATED_API=0"] + inc
    hdrs = glob.glob(REPO + "/include/*.hpp") + glob.glob(src + "/include/*.hpp")
    pyx = os.path.join(src, "wrapper.pyx")
    gen = os.path.join(BUILD, "wrapper-%s" % digest([pyx], []))
    if not os.path.exists(gen + ".cpp"):
        os.makedirs(gen, exist_ok=True)
        shutil.copy(pyx, os.path.join(gen, "wrapper.pyx"))
        sh([PYTHON, "-m", "cython", "--cplus", "-3", os.path.join(gen, "wrapper.pyx"), "-o", gen + ".tmp.cpp"])
        os.rename(gen + ".tmp.cpp", gen + ".cpp")
    lib = sorted(x for x in glob.glob(REPO + "/src/*.cpp") if os.path.basename(x) != "main.cpp")
    jobs, objs = [], {}
    for x in lib + glob.glob(src + "/src/*.cpp") + [gen + ".cpp", os.path.join(HERE, "lib", "oracle.cpp")]:
        o = os.path.join(BUILD, "%s-%s.o" % (os.path.basename(x)[:-4], digest([x] + hdrs, flags)))
        objs[x] = o
        if not os.path.exists(o):
            jobs.append(flags + ["-c", x, "-o", o])

    def one(cmd):
        tmp = cmd[-1] + ".%d.tmp" % os.getpid()
        sh(cmd[:-1] + [tmp])
        os.rename(tmp, cmd[-1])

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    pys = glob.glob(src + "/*.py")
    pkg = os.path.join(BUILD, "py-" + digest(pys, sorted(objs.values())))
    if not os.path.exists(pkg):
        tmp = pkg + ".%d.tmp" % os.getpid()
        os.makedirs(os.path.join(tmp, "arcticpy"))
        for x in pys:
            shutil.copy(x, os.path.join(tmp, "arcticpy"))
        orc = os.path.join(HERE, "lib", "oracle.cpp")
        tail = ["-fopenmp", "-lgsl", "-lgslcblas"]
        sh(["g++", "-shared"] + [o for x, o in objs.items() if x != orc] + ["-o", os.path.join(tmp, "arcticpy", "wrapper.so")] + tail)
        sh(["g++", "-shared"] + [objs[x] for x in lib + [orc]] + ["-o", os.path.join(tmp, "liboracle.so")] + tail)
        os.rename(tmp, pkg)
    return pkg


def build_cli():
    """the command-line program"""
    os.makedirs(BUILD, exist_ok=True)
    srcs = sorted(glob.glob(REPO + "/src/*.cpp"))
    flags = COMMON + VARIANTS["plain"]
    objs = [os.path.join(BUILD, "%s-%s.o" % (os.path.basename(x)[:-4], digest([x] + glob.glob(REPO + "/include/*.hpp"), flags))) for x in srcs]

    def one(xo):
        if not os.path.exists(xo[1]):
            tmp = xo[1] + ".%d.tmp" % os.getpid()
            sh(flags + ["-c", xo[0], "-o", tmp])
            os.rename(tmp, xo[1])

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, zip(srcs, objs)))
    exe = os.path.join(BUILD, "arctic-" + digest(objs, flags))
    if not os.path.exists(exe):
        sh(["g++"] + objs + ["-fopenmp", "-o", exe + ".tmp", "-lgsl", "-lgslcblas"])
        os.rename(exe + ".tmp", exe)
    return exe


def environ():
    e = dict(os.environ)
    e.update(OMP_NUM_THREADS=e.get("CHECK_THREADS", "1"), ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1",
             UBSAN_OPTIONS="print_stacktrace=1:abort_on_error=1", VERIF_REPO=REPO, VERIF_HOME=HERE)
    return e


def known(pid):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                d = dict(x.split("=", 1) for x in l[7:].split("|")[0].split() if "=" in x)
                d["text"] = l.split("|", 1)[1].strip() if "|" in l else ""
                out.append(d)
    return out


def main():
    if sys.argv[1:] == ["--setup"]:
        # nothing to install: every check builds what it needs from the working tree
        for t in ("g++", "python3"):
            if not shutil.which(t):
                die("missing tool " + t)
        print("ok")
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("-") else os.environ.get("VERIF_TIER", "quick")
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    c = registry.CHECKS[pid]
    t0 = time.time()
    parts = c.get("parts") or [c]
    total = dict(executions=0, transitions=0, states=0, cases=0, violations=0)
    counters, samples, viol, complete, bounds = {}, [], [], True, []
    for part in parts:
        part = dict(c, **part)
        for variant in part.get("variants", {}).get(tier, ["plain"]) if part["kind"] == "cpp" else ["py"]:
            if part["kind"] == "cpp":
                exe = [build(part, variant)]
            else:
                os.environ.update(PYTHONPATH=build_py() + os.pathsep + os.path.join(HERE, "lib"), MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
                                  PYTHONNOUSERSITE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", MPLCONFIGDIR=os.path.join(BUILD, "mpl"))
                if part.get("cli"):
                    os.environ["ARCTIC_EXE"] = build_cli()
                exe = [PYTHON, os.path.join(HERE, "checks", part["src"] + ".py")] + part.get("args", [])
            if replay is not None:
                tag, tok = replay.split(":", 1) if ":" in replay else ("", replay)
                if tag and tag != part.get("tag", part["src"]) + "/" + variant:
                    continue
                p = subprocess.run(exe + ["--tier", tier, "--replay", tok], env=environ())
                return p.returncode
            budget = part.get("budget", {}).get(tier, 600 if tier == "quick" else 3000)
            work = os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid()))
            os.makedirs(work, exist_ok=True)
            procs = []
            n = part.get("shards", NSH)
            for i in range(n):
                out = os.path.join(work, "%d.jsonl" % i)
                err = open(os.path.join(work, "%d.err" % i), "w")
                procs.append((i, out, subprocess.Popen(exe + ["--tier", tier, "--shard", "%d/%d" % (i, n), "--budget", str(budget), "--out", out],
                                                       stdout=subprocess.DEVNULL, stderr=err, env=environ(), cwd=work)))
            for i, out, p in procs:
                p.wait()
                got = False
                lines = open(out, errors="replace").read().splitlines() if os.path.exists(out) else []
                nv = 0
                for l in lines:
                    try:
                        d = json.loads(l)
                    except ValueError:
                        continue
                    if "violation" in d:
                        d["where"] = part.get("tag", part["src"]) + "/" + variant
                        d["stderr"] = open(os.path.join(work, "%d.err" % i), errors="replace").read()[:6000] if d["class"].startswith(("crash", "sanitizer")) else ""
                        viol.append(d)
                        nv += 1
                    elif "stats" in d:
                        got = True
                        s = d["stats"]
                        for k in total:
                            total[k] += s[k]
                        for k, v in s["counters"].items():
                            counters[k] = counters.get(k, 0) + v
                        samples += s["samples"][:2]
                        complete &= s["complete"]
                if not got and not nv:
                    text = open(os.path.join(work, "%d.err" % i), errors="replace").read()
                    if "runtime error:" in text or "ERROR: AddressSanitizer" in text or "WARNING: ThreadSanitizer" in text:
                        l = next(l for l in text.splitlines() if "runtime error:" in l or "Sanitizer" in l)
                        viol.append(dict(violation=l, token="", desc="shard %d" % i, where=part.get("tag", part["src"]) + "/" + variant, stderr=text[:6000], **{"class": "sanitizer"}))
                        nv += 1
                if not got and not nv:
                    tail = open(os.path.join(work, "%d.err" % i), errors="replace").read()[-2000:]
                    die("shard %d of %s ended with status %s and no report\n%s" % (i, pid, p.returncode, tail))
                if not got:
                    complete = False
            subprocess.run(["rm", "-rf", work])
    # report
    kn = known(pid)
    new, hit = [], {}
    for v in viol:
        k = next((k for k in kn if k.get("class", "").replace("_", " ") == v["class"] and (not k.get("desc") or k["desc"].replace("_", " ") in v["desc"])), None)
        if k:
            hit[k["text"]] = 1
        else:
            new.append(v)
    for t in hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, t))
    cov = dict(states=total["states"], transitions=total["transitions"], traces_validated_against_impl=total["executions"], configurations=total["cases"],
               exhaustive_within_bounds=complete, counters=counters, samples=samples[:8], violations=total["violations"] if viol else 0, bounds=c["note"])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking", coverage=cov, wall_s=round(time.time() - t0, 2)),
              open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    if new:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", pid + ".txt")
        with open(path, "w") as f:
            for v in new:
                f.write("%s\n  class: %s\n  case: %s\n  replay: python3 run.py %s %s --replay %s:%s\n" % (v["violation"], v["class"], v["desc"], pid, tier, v["where"], v["token"]))
                if v["stderr"]:
                    f.write("  stderr: " + v["stderr"].replace("\n", "\n    ") + "\n")
        seen = set()
        for v in new:
            if v["class"] not in seen and len(seen) < 6:
                seen.add(v["class"])
                print("  %s: %s [%s]" % (v["class"], v["violation"][:300], v["desc"][:300]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("%s %s: held on %d transitions, %d executions, %d distinct states, %d cases (%s) in %.1f s" % (
        pid, tier, total["transitions"], total["executions"], total["states"], total["cases"], "complete" if complete else "budget reached", time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
