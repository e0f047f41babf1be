"""P32: the command-line program on every sequence of options, in a scratch directory; option rules written independently of getopt."""
import ctypes, os, re, shutil, subprocess, sys, tempfile
import numpy as np
import arcticpy as ac
from pymc import Skip, fail, main

EXE = os.environ["ARCTIC_EXE"]
LIB = ctypes.CDLL(os.path.join(os.path.dirname(os.path.dirname(ac.__file__)), "liboracle.so"))
D = ctypes.POINTER(ctypes.c_double)
LONG = {"help": 0, "verbosity": 1, "demo": 0, "benchmark": 0}
SHORT = {"h": "help", "v": "verbosity", "d": "demo", "b": "benchmark"}
IMAGE = "3 2 \n0 10\n500 0.5\n0 7\n"
PRE, POST, BENCH = "image_test_pre_cti.txt", "image_test_cti_removed.txt", "benchmark_2k2k_image.txt"


class Plan:
    def __init__(self):
        self.help = self.demo = self.bench = False
        self.verbosity, self.bad, self.rest = 1, None, []


def parse(args):
    """options may follow other parameters, be grouped, abbreviated, and take their value attached or from the next word; '--' ends them"""
    p, i = Plan(), 0

    def act(name, value):
        if name == "verbosity":
            p.verbosity = int(value)
        else:
            setattr(p, "bench" if name == "benchmark" else name, True)
        return name == "help"

    while i < len(args):
        a = args[i]
        i += 1
        if a == "--":
            p.rest += args[i:]
            break
        if a.startswith("--"):
            name, eq, value = a[2:].partition("=")
            m = [name] if name in LONG else [k for k in LONG if k.startswith(name)]
            if len(m) != 1 or (eq and not LONG[m[0]]):
                p.bad = [a, a.split("=")[0]]
                return p
            if LONG[m[0]] and not eq:
                if i == len(args):
                    p.bad = [a]
                    return p
                value = args[i]
                i += 1
            if act(m[0], value):
                return p
        elif a.startswith("-") and a != "-":
            k = 1
            while k < len(a):
                n = SHORT.get(a[k])
                k += 1
                if n is None:
                    p.bad = ["-" + a[k - 1]]
                    return p
                value = None
                if LONG[n]:
                    if k < len(a):
                        value, k = a[k:], len(a)
                    elif i < len(args):
                        value = args[i]
                        i += 1
                    else:
                        p.bad = ["-" + a[k - 1], a]
                        return p
                if act(n, value):
                    return p
        else:
            p.rest.append(a)
    return p


def execute(args, files=(), dirs=(), links=(), path=None):
    d = tempfile.mkdtemp(prefix="cli-", dir=".")
    for n, t in files:
        with open(os.path.join(d, n), "w") as f:
            f.write(t)
        if n == "wget":
            os.chmod(os.path.join(d, n), 0o755)
    for n in dirs:
        os.mkdir(os.path.join(d, n))
    for n, t in links:
        os.symlink(t, os.path.join(d, n))
    env = {"PATH": os.path.abspath(d) + (":/bin:/usr/bin" if path is None else path), "OMP_NUM_THREADS": "1", "LC_ALL": "C"}
    try:
        r = subprocess.run([EXE] + args, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, universal_newlines=True, timeout=60)
    except subprocess.TimeoutExpired:
        fail("does not end", "%s", args)
    after = {}
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        if os.path.isfile(p) and not os.path.islink(p):
            after[n] = open(p).read()
    shutil.rmtree(d)
    return r.returncode, r.stdout, r.stderr, after


def plain(out):
    """the printed text without the places in the source that extra detail names, timings, and reports of other parameters"""
    lines = []
    for l in out.split("\n"):
        if l.startswith("Unparsed parameter"):
            continue
        l = re.sub(r"^[a-z_]+\.cpp:\d+: ", "", l)
        if "elapsed" in l:
            l = "elapsed"
        lines.append(l)
    return lines


CANON = {}


def canonical(mode, v):
    if (mode, v) not in CANON:
        CANON[mode, v] = plain(execute(["-v", str(v)] + (["--" + mode] if mode else []), [(BENCH, IMAGE)])[1])
    return CANON[mode, v]


def library():
    """add and remove with the demonstration's parameters"""
    v = [1, 0, 1, 1.0, 0, -1, 1, 1, 1, 0, 1, 1, 1.0, 1000, 0, 1, 0, 1, 0, 10.0, -1 / np.log(0.5), 0, 0, 0, 0, 0, -1, 0, -1, 0, 0]
    v = (ctypes.c_double * len(v))(*[float(x) for x in v])
    img = np.zeros((6, 4))
    for i in range(3):
        img[i + 1, i] = 200
    post = img.copy()
    LIB.oracle_cti(post.ctypes.data_as(D), 6, 4, v, v, 1, 0)
    back = post.copy()
    LIB.oracle_cti(back.ctypes.data_as(D), 6, 4, v, v, 1, 5)
    return img, post, back


def numbers(text):
    w = text.split()
    r, c = int(w[0]), int(w[1])
    a = np.array([float(x) for x in w[2:]])
    if a.size != r * c:
        fail("wrong file", "%d x %d with %d values", r, c, a.size)
    return a.reshape(r, c)


REF = library()


def judge(m, args):
    m.desc = "arctic " + " ".join(args)
    p = parse(args)
    rc, out, err, after = execute(args, [(BENCH, IMAGE)])
    m.executions += 1
    m.transitions += len(args)
    if after.pop(BENCH, None) != IMAGE:
        fail("benchmark image altered", "%s", args)
    m.state((rc, p.help, p.demo, p.bench, p.verbosity, str(p.bad), tuple(sorted(after))))
    if p.bad:
        if rc != 1 and rc <= 0:
            fail("bad option accepted", "exit status %d", rc)
        said = [l for l in (out + err).split("\n") if "ption" in l and any(re.search(r"(^|[\s'\"])%s($|[\s'\".,;:])" % re.escape(b), l) for b in p.bad)]
        if not said:
            fail("bad option not reported", "%s expected in: %s", p.bad, (out + err)[:200])
        if after or "demo code" in out:
            fail("runs in spite of a bad option", "files %s", sorted(after))
        return
    if rc != 0:
        fail("valid options rejected", "exit status %d: %s", rc, (out + err)[:200])
    if p.help:
        if after:
            fail("help runs something", "files %s", sorted(after))
        for w in ("--help", "--verbosity", "--demo", "--benchmark", "-h", "-v", "-d", "-b"):
            if w not in out:
                fail("help incomplete", "%s missing", w)
        return
    mode = "demo" if p.demo else "benchmark" if p.bench else ""
    if sorted(after) != (sorted([PRE, POST]) if p.demo else []):
        fail("wrong mode", "%s left files %s", mode or "nothing", sorted(after))
    got, want = plain(out), canonical(mode, p.verbosity)
    if got != want:
        i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        fail("depends on the spelling", "line %d of the output is %r, with -v %d --%s it is %r", i, got[i : i + 1], p.verbosity, mode, want[i : i + 1])
    if p.demo:
        a, b = numbers(after[PRE]), numbers(after[POST])
        for what, x, y in (("test image", a, REF[0]), ("corrected image", b, REF[2])):
            if x.shape != y.shape or np.abs(x - y).max() > 2e-6:
                fail("demonstration differs from the library", "%s %s", what, x.tolist())
        sheets = re.findall(r"\[\[.*?\]\]", out, re.S)
        if len(sheets) >= 3:
            for what, t, y in zip(("loaded", "trailed", "corrected"), (sheets[0], sheets[-2], sheets[-1]), REF):
                x = np.array([[float(z) for z in l.strip(" []").split(",")] for l in t.split("\n")])
                if x.shape != y.shape or np.abs(x - y).max() > 1e-3 * np.abs(y).max():
                    fail("demonstration differs from the library", "printed %s image %s", what, x.tolist())


WORDS = ["-d", "--demo", "-b", "--benchmark", "-v0", "-v2", ("-v", "1"), ("-v", "0"), "--verbosity=0", ("--verbosity", "2"), "-h", "-x", "--nope", "word", "-bd", "-dv0", "-xd", "-v", "--", "--verbosity", "--demo=1"]
MORE = ["--help", "-", "--verb=2", "--be", "--de", "--h", "-dh", "-hx", "-dx", "-v-1", ("-v", "-1"), "-bv2", "--verbosity=-3", "--verbosity=1", "-db", "-dbv", "--help=0", "-bxd", "-v3", "--verbosit", "--d"]


def f_sequences(m):
    n = m.pick(5 if m.thorough else 4)
    args = []
    words = WORDS + MORE if n <= 2 or m.thorough and n == 3 else WORDS if n == 3 else WORDS[:1] + WORDS[2:3] + WORDS[4:7] + WORDS[8:9] + WORDS[10:]
    for i in range(n):
        w = m.of(words)
        args += [w] if isinstance(w, str) else list(w)
        if i == min(n, 2) - 1:
            m.own()
    if n == 0:
        m.own()
    # words that are not numbers in the place of a verbosity are not specified
    try:
        parse(args)
    except ValueError:
        raise Skip()
    judge(m, args)


def f_levels(m):
    """printing grows with the verbosity"""
    mode = m.of(["demo", "benchmark"])
    m.own()
    m.desc = mode
    c = {v: canonical(mode, v) for v in (-1, 0, 1, 2, 3)}
    m.executions += 5
    m.transitions += 5
    if c[-1] != c[0]:
        fail("verbosity", "below 0 prints more")
    if any("Running" in l or "ArCTIc" in l or l.startswith("#") for l in c[0]) or (mode == "benchmark" and any(c[0])):
        fail("prints at verbosity 0", "%s", c[0][:5])
    if not any("Running" in l and mode in l.lower() for l in c[1]):
        fail("mode not announced", "%s", c[1][:5])
    if len(c[2]) <= len(c[1]) or len(c[3]) < len(c[2]):
        fail("verbosity", "%d, %d, %d lines", len(c[1]), len(c[2]), len(c[3]))
    if execute(["--" + mode], [(BENCH, IMAGE)])[1].count("\n") != len(c[1]) - 1:
        fail("verbosity", "the default is not 1")


def f_files(m):
    """what surrounds the program: files that cannot be made, a benchmark image that has to be fetched, with every outcome of fetching"""
    k = m.pick(8)
    m.own()
    opts = m.of([["-d"], ["--demo", "-v0"], ["-dv2"]]) if k < 4 else m.of([["-b"], ["--benchmark", "-v0"], ["-bv2"]])
    m.executions += 1
    m.transitions += 1
    if k < 2:
        name = [PRE, POST][k]
        m.desc = "%s with a directory in the place of %s" % (opts, name)
        rc, out, err, after = execute(opts, dirs=[name])
    elif k < 4:
        name = [PRE, POST][k - 2]
        m.desc = "%s with no room for %s" % (opts, name)
        rc, out, err, after = execute(opts, links=[(name, "/dev/full")])
    elif k == 4:
        status = m.pick(256)
        m.desc = "%s, fetching fails with status %d" % (opts, status)
        rc, out, err, after = execute(opts, [("wget", "#!/bin/sh\nexit %d\n" % status)])
        # nothing fetched: also an error
    elif k == 5:
        m.desc = "%s, fetched" % opts
        rc, out, err, after = execute(opts, [("wget", "#!/bin/sh\nprintf '%s' > %s\n" % (IMAGE.replace("\n", "\\n"), BENCH))])
        if rc != 0 or after.get(BENCH) != IMAGE:
            fail("fetched image not used", "exit status %d", rc)
        return
    elif k == 6:
        bad = m.of(["", "2", "2 2\n1 2 3", "2 2\n1 2 x 4", "-1 3\n", "0 0\n"])
        m.desc = "%s on a file with %r" % (opts, bad)
        rc, out, err, after = execute(opts, [(BENCH, bad)])
        if after.get(BENCH) != bad:
            fail("benchmark image altered", "%r", after.get(BENCH))
    else:
        m.desc = "%s, no way to fetch" % opts
        rc, out, err, after = execute(opts, path=":/nowhere")
    if rc <= 0:
        fail("failure not reported", "exit status %d", rc)


def f_shapes(m):
    """the benchmark on every small shape"""
    r, c = 1 + m.pick(4), 1 + m.pick(4)
    m.own()
    text = "%d %d \n" % (r, c) + "\n".join(" ".join(str((7 * y + 3 * x) % 11 * 50) for x in range(c)) for y in range(r)) + "\n"
    m.desc = "benchmark on %d x %d" % (r, c)
    rc, out, err, after = execute(["-b"], [(BENCH, text)])
    m.executions += 1
    m.transitions += 1
    if rc != 0 or after != {BENCH: text}:
        fail("benchmark", "exit status %d, files %s", rc, sorted(after))
    if not re.search(r"\b%d column" % c, out) or not re.search(r"\b%d row" % r, out):
        fail("benchmark", "does not report the %d x %d image: %s", r, c, out[:200])


FAMILIES = [f_sequences, f_levels, f_files, f_shapes]


def run(m):
    m.pick(len(FAMILIES))
    FAMILIES[m.cur[0]](m)


sys.exit(main(run))
