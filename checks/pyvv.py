"""P34: the verification test bench against images whose overscan holds a known trail on a known bias (closed form, and the compiled model)."""
import contextlib, io, math, subprocess, sys
import numpy as np
import arcticpy as ac
from arcticpy import vv_test as vvmod
from pymc import Skip, fail, main

TRAPS = [[(5.0, 1.5)], [(20.0, 0.6), (8.0, 3.0)], [(1.0, 0.4), (2.0, 1.2), (4.0, 5.0)]]
CCDS = [(1000.0, 0.0, 1.0, 0.0), (5000.0, 50.0, 0.6, 0.0), (2000.0, 0.0, 0.8, 0.1)]


def volume(c, n):
    w, notch, power, first = c
    return first + (1 - first) * min(max((n - notch) / (w - notch), 0.0), 1.0) ** power


def trail(traps, n):
    """share of each species released into each later pixel"""
    return np.array([sum(d * math.exp(-t / tau) * (1 - math.exp(-1 / tau)) for d, tau in traps) for t in range(n)])


def frame(ny, nx, os, c, traps, scale, bias, level, noise, bad):
    """columns of a flat field; the overscan holds the trail of `scale` times the traps on top of the bias; noise cancels over the good columns"""
    img = np.zeros((ny, nx))
    img[:os] = level
    img[os:] = (bias + scale * os * (volume(c, level) - volume(c, bias)) * trail(traps, ny - os))[:, None]
    good = [x for x in range(nx) if x not in bad]
    pat = np.array([1.0 if k % 2 else -1.0 for k in range(len(good))])
    if len(good) % 2:
        pat[0], pat[1], pat[2] = -1.0, 1.0, 0.0
        pat = pat if abs(pat.sum()) < 1e-12 else np.concatenate([[0.0], [(-1.0) ** k for k in range(len(good) - 1)]])
    for k, x in enumerate(good):
        img[:, x] += noise * pat[k] * (1 + 0.3 * (np.arange(ny) % 3)) * np.where(np.arange(ny) % 2, 1, -1)
    for x in bad:
        img[max(os - 2, 0):os, x] += 3000.0 + 17 * x
        img[os:, x] += 500.0
    return img, good


def make(kind_ccd, traps, os, pre=0):
    return dict(ccd=ac.CCD(full_well_depth=kind_ccd[0], well_notch_depth=kind_ccd[1], well_fill_power=kind_ccd[2], first_electron_fill=kind_ccd[3]),
                roe=ac.ROE(overscan_start=os, prescan_length=pre), traps=[ac.TrapInstantCapture(d, t) for d, t in traps])


def near(a, b, what, tol=1e-6):
    if a is None or not abs(float(a) - b) <= tol * (1 + abs(b)):
        fail("wrong result", "%s is %s, should be %.9g", what, a, b)


def check1(r, scale, bias, traps, good, x0, level, ny, os, what, model_bias=0.0):
    total = sum(d for d, _ in traps)
    near(r.best_fit_trap_density, scale * total, what + ": density")
    near(r.best_fit_bias, bias, what + ": bias", 1e-5)
    near(r.model_trap_density, total, what + ": density of the model")
    near(r.model_bias, model_bias, what + ": bias of the model")
    sel = [x0 + int(i) for i in np.flatnonzero(np.asarray(r.valid_columns))]
    if sel != good:
        fail("wrong columns", "%s: used columns %s, the clean ones are %s", what, sel, good)
    for a in (r.overscan, r.overscan_sigma, r.model_overscan, r.best_fit_overscan):
        if len(a) != ny - os:
            fail("wrong result", "%s: %d overscan rows", what, len(a))
    if not np.allclose(r.best_fit_overscan, r.overscan, rtol=1e-6, atol=1e-6 * (1 + abs(bias))):
        fail("wrong result", "%s: best fit %s for overscan %s", what, r.best_fit_overscan, r.overscan)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def empty(r, what):
    if any(getattr(r, k) is not None for k in ("valid_columns", "overscan", "best_fit_bias", "best_fit_trap_density")):
        fail("result without a test", "%s", what)


def f_recover(m):
    """every detector, trap list, density scale, bias, starting bias, noise level; parallel, serial and both, with and without transverse regions"""
    c, traps = m.of(CCDS), m.of(TRAPS)
    scale = m.of([0.0, 0.5, 1.0, 1.7])
    m.own()
    bias = m.of([0.0, 2.5, -3.0])
    noise = m.of([0.05, 0.4])
    pre, x_pre, x_over = m.pick(2) * 3, m.pick(2) * 2, m.pick(2)
    start = m.of([None, 0.0, 1.0])
    how = m.pick(4)
    os, over = m.of([(14, 5), (10, 4), (11, 6)] + ([(8, 4)] if how == 2 else []))
    if pre and how != 2:
        raise Skip()  # recorded as a finding: f_recorded
    ncol = 9
    ny, level = os + over, 400.0
    inner, good = frame(ny, ncol, os, c, traps, scale, bias, level, noise, [4])
    img = np.full((ny, x_pre + ncol + 2 * x_over), 7777.0)
    img[:, x_pre:x_pre + ncol] = inner
    if x_over:
        img[:, -1] = -50.0
    if pre and os > 10:
        img[:pre] = -400.0 + 31.0 * np.arange(img.shape[1])
    good = [x + x_pre for x in good]
    m.desc = "ccd %s traps %s scale %g bias %g noise %g prescan %d transverse %d+%d start %s how %d overscan %d" % (c, traps, scale, bias, noise, pre, x_pre, x_over, start, how, os)
    kw = make(c, traps, os, pre)
    x_roe = ac.ROE(prescan_length=x_pre, overscan_start=x_pre + ncol if x_over else -1)
    use_x = x_pre or x_over
    mb = 0.0 if start is None else start
    args = dict(model_bias=start, fit_bias=None, iterate_bias=None)
    if how == 1:
        args.update(iterate_bias=True, fit_bias=True)
        mb = bias
    elif how == 2:  # columns and profile given
        args["valid_columns"] = np.isin(np.arange(x_pre, x_pre + ncol), good)
        args["pixels_pre_cti"] = np.full(os, level)
    elif how == 3:  # bias known
        args.update(model_bias=bias, fit_bias=False)
        mb = bias
    par, ser = {"parallel_" + k: v for k, v in kw.items()}, {"serial_" + k: v for k, v in kw.items()}
    outs = []
    for direction in range(2):
        x = np.ascontiguousarray(img.T) if direction else img
        copy = x.copy()
        mine, other = ("serial", "parallel") if direction else ("parallel", "serial")
        bench = dict(ser if direction else par)
        if use_x:
            bench[other + "_roe"] = x_roe
        vv = ac.VVTestBench(**bench)
        call = {mine + "_" + k: v for k, v in args.items()}
        res = vv.test(x, **call)
        again = vv.test(x, **call)
        m.executions += 2
        m.transitions += over
        if not np.array_equal(x, copy):
            fail("alters the caller's image", "%s", mine)
        if vv.n_results() != 2 or vv.results[0] is not res or vv.results[1] is not again:
            fail("history of results", "%d results", vv.n_results())
        for r, w in ((res, mine), (again, "repeated")):
            r1 = getattr(r, mine)
            check1(r1, scale, bias, traps, good, x_pre, level, ny, os, w + " test", mb)
            empty(getattr(r, other), "%s has no model" % other)
            if str(r1) != str(r1.best_fit_trap_density):
                fail("wrong result", "printed as %s", r1)
        outs.append(getattr(res, mine))
    if outs[0].best_fit_trap_density != outs[1].best_fit_trap_density or outs[0].best_fit_bias != outs[1].best_fit_bias:
        fail("directions differ", "parallel %r, serial %r", outs[0].best_fit_trap_density, outs[1].best_fit_trap_density)
    m.state(m.desc)


def f_arctic(m):
    """the trail modelled by the clocking algorithm itself"""
    c, traps = m.of(CCDS), m.of(TRAPS)
    m.own()
    os = m.of([10, 11, 14, 25, 40])
    bias = m.of([0.0, 2.0])
    noise = m.of([0.05, 0.4])
    ncol, over, level = 6, 6, 300.0
    m.desc = "ccd %s traps %s overscan from %d, bias %g, noise %g" % (c, traps, os, bias, noise)
    kw = {"parallel_" + k: v for k, v in make(c, traps, os).items()}
    pre = np.concatenate([np.full(os, level), np.full(over, bias)]).reshape(-1, 1)
    trailed = np.asarray(ac.add_cti(pre, verbosity=0, **kw))
    img = np.repeat(trailed, ncol, axis=1)
    img += noise * np.array([-1, 1] * (ncol // 2)) * (1 + (np.arange(os + over) % 2))[:, None]
    vv = ac.VVTestBench(sum_of_exponentials=False, **kw)
    copy = img.copy()
    res = quiet(vv.test, img, parallel_valid_columns=np.ones(ncol, bool), parallel_pixels_pre_cti=pre[:os, 0].copy(), parallel_model_bias=bias, parallel_fit_bias=m.of([True, False]))
    m.executions += 1
    m.transitions += over
    total = sum(d for d, _ in traps)
    near(res.parallel.best_fit_trap_density, total, "density", 1e-6 if os <= 10 else 0.03)
    near(res.parallel.best_fit_bias, bias, "bias", 1e-5 if os <= 10 else 0.1)
    if os <= 10 and not np.allclose(res.parallel.model_overscan, trailed[os:, 0], rtol=1e-9, atol=1e-9):
        fail("wrong result", "model of the overscan %s, the model gives %s", res.parallel.model_overscan, trailed[os:, 0])
    if not np.array_equal(img, copy):
        fail("alters the caller's image", "%s", m.desc)
    m.state(m.desc)


def f_calls(m):
    """requested with the addition or removal of trails: recorded before and after, and no effect on the image"""
    c, traps = m.of(CCDS), m.of(TRAPS)
    m.own()
    bias, noise = m.of([0.0, 2.5]), m.of([0.05, 0.4])
    which = m.pick(4)  # none, parallel, serial, both
    remove = m.pick(2)
    os, ncol, over = 14, 13, 5
    img, _ = frame(os + over, ncol + over, os, c, traps, 1.0, bias, 400.0, noise, [4])
    img[:, ncol:] = bias + noise * (((np.arange(os + over)[:, None] + np.arange(over)[None, :]) % 2) * 2 - 1)
    m.desc = "ccd %s traps %s bias %g noise %g directions %d remove %d" % (c, traps, bias, noise, which, remove)
    kw = {}
    if which & 1:
        kw.update({"parallel_" + k: v for k, v in make(c, traps, os).items()})
    if which & 2:
        kw.update({"serial_" + k: v for k, v in make(c, traps, ncol).items()})
    f = (lambda **o: quiet(ac.remove_cti, img, 2, verbosity=0, allow_negative_pixels=True, **kw, **o)) if remove else (lambda **o: ac.add_cti(img, verbosity=0, **kw, **o))
    copy = img.copy()
    plain, tested = f(), f(vv_test=True)
    m.executions += 2
    m.transitions += 2
    if not np.array_equal(img, copy):
        fail("alters the caller's image", "%s", m.desc)
    if not np.array_equal(np.asarray(plain), np.asarray(tested)):
        fail("the test changes the image", "%s", m.desc)
    n0, n1 = plain.vv_test.n_results(), tested.vv_test.n_results()
    if n0 != 0 or n1 != 2:
        fail("history of results", "%d without and %d with the test", n0, n1)
    bench = ac.VVTestBench(**kw)
    before = bench.test(img)
    after = bench.test(np.asarray(tested), parallel_valid_columns=before.parallel.valid_columns, parallel_pixels_pre_cti=before.parallel.pixels_pre_cti, parallel_fit_bias=True,
                       parallel_model_bias=before.parallel.best_fit_bias)
    for name, a, b in (("before", before, tested.vv_test.results[0]), ("after", after, tested.vv_test.results[1])):
        for d in ("parallel", "serial"):
            x, y = getattr(a, d), getattr(b, d)
            if not (which & (1 if d == "parallel" else 2)):
                empty(y, "%s has no model" % d)
            elif x.best_fit_trap_density != y.best_fit_trap_density or x.best_fit_bias != y.best_fit_bias:
                fail("wrong result", "%s %s: recorded %r on %r, the test gives %r on %r", d, name, y.best_fit_trap_density, y.best_fit_bias, x.best_fit_trap_density, x.best_fit_bias)
    if which == 3:
        near(tested.vv_test.results[0].parallel.best_fit_trap_density, sum(d for d, _ in traps), "density before", 0.02 if noise else 1e-6)
    # copies and slices carry the record along
    if tested[1:, 2:].vv_test is not tested.vv_test or (tested * 2).vv_test is not tested.vv_test:
        fail("history of results", "lost by a slice or product")
    m.state(m.desc)


def f_refuse(m):
    """nothing to fit: an error rather than a number"""
    k = m.pick(4)
    m.own()
    kw = {"parallel_" + a: v for a, v in make(CCDS[k % 2], TRAPS[0], 14).items()}
    img, _ = frame(19, 9, 14, CCDS[k % 2], TRAPS[0], 1.0, 0.0, 400.0, 0.05, [])
    m.desc = "case %d" % k
    if k == 0:
        kw["parallel_traps"] = [ac.TrapInstantCapture(0.0, 1.5)]
    elif k == 1:
        img[:14] = 20.0 + img[:14] * 1e-3  # below the notch
    elif k == 2:
        img = img[:, :3]  # too few columns
    else:
        kw["parallel_roe"] = ac.ROE(overscan_start=14)
        kw["serial_roe"] = ac.ROE(prescan_length=8, overscan_start=4)
    m.executions += 1
    try:
        r = ac.VVTestBench(**kw).test(img)
    except Exception:
        return
    fail("result without a test", "%s", r.parallel)


TIMED = """
import numpy as np, arcticpy as ac
kw = dict(parallel_ccd=ac.CCD(full_well_depth=1000.0), parallel_roe=ac.ROE(overscan_start=6), parallel_traps=[ac.TrapInstantCapture(20.0, 1.5)])
pre = np.concatenate([np.full(6, 300.0), np.zeros(6)]).reshape(-1, 1)
img = np.repeat(np.asarray(ac.add_cti(pre, verbosity=0, **kw)), 6, axis=1)
img += 0.05 * np.array([-1, 1] * 3)
r = ac.VVTestBench(sum_of_exponentials=False, **kw).test(img, parallel_valid_columns=np.ones(6, bool), parallel_pixels_pre_cti=pre[:6, 0].copy())
assert abs(r.parallel.best_fit_trap_density - 20) < 1
"""


def f_recorded(m):
    """single inputs on which the pinned test bench fails (known_findings.txt)"""
    k = m.pick(5)
    m.own()
    m.desc = "case %d" % k
    m.executions += 1
    c, traps = CCDS[0], TRAPS[0]
    os = 8 if k == 1 else 14
    img, good = frame(os + 5, 9, os, c, traps, 1.0, 2.5, 400.0, 0.0 if k == 2 else 0.05, [4])
    kw = make(c, traps, os, 3 if k == 0 else 0)
    kw = {"parallel_" + a: v for a, v in kw.items()}
    if k < 3:
        cls = ["prescan", "overscan within ten rows of the edge", "noise-free overscan"][k]
        try:
            r = ac.VVTestBench(**kw).test(img).parallel
        except Exception as e:
            fail(cls, "%r", e)
        if abs(r.best_fit_trap_density - 5.0) > 1e-4 or abs(r.best_fit_bias - 2.5) > 1e-4:
            fail(cls, "density %r, bias %r", r.best_fit_trap_density, r.best_fit_bias)
    elif k == 3:
        try:
            r = vvmod.vv_test(img, **kw).parallel
        except Exception as e:
            fail("function form", "%r", e)
        near(r.best_fit_trap_density, 5.0, "density")
    else:
        try:
            p = subprocess.run([sys.executable, "-c", TIMED], timeout=15, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            fail("own model run on a small image", "no answer within 15 s")
        if p.returncode:
            fail("own model run on a small image", "ended with status %d", p.returncode)


def run(m):
    m.of([f_recover, f_arctic, f_calls, f_refuse, f_recorded])(m)


main(run)
