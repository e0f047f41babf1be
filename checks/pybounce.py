"""P28: pixel bounce against the impulse response of a damped oscillator, superposed over every signal change (independent of the recursion)."""
import contextlib, io, itertools, math, sys
import numpy as np
import arcticpy as ac
from pymc import Skip, fail, main

OSC = [(kA, kv, g, w) for kA in (0.0, -0.1, 0.3) for kv in (0.0, 0.05, -0.2) for g in (0.0, 0.9, 3.0) for w in (0.0, 1.0, 10.0, math.pi)]


def response(o, n):
    """the oscillation that follows a unit change of signal, in closed form: y(t) with y(0) = kA - kv and y(-1) = kA - 2 kv, read at t = 1, 2, ..."""
    kA, kv, g, w = o
    y0, ym = kA - kv, kA - 2 * kv
    t = np.arange(1, n + 1)
    if abs(math.sin(w)) < 1e-9:
        c = round(math.cos(w))  # +-1: a critically damped motion, alternating for an odd multiple of pi
        # y = (y0 + q t) (c e^-g)^t, y(-1) = (y0 - q) / (c e^-g)
        q = y0 - ym * c * math.exp(-g)
        return (y0 + q * t) * (c * math.exp(-g)) ** t
    q = (y0 * math.cos(w) - ym * math.exp(-g)) / math.sin(w)
    return np.exp(-g * t) * (y0 * np.cos(w * t) + q * np.sin(w * t))


def bias(img, o, pw, sw):
    img = np.asarray(img, dtype=float)
    b = np.zeros(img.shape)
    n_y, n_x = img.shape
    p1, s1 = (n_y if pw[1] == -1 else pw[1]), (n_x if sw[1] == -1 else sw[1])
    r = response(o, n_x)
    for y in range(pw[0], p1):
        for j in range(sw[0] + 1, s1):
            d = img[y, j] - img[y, j - 1]
            for i in range(j, s1):
                b[y, i] += r[i - j] * d
    return b


def close(got, want, what, scale=1.0):
    got = np.asarray(got)
    if got.shape != want.shape:
        fail("wrong shape", "%s: %s", what, got.shape)
    tol = 1e-8 * (1 + scale + np.abs(want))
    if not np.all(np.abs(got - want) <= tol):
        i = np.unravel_index(np.argmax(np.where(np.isnan(got), np.inf, np.abs(got - want))), want.shape)
        fail("wrong response", "%s gives %.12g at %s, the oscillator gives %.12g", what, got[i], tuple(int(x) for x in i), want[i])


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def untouched(img, copy, what):
    if img.dtype != copy.dtype or not np.array_equal(img, copy):
        fail("alters the caller's image", "%s", what)


def obj(o):
    return ac.PixelBounce(kA=o[0], kv=o[1], gamma=o[2], omega=o[3])


LEV = [0.0, 100.0, 750.0]


def rows_of(m, n):
    return [LEV[m.pick(3)] for _ in range(n)]


def f_forward(m):
    """every row of 1-5 pixels over 3 levels, every oscillator, next to a row of another kind"""
    o = OSC[m.pick(len(OSC))]
    m.own()
    n = 1 + m.pick(6 if m.thorough else 5)
    img = np.array([[10.0 + 3 * i * (i % 2) for i in range(n)], rows_of(m, n), [50.0] * n])
    m.desc = "oscillator kA %g kv %g gamma %g omega %g, row %s" % (o + (img[1],))
    pb, ref = obj(o), img.copy()
    want = img - bias(img, o, (0, -1), (0, -1))
    for name, f in (("add_pixel_bounce", lambda: pb.add_pixel_bounce(img)), ("row at a time", lambda: quiet(pb.add_pixel_bounce_slow, img)), ("function", lambda: ac.add_pixel_bounce(img, [pb])),
                    ("bias", lambda: img - pb.perturb_bias(img))):
        out = f()
        m.executions += 1
        m.transitions += n
        close(out, want, name, 750)
        untouched(img, ref, name)
    flat = pb.perturb_bias(img)[2]
    if np.any(flat != 0):
        fail("response without a change of signal", "bias %s in a constant row", flat)
    m.state(want.tobytes())


def f_window(m):
    o = m.of([(-0.1, 0.0, 0.9, 10.0), (0.2, 0.1, 0.3, 1.0)])
    ny, nx = 3, 5
    p0, s0 = m.pick(ny), m.pick(nx)
    m.own()
    p1, s1 = m.of(list(range(p0 + 1, ny + 1)) + [-1]), m.of(list(range(s0 + 1, nx + 1)) + [-1])
    img = np.array([[(7 * y + 5 * x * x + 3 * x) % 11 * 60.0 for x in range(nx)] for y in range(ny)])
    kw = dict(parallel_window_start=p0, parallel_window_stop=p1, serial_window_start=s0, serial_window_stop=s1)
    m.desc = "window rows %d-%d columns %d-%d, oscillator %s" % (p0, p1, s0, s1, o)
    two = [obj(o), obj((0.05, -0.1, 0.6, 2.0))]
    b1, b2 = bias(img, o, (p0, p1), (s0, s1)), bias(img, (0.05, -0.1, 0.6, 2.0), (p0, p1), (s0, s1))
    close(two[0].add_pixel_bounce(img, **kw), img - b1, "windowed", 750)
    close(two[0].perturb_bias(img, **kw), b1, "windowed bias", 750)
    for order in (two, two[::-1]):
        close(ac.add_pixel_bounce(img, order, **kw), img - b1 - b2, "two sources", 750)
        m.executions += 1
    # with CTI: the response to the trailed image
    for kind in range(3):
        cti = {}
        if kind:
            cti = {("parallel_" if kind == 1 else "serial_") + k: v for k, v in dict(roe=ac.ROE(), ccd=ac.CCD(full_well_depth=1000.0, well_fill_power=0.7), traps=[ac.TrapInstantCapture(5.0, 1.5)]).items()}
        base = ac.add_cti(img, verbosity=0, **cti, **kw)
        out = ac.add_cti(img, verbosity=0, pixel_bounce_list=two, **cti, **kw)
        base = np.asarray(base)
        close(out, base - bias(base, o, (p0, p1), (s0, s1)) - bias(base, (0.05, -0.1, 0.6, 2.0), (p0, p1), (s0, s1)), "with charge transfer", 750)
        m.executions += 2
        # removal within the window, alone and together with charge transfer
        both = lambda x: bias(x, o, (p0, p1), (s0, s1)) + bias(x, (0.05, -0.1, 0.6, 2.0), (p0, p1), (s0, s1))
        x = img.copy()
        for k in range(3):
            outs = [quiet(ac.remove_cti, img, k, verbosity=0, pixel_bounce_list=two, **cti, **kw)]
            if not kind:
                outs.append(quiet(ac.remove_pixel_bounce, img, k, two, verbosity=k % 2, **kw))
            for out in outs:
                close(out, x, "%d iterations of removal in a window" % k, 750 * 3 ** k)
                m.executions += 1
            f = np.asarray(ac.add_cti(x, verbosity=0, **cti, **kw))
            x = x + img - (f - both(f))
    x = img.copy()
    for k in range(3):
        close(quiet(two[0].remove_pixel_bounce, img, k, verbosity=k % 2, **kw), x, "%d iterations of removal in a window" % k, 750 * 3 ** k)
        x = img + bias(x, o, (p0, p1), (s0, s1))
    m.transitions += 5 * nx
    m.state(b1.tobytes())


def matrix(oscs, n):
    L = np.zeros((n, n))
    for c in range(n):
        e = np.zeros((1, n))
        e[0, c] = 1
        for o in oscs:
            L[:, c] += bias(e, o, (0, -1), (0, -1))[0]
    return L


def f_remove(m):
    o = OSC[m.pick(len(OSC))]
    m.own()
    n = 2 + m.pick(4)
    oscs = [o] if not m.pick(2) else [o, (0.05, 0.02, 1.2, 2.0)]
    row = rows_of(m, n)
    img = np.array([row, row[::-1]])
    m.desc = "oscillators %s, rows of %s" % (oscs, row)
    L = matrix(oscs, n)
    true = np.linalg.solve(np.eye(n) - L, img.T).T
    x, prev, ref = img.copy(), None, img.copy()
    norm = np.abs(L).sum(axis=1).max()
    for k in range(0, 6 if m.thorough else 4):
        outs = []
        if len(oscs) == 1:
            outs.append(quiet(obj(o).remove_pixel_bounce, img, k, verbosity=m.cur[0] % 2))
        outs.append(quiet(ac.remove_pixel_bounce, img, k, [obj(q) for q in oscs], verbosity=0))
        outs.append(quiet(ac.remove_cti, img, k, pixel_bounce_list=[obj(q) for q in oscs], verbosity=0))
        for out in outs:
            close(out, x, "%d iterations of removal" % k, 750 * (1 + norm) ** k)
            err = np.abs(np.asarray(out) - true).max()
            if prev is not None and norm < 1 and err > prev * norm + 1e-9 * 750 * (1 + np.abs(true).max()):
                fail("does not converge", "error %g after %d iterations, %g before, response %g", err, k, prev, norm)
            m.executions += 1
        untouched(img, ref, "remove_pixel_bounce")
        prev = np.abs(x - true).max()
        x = img + x @ L.T
        m.transitions += 1
    m.state(true.tobytes())


def f_types(m):
    dt = m.of(["f4", "f8", "i4", "i8", "u1", "u2", "u4", ">i4"])
    m.own()
    lay = m.pick(4)
    a = np.array([[7, 90, 3, 200, 0], [0, 0, 55, 54, 0], [9, 9, 9, 9, 9]]).astype(dt)
    img = [a, np.asfortranarray(a), np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1], np.repeat(a, 2, axis=0)[::2]][lay]
    o = m.of([(-0.1, 0.0, 0.9, 10.0), (0.2, 0.1, 0.3, 1.0), (0.0, 0.0, 1.0, 1.0)])
    m.desc = "image of %s, layout %d, oscillator %s" % (dt, lay, o)
    ref = img.copy()
    want = a.astype(float) - bias(a, o, (0, -1), (0, -1))
    pb = obj(o)
    for name, f in (("add_pixel_bounce", lambda: pb.add_pixel_bounce(img)), ("row at a time", lambda: quiet(pb.add_pixel_bounce_slow, img)), ("function", lambda: ac.add_pixel_bounce(img, [pb])),
                    ("add_cti", lambda: ac.add_cti(img, pixel_bounce_list=[pb], verbosity=0))):
        close(f(), want, name, 200)
        untouched(img, ref, name)
        m.executions += 1
    # removal: the iteration towards the image that gives the input
    x = a.astype(float)
    for k in range(3):
        for name, f in (("method", lambda: pb.remove_pixel_bounce(img, k, verbosity=0)), ("function", lambda: ac.remove_pixel_bounce(img, k, [pb], verbosity=0)),
                        ("remove_cti", lambda: ac.remove_cti(img, k, pixel_bounce_list=[pb], verbosity=0))):
            close(f(), x, "removal (%s, %d iterations)" % (name, k), 200 * 3 ** k)
            untouched(img, ref, name)
            m.executions += 1
        x = a.astype(float) + bias(x, o, (0, -1), (0, -1))
    if abs(pb.omega0 ** 2 - (pb.omega ** 2 + pb.gamma ** 2)) > 1e-9:
        fail("natural frequency", "%g", pb.omega0)
    for bad in (dict(gamma=-1), dict(omega=-0.5)):
        try:
            ac.PixelBounce(**bad)
        except Exception:
            continue
        fail("unphysical oscillator accepted", "%s", bad)


FAMILIES = [f_forward, f_window, f_remove, f_types]


def run(m):
    m.pick(len(FAMILIES))
    FAMILIES[m.cur[0]](m)


sys.exit(main(run))
