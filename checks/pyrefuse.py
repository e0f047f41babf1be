"""P36 through the Python interface: contradictory settings must end in an exception (or an error report), never in an image or a crash.

Every call runs in a forked child, because the library's own error reports end the process."""
import os, signal, sys, tempfile
import numpy as np
import arcticpy as ac
from arcticpy import pixel_bounce as pbm
from pymc import Skip, fail, main

IMG = np.array([[0.0, 60.0, 300.0], [420.0, 0.0, 5.0], [30.0, 240.0, 0.0]])


def child(f):
    """(outcome, text): 'image', 'exception', 'exit N', 'signal N'"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 90
        try:
            os.close(r)
            os.dup2(w, 1)
            os.dup2(w, 2)
            for s in (signal.SIGABRT, signal.SIGSEGV, signal.SIGALRM):
                signal.signal(s, signal.SIG_DFL)
            signal.alarm(60)
            keep = IMG.copy()
            try:
                out = np.asarray(f())
                code = 99 if out.shape == IMG.shape and np.all(np.isfinite(out)) else 95
            except SystemExit:
                raise
            except BaseException as e:
                os.write(2, ("%s: %s" % (type(e).__name__, e)).encode())
                code = 97
            if not np.array_equal(keep, IMG):
                code = 96
        finally:
            os._exit(code)
    os.close(w)
    text = b""
    while True:
        b = os.read(r, 4096)
        if not b:
            break
        text += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return "signal %d" % os.WTERMSIG(st), text.decode(errors="replace")
    c = os.WEXITSTATUS(st)
    return {99: "image", 97: "exception", 96: "altered", 95: "no image"}.get(c, "exit %d" % c), text.decode(errors="replace")


def decide(m, f, why):
    got, text = child(f)
    m.executions += 1
    m.transitions += 1
    if got == "altered":
        fail("input altered", "%s", why)
    if got.startswith("signal"):
        fail("killed", "%s: %s %s", why or "consistent settings", got, text[-200:])
    if why:
        if got in ("image", "no image"):
            fail("contradiction computed with", "%s gave an image", why)
        if got == "exit 0":
            fail("refused with success", "%s", why)
        if not text:
            fail("refused without a reason", "%s: %s", why, got)
        m.count("refused")
    else:
        if got != "image":
            fail("consistent settings refused", "%s: %s", got, text[-300:])
        m.count("accepted")
    m.state(got, text[-80:], why)


def side(m):
    kind = m.pick(3)
    steps = 1 + m.pick(4)
    phases = 1 + m.pick(4 if m.thorough else 3)
    # the detector: a list of phases, or the numbers of one phase
    single = m.pick(2) if phases == 1 else 0
    fractions = 1 + m.pick(4 if m.thorough else 3)
    prescan = m.of([0, 2, -1]) if kind < 2 else 0
    overscan = m.of([-1, 2, 0, -3]) if kind < 2 else -1
    dwell = [1.0 / steps] * steps
    fr = [1.0 / fractions] * fractions

    def roe():
        if kind == 0:
            return ac.ROE(dwell, prescan_offset=prescan, overscan_start=overscan)
        if kind == 1:
            return ac.ROEChargeInjection(dwell, prescan_offset=prescan, overscan_start=overscan)
        return ac.ROETrapPumping(dwell, n_pumps=2)

    def ccd():
        if single:
            return ac.CCD(full_well_depth=1000.0, well_fill_power=0.6, fraction_of_traps_per_phase=fr)
        return ac.CCD(phases=[ac.CCDPhase(1000.0, 0.0, 0.6) for _ in range(phases)], fraction_of_traps_per_phase=fr)

    why = ""
    if fractions != phases:
        why = "%d phases with %d trap fractions" % (phases, fractions)
    elif prescan < 0:
        why = "prescan of %d" % prescan
    elif overscan == 0 or overscan < -1:
        why = "overscan from %d" % overscan
    elif kind == 2 and steps % 2:
        why = "trap pumping in %d steps" % steps
    elif phases != (steps // 2 if kind == 2 else steps):
        why = "%d phases clocked in %d steps (type %d)" % (phases, steps, kind)
    return kind, roe, ccd, why, "type %d, %d steps, %d phases%s, %d fractions, prescan %d, overscan %d" % (
        kind, steps, phases, " (numbers)" if single else "", fractions, prescan, overscan)


def f_sides(m):
    serial, n = m.pick(2), m.pick(2)
    kind, roe, ccd, why, desc = side(m)
    m.own()
    p = "serial" if serial else "parallel"
    m.desc = "%s, %s %s" % ("remove" if n else "add", p, desc)

    def f():
        kw = {p + "_roe": roe(), p + "_ccd": ccd(), p + "_traps": [ac.TrapInstantCapture(5.0, 2.0)], "verbosity": 0}
        if kind == 2:
            kw[p + "_window_start"], kw[p + "_window_stop"] = 1, 2
        return ac.remove_cti(IMG, 1, **kw) if n else ac.add_cti(IMG, **kw)

    decide(m, f, why)


class OddTrap(ac.TrapInstantCapture):
    pass


def f_traps(m):
    """lists with something that is not a trap species"""
    good = [ac.TrapInstantCapture(5.0, 2.0), ac.TrapSlowCapture(5.0, 2.0, 0.1), ac.TrapInstantCaptureContinuum(5.0, 2.0, 0.3),
            ac.TrapSlowCaptureContinuum(5.0, 2.0, 0.3, 0.1)]
    strange = [None, 1.0, "trap", ac.traps.AbstractTrap(5.0, 2.0), ac.ROE(), [ac.TrapInstantCapture(5.0, 2.0)]]
    a = m.of(good + strange)
    b = m.of(good + strange + ["nothing"])
    p, n = m.of(["parallel", "serial"]), m.pick(2)
    m.own()
    lst = [a] if isinstance(b, str) and b == "nothing" else [a, b]
    bad = [x for x in lst if not any(x is g for g in good)]
    m.desc = "%s traps %s" % (p, [type(x).__name__ for x in lst])
    kw = {p + "_roe": ac.ROE(), p + "_ccd": ac.CCD(full_well_depth=1000.0), p + "_traps": lst, "verbosity": 0}
    decide(m, lambda: ac.remove_cti(IMG, 1, **kw) if n else ac.add_cti(IMG, **kw), "a trap list holding a %s" % type(bad[0]).__name__ if bad else "")


def f_missing(m):
    """traps without a detector, without clocking, or images that are not two-dimensional"""
    p, n = m.of(["parallel", "serial"]), m.pick(2)
    what = m.of(["", "_roe", "_ccd", "1d", "3d", "text", "ragged"])
    both = m.pick(2)
    m.own()
    m.desc = "%s without %s" % (p, what)
    kw = {"verbosity": 0}
    for q in ("parallel", "serial"):
        if q == p or both:
            kw.update({q + "_roe": ac.ROE(), q + "_ccd": ac.CCD(full_well_depth=1000.0), q + "_traps": [ac.TrapInstantCapture(5.0, 2.0)]})
    if what.startswith("_"):
        kw[p + what] = None
    img = {"1d": IMG[0], "3d": IMG[None], "text": [["a", "b"], ["c", "d"]], "ragged": [[1.0, 2.0], [3.0]]}.get(what, IMG)
    decide(m, lambda: ac.remove_cti(img, 1, **kw) if n else ac.add_cti(img, **kw), "no usable %s" % what if what else "")


def f_bounce(m):
    g, o = m.of([0.0, 0.3, 2.0, -0.1, -5.0]), m.of([0.0, 1.0, 3.0, -0.1, -2.0])
    form = m.pick(3)
    m.own()
    m.desc = "oscillator with damping %g and frequency %g, form %d" % (g, o, form)

    def f():
        pb = ac.PixelBounce(kA=0.01, kv=0.01, omega=o, gamma=g)
        if form == 0:
            return pb.add_pixel_bounce(IMG)
        if form == 1:
            return pbm.add_pixel_bounce(IMG, [pb])
        return pbm.remove_pixel_bounce(IMG, 1, [pb], verbosity=0)

    decide(m, f, "damping %g" % g if g < 0 else "frequency %g" % o if o < 0 else "")


def f_none(m):
    n = m.pick(2)
    m.own()
    m.desc = "pixel bounce without sources"
    decide(m, lambda: pbm.remove_pixel_bounce(IMG, 1) if n else pbm.add_pixel_bounce(IMG), "no list of sources")


def run(m):
    m.of([f_sides, f_traps, f_missing, f_bounce, f_none])(m)


main(run)
