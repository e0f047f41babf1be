"""P31: the ready-made ACS model on every half day of the mission, around every boundary, and in every order of calls."""
import ctypes, math, os, sys
import numpy as np
import arcticpy as ac
from pymc import Skip, fail, main

LIB = ctypes.CDLL(os.path.join(os.path.dirname(os.path.dirname(ac.__file__)), "liboracle.so"))
D = ctypes.POINTER(ctypes.c_double)
LAUNCH, COLD, SM4 = 2452334.5, 2453920.0, 2454968.0
SHARE = [0.17, 0.45, 0.38]


def law(date):
    """total density and release times (Massey et al. 2014, as published in the code's constants)"""
    t = date - LAUNCH
    total = 0.017845 + 3.5488e-4 * t if date < SM4 else 1.011 * (-0.246591 + 0.000558980 * t)
    return total, ([0.48, 4.86, 20.6] if date < COLD else [0.74, 7.70, 37.0])


def look(date):
    r = ac.CTI_model_for_HST_ACS(date)
    if not isinstance(r, tuple) or len(r) not in (3, 6):
        fail("wrong result", "%s", type(r))
    return r


def check(m, date, r=None):
    m.desc = "date %.10g" % float(date)
    r = r or look(date)
    roe, ccd, traps = r[:3]
    total, tau = law(date)
    if len(traps) != 3 or any(type(t) is not ac.TrapInstantCapture for t in traps):
        fail("wrong species", "%s", [type(t).__name__ for t in traps])
    d = [t.density for t in traps]
    if not abs(sum(d) - total) <= 1e-9 * (1 + abs(total)):
        fail("wrong total density", "%.12g instead of %.12g", sum(d), total)
    for i in range(3):
        if not abs(d[i] - SHARE[i] * total) <= 1e-9 * (1 + total):
            fail("wrong share", "species %d has %.12g of %.12g", i, d[i], total)
        if d[i] < 0 or not math.isfinite(d[i]):
            fail("negative density", "%g", d[i])
        if abs(traps[i].release_timescale - tau[i]) > 1e-12:
            fail("wrong release time", "species %d: %g instead of %g", i, traps[i].release_timescale, tau[i])
        if traps[i].fractional_volume_none_exposed != 0 or traps[i].fractional_volume_full_exposed != 0:
            fail("wrong species", "volume limits")
    if type(roe) is not ac.ROE or list(roe.dwell_times) != [1.0] or not roe.empty_traps_between_columns or roe.empty_traps_for_first_transfers or not roe.force_release_away_from_readout or \
            roe.use_integer_express_matrix or roe.prescan_offset != 0 or roe.overscan_start != 2048:
        fail("wrong clocking", "%s", vars(roe))
    if list(ccd.full_well_depths) != [84700] or list(ccd.well_notch_depths) != [0] or list(ccd.well_fill_powers) != [0.478] or list(ccd.fraction_of_traps_per_phase) != [1] or list(ccd.first_electron_fills) != [0]:
        fail("wrong detector", "%s", vars(ccd))
    if len(r) == 6:
        sr, sc, st = r[3:]
        if st not in (None, []) or type(sr) is not ac.ROE or type(sc) is not ac.CCD:
            fail("wrong serial model", "%s", (sr, sc, st))
    m.transitions += 1
    return d + tau


def vec(total, tau, express):
    v = [1, 0, 1, 1.0, 0, 2048, 1, 0, 1, 0, 1, 1, 1.0, 84700, 0, 0.478, 0, 3]
    for i in range(3):
        v += [0, SHARE[i] * total, tau[i], 0, 0]
    v += [express, 0, 0, -1, 0, -1, 1e-10, 20]
    return (ctypes.c_double * len(v))(*[float(x) for x in v])


OFFV = (ctypes.c_double * 64)(*[0, 0, 1, 1, 0, -1, 1, 0, 1, 0, 1, 1, 1, 1000, 0, 1, 0, 0, 0, 0, 0, -1, 0, -1, 1e-10, 20])
EDGES = [LAUNCH, np.nextafter(LAUNCH, 3e6), LAUNCH + 1, LAUNCH + 500.25, np.nextafter(COLD, 0), COLD, np.nextafter(COLD, 3e6), COLD + 300, np.nextafter(SM4, 0), SM4, np.nextafter(SM4, 3e6), SM4 + 0.25,
         SM4 + 1000, 2459000.5, 2462000.5, 2470000.5]


def f_timeline(m):
    """the mission half day by half day: the state is the era, the observations change by the law from each step to the next"""
    year = m.pick(60)
    m.own()
    for k in range(731):
        date = LAUNCH + year * 365.25 + k / 2.0
        m.state(tuple(check(m, date)))
    m.executions += 731


def f_kinds(m):
    date = m.of(EDGES)
    m.own()
    kind = m.of([float, np.float64, int, np.int64, lambda x: np.array(x), np.longdouble])
    x = kind(date)
    if float(x) < LAUNCH:
        raise Skip()
    check(m, x)
    m.executions += 1


def f_early(m):
    date = m.of([0.0, -5.0, 2400000.5, LAUNCH - 1000, LAUNCH - 0.5, float(np.nextafter(LAUNCH, 0))])
    m.own()
    m.desc = "date %r" % date
    m.executions += 1
    try:
        ac.CTI_model_for_HST_ACS(date)
    except (AssertionError, ValueError):
        return
    fail("date before launch accepted", "%r", date)


def f_use(m):
    """the objects go straight into the correction, in every order of dates, and give the library's answer for the published numbers"""
    a, b = m.of(EDGES), m.of(EDGES)
    m.own()
    first = look(a)
    second = look(b)
    check(m, a, first)
    check(m, b, second)
    img = np.array([[3.0, 0, 120], [900.0, 5, 0], [20.0, 60000, 1], [0.0, 0, 0], [0.0, 10, 7]])
    for date, r in ((b, second), (a, first)):
        total, tau = law(date)
        for n in (0, 2):
            for express in (0, 3):
                kw = dict(parallel_roe=r[0], parallel_ccd=r[1], parallel_traps=r[2], parallel_express=express, verbosity=0)
                if len(r) == 6:
                    kw.update(serial_roe=r[3], serial_ccd=r[4], serial_traps=r[5])
                out = ac.add_cti(img, **kw) if n == 0 else ac.remove_cti(img, n, **kw)
                want = img.copy()
                LIB.oracle_cti(want.ctypes.data_as(D), 5, 3, vec(total, tau, express), OFFV, 1, n)
                m.executions += 1
                if not np.all(np.abs(np.asarray(out) - want) <= 1e-9 * (1 + np.abs(want))):
                    fail("wrong correction", "date %.10g express %d iterations %d: differs by %g", date, express, n, np.abs(np.asarray(out) - want).max())
    check(m, a, first)
    check(m, b, second)


FAMILIES = [f_timeline, f_kinds, f_early, f_use]


def run(m):
    m.pick(len(FAMILIES))
    FAMILIES[m.cur[0]](m)


sys.exit(main(run))
