"""P27: the Python interface against the C++ library called directly (lib/oracle.cpp), over enumerated option combinations."""
import contextlib, copy, ctypes, io, itertools, os, sys
import numpy as np
import arcticpy as ac
from pymc import MC, Skip, fail, main

LIB = ctypes.CDLL(os.path.join(os.path.dirname(os.path.dirname(ac.__file__)), "liboracle.so"))
LIB.oracle_volume.restype = ctypes.c_double
D = ctypes.POINTER(ctypes.c_double)
# numpy image calls that print from C++ write to fd 1, which run.py discards

SPECIES = [  # kind, density, tau, third, fourth
    (0, 10.0, 1.3, 0.0, 0.0), (1, 7.0, 2.1, 0.6, 0.0), (2, 5.0, 1.7, 0.4, 0.0), (3, 4.0, 2.5, 0.3, 0.7), (0, 6.0, 3.4, 0.2, 0.6), (1, 3.0, 0.8, 0.0, 0.0), (2, 2.0, 6.0, 0.9, 0.0),
]


def trap(s):
    if s[0] == 0:
        return ac.TrapInstantCapture(density=s[1], release_timescale=s[2], fractional_volume_none_exposed=s[3], fractional_volume_full_exposed=s[4])
    if s[0] == 1:
        return ac.TrapSlowCapture(density=s[1], release_timescale=s[2], capture_timescale=s[3])
    if s[0] == 2:
        return ac.TrapInstantCaptureContinuum(density=s[1], release_timescale=s[2], release_timescale_sigma=s[3])
    return ac.TrapSlowCaptureContinuum(density=s[1], release_timescale=s[2], release_timescale_sigma=s[3], capture_timescale=s[4])


class Dir:
    """one clocking direction: the same parameters as Python objects and as the oracle's vector"""

    def __init__(self, other=False, **kw):
        self.on = True
        self.type = 0
        self.dwell = [1.0] if not other else [0.8]
        self.prescan, self.overscan = 0, -1
        self.ec, self.ef, self.fr, self.integer = True, False, True, False
        self.pumps = 1
        self.phases = [(1.0, 1000.0, 0.0, 0.8, 0.0)] if not other else [(1.0, 800.0, 10.0, 0.6, 0.05)]
        self.traps = [SPECIES[0]] if not other else [SPECIES[1]]
        self.express, self.offset, self.w = 0, 0, (0, -1)
        self.prune_n, self.prune_f = 1e-10, 20
        self.__dict__.update(kw)

    def vector(self):
        v = [self.on, self.type, len(self.dwell), *self.dwell, self.prescan, self.overscan, self.ec, self.ef, self.fr, self.integer, self.pumps, len(self.phases)]
        for p in self.phases:
            v += p
        v.append(len(self.traps))
        for k in range(4):  # the library takes one array per type
            for t in self.traps:
                if t[0] == k:
                    v += t
        v += [self.express, self.offset, *self.w, 0, -1, self.prune_n, self.prune_f]
        return (ctypes.c_double * len(v))(*[float(x) for x in v])

    def roe(self):
        if self.type == 0:
            return ac.ROE(dwell_times=self.dwell, prescan_offset=self.prescan, overscan_start=self.overscan, empty_traps_between_columns=self.ec,
                          empty_traps_for_first_transfers=self.ef, force_release_away_from_readout=self.fr, use_integer_express_matrix=self.integer)
        if self.type == 1:
            return ac.ROEChargeInjection(dwell_times=self.dwell, prescan_offset=self.prescan, overscan_start=self.overscan, empty_traps_between_columns=self.ec,
                                         force_release_away_from_readout=self.fr, use_integer_express_matrix=self.integer)
        return ac.ROETrapPumping(dwell_times=self.dwell, n_pumps=self.pumps, empty_traps_for_first_transfers=self.ef, use_integer_express_matrix=self.integer)

    def ccd(self):
        return ac.CCD(phases=[ac.CCDPhase(full_well_depth=p[1], well_notch_depth=p[2], well_fill_power=p[3], first_electron_fill=p[4]) for p in self.phases],
                      fraction_of_traps_per_phase=[p[0] for p in self.phases])

    def kwargs(self, name):
        k = dict(window_start=self.w[0], window_stop=self.w[1])
        if self.on:
            k.update(roe=self.roe(), ccd=self.ccd(), traps=[trap(t) for t in self.traps], express=self.express, window_offset=self.offset,
                     prune_n_electrons=self.prune_n, prune_frequency=self.prune_f)
        return {name + "_" + a: b for a, b in k.items()}

    def show(self):
        return "off w%s" % (self.w,) if not self.on else str({k: v for k, v in self.__dict__.items() if k != "on"})


OFF = Dir(on=False)


def oracle(img, p, s, neg, n):
    a = np.array(img, dtype=np.double, order="C", copy=True)
    LIB.oracle_cti(a.ctypes.data_as(D), a.shape[0], a.shape[1], p.vector(), s.vector(), int(neg), n)
    return a


def image(rows, cols, k=0):
    base = [[0.0, 700.0, 35.0, 0.0], [420.0, 0.0, 90.0, 1500.0], [3.0, 260.0, 0.0, 610.0], [0.0, 55.0, 810.0, 0.0], [120.0, 0.0, 0.0, 20.0]]
    return np.array([[base[(r + k) % 5][(c + 2 * k) % 4] for c in range(cols)] for r in range(rows)])


def freeze(o):
    if isinstance(o, np.ndarray):
        return (o.dtype.str, o.shape, o.tobytes())
    if isinstance(o, (list, tuple)):
        return tuple(freeze(x) for x in o)
    if hasattr(o, "__dict__"):
        return (type(o).__name__, tuple(sorted((k, freeze(v)) for k, v in vars(o).items())))
    return repr(o)


def same(out, want, what, m):
    out = np.asarray(out)
    if out.shape != want.shape:
        fail("wrong shape", "%s has shape %s instead of %s", what, out.shape, want.shape)
    d = np.abs(out - want)
    if not np.all(d <= 1e-9 * (1 + np.abs(want))):
        i = np.unravel_index(np.argmax(np.where(np.isnan(d), np.inf, d)), d.shape)
        fail("differs from the library", "%s gives %r at pixel %s, the library gives %r", what, float(out[i]), tuple(int(x) for x in i), float(want[i]))


def call(m, img, p, s, neg=1, n=0, extra=None, held=None):
    kw = dict(p.kwargs("parallel"), **s.kwargs("serial"))
    kw.update(allow_negative_pixels=neg, verbosity=0)
    kw.update(extra or {})
    before = freeze([img, kw])
    out = ac.add_cti(img, **kw) if n == 0 else ac.remove_cti(img, n, **kw)
    m.executions += 1
    if freeze([img, kw]) != before:
        fail("alters the caller's data", "an argument changed during the call")
    if not isinstance(out, np.ndarray) or out.dtype != np.double:
        fail("wrong type", "returned %s", type(out).__name__)
    if isinstance(img, np.ndarray) and np.shares_memory(out, img):
        fail("alters the caller's data", "the result shares memory with the input")
    return out


def removal(img, p, s, neg, n):
    """forward-model iteration with the library's own add; negatives are cut after the first iteration only, as documented in the code"""
    x = np.array(img, dtype=np.double)
    for k in range(n):
        x = x + (img - oracle(x, p, s, neg, 0))
        if not neg and k == 0:
            x[x < 0] = 0
    return x


def verify(m, img, p, s, neg=1, n=0, extra=None):
    m.desc += " parallel %s | serial %s | negative %s iterations %d" % (p.show(), s.show(), neg, n)
    out = call(m, img, p, s, neg, n, extra)
    want = oracle(img, p, s, neg, n) if n == 0 or neg else removal(np.asarray(img, dtype=np.double), p, s, neg, n)
    m.transitions += 1
    m.state(want.tobytes())
    same(out, want, "Python", m)
    return out


def roles(m, make):
    r = m.pick(3)
    d = make(r == 1)
    if r == 0:
        return d, OFF
    if r == 1:
        return OFF, d
    return d, Dir(other=True)


def f_traps(m):
    k = m.pick(4)
    n = len(SPECIES) if m.thorough else 5
    lst = [SPECIES[m.pick(n)] for _ in range(k)]
    if k == 3 and not m.thorough and len(set(t[0] for t in lst)) < 2:
        raise Skip()
    m.own()
    p, s = roles(m, lambda o: Dir(o, traps=lst))
    if p.on and s.on and m.pick(2):
        s.traps = [SPECIES[3]] + lst[::-1]
    m.desc = "traps %s" % (lst,)
    verify(m, image(3, 3), p, s, 1, m.pick(2))


def f_roe(m):
    t = m.pick(3)
    nph = m.of([2, 4] if t == 2 else [1, 3])
    flags = m.pick(16)
    m.own()
    ec, ef, fr, integer = [bool(flags >> i & 1) for i in range(4)]
    if t == 2 and (not ec or not fr) or t == 1 and ef:
        raise Skip()
    prescan, overscan = (0, -1) if t == 2 else (m.of([0, 2]), m.of([-1, 2]))
    pumps = m.of([1, 3]) if t == 2 else 1
    express, offset = m.of([0, 1, 2]), m.of([0, 3])
    ph = [(1.0 / nph, 900.0 + 50 * i, 5.0 * i, 0.7 + 0.05 * i, 0.02 * i) for i in range(nph)] if t != 2 else [(1.0 / 2, 900.0, 0.0, 0.7, 0.0)] * 2
    if t == 2 and nph == 4:
        ph = [(0.25, 900.0, 0.0, 0.7, 0.0)] * 2
        raise Skip()
    dwell = [0.3 + 0.2 * i for i in range(nph)] if t != 2 else [0.3, 0.5, 0.4, 0.6][:4]
    w = (1, 2) if t == 2 else (0, -1)
    mk = lambda o: Dir(o, type=t, phases=ph, dwell=dwell, ec=ec, ef=ef, fr=fr, integer=integer, prescan=prescan, overscan=overscan, pumps=pumps, express=express, offset=offset, w=w,
                       traps=[SPECIES[0], SPECIES[1]])
    p, s = roles(m, mk)
    m.desc = "settings"
    neg = 1 if not m.thorough else m.pick(2)
    verify(m, image(4, 4), p, s, neg, m.pick(3 if m.thorough else 2))


def f_window(m):
    rows, cols = 3, 4
    both = m.pick(3)
    a0 = m.pick(rows)
    m.own()
    pw = [(a0, b) for b in range(a0 + 1, rows + 1)] + ([(a0, -1)])
    sw = [(a, b) for a in range(cols) for b in list(range(a + 1, cols + 1)) + [-1]]
    if not m.thorough:
        sw = sw[::2] + [(0, -1), (1, -1)]
    pw, sw = m.of(pw), m.of(sw)
    p, s = Dir(w=pw), Dir(True, w=sw)
    if both == 0:
        s = Dir(on=False, w=sw)
    if both == 1:
        p = Dir(on=False, w=pw)
    m.desc = "windows"
    verify(m, image(rows, cols), p, s, 1, m.pick(2))


def f_prune(m):
    pn, pf = m.of([0.0, 1e-10, 3.0, 40.0]), m.of([0, 1, 2, 20])
    m.own()
    neg = m.pick(2)
    n = m.pick(4)
    p, s = roles(m, lambda o: Dir(o, prune_n=pn, prune_f=pf, express=m.pick(2)))
    img = image(5, 3)
    if not m.pick(2):
        img = img - 20 * np.arange(3)
    m.desc = "pruning"
    verify(m, img, p, s, neg, n)


LAYOUTS = ["plain", "fortran", "transposed", "strided rows", "strided columns", "reversed", "read-only", "list", "offset view", "subclass"]
DTYPES = ["f8", "f4", "i8", "i4", "i2", "u2", "u4", ">f8", ">i4", "f2", "u8"]


def layout(a, how):
    if how == "plain":
        return a
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "transposed":
        return np.ascontiguousarray(a.T).T
    if how == "strided rows":
        b = np.full((2 * a.shape[0], a.shape[1]), 77, a.dtype)
        b[::2] = a
        return b[::2]
    if how == "strided columns":
        b = np.full((a.shape[0], 3 * a.shape[1]), 77, a.dtype)
        b[:, 1::3] = a
        return b[:, 1::3]
    if how == "reversed":
        return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    if how == "read-only":
        b = a.copy()
        b.flags.writeable = False
        return b
    if how == "list":
        return a.tolist()
    if how == "offset view":
        b = np.full((a.shape[0] + 2, a.shape[1] + 2), 77, a.dtype)
        b[1:-1, 1:-1] = a
        return b[1:-1, 1:-1]
    return a.view(np.matrix) if False else ac.cti.ndarray_plus(a.copy())


def f_layout(m):
    how, dt = m.of(LAYOUTS), m.of(DTYPES)
    m.own()
    rows, cols = m.of([(3, 4), (4, 2), (1, 5), (5, 1)])
    n = m.pick(3)
    a = image(rows, cols).astype(dt)
    p, s = roles(m, lambda o: Dir(o))
    m.desc = "%s %s %dx%d" % (how, dt, rows, cols)
    m.desc += " parallel %s serial %s iterations %d" % (p.show(), s.show(), n)
    img = layout(a, how)
    out = call(m, img, p, s, 1, n)
    m.transitions += 1
    want = oracle(a.astype(np.double), p, s, 1, n)
    same(out, want, "Python", m)
    # the detector and clocking parameters may be given as any sequence of numbers
    if how == "plain":
        import decimal
        seq = m.of([list, tuple, np.array, lambda x: np.array(x, dtype="f4"), lambda x: np.array([[y, 9] for y in x])[:, 0], lambda x: np.array(x)[::-1][::-1]])
        ph = [(0.25, 1000.0, 0.0, 0.5, 0.0), (0.75, 500.0, 8.0, 0.75, 0.0)]
        dw = [0.5, 0.25]
        d = Dir(phases=ph, dwell=dw)
        roe = ac.ROE(dwell_times=seq(dw))
        ccd = ac.CCD(phases=[ac.CCDPhase(*x[1:]) for x in ph], fraction_of_traps_per_phase=seq([x[0] for x in ph]))
        out = ac.add_cti(img, parallel_roe=roe, parallel_ccd=ccd, parallel_traps=[trap(SPECIES[0])], verbosity=0)
        same(out, oracle(a.astype(np.double), d, OFF, 1, 0), "Python with converted settings", m)


class Header:
    def __init__(self):
        self.d = {}

    def set(self, k, v, c=None):
        self.d[k] = v


def f_extras(m):
    k = m.pick(6)
    m.own()
    img = image(4, 3)
    p, s = roles(m, lambda o: Dir(o))
    n = m.pick(3)
    if k == 0:
        m.desc = "verbosity"
        v = m.of([-1, 0, 1, 2] if n < 2 else [1])
        verify(m, img, p, s, 1, n, dict(verbosity=v))
    elif k == 1:
        m.desc = "header"
        h = Header()
        kw = dict(p.kwargs("parallel"), **s.kwargs("serial"))
        out = ac.add_cti(img, header=h, verbosity=0, **kw) if n == 0 else ac.remove_cti(img, n, header=h, verbosity=0, **kw)
        same(out, oracle(img, p, s, 1, n), "Python with a header", m)
        if not h.d:
            fail("header not updated", "no key was set")
    elif k == 2:
        m.desc = "nothing to do"
        for kw in (dict(), dict(parallel_roe=ac.ROE(), parallel_ccd=ac.CCD()), dict(serial_roe=ac.ROE(), serial_ccd=ac.CCD()), dict(parallel_traps=[], parallel_roe=ac.ROE(), parallel_ccd=ac.CCD()),
                   dict(serial_traps=[], serial_roe=ac.ROE(), serial_ccd=ac.CCD())):
            out = ac.add_cti(img, verbosity=0, **kw) if n == 0 else ac.remove_cti(img, n, verbosity=0, **kw)
            same(out, img, "Python without traps (%s)" % ",".join(kw), m)
    elif k == 3:
        m.desc = "convenience detector"
        f, no, po, fe = m.of([(900.0, 5.0, 0.6, 0.1), (900.0, None, None, None), (700.0, 20.0, None, None), (700.0, None, 0.5, 0.2)])
        kwd = {a: b for a, b in dict(well_notch_depth=no, well_fill_power=po, first_electron_fill=fe).items() if b is not None}
        d = Dir(phases=[(1.0, f, no or 0.0, 1.0 if po is None else po, fe or 0.0)])
        out = ac.add_cti(img, parallel_roe=ac.ROE(), parallel_ccd=ac.CCD(full_well_depth=f, **kwd), parallel_traps=[trap(SPECIES[0])], verbosity=0)
        same(out, oracle(img, d, OFF, 1, 0), "single-phase detector", m)
        # defaults
        out = ac.add_cti(img, serial_roe=ac.ROE(), serial_ccd=ac.CCD(), serial_traps=[ac.TrapInstantCapture()], verbosity=0)
        d = Dir(phases=[(1.0, 1e4, 0.0, 1.0, 0.0)], traps=[(0, 1.0, 1.0, 0.0, 0.0)])
        same(out, oracle(img, OFF, d, 1, 0), "default objects", m)
    elif k == 4:
        m.desc = "charge injection from a standard sequence"
        fl = m.pick(8)
        a = Dir(dwell=[0.4], prescan=m.of([0, 3]), overscan=m.of([-1, 3]), ec=bool(fl & 1), fr=bool(fl & 2), integer=bool(fl & 4))
        src = a.roe()
        npix = m.of([1, 4, 7])
        inj = ac.ROEChargeInjection.from_normal_roe(src, npix)
        b = copy.copy(a)
        b.type, b.prescan = 1, a.prescan + npix
        out = ac.add_cti(img, parallel_roe=inj, parallel_ccd=a.ccd(), parallel_traps=[trap(t) for t in a.traps], parallel_express=n, verbosity=0)
        b.express = n
        same(out, oracle(img, b, OFF, 1, 0), "injection sequence", m)
    else:
        m.desc = "read noise set aside during removal"
        sigma = m.of([0.5, 4.0, 30.0])
        lay = layout(img, m.of(LAYOUTS[:6]))
        if n == 0:
            raise Skip()
        kw = dict(p.kwargs("parallel"), **s.kwargs("serial"))
        with contextlib.redirect_stdout(io.StringIO()):
            before = freeze([lay, kw])
            out = ac.remove_cti(lay, n, remove_read_noise=sigma, verbosity=0, **kw)
            if freeze([lay, kw]) != before:
                fail("alters the caller's data", "an argument changed during the call")
            S, R = ac.ReadNoise(sigma_readnoise=sigma).generate_SR_frames_from_image(img)
        same(out, oracle(S, p, s, 1, n) + R, "removal with read noise set aside", m)
    m.executions += 1
    m.transitions += 1


def f_volume(m):
    full, notch, power, fef = m.of([100.0, 1000.0, 84700.0]), m.of([0.0, 7.0, 50.0]), m.of([0.3, 0.478, 1.0, 2.0]), m.of([0.0, 0.1])
    m.own()
    ph = ac.CCDPhase(full_well_depth=full, well_notch_depth=notch, well_fill_power=power, first_electron_fill=fef)
    xs = np.concatenate(([-5.0, 0.0, 1e-9, notch, full, full * 1.5], np.linspace(0, full, 200)))
    vec = ph.volume(xs)
    for i, x in enumerate(xs):
        m.transitions += 1
        w = LIB.oracle_volume(*[ctypes.c_double(v) for v in (full, notch, power, fef, x)])
        m.desc = "well %s, %g electrons" % ((full, notch, power, fef), x)
        for g in (float(vec[i]), float(ph.volume(float(x)))):
            if abs(g - w) > 1e-12:
                fail("volume differs from the library", "Python %.15g, library %.15g", g, w)
    m.executions += 1


CLASSES = {  # name: the object's arguments in order, with the library's default value and another value
    "ROE": [("dwell_times", [1.0], [0.6]), ("prescan_offset", 0, 2), ("prescan_length", 0, 0), ("overscan_start", -1, 2), ("empty_traps_between_columns", True, False),
            ("empty_traps_for_first_transfers", False, True), ("force_release_away_from_readout", True, False), ("use_integer_express_matrix", False, True)],
    "ROEChargeInjection": [("dwell_times", [1.0], [0.6]), ("prescan_offset", 0, 2), ("prescan_length", 0, 0), ("overscan_start", -1, 2), ("empty_traps_between_columns", True, False),
                           ("force_release_away_from_readout", True, False), ("use_integer_express_matrix", False, True)],
    "CCD": [("full_well_depth", 1e4, 900.0), ("well_notch_depth", 0.0, 15.0), ("well_fill_power", 1.0, 0.6), ("first_electron_fill", 0.0, 0.1)],
    "TrapInstantCapture": [("density", 1.0, 30.0), ("release_timescale", 1.0, 2.2), ("fractional_volume_none_exposed", 0.0, 0.2), ("fractional_volume_full_exposed", 0.0, 0.5)],
    "TrapSlowCapture": [("density", 1.0, 30.0), ("release_timescale", 1.0, 2.2), ("capture_timescale", 0.0, 0.4)],
    "TrapInstantCaptureContinuum": [("density", 1.0, 30.0), ("release_timescale", 1.0, 2.2), ("release_timescale_sigma", None, 0.4)],
    "TrapSlowCaptureContinuum": [("density", 1.0, 30.0), ("release_timescale", 1.0, 2.2), ("release_timescale_sigma", None, 0.4), ("capture_timescale", 0.0, 0.4)],
}


def f_defaults(m):
    """arguments left out mean the library's defaults; arguments in order mean the same as arguments by name"""
    name = m.of(sorted(CLASSES))
    args = CLASSES[name]
    given = [m.pick(2) if d is not None else 1 for a, d, v in args]
    m.own()
    val = {a: v if g else d for g, (a, d, v) in zip(given, args)}
    positional = m.pick(2)
    if positional:
        last = max([i for i, g in enumerate(given) if g], default=-1)
        a, k = [val[x[0]] for x in args[: last + 1]], {}
    else:
        a, k = [], {x[0]: x[2] for g, x in zip(given, args) if g}
    p = Dir()
    roe, ccd, tr = p.roe(), p.ccd(), trap(p.traps[0])
    if name.startswith("ROE"):
        roe = getattr(ac, name)(*a, **k)
        p = Dir(type=int(name != "ROE"), dwell=val["dwell_times"], prescan=val["prescan_offset"], overscan=val["overscan_start"], ec=val["empty_traps_between_columns"],
                ef=val.get("empty_traps_for_first_transfers", False), fr=val["force_release_away_from_readout"], integer=val["use_integer_express_matrix"])
    elif name == "CCD":
        v = [val[x[0]] for x in args]
        ccd = ac.CCD([ac.CCDPhase(*a)]) if positional else ac.CCD([ac.CCDPhase(**k)])
        p = Dir(phases=[(1.0, *v)])
    else:
        tr = getattr(ac, name)(*a, **k)
        v = [val[x[0]] for x in args]
        p = Dir(traps=[(sorted(["TrapInstantCapture", "TrapSlowCapture", "TrapInstantCaptureContinuum", "TrapSlowCaptureContinuum"], key=lambda x: ("Continuum" in x, "Slow" in x)).index(name), *v, *[0.0] * (4 - len(v)))])
    m.desc = "%s(%s) " % (name, ", ".join([repr(x) for x in a] + ["%s=%r" % x for x in k.items()]))
    img = image(4, 3)
    for serial in (0, 1):
        d = "serial_" if serial else "parallel_"
        p.express = m.pick(2)
        kw = {d + "roe": roe, d + "ccd": ccd, d + "traps": [tr], "verbosity": 0}
        if p.express:
            kw[d + "express"] = 1
        out = ac.add_cti(img, **kw)
        same(out, oracle(img, OFF if serial else p, p if serial else OFF, 1, 0), "Python", m)
        m.executions += 1
        m.transitions += 1
        m.state(np.asarray(out).tobytes())


FAMILIES = [f_traps, f_roe, f_window, f_prune, f_layout, f_extras, f_volume, f_defaults]


def run(m):
    m.pick(len(FAMILIES))
    FAMILIES[m.cur[0]](m)


sys.exit(main(run))
