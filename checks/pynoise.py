"""P30: the split of an image into a smooth part and read noise: recombination, finiteness, untouched input, on every small image and option."""
import contextlib, io, itertools, sys
import numpy as np
import arcticpy as ac
from pymc import Skip, fail, main

LEV = [0.0, 50.0, 53.0, 400.0]


def split(m, img, fraction=None, **kw):
    rn = ac.ReadNoise(**kw)
    ref, flags = np.array(img, copy=True), img.strides
    with contextlib.redirect_stdout(io.StringIO()):
        S, R = rn.generate_SR_frames_from_image(img) if fraction is None else rn.generate_SR_frames_from_image(img, sr_fraction=fraction)
    m.executions += 1
    m.transitions += img.size
    if img.dtype != ref.dtype or img.strides != flags or not np.array_equal(img, ref):
        fail("alters the caller's image", "split")
    if S.shape != img.shape or R.shape != img.shape:
        fail("wrong shape", "%s %s", S.shape, R.shape)
    if not (np.all(np.isfinite(S)) and np.all(np.isfinite(R))):
        fail("not finite", "smooth %s, noise %s", S.tolist(), R.tolist())
    if np.shares_memory(S, img) or np.shares_memory(R, img):
        fail("alters the caller's image", "a part shares memory with it")
    tol = 1e-9 * (1 + np.abs(ref.astype(float)))
    if not np.all(np.abs(S + R - ref) <= tol):
        fail("parts do not add up", "off by %g", np.abs(S + R - ref).max())
    m.state(S.tobytes())
    return S, R


def one_step(img, out, amp, frac, cols):
    """the neighbourhood step, written independently with padded arrays"""
    R, C = img.shape
    d = img - out
    pad = np.full((R + 2, C + 2), np.nan)
    pad[1:-1, 1:-1] = d
    win = np.array([pad[1 + y : R + 1 + y, 1 + x : C + 1 + x] for y in (-1, 0, 1) for x in (-1, 0, 1)])
    mean = np.nanmean(win, axis=0)
    lim = amp * frac

    def up(x, s):
        return np.where(x == 0, 0, x * x / np.where(x == 0, 1, x * x + s))

    s = np.clip(d, -1, 1) * up(d, 4 * amp**2) + np.clip(mean, -lim, lim) * up(mean, 18 * amp**2)
    for ax in (0, 1) if cols else (0,):
        step = np.diff(out, axis=ax)
        for sign in (1, -1):
            g = np.zeros_like(out)
            sl = [slice(None)] * 2
            sl[ax] = slice(0, -1) if sign == 1 else slice(1, None)
            g[tuple(sl)] = sign * step
            if amp > 0:
                s = s + np.clip(g, -lim, lim) * 4 * amp**2 / (g * g + 4 * amp**2)
    return s / (6 if cols else 4)


def f_all(m):
    n = 6 if m.thorough else 4
    R = 1 + m.pick(n)
    C = 1 + m.pick(n // R)
    serial = bool(m.pick(2))
    sigma = m.of([4.5, 0.0, 0.5, 25.0])
    m.own()
    img = np.array([[LEV[m.pick(4 if R * C <= 4 else 3)] for _ in range(C)] for _ in range(R)])
    m.desc = "image %s, noise %g, columns %s" % (img.tolist(), sigma, serial)
    split(m, img, sigma_readnoise=sigma, serial=serial, n_iter=20 if R * C > 3 else 200)


def pattern(k, R, C):
    y, x = np.mgrid[0:R, 0:C]
    return [100.0 + 9 * ((y * 3 + x * 5) % 4), 1000.0 * (y == R // 2) + 7.0 * ((x + y) % 3), -5.0 + 0.0 * x + 3 * ((x * y) % 2), 40.0 + 2.0 * x + 0 * y][k]


def f_options(m):
    R, C = m.of([(5, 4), (1, 6), (6, 1), (2, 3), (3, 2)])
    k = m.pick(4)
    sigma = m.of([0.0, 2.0, 6.0])
    m.own()
    kw = dict(sigma_readnoise=sigma, serial=bool(m.pick(2)), n_iter=m.of([0, 1, 2, 60]), amplitude_scale=m.of([0.2, 0.33]), noise_model_scaling=m.of([1.0, 0.75]))
    frac = m.of([None, 1, 1.0, 0.5, 0.0, 2.0])
    img = pattern(k, R, C)
    m.desc = "pattern %d of %d x %d, %s, fraction %s" % (k, R, C, kw, frac)
    S, N = split(m, img, frac, **kw)
    if frac is not None and frac != 1:
        S1, N1 = split(m, img, **kw)
        if not np.all(np.abs(N - frac * N1) <= 1e-9 * (1 + np.abs(N1))):
            fail("wrong fraction", "noise part is not %g of the whole noise part", frac)
    # the compiled step as called by the separation
    rn = ac.ReadNoise(**kw)
    other = S + 0.3 * np.arange(S.size).reshape(S.shape)
    step = rn._determine_noise_model(img, other)
    want = one_step(img, other, sigma, kw["amplitude_scale"], kw["serial"])
    if not np.all(np.abs(step - want) <= 1e-9 * (1 + np.abs(want))):
        fail("wrong adjustment", "off by %g", np.abs(step - want).max())


def f_smooth(m):
    R, C = 1 + m.pick(5), 1 + m.pick(5)
    m.own()
    v = m.of([0.0, 1.0, 50.0, 1e5, -3.0])
    sigma = m.of([0.0, 0.5, 4.5])
    img = np.full((R, C), v)
    m.desc = "flat %d x %d image of %g, noise %g" % (R, C, v, sigma)
    S, N = split(m, img, sigma_readnoise=sigma, serial=bool(m.pick(2)))
    if np.any(N != 0):
        fail("noise in a smooth image", "up to %g", np.abs(N).max())


def f_layout(m):
    how, dt = m.pick(6), m.of(["f8", "f4", "i4", "u2", ">f8", "i8", "u1"])
    m.own()
    a = np.array([[50, 61, 48, 3], [52, 49, 130, 47], [55, 50, 51, 58]]).astype(dt)
    img = [a, np.asfortranarray(a), np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1], np.repeat(a, 2, axis=0)[::2], np.repeat(a, 3, axis=1)[:, ::3], np.pad(a, 1)[1:-1, 1:-1]][how]
    if how == 5:
        img.flags.writeable = False
    sigma = m.of([2.0, 6.0])
    m.desc = "image of %s, layout %d, noise %g" % (dt, how, sigma)
    S, N = split(m, img, sigma_readnoise=sigma)
    S0, N0 = split(m, a.astype(float), sigma_readnoise=sigma)
    if not (np.allclose(S, S0, rtol=1e-9, atol=1e-9) and np.allclose(N, N0, rtol=1e-9, atol=1e-9)):
        fail("depends on the memory layout", "noise differs by %g", np.abs(N - N0).max())


FAMILIES = [f_all, f_options, f_smooth, f_layout]


def run(m):
    m.pick(len(FAMILIES))
    FAMILIES[m.cur[0]](m)


sys.exit(main(run))
