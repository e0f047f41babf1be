"""P33: the covariance matrix of an image against its definition, on every image of a spanning family (covariance is a quadratic form: all pairs of
single bright pixels determine it) and on every small image over two levels."""
import numpy as np
import arcticpy as ac
from pymc import Skip, fail, main

SIZES = [1, 3, 5, 7]


def reference(img, size, border):
    """covariance between the interior pixels and those i rows and j columns away; the border, and one more row and column at the far end, are left out"""
    img = np.asarray(img, dtype=float)
    top, left, bottom, right = border
    y0, y1, x0, x1 = top, img.shape[0] - bottom - 1, left, img.shape[1] - right - 1
    my, mx = size[0] // 2, size[1] // 2
    ry, rx = max(my, 1), max(mx, 1)
    ys, xs = range(y0 + ry, y1 - ry), range(x0 + rx, x1 - rx)
    out = np.zeros(size)
    n = len(ys) * len(xs)
    if n <= 0:
        raise Skip()
    here = [[img[y, x] for x in xs] for y in ys]
    mean = sum(map(sum, here)) / n
    for i in range(-my, my + 1):
        for j in range(-mx, mx + 1):
            there = [[img[y + i, x + j] for x in xs] for y in ys]
            other = sum(map(sum, there)) / n
            out[my + i, mx + j] = sum((a - mean) * (b - other) for r, s in zip(here, there) for a, b in zip(r, s)) / n
    return out


def compare(got, want, what, scale):
    if not isinstance(got, np.ndarray) or got.shape != want.shape:
        fail("wrong shape", "%s: %s instead of %s", what, getattr(got, "shape", None), want.shape)
    tol = 1e-10 * (scale * scale + np.abs(want))
    bad = ~(np.abs(np.asarray(got) - want) <= tol)
    if bad.any():
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        my, mx = want.shape[0] // 2, want.shape[1] // 2
        fail("wrong covariance", "%s: %.12g for pixels %d rows and %d columns apart, should be %.12g", what, np.asarray(got)[i], i[0] - my, i[1] - mx, want[i])


def figures(c, want, what, scale):
    my, mx = want.shape[0] // 2, want.shape[1] // 2
    a = want[my, mx]
    near = want[max(my - 1, 0) : my + 2, max(mx - 1, 0) : mx + 2]
    exp = dict(autocorrelation=a, column=want[:, mx].sum() - a, row=want[my].sum() - a, box=want.sum() - a, ring=near.sum() - a,
               columnabs=np.abs(want[:, mx]).sum() - a, rowabs=np.abs(want[my]).sum() - a, boxabs=np.abs(want).sum() - a, ringabs=np.abs(near).sum() - a)
    for k, v in exp.items():
        g = float(getattr(c, k))
        if not abs(g - v) <= 1e-9 * (scale * scale * want.size + abs(v)):
            fail("wrong figure of merit", "%s: %s is %.12g, should be %.12g", what, k, g, v)
    if tuple(c.middle) != (my, mx):
        fail("wrong figure of merit", "%s: middle %s", what, c.middle)


def one(m, img, size, border, scale, **kw):
    want = reference(img, size, border)
    copy, b = img.copy(), list(border)
    arg = size[0] if size[0] == size[1] and m.executions % 2 else size
    c = ac.CovarianceMatrix().from_image(img, matrix_size=arg, border=b, **kw)
    m.executions += 1
    m.transitions += size[0] * size[1]
    what = "matrix %dx%d, border %s" % (size + (list(border),))
    compare(c, want, what, scale)
    figures(c, want, what, scale)
    if img.dtype != copy.dtype or not np.array_equal(img, copy) or b != list(border):
        fail("alters its input", "%s", what)
    m.state(want.tobytes(), size)
    return c


def f_pairs(m):
    """every pair of bright pixels in the smallest images a matrix fits, and one or two larger"""
    size = (m.of(SIZES if m.thorough else SIZES[:3]), m.of(SIZES if m.thorough else SIZES[:3]))
    ey, ex = m.pick(3), m.pick(3)
    ny, nx = 2 * max(size[0] // 2, 1) + 2 + ey, 2 * max(size[1] // 2, 1) + 2 + ex
    a = m.pick(ny * nx)
    m.own()
    b = m.pick(a + 1)
    img = np.zeros((ny, nx))
    img.flat[a] += 1
    img.flat[b] += 1
    m.desc = "%dx%d image, bright pixels %d and %d" % (ny, nx, a, b)
    one(m, img, size, (0, 0, 0, 0), 1.0)


def f_images(m):
    """every image of 4x4 (thorough 4x5) pixels over two levels"""
    ny, nx = 4, 5 if m.thorough else 4
    top = [m.pick(2) for _ in range(nx + 2)]
    m.own()
    img = np.array(top + [m.pick(2) for _ in range(ny * nx - len(top))], dtype=float).reshape(ny, nx) * 3 - 1
    m.desc = "image %s" % img.tolist()
    one(m, img, (3, 3), (0, 0, 0, 0), 2.0)


def f_border(m):
    """every border; array types and memory layouts; offset and scaling of the image"""
    size = (m.of([1, 3, 5]), m.of([1, 3, 5]))
    border = tuple(m.pick(3) for _ in range(4))
    m.own()
    ny, nx = 12, 11
    img = np.array([[(7 * y * y + 5 * x * x + 3 * x * y + y) % 23 - 4.0 for x in range(nx)] for y in range(ny)])
    kind = m.pick(6)
    if kind == 1:
        img = np.asfortranarray(img)
    elif kind == 2:
        img = img.astype(np.float32)
    elif kind == 3:
        img = img.astype(np.int32)
    elif kind == 4:
        img = img.repeat(2, axis=0).repeat(2, axis=1)[::2, ::2]
    elif kind == 5:
        img = img[::-1, ::-1] * 1000.0 + 50000.0
    m.desc = "array kind %d" % kind
    c = one(m, img, size, border, 1e3 if kind < 5 else 1e6)
    big = np.asarray(c)
    for k, x in ((2.0, img * 2.0), (1.0, img + 7.0), (1.0, -img)):
        d = ac.CovarianceMatrix().from_image(x, matrix_size=size, border=list(border))
        compare(d, k * k * big, "scaled, shifted or inverted image", 1e3 if kind < 5 else 1e6)
        m.executions += 1
    t = ac.CovarianceMatrix().from_image(img.T, matrix_size=size[::-1], border=[border[1], border[0], border[3], border[2]])
    compare(t, np.ascontiguousarray(big.T), "transposed image", 1e3 if kind < 5 else 1e6)
    m.executions += 1


def f_default(m):
    """defaults, and two matrices from the same maker"""
    ny, nx = 14 + m.pick(4), 14 + m.pick(4)
    m.own()
    img = np.array([[(11 * y * y + 3 * x * x + 5 * x * y) % 17 * 1.0 for x in range(nx)] for y in range(ny)])
    m.desc = "%dx%d image, defaults" % (ny, nx)
    want = reference(img, (5, 5), (5, 5, 0, 0)) if ny >= 11 and nx >= 11 else None
    maker = ac.CovarianceMatrix()
    first = maker.from_image(img)
    kept = np.array(first)
    compare(first, want, "defaults", 20.0)
    second = maker.from_image(img * 2)
    compare(second, 4 * want, "second image", 40.0)
    if not np.array_equal(first, kept):
        fail("matrices share storage", "the second call altered the first result")
    for size in [(p, q) for p in SIZES for q in SIZES]:
        e = ac.CovarianceMatrix(matrix_size=size)
        unit = np.zeros(size)
        unit[size[0] // 2, size[1] // 2] = 1
        compare(e, unit, "new matrix of %dx%d" % size, 1.0)
        figures(e, unit, "new matrix", 1.0)
        m.executions += 1
    # a matrix given by its values
    v = kept * 1.0
    e = ac.CovarianceMatrix(values=v.copy())
    compare(e, v, "matrix from values", 20.0)
    figures(e, v, "matrix from values", 20.0)
    m.executions += 3


def f_corners(m):
    """the four corners of an image"""
    py, px = 14 + m.pick(3), 14 + m.pick(3)
    m.own()
    size = m.of([(3, 3), (3, 5), (5, 3), (1, 3)])
    ny, nx = py * 2 + m.pick(3), px * 2 + m.pick(3)
    img = np.array([[(11 * y * y + 3 * x * x + 5 * x * y) % 19 * 1.0 for x in range(nx)] for y in range(ny)])
    m.desc = "corners of %dx%d pixels in an image of %dx%d, matrix %s" % (py, px, ny, nx, size)
    rn = ac.ReadNoise(sigma_readnoise=4.0, n_pixels_for_covar=(px, py))
    copy = img.copy()
    out = rn.covariance_matrix_in_corners_of_image(img, matrix_size=size)
    m.executions += 1
    if len(out) != 4:
        fail("wrong corners", "%d matrices", len(out))
    want = {}
    for name, ys, xs in (("bottom left", slice(0, py), slice(0, px)), ("bottom right", slice(0, py), slice(nx - px - 1, nx - 1)),
                         ("top left", slice(ny - py - 1, ny - 1), slice(0, px)), ("top right", slice(ny - py - 1, ny - 1), slice(nx - px - 1, nx - 1))):
        want[name] = reference(img[ys, xs], size, (5, 5, 0, 0))
    for name, w in want.items():
        if not any(np.allclose(np.asarray(o), w, rtol=1e-9, atol=1e-9) for o in out if o.shape == w.shape):
            fail("wrong corners", "no matrix for the %s corner", name)
    if not np.array_equal(img, copy):
        fail("alters its input", "image")


def run(m):
    m.of([f_pairs, f_images, f_border, f_default, f_corners])(m)


main(run)
