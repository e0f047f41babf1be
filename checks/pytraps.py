"""P35: populations of traps drawn by the Python trap object, over every species of a grid, every size of detector and every seed of a range."""
import math
import numpy as np
import arcticpy as ac
from pymc import Skip, fail, main

DENS = [0.0, 0.01, 0.5, 1.0, 3.7, 120.0]
TAU = [0.1, 1.0, 7.5, 400.0]
EXPO = [(0.0, 0.0), (0.0, 0.3), (0.2, 0.7), (0.4, 0.4), (1.0, 1.0)]
NAMES = ("density", "release_timescale", "fractional_volume_none_exposed", "fractional_volume_full_exposed")


def f_poisson(m):
    d, t, e = m.of(DENS), m.of(TAU), m.of(EXPO)
    total = m.of([1, 7, 100, 4096])
    m.own()
    trap = ac.TrapInstantCapture(d, t, e[0], e[1])
    m.desc = "density %g, release %g, exposed %s, %d pixels" % (d, t, e, total)
    n = (4000 if m.thorough else 1000) if t == TAU[0] and e == EXPO[0] else 60
    sums, squares, seen = 0.0, 0.0, set()
    for seed in range(n):
        p = trap.poisson_density_from(total, seed=seed)
        q = trap.poisson_density_from(total_pixels=total, seed=seed)
        m.executions += 2
        m.transitions += 1
        if type(p) is not type(trap):
            fail("another kind of trap", "%s", type(p))
        count = p.density * total
        if not (count > -1e-9 and abs(count - round(count)) < 1e-6):
            fail("not a whole number of traps", "%.12g", count)
        if q.density != p.density:
            fail("seed does not settle the population", "%.12g and %.12g for seed %d", p.density, q.density, seed)
        for k in NAMES[1:]:
            if getattr(p, k) != getattr(trap, k):
                fail("population of another species", "%s is %s, the species has %s", k, getattr(p, k), getattr(trap, k))
        sums += count
        squares += (count - d * total) ** 2
        seen.add(p.density)
    lam = d * total
    if abs(sums / n - lam) > 6 * math.sqrt(lam / n) + 1e-9:
        fail("wrong mean", "%.6g traps on average of %d draws, expected %.6g", sums / n, n, lam)
    if abs(squares / n - lam) > 6 * math.sqrt((lam + 2 * lam * lam) / n) + 1e-9:
        fail("wrong spread", "variance %.6g over %d draws, expected %.6g", squares / n, n, lam)
    if lam > 3 and len(seen) < 4:
        fail("populations do not vary", "%d different among %d", len(seen), n)
    free = trap.poisson_density_from(total).density * total
    if abs(free - lam) > 12 * math.sqrt(lam) + 20 or abs(free - round(free)) > 1e-6:
        fail("wrong mean", "%.6g traps without a seed, expected about %.6g", free, lam)
    if lam > 1000 and len(set(trap.poisson_density_from(total).density for _ in range(20))) == 1:  # equal by chance: below 1e-35
        fail("draws without a seed do not vary", "20 times %.6g traps", free)
    if [getattr(trap, k) for k in NAMES] != [d, t, e[0], e[1]]:
        fail("alters the species", "%s", [getattr(trap, k) for k in NAMES])
    m.state(tuple(sorted(seen)), t, e)


def f_use(m):
    """a population clocks exactly as a species written down with its numbers"""
    d, t, e = m.of(DENS[2:]), m.of(TAU[:3]), m.of(EXPO[:4])
    seed = m.pick(8)
    m.own()
    p = ac.TrapInstantCapture(d, t, *e).poisson_density_from(16, seed=seed)
    img = np.array([[0.0, 5.0], [900.0, 100.0], [40.0, 300.0], [0.0, 0.0]])
    kw = dict(parallel_ccd=ac.CCD(full_well_depth=1000.0), parallel_roe=ac.ROE(), verbosity=0)
    m.desc = "density %g, release %g, exposed %s, seed %d" % (d, t, e, seed)
    a, b = ac.add_cti(img, parallel_traps=[p], **kw), ac.add_cti(img, parallel_traps=[ac.TrapInstantCapture(p.density, t, *e)], **kw)
    m.executions += 2
    if not np.array_equal(np.asarray(a), np.asarray(b)):
        fail("population of another species", "different trails")
    m.state(np.asarray(a).tobytes())


def f_ellipticity(m):
    """the predicted effect on shapes is finite, proportional to the density and independent of the exposure"""
    d, t, e = m.of(DENS), m.of(TAU + [0.003, 0.4, 2.0, 2.853, 25.0, 42.46, 90.0, 1e5]), m.of(EXPO)
    m.own()
    m.desc = "density %g, release %g" % (d, t)
    one = ac.TrapInstantCapture(1.0, t).delta_ellipticity
    got = ac.TrapInstantCapture(d, t, *e).delta_ellipticity
    m.executions += 2
    if not math.isfinite(got) or abs(got - d * one) > 1e-12 * (1 + abs(got)):
        fail("wrong effect on shapes", "%.12g, should be %.12g", got, d * one)
    # the published fit: an amplitude, a step in log10 of the release time, and a bump on it
    x = math.log10(t)
    fit = 4 * d * (0.05333 - 0.03357 * math.atan((x - 1.628) / 0.2951) + 0.09901 * math.exp(-0.5 * ((x - 0.4553) / 0.4132) ** 2))
    if abs(got - fit) > 1e-9 * (1 + abs(fit)):
        fail("wrong effect on shapes", "%.12g, the published fit gives %.12g", got, fit)
    m.state(got)


def run(m):
    m.of([f_poisson, f_use, f_ellipticity])(m)


main(run)
