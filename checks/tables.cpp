// Exhaustive grids over the well-filling law (P22) and the continuum tables (P23), and every small readout of detectors
// whose phases all differ (P22).  Compiled once per property with -DPROP=n.
#define MC_MAIN
#include <limits>

#include "drive.hpp"
using namespace mc;
using namespace drive;

#if PROP == 22
static Species S(double D, double tau, double cap = 0) { Species s{D, tau}; s.cap = cap; return s; }
static Species C(double D, double tau, double sigma, double cap = 0) { Species s{D, tau}; s.sigma = sigma; s.cap = cap; return s; }
static void law(MC& m) {
    static const std::vector<double> fulls = {1, 7.5, 1000, 84700, 1e7}, notches = {0, 1e-3, .5, 0, 96.5, 900}, powers = {.05, .3, .478, .5, .58, 1, 1.7, 2, 3, 10}, fefs = {0, 1e-9, .003, .1, .5, 1};
    double full = m.pick(fulls), notch = m.pick(notches), power = m.pick(powers), fef = m.pick(fefs);
    if (notch >= full) throw Skip();
    m.own();
    CCDPhase p(full, notch, power, fef);
    Well w{full, notch, power, fef};
    std::vector<double> n = {-1e12, -1e3, -1, -1e-9, -0.0, 0, 1e-300, 1e-12, 1e-3, 1e12, 1e300, full, notch, full * (1 + 1e-13), full * (1 - 1e-13), notch * (1 + 1e-13), notch * (1 - 1e-13)};
    int K = m.thorough ? 4000 : 400;
    for (int i = 1; i < K; i++) {
        n.push_back(full * 1.3 * i / K);
        n.push_back(notch + (full - notch) * ::pow(.9 + .09 * m.thorough, i));
        n.push_back(notch - notch * ::pow(.9, i));
    }
    std::sort(n.begin(), n.end());
    m.desc = api::fmt("full %g notch %g power %g first electron %g", full, notch, power, fef);
    double prev = -1, pn = 0;
    for (double x : n) {
        double v = p.cloud_fractional_volume_from_electrons(x), e = w.vol(x);
        m.transitions++;
        if (!(v >= 0 && v <= 1 + 1e-12)) fail("outside [0,1]", "volume of %.17g electrons is %.17g", x, v);
        // the subtraction of the notch loses digits just above it
        double u = (full - notch) * 1e-12 + 1e-14 * fabs(x), lo = w.vol(std::max(x - u, x > 0 ? 1e-320 : x)), hi = w.vol(x + u);
        if (!(v >= lo - 1e-9 * lo - 1e-300 && v <= hi + 1e-9 * hi + 1e-300)) fail("well-filling law", "volume of %.17g electrons is %.17g, not %.17g", x, v, e);
        if (!(v >= prev - 1e-12 * prev)) fail("not monotonic", "volume of %.17g electrons is %.17g but %.17g of the fewer %.17g", x, v, prev, pn);
        prev = v;
        pn = x;
        m.state(mixd(mixd(5, v), x));
    }
    // exact edges
    if (p.cloud_fractional_volume_from_electrons(0) != fef || p.cloud_fractional_volume_from_electrons(-5) != fef) fail("first-electron fill", "no electrons reach %.17g", p.cloud_fractional_volume_from_electrons(0));
    if (fabs(p.cloud_fractional_volume_from_electrons(full * 50) - 1) > 1e-15) fail("full well", "a full well reaches %.17g", p.cloud_fractional_volume_from_electrons(full * 50));
    m.executions++;
}

static const std::vector<Well> wells = {{900, 0, 1, 0}, {1000, 40, .5, 0}, {700, 0, 2, .04}, {1300, 10, .8, .02}, {500, 0, 1.5, 0}};
static const std::vector<std::vector<double>> shares[5] = {{}, {{1}, {.4}, {2.5}}, {{.5, .5}, {.9, .1}, {.2, .3}, {0, 1}}, {{.5, .25, .25}, {.1, .2, .7}, {1, 0, .5}}, {{.4, .3, .2, .1}, {.1, .1, .5, .3}}};
static void phases(MC& m) {
    int P = 1 + m.pick(4);
    int type = m.pick(3);
    if (type == 2 && P == 1) throw Skip();
    // ordered choice of distinct wells
    Detector d;
    std::vector<int> left = {0, 1, 2, 3, 4};
    for (int i = 0; i < P; i++) {
        int k = m.pick(i < 2 || m.thorough ? (int)left.size() : 1);
        d.phases.push_back(wells[left[k]]);
        left.erase(left.begin() + k);
    }
    d.frac = m.pick(shares[P]);
    m.own();
    static const std::vector<Traps> sets = {
        {{S(60, 1.5)}, {}, {}, {}}, {{}, {S(50, 1.2, .3)}, {}, {}}, {{}, {}, {C(70, 2, .5)}, {}}, {{}, {}, {}, {C(60, 1.5, .4, .3)}}, {{S(20, 1), S(15, 4)}, {S(30, 2, .5)}, {}, {}}};
    int ti = m.pick((int)sets.size());
    const Traps& t = sets[ti];
    Mode o;
    o.type = type;
    o.dwell.clear();
    int steps = type == 2 ? 2 * P : P;
    for (int i = 0; i < steps; i++) o.dwell.push_back(P == 1 ? 1 : .25 + .15 * i);
    if (type == 2) o.n_pumps = 2;
    if (type != 1 && m.pickb()) o.empty_first = true;
    if (type == 0 && m.pickb()) o.express = 1;
    std::vector<double> a = {0, 120, 600, 1500};
    Image in = all_columns(m.thorough ? a : std::vector<double>{0, 120, 800}, type == 2 ? 3 : 3);
    if (type == 2) { o.r0 = 1; o.r1 = 2; }
    m.desc = api::fmt("%d phases, trap set %d, %s, shares", P, ti, show(o).c_str());
    for (double f : d.frac) m.desc += api::fmt(" %g", f);
    for (auto& w : d.phases) m.desc += api::fmt("; well %g %g %g %g", w.full, w.notch, w.power, w.fef);
    Result R = procedure(in, o, d, t);
    Image out = run(in, o, d, t);
    compare(in, out, R.image, &R.unspecified, t, 3 * 3 * steps, "phase parameters", "phases with their own parameters and trap shares", 0, -1);
    m.transitions += R.interactions;
    m.executions += in[0].size();
    for (size_t c = 0; c < out[0].size(); c++) m.state(mixd(mixd(mixd(5, out[0][c]), out[1][c]), out[2][c]));
}
static void run(MC& m) {
    if (m.pick(2) == 0) law(m);
    else phases(m);
}
#endif

#if PROP == 23
static const double BIG = std::numeric_limits<double>::max();
// how far linear interpolation on a logarithmic grid of spacing h may be from f at t
template <class F>
static double interpolation(const F& f, double t, double h) {
    // second differences over the neighbourhood: h^2/8 |f''|
    double y[9], d = 0;
    for (int i = 0; i < 9; i++) y[i] = f(t * exp(.4 * h * (i - 4)));
    for (int i = 1; i < 8; i++) d = std::max(d, fabs(y[i + 1] - 2 * y[i] + y[i - 1]));
    return 1.5 * d / (.16 * 8) + 1e-5;
}
struct Cfg { double mu, sigma, dwell, cap; int N, n; };
static std::string show(const Cfg& c) { return api::fmt("median %g sigma %g dwell %g capture %g, %d transfers, %d nodes", c.mu, c.sigma, c.dwell, c.cap, c.N, c.n); }

template <class T>
static void population(MC& m, T& t, const ref::LogNormal& L, const Cfg& c, double tmin, double tmax) {
    // direct integration
    if (t.fill_fraction_from_time_elapsed(0.0) != 1.0) fail("edge", "just filled: fill %.17g", t.fill_fraction_from_time_elapsed(0.0));
    if (t.fill_fraction_from_time_elapsed(BIG) != 0.0) fail("edge", "never filled: fill %.17g", t.fill_fraction_from_time_elapsed(BIG));
    if (t.fill_fraction_from_time_elapsed(-1.0) != 0.0) fail("edge", "unset: fill %.17g", t.fill_fraction_from_time_elapsed(-1.0));
    double lo = log(std::min(tmin, c.mu * 1e-3) / 10), hi = log(std::max(tmax, c.mu * 1e3) * 10);
    double prev = 1 + 1e-9;
    int K = m.thorough ? 200 : 50;
    for (int i = 0; i <= K; i++) {
        double x = exp(lo + (hi - lo) * i / K), f = t.fill_fraction_from_time_elapsed(x), e = L.fill(x);
        m.transitions++;
        if (!(fabs(f - e) <= 2e-5 * e + 1e-9)) fail("fill fraction from time", "after %.17g the fill is %.17g, integration gives %.17g", x, f, e);
        if (!(f <= prev + 1e-5 * prev + 1e-12)) fail("not monotonic", "after %.17g the fill is %.17g, more than %.17g before", x, f, prev);
        if (c.sigma <= .002) {
            double s = exp(-x / c.mu);
            if (!(fabs(f - s) <= 4 * c.sigma * c.sigma * (1 + x / c.mu * (1 + x / c.mu)) * s + 1e-6 * s + 1e-300)) fail("narrow limit", "after %.17g the fill is %.17g, a single timescale gives %.17g", x, f, s);
        }
        prev = f;
    }
    // and its inverse, wherever it is well-conditioned
    if (t.time_elapsed_from_fill_fraction(1.0, tmax) != 0.0) fail("edge", "full: time %.17g", t.time_elapsed_from_fill_fraction(1.0, tmax));
    if (t.time_elapsed_from_fill_fraction(0.0, tmax) < BIG) fail("edge", "empty: time %.17g", t.time_elapsed_from_fill_fraction(0.0, tmax));
    if (t.time_elapsed_from_fill_fraction(-1.0, tmax) != 0.0) fail("edge", "unset: time %.17g", t.time_elapsed_from_fill_fraction(-1.0, tmax));
    double fmin = L.fill(tmax);
    for (int i = 1; i < (m.thorough ? 40 : 12); i++) {
        double f = i / (m.thorough ? 40. : 12.);
        if (f <= fmin * (1 + 1e-4)) continue;
        double x = t.time_elapsed_from_fill_fraction(f, tmax);
        m.transitions++;
        if (!(x >= 0 && fabs(L.fill(x) - f) <= 1e-4)) fail("time from fill fraction", "fill %.17g inverts to %.17g, where it is %.17g", f, x, L.fill(x));
    }
}
template <class T>
static void table(MC& m, T& t, const ref::LogNormal& L, const Cfg& c, double tmin, double tmax) {
    auto F = [&](double x) { return L.fill(x); };
    double h = log(tmax / tmin) / (c.n - 1);
    if (t.fill_fraction_from_time_elapsed_table(0.0) != 1.0) fail("table edge", "just filled: fill %.17g", t.fill_fraction_from_time_elapsed_table(0.0));
    if (t.fill_fraction_from_time_elapsed_table(BIG) != 0.0) fail("table edge", "never filled: fill %.17g", t.fill_fraction_from_time_elapsed_table(BIG));
    if (t.fill_fraction_from_time_elapsed_table(-1.0) != 0.0) fail("table edge", "unset: fill %.17g", t.fill_fraction_from_time_elapsed_table(-1.0));
    if (t.time_elapsed_from_fill_fraction_table(1.0) != 0.0) fail("table edge", "full: time %.17g", t.time_elapsed_from_fill_fraction_table(1.0));
    if (t.time_elapsed_from_fill_fraction_table(0.0) < BIG) fail("table edge", "empty: time %.17g", t.time_elapsed_from_fill_fraction_table(0.0));
    if (t.time_elapsed_from_fill_fraction_table(-1.0) != 0.0) fail("table edge", "unset: time %.17g", t.time_elapsed_from_fill_fraction_table(-1.0));
    // every interval of the table, at, between and beside its nodes
    double prev = 1 + 1e-9;
    static const double at[] = {0, .03, .5, .9};
    for (int i = 0; i < c.n; i++)
        for (double u : at) {
            if (!m.thorough && c.n > 100 && i > 4 && i < c.n - 5 && (i % 4 ? true : u != 0 && u != .5)) continue;
            double x = exp(log(tmin) + h * (i + u));
            if (x > tmax) continue;
            double f = t.fill_fraction_from_time_elapsed_table(x), e = L.fill(x);
            m.transitions++;
            if (!(f >= 0 && f <= 1)) fail("outside [0,1]", "table: after %.17g the fill is %.17g", x, f);
            if (!(fabs(f - e) <= interpolation(F, x, h))) fail("fill table", "table: after %.17g the fill is %.17g, integration gives %.17g", x, f, e);
            if (!(f <= prev + 1e-5)) fail("table not monotonic", "table: after %.17g the fill is %.17g, more than %.17g before", x, f, prev);
            prev = f;
            // round trip
            double y = t.time_elapsed_from_fill_fraction_table(f);
            if (!(y >= 0)) fail("inverse table", "fill %.17g (after %.17g) inverts to %.17g", f, x, y);
            double g = t.fill_fraction_from_time_elapsed_table(y);
            if (!(fabs(g - f) <= 1e-5)) fail("inverse table", "fill %.17g (after %.17g) inverts to %.17g, where the table has %.17g", f, x, y, g);
            m.state(mixd(mixd(7, f), x));
        }
    // outside the range: still fractions, still monotonic, and the inverse still a time
    prev = 1 + 1e-9;
    for (int i = -60; i <= 60; i++) {
        double x = i < 0 ? tmin * exp(i * .3) * (1 + 1e-9) : tmax * exp(i * .3);
        x = i < 0 ? tmin * exp(-(61 + i) * .3) : x;
        if (i < 0) x = tmin * exp((i)*.3);
        double f = t.fill_fraction_from_time_elapsed_table(x);
        m.transitions++;
        if (!(f >= 0 && f <= 1)) fail("outside [0,1]", "outside the table: after %.17g the fill is %.17g", x, f);
        if (!(f <= prev + 1e-5)) fail("table not monotonic", "outside the table: after %.17g the fill is %.17g, more than %.17g before", x, f, prev);
        prev = f;
    }
    for (int i = 0; i <= 400; i++) {
        double f = i <= 200 ? ::pow(.9, i) : 1 - ::pow(.9, i - 200);
        double x = t.time_elapsed_from_fill_fraction_table(f);
        m.transitions++;
        if (!(x >= 0)) fail("inverse table", "fill %.17g inverts to %.17g", f, x);
        if (x >= tmin && x <= tmax) {
            double e = L.fill(x);
            if (!(fabs(e - f) <= interpolation(F, x, h))) fail("inverse table", "fill %.17g inverts to %.17g, where integration gives %.17g", f, x, e);
        }
    }
}
static const std::vector<double> mus = {1e-6, 1e-3, .01, .1, .5, 1, 3, 10, 100, 1e4, 1e9}, sigmas = {.001, .01, .05, .1, .3, .5, 1, 2, 5}, dwells = {.1, 1, 7};
static void run(MC& m) {
    int part = m.pick(3);
    Cfg c;
    c.mu = m.pick(mus);
    c.sigma = m.pick(sigmas);
    c.dwell = m.pick(dwells);
    static const std::vector<int> Ns = {2, 10, 1000}, ns = {1000, 200, 37};
    c.N = m.pick(Ns);
    m.own();
    c.cap = 0;
    c.n = ns[m.pick(c.N == 10 || m.thorough ? 3 : 1)];
    double tmax = std::max(c.N * c.dwell, c.mu * exp(4 * c.sigma));
    if (part == 0) {
        m.desc = show(c);
        ref::LogNormal L(c.mu, c.sigma, 0, c.dwell);
        TrapInstantCaptureContinuum t(10, c.mu, c.sigma);
        if (c.n == 1000) population(m, t, L, c, c.dwell, tmax);
        else t.prep_fill_fraction_and_time_elapsed_tables(c.dwell * 3, tmax * 2, c.n);  // prepared afresh, whatever was tabulated before
        t.prep_fill_fraction_and_time_elapsed_tables(c.dwell, tmax, c.n);
        table(m, t, L, c, c.dwell, tmax);
    } else if (part == 1) {
        static const std::vector<double> caps = {.03, 0, 1, 200};
        c.cap = m.pick(caps);
        m.desc = show(c);
        ref::LogNormal L(c.mu, c.sigma, c.cap, c.dwell);
        TrapSlowCaptureContinuum t(10, c.mu, c.sigma, c.cap);
        double tmin = c.dwell / 30;
        if (c.n == 1000 && c.cap == .03) population(m, t, L, c, tmin, tmax);
        if (c.n == 200 || c.cap != .03) {  // prepared afresh, whatever was tabulated before
            t.prep_fill_fraction_and_time_elapsed_tables(tmin * 3, tmax * 2, c.n);
            t.prep_fill_fraction_after_slow_capture_tables(c.dwell * 2, tmin, tmax, c.n);
        }
        t.prep_fill_fraction_and_time_elapsed_tables(tmin, tmax, c.n);
        t.prep_fill_fraction_after_slow_capture_tables(c.dwell, tmin, tmax, c.n);
        if (c.cap == .03) table(m, t, L, c, tmin, tmax);
        if (c.cap == 0) { m.executions++; return; }
        auto A = [&](double x) { return L.after(x); };
        double h = log(tmax / tmin) / (c.n - 1);
        double full = t.fill_fraction_after_slow_capture_table(0.0), never = t.fill_fraction_after_slow_capture_table(BIG);
        if (!(fabs(full - L.after(0)) <= 1e-5)) fail("after capture: full", "from full traps the table gives %.17g, integration %.17g", full, L.after(0));
        if (!(fabs(never - L.after(tmax * 100)) <= 1e-5)) fail("after capture: empty", "from traps empty for ever the table gives %.17g, integration %.17g", never, L.after(tmax * 100));
        if (c.mu * exp(5 * c.sigma) < tmax && !(fabs(never - L.after(INFINITY)) <= 1e-3)) fail("after capture: empty", "from empty traps the table gives %.17g, integration %.17g", never, L.after(INFINITY));
        if (t.fill_fraction_after_slow_capture_table(-1.0) != 0.0) fail("after capture: edge", "unset traps give %.17g", t.fill_fraction_after_slow_capture_table(-1.0));
        int K = m.thorough ? 4 * c.n : std::min(2 * c.n, 150);
        for (int i = 0; i <= K; i++) {
            double x = exp(log(tmin) + (log(tmax) - log(tmin)) * i / K * (1 - 1e-9));
            double f = t.fill_fraction_after_slow_capture_table(x), e = L.after(x);
            m.transitions++;
            if (!(f >= 0 && f <= 1)) fail("outside [0,1]", "table: slow capture after %.17g gives %.17g", x, f);
            if (!(fabs(f - e) <= interpolation(A, x, h))) fail("after-capture table", "table: slow capture after %.17g gives %.17g, integration %.17g", x, f, e);
            if (i % 10 == 0) {
                double g = t.fill_fraction_after_slow_capture(x, c.dwell);
                if (!(fabs(g - e) <= 2e-5)) fail("after capture", "slow capture after %.17g gives %.17g, integration %.17g", x, g, e);
            }
            m.state(mixd(mixd(9, f), x));
        }
        for (int i = 1; i <= 60; i++)
            for (double x : {tmin * exp(-.3 * i), tmax * exp(.3 * i)}) {
                double f = t.fill_fraction_after_slow_capture_table(x);
                m.transitions++;
                if (!(f >= 0 && f <= 1)) fail("outside [0,1]", "outside the table: slow capture after %.17g gives %.17g", x, f);
            }
    } else {
        // the tables a trap manager prepares: saturate the traps, then let them release step by step
        if (c.n != 1000) throw Skip();
        m.desc = "manager: " + show(c);
        ref::LogNormal L(c.mu, c.sigma, .03, c.dwell);
        Well w{2000, 1000, 1, 0};  // released electrons stay in the notch
        auto drain = [&](auto mgr, double D, double f0, double tol) {
            mgr.n_electrons_released_and_captured(1e7);
            double filled = mgr.n_trapped_electrons_from_watermarks(mgr.watermark_volumes, mgr.watermark_fills) / D;
            if (!(fabs(filled - f0) <= 1e-4)) fail("manager fill", "a saturating cloud fills %.17g of the traps, integration gives %.17g", filled, f0);
            double sum = 0;
            double t0 = 0;
            if (f0 < 1) {  // effective time
                double lo = 0, hi = 1e300;
                for (int i = 0; i < 2000; i++) { double x = lo == 0 && hi > c.mu ? std::min(c.mu, hi / 2) : .5 * (lo + hi); (L.fill(x) > f0 ? lo : hi) = x; }
                t0 = lo;
            }
            for (int k = 1; k < std::min(c.N, 12); k++) {
                sum += mgr.n_electrons_released_and_captured(0);
                double left = f0 - sum / D, e = L.fill(t0 + k * c.dwell);
                m.transitions++;
                if (!(fabs(left - e) <= tol * (1 + k))) fail("manager tables", "after %d steps %.17g of the traps are left filled, integration gives %.17g", k, left, e);
            }
        };
        // traps filled only partly, by a packet too small for them: they release as a population of that fill
        auto partly = [&](auto mgr, double D, double q) {
            double n = 1002, V = .002, sum = 0;
            double took = -mgr.n_electrons_released_and_captured(n), f0 = took / D / V;
            if (!(fabs(took - n) <= 1e-6 * n)) fail("manager fill", "a packet of %g takes %.17g electrons from traps for %g", n, took, n / q);
            double lo = 0, hi = 1e300;
            for (int i = 0; i < 2000; i++) { double x = lo == 0 && hi > c.mu ? std::min(c.mu, hi / 2) : .5 * (lo + hi); (L.fill(x) > f0 ? lo : hi) = x; }
            for (int k = 1; k < std::min(c.N, 6); k++) {
                if ((L.fill(lo + (k - 1) * c.dwell) - L.fill(lo + k * c.dwell)) * D * V > 900) break;  // (more than the notch would be captured again)
                sum += mgr.n_electrons_released_and_captured(0);
                double left = f0 - sum / D / V, e = L.fill(lo + k * c.dwell);
                m.transitions++;
                // what the traps have released, to a part in twenty of it and of a thousandth of what they held
                if (!(fabs(left - e) <= (.05 * (f0 - e) + 1e-3 * f0) * (1 + .2 * k))) fail("manager tables", "traps filled to %.6g: after %d steps %.17g are left filled, integration gives %.17g", f0, k, left, e);
            }
            m.state(mixd(mixd(11, f0), sum));
        };
        Species s{10, c.mu};
        s.sigma = c.sigma;
        for (double q : {.6, .3, .1, .02}) {
            Species d = s;
            d.D = 1002 / .002 / q;
            partly(api::make<TrapManagerInstantCaptureContinuum>({d}, w, c.dwell, c.N + 1), d.D, q);
        }
        drain(api::make<TrapManagerInstantCaptureContinuum>({s}, w, c.dwell, c.N + 1), 10, 1, 2e-3);
        s.cap = .03;
        if (c.mu > .2 * c.dwell) drain(api::make<TrapManagerSlowCaptureContinuum>({s}, w, c.dwell, c.N + 1), 10, L.after(INFINITY), 4e-3);
    }
    m.executions++;
}
#endif

int main(int argc, char** argv) { return mc_main(argc, argv, run); }
