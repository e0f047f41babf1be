// Thin layer over the library's public trap-manager interface (only members its own unit tests use).
#ifndef API_HPP
#define API_HPP
#include <gsl/gsl_errno.h>

#include <stdexcept>
#include <valarray>

#include "ccd.hpp"
#include "cti.hpp"
#include "mc.hpp"
#include "ref.hpp"
#include "roe.hpp"
#include "trap_managers.hpp"
#include "traps.hpp"
#include "util.hpp"

namespace api {
using ref::Pop;
using ref::Species;
using ref::Well;

inline CCDPhase phase(const Well& w) { return CCDPhase(w.full, w.notch, w.power, w.fef); }

template <class M>
struct Kind;
template <>
struct Kind<TrapManagerInstantCapture> {
    typedef TrapInstantCapture Trap;
    static const ref::Type type = ref::IC;
    // the library takes the total density and spreads it over the exposed volume
    static Trap trap(const Species& s) { return Trap(s.b > 0 ? s.D * (1 - 0.5 * (s.a + s.b)) : s.D, s.tau, s.a, s.b); }
    static const int per = 1;
};
template <>
struct Kind<TrapManagerSlowCapture> {
    typedef TrapSlowCapture Trap;
    static const ref::Type type = ref::SC;
    static Trap trap(const Species& s) { return Trap(s.D, s.tau, s.cap); }
    static const int per = 2;
};
template <>
struct Kind<TrapManagerInstantCaptureContinuum> {
    typedef TrapInstantCaptureContinuum Trap;
    static const ref::Type type = ref::ICCO;
    static Trap trap(const Species& s) { return Trap(s.D, s.tau, s.sigma); }
    static const int per = 1;
};
template <>
struct Kind<TrapManagerSlowCaptureContinuum> {
    typedef TrapSlowCaptureContinuum Trap;
    static const ref::Type type = ref::SCCO;
    static Trap trap(const Species& s) { return Trap(s.D, s.tau, s.sigma, s.cap); }
    static const int per = 2;
};

template <class M>
M make(const std::vector<Species>& sp, const Well& w, double dwell, int max_n) {
    typedef typename Kind<M>::Trap T;
    std::vector<T> v;
    for (auto& s : sp) v.push_back(Kind<M>::trap(s));
    std::valarray<T> tr(v.data(), v.size());
    M m(tr, max_n, phase(w), dwell);
    m.setup();
    return m;
}

// the same population as the first phase of a two-phase pixel that holds `share` of the traps
template <class M>
struct Phase0;
#define API_PHASE0(M, ic_, sc_, icco_, scco_, member)                                                                          \
    template <>                                                                                                                \
    struct Phase0<M> {                                                                                                         \
        static M get(std::valarray<Kind<M>::Trap> tr, const Well& w, double dwell, int max_n, double share) {                  \
            std::valarray<TrapInstantCapture> ic;                                                                              \
            std::valarray<TrapSlowCapture> sc;                                                                                 \
            std::valarray<TrapInstantCaptureContinuum> icco;                                                                   \
            std::valarray<TrapSlowCaptureContinuum> scco;                                                                      \
            std::valarray<CCDPhase> ph = {phase(w), phase(w)};                                                                 \
            std::valarray<double> fr = {share, 1 - share}, dw = {dwell, dwell};                                                \
            CCD ccd(ph, fr);                                                                                                   \
            return TrapManagerManager(ic_, sc_, icco_, scco_, max_n, ccd, dw).member[0];                                       \
        }                                                                                                                      \
    };
API_PHASE0(TrapManagerInstantCapture, tr, sc, icco, scco, trap_managers_ic)
API_PHASE0(TrapManagerSlowCapture, ic, tr, icco, scco, trap_managers_sc)
API_PHASE0(TrapManagerInstantCaptureContinuum, ic, sc, tr, scco, trap_managers_ic_co)
API_PHASE0(TrapManagerSlowCaptureContinuum, ic, sc, icco, tr, trap_managers_sc_co)
template <class M>
M make_share(const std::vector<Species>& sp, const Well& w, double dwell, int max_n, double share) {
    if (share == 1) return make<M>(sp, w, dwell, max_n);
    typedef typename Kind<M>::Trap T;
    std::vector<T> v;
    for (auto& s : sp) v.push_back(Kind<M>::trap(s));
    return Phase0<M>::get(std::valarray<T>(v.data(), v.size()), w, dwell, max_n, share);
}

// occupancy of a real trap manager as (tops, fills)
template <class M>
struct View {
    std::vector<double> top;
    std::vector<std::vector<double>> f;
    int nt;
    explicit View(const M& m) {
        nt = m.n_traps;
        double z = 0;
        for (int i = m.i_first_active_wmk; i < m.i_first_active_wmk + m.n_active_watermarks; i++) {
            if (i < 0 || i >= (int)m.watermark_volumes.size()) break;
            z += m.watermark_volumes[i];
            top.push_back(z);
            std::vector<double> g;
            for (int k = 0; k < nt; k++) g.push_back(m.watermark_fills[i * nt + k]);
            f.push_back(g);
        }
    }
    double trapped(const std::vector<Species>& sp) const {
        double n = 0, lo = 0;
        for (size_t i = 0; i < top.size(); i++) {
            for (int k = 0; k < nt; k++) n += f[i][k] * (sp[k].W(top[i]) - sp[k].W(lo));
            lo = top[i];
        }
        return n;
    }
    // magnitude for tolerances
    static double scale(const std::vector<Species>& sp) {
        double d = 0;
        for (auto& s : sp) d += s.D;
        return d;
    }
};

// empty string if physically valid
template <class M>
std::string validity(const M& m, const std::vector<Species>& sp) {
    char b[256];
    int n0 = m.i_first_active_wmk, n1 = n0 + m.n_active_watermarks;
    if (n0 < 0 || m.n_active_watermarks < 0 || n1 > (int)m.watermark_volumes.size()) {
        snprintf(b, sizeof b, "levels %d..%d exceed the capacity %d", n0, n1, (int)m.watermark_volumes.size());
        return b;
    }
    double z = 0;
    for (int i = n0; i < n1; i++) {
        double v = m.watermark_volumes[i];
        if (!std::isfinite(v) || v < -1e-12) {
            snprintf(b, sizeof b, "level %d has volume %g", i - n0, v);
            return b;
        }
        z += v;
        for (int k = 0; k < m.n_traps; k++) {
            double f = m.watermark_fills[i * m.n_traps + k];
            if (!std::isfinite(f) || f < -1e-12 * (1 + sp[k].D) || f > sp[k].D * (1 + 1e-9) + 1e-12) {
                snprintf(b, sizeof b, "level %d species %d holds %.12g of density %g", i - n0, k, f, sp[k].D);
                return b;
            }
        }
    }
    if (!(z <= 1 + 1e-9)) {
        snprintf(b, sizeof b, "levels reach height %.12g", z);
        return b;
    }
    return "";
}

// integrated |difference| between the real occupancy and the reference, summed over species
template <class M>
double l1(const View<M>& a, const Pop& p) {
    std::vector<double> z = a.top;
    z.insert(z.end(), p.top.begin(), p.top.end());
    std::sort(z.begin(), z.end());
    double lo = 0, d = 0;
    size_t i = 0, j = 0;
    for (double t : z) {
        if (t <= lo) continue;
        double mid = 0.5 * (lo + t);
        while (i < a.top.size() && a.top[i] < mid) i++;
        while (j < p.top.size() && p.top[j] < mid) j++;
        for (int k = 0; k < a.nt; k++) {
            double x = i < a.top.size() ? a.f[i][k] : 0, y = j < p.top.size() ? p.f[j][k] : 0;
            d += fabs(x - y) * (t - lo);
            if (!(d == d)) return d;
        }
        lo = t;
    }
    return d;
}
template <class M>
double l1(const View<M>& a, const View<M>& b) {
    Pop p;
    p.top = b.top;
    for (auto& g : b.f) {
        ref::F4 x{0, 0, 0, 0};
        for (size_t k = 0; k < g.size() && k < 4; k++) x[k] = g[k];
        p.f.push_back(x);
    }
    return l1(a, p);
}
template <class M>
uint64_t hash(const M& m) {
    uint64_t h = 77 + m.n_active_watermarks;
    for (int i = m.i_first_active_wmk; i < m.i_first_active_wmk + m.n_active_watermarks; i++) {
        if (i < 0 || i >= (int)m.watermark_volumes.size()) break;
        h = mc::mixd(h, m.watermark_volumes[i]);
        for (int k = 0; k < m.n_traps; k++) h = mc::mixd(h, m.watermark_fills[i * m.n_traps + k]);
    }
    return h;
}
inline std::string fmt(const char* f, ...) {
    char b[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
}  // namespace api
#endif
