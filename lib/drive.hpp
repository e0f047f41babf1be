// Calling the real readout from the reference's descriptions.
#ifndef DRIVE_HPP
#define DRIVE_HPP
#include <memory>

#include "api.hpp"
#include "readout_ref.hpp"

namespace drive {
using namespace rr;
typedef std::valarray<std::valarray<double>> VImage;

inline VImage to_v(const Image& a) {
    VImage v(std::valarray<double>(0.0, a[0].size()), a.size());
    for (size_t i = 0; i < a.size(); i++)
        for (size_t j = 0; j < a[0].size(); j++) v[i][j] = a[i][j];
    return v;
}
inline Image from_v(const VImage& v) {
    Image a(v.size(), std::vector<double>(v.size() ? v[0].size() : 0));
    for (size_t i = 0; i < v.size(); i++) {
        if (v[i].size() != a[0].size()) mc::fail("shape", "row %d of the output has %d columns", (int)i, (int)v[i].size());
        for (size_t j = 0; j < a[0].size(); j++) a[i][j] = v[i][j];
    }
    return a;
}
inline Image transposed(const Image& a) {
    Image b(a[0].size(), std::vector<double>(a.size()));
    for (size_t i = 0; i < a.size(); i++)
        for (size_t j = 0; j < a[0].size(); j++) b[j][i] = a[i][j];
    return b;
}

// library objects for one clocking direction
struct Dir {
    Mode o;
    std::valarray<double> dwell;
    std::unique_ptr<ROE> roe;
    CCD ccd;
    std::valarray<TrapInstantCapture> ic;
    std::valarray<TrapSlowCapture> sc;
    std::valarray<TrapInstantCaptureContinuum> icco;
    std::valarray<TrapSlowCaptureContinuum> scco;
    bool has_ic, has_sc, has_icco, has_scco;
    bool absent = false;  // only the window is handed over, no read-out electronics, CCD or traps
    template <class M>
    static std::valarray<typename api::Kind<M>::Trap> make(const std::vector<Species>& v) {
        std::vector<typename api::Kind<M>::Trap> t;
        for (auto& s : v) t.push_back(api::Kind<M>::trap(s));
        return std::valarray<typename api::Kind<M>::Trap>(t.data(), t.size());
    }
    Dir(const Mode& o_, const Detector& d, const Traps& t, bool null_when_empty = true) : o(o_), dwell(o.dwell.data(), o.dwell.size()) {
        if (o.type == Standard) roe.reset(new ROE(dwell, o.prescan, o.overscan, o.empty_columns, o.empty_first, o.away, o.integer));
        else if (o.type == Injection) roe.reset(new ROEChargeInjection(dwell, o.prescan, o.overscan, o.empty_columns, o.away, o.integer));
        else roe.reset(new ROETrapPumping(dwell, o.n_pumps, o.empty_first, o.integer));
        std::vector<CCDPhase> ph;
        for (auto& w : d.phases) ph.push_back(api::phase(w));
        std::valarray<CCDPhase> vp(ph.data(), ph.size());
        std::valarray<double> fr(d.frac.data(), d.frac.size());
        ccd = CCD(vp, fr);
        ic = make<TrapManagerInstantCapture>(t.ic);
        sc = make<TrapManagerSlowCapture>(t.sc);
        icco = make<TrapManagerInstantCaptureContinuum>(t.icco);
        scco = make<TrapManagerSlowCaptureContinuum>(t.scco);
        has_ic = !null_when_empty || t.ic.size();
        has_sc = !null_when_empty || t.sc.size();
        has_icco = !null_when_empty || t.icco.size();
        has_scco = !null_when_empty || t.scco.size();
    }
    std::valarray<TrapInstantCapture>* pic() { return has_ic ? &ic : nullptr; }
    std::valarray<TrapSlowCapture>* psc() { return has_sc ? &sc : nullptr; }
    std::valarray<TrapInstantCaptureContinuum>* picco() { return has_icco ? &icco : nullptr; }
    std::valarray<TrapSlowCaptureContinuum>* pscco() { return has_scco ? &scco : nullptr; }
    Image clock(const Image& in) {
        VImage v = to_v(in);
        return from_v(clock_charge_in_one_direction(v, roe.get(), &ccd, pic(), psc(), picco(), pscco(), o.express, o.offset, o.r0, o.r1, o.c0, o.c1, 0, -1,
                                                    o.prune_n, o.prune_f, o.negatives, 0));
    }
};
inline Image run(const Image& in, const Mode& o, const Detector& d, const Traps& t) { return Dir(o, d, t).clock(in); }

// parallel and / or serial (either may be null)
inline Image add(const Image& in, Dir* p, Dir* s, bool negatives = true) {
    VImage v = to_v(in);
    Mode z;
    Dir *pw = p, *sw = s;
    if (p && p->absent) p = nullptr;
    if (s && s->absent) s = nullptr;
    const Mode &a = pw ? pw->o : z, &b = sw ? sw->o : z;
    VImage w = add_cti(v, p ? p->roe.get() : nullptr, p ? &p->ccd : nullptr, p ? p->pic() : nullptr, p ? p->psc() : nullptr, p ? p->picco() : nullptr,
                       p ? p->pscco() : nullptr, a.express, a.offset, a.r0, a.r1, 0, -1, a.prune_n, a.prune_f,
                       s ? s->roe.get() : nullptr, s ? &s->ccd : nullptr, s ? s->pic() : nullptr, s ? s->psc() : nullptr, s ? s->picco() : nullptr,
                       s ? s->pscco() : nullptr, b.express, b.offset, b.r0, b.r1, 0, -1, b.prune_n, b.prune_f, negatives);
    Image same = from_v(v);
    if (same != in) mc::fail("caller's image modified", "add_cti changed its input image");
    return from_v(w);
}
inline Image remove(const Image& in, int n, Dir* p, Dir* s, bool negatives = true) {
    VImage v = to_v(in);
    Mode z;
    Dir *pw = p, *sw = s;
    if (p && p->absent) p = nullptr;
    if (s && s->absent) s = nullptr;
    const Mode &a = pw ? pw->o : z, &b = sw ? sw->o : z;
    VImage w = remove_cti(v, n, p ? p->roe.get() : nullptr, p ? &p->ccd : nullptr, p ? p->pic() : nullptr, p ? p->psc() : nullptr, p ? p->picco() : nullptr,
                          p ? p->pscco() : nullptr, a.express, a.offset, a.r0, a.r1, 0, -1, a.prune_n, a.prune_f,
                          s ? s->roe.get() : nullptr, s ? &s->ccd : nullptr, s ? s->pic() : nullptr, s ? s->psc() : nullptr, s ? s->picco() : nullptr,
                          s ? s->pscco() : nullptr, b.express, b.offset, b.r0, b.r1, 0, -1, b.prune_n, b.prune_f, negatives);
    Image same = from_v(v);
    if (same != in) mc::fail("caller's image modified", "remove_cti changed its input image");
    return from_v(w);
}

// every column over the alphabet
inline Image all_columns(const std::vector<double>& alphabet, int n_rows) {
    size_t n = 1;
    for (int i = 0; i < n_rows; i++) n *= alphabet.size();
    Image a(n_rows, std::vector<double>(n));
    for (size_t c = 0; c < n; c++) {
        size_t x = c;
        for (int r = 0; r < n_rows; r++) {
            a[r][c] = alphabet[x % alphabet.size()];
            x /= alphabet.size();
        }
    }
    return a;
}
inline std::string column(const Image& a, int c) {
    std::string s = "(";
    for (size_t r = 0; r < a.size(); r++) s += api::fmt(r ? " %.10g" : "%.10g", a[r][c]);
    return s + ")";
}
inline std::string show(const Mode& o) {
    std::string s = o.type == Standard ? "standard" : o.type == Injection ? "injection" : "pumping";
    s += api::fmt(" express %d", o.express);
    if (o.type == Pumping) s += api::fmt(" pumps %d", o.n_pumps);
    if (o.offset) s += api::fmt(" offset %d", o.offset);
    if (o.prescan) s += api::fmt(" prescan %d", o.prescan);
    if (o.overscan != -1) s += api::fmt(" overscan from %d", o.overscan);
    if (!o.empty_columns) s += " shared traps";
    if (o.empty_first) s += " empty first";
    if (!o.away) s += " towards allowed";
    if (o.integer) s += " integer";
    if (!o.negatives) s += " no negatives";
    if (o.r0 || o.r1 != -1) s += api::fmt(" rows %d..%d", o.r0, o.r1);
    if (o.c0 || o.c1 != -1) s += api::fmt(" columns %d..%d", o.c0, o.c1);
    if (o.prune_f != 20) s += api::fmt(" prune every %d at %g", o.prune_f, o.prune_n);
    s += " dwell";
    for (double d : o.dwell) s += api::fmt(" %g", d);
    return s;
}
// tolerance for one column
inline double tolerance(const Image& in, int c, const Traps& t, double n_interactions, bool exact_only = false) {
    double s = t.density();
    for (size_t r = 0; r < in.size(); r++) s += fabs(in[r][c]);
    double tol = 1e-9 * s * (1 + 0.01 * n_interactions);
    if (t.continuum() && !exact_only) {
        double d = 0;
        for (auto* v : {&t.icco, &t.scco})
            for (auto& x : *v) d += x.D;
        tol += 4e-3 * d * (1 + n_interactions);  // interpolation in the tables
    }
    return tol;
}
// compare the library's image with an expected one; c: which columns are decided by the reference
inline void compare(const Image& in, const Image& got, const Image& want, const std::vector<char>* skip, const Traps& t, double n_int, const char* cls,
                    const char* against, int c0 = 0, int c1 = -1) {
    if (got.size() != want.size() || got[0].size() != want[0].size()) mc::fail("shape", "output is %d x %d", (int)got.size(), (int)got[0].size());
    if (c1 == -1) c1 = in[0].size();
    for (int c = c0; c < c1; c++) {
        if (skip && (*skip)[c]) continue;
        double tol = tolerance(in, c, t, n_int);
        for (size_t r = 0; r < got.size(); r++)
            if (!(fabs(got[r][c] - want[r][c]) <= tol))
                mc::fail(cls, "column %d %s became %s but %s gives %s", c, column(in, c).c_str(), column(got, c).c_str(), against, column(want, c).c_str());
    }
}
}  // namespace drive
#endif
