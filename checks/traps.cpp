// Explicit-state exploration of one real trap population against the height-resolved reference (P01-P06).
// Compiled once per property with -DPROP=n; the operations offered and the judgements made depend on it.
#define MC_MAIN
#include "api.hpp"
using namespace mc;
using namespace api;

#ifndef PROP
#define PROP 1
#endif

struct Config {
    const char* name;
    std::vector<Species> sp;
};
static Species S(double D, double tau) { return Species{D, tau}; }
static Species S(double D, double tau, double cap) { Species s{D, tau}; s.cap = cap; return s; }
static Species C(double D, double tau, double sigma) { Species s{D, tau}; s.sigma = sigma; return s; }
static Species C(double D, double tau, double sigma, double cap) { Species s{D, tau}; s.sigma = sigma; s.cap = cap; return s; }
static Species N(double D, double tau, double a, double b) { Species s{D, tau}; s.a = a; s.b = b; return s; }

static std::vector<Config> ic_sets = {
    {"sparse", {S(10, 1.4427)}},
    {"two", {S(10, 1.4427), S(5, 4)}},
    {"dense", {S(2000, 1.4427)}},
    {"dense2", {S(200, 0.5), S(100, 10)}},
    {"ramp", {N(10, 1.4427, .2, .6)}},
    {"ramp-dense", {N(300, 3, .1, .9), S(10, 1.4427)}},
    {"step", {N(10, 2, .3, .3)}},
    {"very fast", {S(10, 1e-3)}},
    {"frozen", {S(10, 1e30)}},
    {"zero+normal", {S(0, 1), S(10, 2)}},
    {"three", {S(7, .3), S(3, 2), S(90, 30)}},
};
static std::vector<Config> sc_sets = {
    {"sparse", {S(10, 1.4427, .3)}},
    {"slow", {S(10, 5, 4)}},
    {"two", {S(10, 1.4427, .3), S(5, 4, 2)}},
    {"dense", {S(2000, 1.4427, .1)}},
    {"dense2", {S(300, 0.5, .5), S(200, 10, 2)}},
    {"instant", {S(10, 2, 0)}},
    {"very fast", {S(10, 1e-3, .5)}},
    {"frozen", {S(10, 1e30, .5)}},
    {"zero+normal", {S(0, 1, 1), S(10, 2, .5)}},
    {"three", {S(7, .3, .05), S(3, 2, 8), S(90, 30, 1)}},
};
static std::vector<Config> icco_sets = {
    {"sparse", {C(10, 1.4427, .5)}},
    {"narrow", {C(10, 5, .1)}},
    {"two", {C(10, 1.4427, .5), C(5, 6, .3)}},
    {"dense", {C(2000, 1.4427, .5)}},
    {"dense2", {C(300, .7, .2), C(200, 10, .6)}},
    {"fast", {C(10, .1, .3)}},
    {"frozen", {C(10, 1e9, .5)}},
    {"wide", {C(10, 3, 3)}},
    {"ultrafast", {C(10, 1e-3, .2)}},
    {"zero+normal", {C(0, 1, .5), C(10, 2, .5)}},
};
static std::vector<Config> scco_sets = {
    {"sparse", {C(10, 1.4427, .5, .3)}},
    {"slow", {C(10, 5, .2, 4)}},
    {"two", {C(10, 1.4427, .5, .3), C(5, 6, .3, 1)}},
    {"dense", {C(2000, 1.4427, .5, .1)}},
    {"dense2", {C(300, .7, .2, .5), C(200, 10, .6, 2)}},
    {"frozen", {C(10, 1e9, .5, .5)}},
    {"wide", {C(10, 3, 3, .3)}},
    {"ultrafast", {C(10, 1e-3, .2, .5)}},
    {"zero+normal", {C(0, 1, .5, 1), C(10, 2, .5, .5)}},
};

struct WellCfg {
    const char* name;
    Well w;
    std::vector<double> packets;
};
// packet sizes chosen to land below / between / above each other, in the notch, saturating, tiny and negative
static std::vector<WellCfg> wells = {
    {"linear", {1000, 0, 1, 0}, {0, 150, 600, 5, 1500, -5}},
    {"sqrt", {1000, 0, .5, 0}, {0, 40, 400, 1, 2000, -5}},
    {"notch", {1050, 50, .8, 0}, {20, 200, 700, 55, 1200, 0}},
    {"first-electron", {1000, 0, 1, .05}, {0, 150, 600, 2, 1500, 30}},
    {"steep", {84700, 0, .478, 0}, {0, 30, 2000, .5, 90000, -50}},
    {"cubic", {1000, 0, 3, 0}, {0, 500, 800, 50, 1500, 300}},
};

static double scale_of(const std::vector<Species>& sp) {
    double d = 1;
    for (auto& s : sp) d += s.D;
    return d;
}
static bool uniform(const std::vector<Species>& sp) {
    for (auto& s : sp)
        if (s.b > 0) return false;
    return true;
}

template <class M>
static void set_laws(Pop& p, const M& m) { (void)p; (void)m; }
template <class M>
static void laws_from_tables(Pop& p, const M& m) {
    typedef typename Kind<M>::Trap T;
    for (int k = 0; k < m.n_traps; k++) {
        std::shared_ptr<T> t(new T(m.traps[k]));
        ref::ContLaw L;
        L.fill_from_time = [t](double x) { return t->fill_fraction_from_time_elapsed_table(x); };
        L.time_from_fill = [t](double x) { return t->time_elapsed_from_fill_fraction_table(x); };
        p.law.push_back(L);
    }
}
template <>
void set_laws(Pop& p, const TrapManagerInstantCaptureContinuum& m) { laws_from_tables(p, m); }
template <>
void set_laws(Pop& p, const TrapManagerSlowCaptureContinuum& m) {
    laws_from_tables(p, m);
    for (int k = 0; k < m.n_traps; k++) {
        std::shared_ptr<TrapSlowCaptureContinuum> t(new TrapSlowCaptureContinuum(m.traps[k]));
        p.law[k].after_capture = [t](double x) { return t->fill_fraction_after_slow_capture_table(x); };
    }
}

static std::vector<double> prune_levels = {1e-10, .05, 2, -.02};

template <class M>
struct Sys {
    const std::vector<Species>* sp;
    const WellCfg* wc;
    double tol;
    int np;  // packets in use
    M m;
    Pop p, q;  // references: with the library's tables, and with independently integrated populations
    bool useq = false;
    M b;        // P06: unpruned twin
    double moved = 0, drift = 0, saved_trapped = 0;
    bool sync = true, after_prune = false, neg = false;
    std::vector<int> hist, saved;  // P05: effective history
    // all: the species of the whole pixel, sp_: of the part of it that is explored
    Sys(const std::vector<Species>& all, double share, const std::vector<Species>& sp_, const WellCfg& w, double dwell, int max_n, int np)
        : sp(&sp_), wc(&w), np(np), m(make_share<M>(all, w.w, dwell, max_n, share)), b(m) {
        tol = 1e-9 * scale_of(sp_);
        p.type = Kind<M>::type;
        p.sp = sp_;
        p.well = w.w;
        p.dwell = dwell;
        set_laws(p, m);
        q = p;
    }
    int nops() const {
        switch (PROP) {
            case 1:
            case 2: return np + 3 + (int)prune_levels.size() - 1;
            case 3:
            case 4: return np;
            case 5: return np + 4;
            case 6: return np + (int)prune_levels.size();
        }
        return 0;
    }
    bool enabled(int op) const {
        if ((PROP == 1 || PROP == 2) && op >= np + 3) return uniform(*sp) || PROP == 2;
        // several prunes / saves in a row add nothing
        return true;
    }
    uint64_t hash() const { return api::hash(m); }

    void check_valid(const char* what) {
        std::string s = validity(m, *sp);
        if (!s.empty()) fail("invalid occupancy", "after %s: %s", what, s.c_str());
    }
    double packet(MC& mc, M& mm, double n) {
        (void)mc;
        double r = mm.n_electrons_released_and_captured(n);
        if (!std::isfinite(r)) fail("not finite", "packet %g exchanged %g electrons", n, r);
        return r;
    }
    void apply(MC& mc, int op) {
        if (op < np) return apply_packet(mc, wc->packets[op]);
        op -= np;
        if (PROP == 6) return apply_prune(mc, prune_levels[op]);
        if (PROP == 5) return apply_state5(mc, op);
        double t0 = View<M>(m).trapped(*sp);
        if (op == 0) {
            m.store_trap_states();
            saved_trapped = t0;
            if (PROP == 1 && fabs(View<M>(m).trapped(*sp) - t0) > tol) fail("save changed charge", "saving the state changed trapped charge from %.12g", t0);
        } else if (op == 1) {
            m.restore_trap_states();
            if (PROP == 1 && fabs(View<M>(m).trapped(*sp) - saved_trapped) > tol)
                fail("restore", "restored state holds %.12g, saved %.12g", View<M>(m).trapped(*sp), saved_trapped);
        } else if (op == 2) {
            m.reset_trap_states();
            if (PROP == 1 && fabs(View<M>(m).trapped(*sp)) > 0) fail("reset", "emptied traps hold %.12g", View<M>(m).trapped(*sp));
        } else {
            double th = prune_levels[op - 3 + 1];
            m.prune_watermarks(th);
            double t1 = View<M>(m).trapped(*sp);
            if (PROP == 1 && !(fabs(t1 - t0) <= tol)) fail("prune changed charge", "pruning at %g changed trapped charge from %.12g to %.12g", th, t0, t1);
        }
        if (PROP == 2) check_valid(op == 0 ? "save" : op == 1 ? "restore" : op == 2 ? "empty" : "prune");
    }
    void apply_packet(MC& mc, double n) {
        if (PROP == 1) {
            View<M> v0(m);
            double t0 = v0.trapped(*sp);
            double r = packet(mc, m, n);
            View<M> v1(m);
            double t1 = v1.trapped(*sp);
            if (!(fabs(t1 - t0 + r) <= tol * (1 + 1e-3 * fabs(n))))
                fail("charge not conserved", "packet %g: returned %.12g but trapped charge went %.12g -> %.12g (error %.3g)", n, r, t0, t1, t1 - t0 + r);
            // the manager's own count agrees with the occupancy
            if (uniform(*sp)) {
                double c = m.n_trapped_electrons_from_watermarks(m.watermark_volumes, m.watermark_fills);
                if (!(fabs(c - t1) <= tol)) fail("trapped count", "reported trapped charge %.12g, occupancy holds %.12g", c, t1);
                double a = m.n_trapped_electrons_total(), e = m.n_trapped_electrons_per_watermark().sum(), l = 0;
                for (int i = 0; i < m.n_active_watermarks; i++) l += m.n_trapped_electrons_in_watermark(m.i_first_active_wmk + i);
                if (!(fabs(a - t1) <= tol) || !(fabs(e - t1) <= tol) || !(fabs(l - t1) <= tol))
                    fail("trapped count", "reported in all %.12g, over the levels %.12g, level by level %.12g; occupancy holds %.12g", a, e, l, t1);
            }
        } else if (PROP == 2) {
            double r = packet(mc, m, n);
            check_valid("packet");
            if (n >= 0 && !(n + r >= -tol * (1 + fabs(n)))) fail("over-capture", "packet %g ended with %.12g", n, n + r);
        } else if (PROP == 3 || PROP == 4) {
            double r = packet(mc, m, n), e = p.step(n);
            if (p.negative_partial) throw Skip();
            mc.count("conformance_steps");
            if (!(fabs(r - e) <= 20 * tol * (1 + 1e-3 * fabs(n)))) fail("exchange differs", "packet %g: library exchanged %.12g, reference %.12g", n, r, e);
            double d = l1(View<M>(m), p);
            if (!(d <= 20 * tol)) fail("occupancy differs", "packet %g: occupancy differs from the reference by %.6g electrons", n, d);
            if (useq) {
                double e2 = q.step(n);
                if (!q.negative_partial) {
                    double lim = 4e-3 * scale_of(*sp);
                    if (!(fabs(r - e2) <= lim)) fail("exchange differs from population", "packet %g: library exchanged %.12g, integrated population %.12g", n, r, e2);
                    double d2 = l1(View<M>(m), q);
                    if (!(d2 <= lim)) fail("occupancy differs from population", "packet %g: occupancy differs from the integrated population by %.6g", n, d2);
                }
            }
        } else if (PROP == 5) {
            hist.push_back((int)(std::find(wc->packets.begin(), wc->packets.end(), n) - wc->packets.begin()));
            double r = packet(mc, m, n);
            M f = replay(hist, hist.size() - 1);
            double e = f.n_electrons_released_and_captured(n);
            if (!(fabs(r - e) <= 1e-3 * tol)) fail("history leaks", "packet %g: %.15g after save/restore, %.15g on fresh traps with the same history", n, r, e);
            compare5(f);
        } else if (PROP == 6) {
            double r = packet(mc, m, n), e = packet(mc, b, n);
            drift += fabs(r - e);
            if (!(drift <= 3 * moved + 100 * tol)) fail("prune altered later behaviour", "after pruning moved %.6g electrons, later exchanges differ by %.6g", moved, drift);
            std::string s = validity(m, *sp);
            if (!s.empty()) fail("invalid occupancy", "after prune and packet %g: %s", n, s.c_str());
            double d = l1(View<M>(m), View<M>(b));
            if (!(d <= 4 * moved + 100 * tol)) fail("prune altered later occupancy", "after pruning moved %.6g electrons, occupancies differ by %.6g", moved, d);
        }
    }
    M replay(const std::vector<int>& h, size_t n) {
        M f = Kind<M>::type >= 2 ? M(b) : make<M>(*sp, wc->w, p.dwell, m.max_n_transfers);  // b: untouched prototype
        for (size_t i = 0; i < n; i++) {
            if (h[i] >= 0) f.n_electrons_released_and_captured(wc->packets[h[i]]);
            else f.prune_watermarks(.05);
        }
        return f;
    }
    void compare5(M& f) {
        double d = l1(View<M>(m), View<M>(f));
        if (!(d <= 1e-3 * tol)) fail("history leaks", "occupancy differs by %.6g from fresh traps with the same history", d);
    }
    void apply_state5(MC& mc, int op) {
        (void)mc;
        if (op == 0) { m.store_trap_states(); saved = hist; }
        else if (op == 1) { m.restore_trap_states(); hist = saved; }
        else if (op == 2) { m.reset_trap_states(); hist.clear(); }
        else { m.prune_watermarks(.05); hist.push_back(-1); }
        M f = replay(hist, hist.size());
        compare5(f);
    }
    void apply_prune(MC& mc, double th) {
        View<M> v0(m);
        std::vector<double> N, R;
        double lo = 0;
        for (size_t i = 0; i < v0.top.size(); i++) {
            double n = 0, r = 0;
            for (int k = 0; k < v0.nt; k++) n += v0.f[i][k] * (v0.top[i] - lo);
            // what the level would release in one dwell time
            for (int k = 0; k < v0.nt; k++)
                if (v0.f[i][k] > 0) r += (v0.f[i][k] - p.release_fill((size_t)k, v0.f[i][k])) * (v0.top[i] - lo);
            N.push_back(n);
            R.push_back(th > 0 ? n : r);
            lo = v0.top[i];
        }
        double t0 = v0.trapped(*sp);
        m.prune_watermarks(th);
        mc.count("prunes");
        View<M> v1(m);
        double t1 = v1.trapped(*sp);
        std::string s = validity(m, *sp);
        if (!s.empty()) fail("invalid occupancy", "after prune: %s", s.c_str());
        // which levels had to go
        double small = 0;
        int keep = 0;
        bool border = false;
        for (size_t i = 0; i < N.size(); i++) {
            if (i && fabs(R[i] - fabs(th)) < 1e-9 * (1 + fabs(th)) + 1e-14) border = true;
            if (i && R[i] < fabs(th)) small += N[i];
            else keep++;
        }
        if (N.empty() || N[0] <= 0) { keep = (int)N.size(); small = 0; }
        double d = l1(v0, v1);
        if (uniform(*sp)) {
            if (!(fabs(t1 - t0) <= tol)) fail("prune changed charge", "pruning at %g changed trapped charge from %.12g to %.12g", th, t0, t1);
        } else if (!(fabs(t1 - t0) <= 5 * small + tol))
            fail("prune changed charge", "pruning levels holding %g changed trapped charge from %.12g to %.12g", small, t0, t1);
        if (!(d <= 5 * small + tol)) fail("prune displaced too much", "pruning levels holding %g displaced %.6g electrons", small, d);
        if (!border && N.size() && (int)v1.top.size() < keep) fail("prune selection", "%d levels kept at threshold %g, expected at least %d", (int)v1.top.size(), th, keep);
        if (!border && keep == (int)N.size() && d > tol) fail("prune selection", "no level is below the threshold %g, yet %.6g electrons moved", th, d);
        if (keep != (int)N.size()) mc.count("prunes_effective");
        moved += d;
    }
};

template <class M>
static void go(MC& mc, std::vector<Config>& sets, const char* kind) {
    Config& c = sets[mc.pick((int)sets.size())];
    WellCfg& w = wells[mc.pick((int)wells.size())];
    std::vector<double> dwells = {1.0, .37};
    double dwell = dwells[mc.pick(2)];
    // one phase of a pixel whose phases share the traps unequally
    double share = mc.pick(2) ? .3 : 1;
    if (share != 1 && (PROP == 5 || dwell != 1.0 || (&c != &sets[0] && &c != &sets[2]) || (&w != &wells[0] && &w != &wells[2]))) throw Skip();
    std::vector<Species> part = c.sp;
    for (auto& x : part) x.D *= share;
    bool cont = Kind<M>::type >= 2;
    int np = 6, depth;
    switch (PROP) {
        case 1: case 2: np = mc.thorough ? 6 : 5; depth = 5; break;
        case 3: np = 6; depth = mc.thorough ? 8 : 6; break;
        case 4: np = 6; depth = mc.thorough ? 7 : 5; break;
        case 5: np = 3; depth = mc.thorough ? 7 : 5; break;
        default: np = 5; depth = mc.thorough ? 6 : 5;
    }
    if (cont && dwell != 1.0 && !mc.thorough && PROP != 4) throw Skip();
    if (cont && PROP != 4) depth -= 1;
    // a short choice below the configuration so that one configuration is spread over several shards
    int first = mc.pick(np);
    mc.own();
    mc.desc = fmt("%s traps '%s'%s, well '%s', dwell %g, first packet %g, depth %d", kind, c.name, share == 1 ? "" : " (0.3 of them in this phase)", w.name, dwell, w.packets[first], depth);
    if (PROP == 6) {
        // the bound on later drift assumes a cloud height that reacts weakly to single electrons
        double D = 0;
        for (auto& s : part) D += s.D;
        if (D > 120 || !strcmp(w.name, "cubic") || !strcmp(w.name, "steep")) throw Skip();
    }
    // the continuum tables span max_n transfers: the integrated population is compared with a table wide enough
    // for the small fills that slow capture produces
    bool wide = PROP == 4 && (dwell == 1.0 || Kind<M>::type == ref::SCCO);
    Sys<M> s(c.sp, share, part, w, dwell, wide ? 400 : depth, np);
    if (PROP == 4) {
        bool ok = true;
        for (auto& x : part)
            if (x.D > 100 || x.D == 0) ok = false;
        if (w.w.power < 1 || w.w.fef > 0 || !wide) ok = false;
        if (ok) {
            s.useq = true;
            s.q.law.clear();
            for (auto& x : part) s.q.law.push_back(ref::LogNormal(x.tau, x.sigma, x.cap, dwell, dwell / 40, std::max(dwell * 2000, 10 * x.tau * exp(5 * x.sigma))).law());
            mc.count("configs_with_integrated_population");
        }
    }
    mc.count("configurations");
    if (mc.replaying) { s.apply(mc, first); dfs(mc, s, depth - 1); return; }
    mc.transitions++;
    s.apply(mc, first);
    mc.state(s.hash());
    dfs(mc, s, depth - 1);
}

#if PROP == 5
// save / restore / empty / copy on the combined manager (all types, two phases)
struct Multi {
    std::valarray<TrapInstantCapture> a;
    std::valarray<TrapSlowCapture> b;
    std::valarray<TrapInstantCaptureContinuum> c;
    std::valarray<TrapSlowCaptureContinuum> d;
    std::valarray<double> dw;
    CCD ccd;
    int max_n;
    TrapManagerManager t, copy, proto;
    std::vector<int> hist, saved, chist;
    static CCD mkccd() {
        std::valarray<CCDPhase> ph = {CCDPhase(1000, 0, 1, 0), CCDPhase(1000, 0, .5, 0)};
        std::valarray<double> fr = {.6, .4};
        return CCD(ph, fr);
    }
    TrapManagerManager mk() { return TrapManagerManager(a, b, c, d, max_n, ccd, dw); }
    Multi(int mask, int depth) : dw({1.0, .5}), ccd(mkccd()), max_n(depth) {
        if (mask & 1) a = {TrapInstantCapture(10, 1.5), TrapInstantCapture(4, 7)};
        if (mask & 2) b = {TrapSlowCapture(10, 2, .5)};
        if (mask & 4) c = {TrapInstantCaptureContinuum(10, 1.5, .5)};
        if (mask & 8) d = {TrapSlowCaptureContinuum(10, 1.5, .5, .4)};
        proto = mk();
        t = mk();
        copy = t;
    }
    static constexpr double pk[3] = {150, 700, 0};
    int nops() const { return 6 + 4; }  // 3 packets x 2 phases; store restore reset copy
    bool enabled(int) const { return true; }
    static double inter(TrapManagerManager& t, int ph, double n) {
        double r = 0;
        if (t.n_traps_ic) r += t.trap_managers_ic[ph].n_electrons_released_and_captured(n + r);
        if (t.n_traps_sc) r += t.trap_managers_sc[ph].n_electrons_released_and_captured(n + r);
        if (t.n_traps_ic_co) r += t.trap_managers_ic_co[ph].n_electrons_released_and_captured(n + r);
        if (t.n_traps_sc_co) r += t.trap_managers_sc_co[ph].n_electrons_released_and_captured(n + r);
        return r;
    }
    template <class M>
    static double diff(std::valarray<M>& x, std::valarray<M>& y) {
        double s = 0;
        for (size_t i = 0; i < x.size(); i++) s += l1(View<M>(x[i]), View<M>(y[i]));
        return s;
    }
    static double diff(TrapManagerManager& x, TrapManagerManager& y) {
        double s = 0;
        if (x.n_traps_ic) s += diff(x.trap_managers_ic, y.trap_managers_ic);
        if (x.n_traps_sc) s += diff(x.trap_managers_sc, y.trap_managers_sc);
        if (x.n_traps_ic_co) s += diff(x.trap_managers_ic_co, y.trap_managers_ic_co);
        if (x.n_traps_sc_co) s += diff(x.trap_managers_sc_co, y.trap_managers_sc_co);
        return s;
    }
    TrapManagerManager fresh(const std::vector<int>& h) {
        // continuum tables are expensive: start from an untouched prototype there, from scratch otherwise
        TrapManagerManager f = (c.size() || d.size()) ? TrapManagerManager(proto) : mk();
        for (int o : h) inter(f, o / 3, pk[o % 3]);
        return f;
    }
    uint64_t hash() const {
        uint64_t h = 5;
        if (t.n_traps_ic) for (auto& m : t.trap_managers_ic) h = mix(h, api::hash(m));
        if (t.n_traps_sc) for (auto& m : t.trap_managers_sc) h = mix(h, api::hash(m));
        if (t.n_traps_ic_co) for (auto& m : t.trap_managers_ic_co) h = mix(h, api::hash(m));
        if (t.n_traps_sc_co) for (auto& m : t.trap_managers_sc_co) h = mix(h, api::hash(m));
        return h;
    }
    void apply(MC&, int op) {
        if (op < 6) {
            double r = inter(t, op / 3, pk[op % 3]);
            TrapManagerManager f = fresh(hist);
            double e = inter(f, op / 3, pk[op % 3]);
            hist.push_back(op);
            if (!(fabs(r - e) <= 1e-10)) fail("history leaks", "phase %d packet %g exchanged %.15g, fresh traps with the same history %.15g", op / 3, pk[op % 3], r, e);
        } else if (op == 6) { t.store_trap_states(); saved = hist; }
        else if (op == 7) { t.restore_trap_states(); hist = saved; }
        else if (op == 8) { t.reset_trap_states(); hist.clear(); }
        else { copy = t; chist = hist; }
        TrapManagerManager f = fresh(hist);
        double d = diff(t, f);
        if (!(d <= 1e-10)) fail("history leaks", "occupancy differs by %.6g from fresh traps with the same history", d);
        TrapManagerManager g = fresh(chist);
        d = diff(copy, g);
        if (!(d <= 1e-10)) fail("copy affected", "a copy changed by %.6g through operations on the original", d);
    }
};
constexpr double Multi::pk[3];
static void go_multi(MC& mc) {
    int masks[] = {1, 2, 4, 8, 3, 5, 10, 15};
    int mask = masks[mc.pick(8)];
    int first = mc.pick(10);
    mc.own();
    int depth = mask == 1 || mask == 2 || mask == 3 ? (mc.thorough ? 5 : 4) : (mc.thorough ? 4 : 3);
    mc.desc = fmt("combined manager, types mask %d, two phases, depth %d", mask, depth);
    Multi s(mask, depth);
    if (mc.replaying) { s.apply(mc, first); dfs(mc, s, depth - 1); return; }
    mc.transitions++;
    s.apply(mc, first);
    dfs(mc, s, depth - 1);
}
#endif

static void run(MC& mc) {
#if PROP == 3
    int t = mc.pick(2);
#elif PROP == 4
    int t = 2 + mc.pick(2);
#elif PROP == 5
    int t = mc.pick(5);
    if (t == 4) return go_multi(mc);
#else
    int t = mc.pick(4);
#endif
    if (t == 0) go<TrapManagerInstantCapture>(mc, ic_sets, "instant-capture");
    else if (t == 1) go<TrapManagerSlowCapture>(mc, sc_sets, "slow-capture");
    else if (t == 2) go<TrapManagerInstantCaptureContinuum>(mc, icco_sets, "instant-capture continuum");
    else go<TrapManagerSlowCaptureContinuum>(mc, scco_sets, "slow-capture continuum");
}

int main(int argc, char** argv) { return mc_main(argc, argv, run); }
