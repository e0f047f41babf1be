// Exhaustive exploration of small readouts of the real library (P07-P11, P13-P15, P19, P20, P24, P25).
// Compiled once per property with -DPROP=n.
#define MC_MAIN
#include <omp.h>

#include "drive.hpp"
using namespace mc;
using namespace drive;
#ifndef PROP
#define PROP 7
#endif

static Species S(double D, double tau) { return Species{D, tau}; }
static Species S(double D, double tau, double cap) { Species s{D, tau}; s.cap = cap; return s; }
static Species C(double D, double tau, double sigma) { Species s{D, tau}; s.sigma = sigma; return s; }
static Species C(double D, double tau, double sigma, double cap) { Species s{D, tau}; s.sigma = sigma; s.cap = cap; return s; }
static Species N(double D, double tau, double a, double b) { Species s{D, tau}; s.a = a; s.b = b; return s; }

struct TrapCfg { const char* name; Traps t; bool uniform; };
static Traps T(std::vector<Species> ic, std::vector<Species> sc = {}, std::vector<Species> icco = {}, std::vector<Species> scco = {}) {
    Traps t;
    t.ic = ic; t.sc = sc; t.icco = icco; t.scco = scco;
    return t;
}
static std::vector<TrapCfg> trap_sets = {
    {"instant", T({S(10, 1.4427)}), true},
    {"instant+slow", T({S(8, 2)}, {S(12, 1.5, .4)}), true},
    {"two instant", T({S(10, 1.4427), S(5, 6)}), true},
    {"dense instant", T({S(900, 1.2)}), true},
    {"slow", T({}, {S(10, 1.4427, .3)}), true},
    {"two slow", T({}, {S(10, 3, .3), S(5, .6, 2)}), true},
    {"dense slow", T({}, {S(900, 1.2, .2)}), true},
    {"ramp", T({N(30, 2, .2, .7)}), false},
    {"step+uniform", T({N(20, 1, .3, .3), S(5, 3)}), false},
    {"continuum", T({}, {}, {C(10, 2, .5)}), true},
    {"slow continuum", T({}, {}, {}, {C(10, 2, .4, .5)}), true},
    {"all types", T({S(4, 2)}, {S(6, 1, .5)}, {C(5, 3, .3)}, {C(7, 1.5, .4, .3)}), true},
    {"fast", T({S(30, .05)}, {S(20, .1, .05)}), true},
    {"frozen", T({S(30, 1e9)}, {S(20, 1e8, .6)}), true},
};
struct WellCfg { const char* name; Well w; std::vector<double> a; };
static std::vector<WellCfg> wells = {
    {"linear", {1000, 0, 1, 0}, {0, 300, 700, 20, 1400, -30}},
    {"sqrt", {1000, 0, .5, 0}, {0, 100, 600, 5, 1400, -30}},
    {"notch", {1050, 50, .8, 0}, {0, 200, 700, 55, 1200, 20}},
    {"first-electron", {1000, 0, 1, .05}, {0, 300, 700, 20, 1400, 60}},
    {"cubic", {1000, 0, 3, 0}, {0, 600, 900, 200, 1400, 50}},
};
static std::vector<double> alphabet(const WellCfg& w, int n) { return std::vector<double>(w.a.begin(), w.a.begin() + n); }
static Detector single(const Well& w) { return Detector{{w}, {1}}; }
// phases that differ from each other
static Detector detector(const Well& w, int P, bool equal) {
    Detector d;
    double left = 1;
    for (int i = 0; i < P; i++) {
        Well x = w;
        if (!equal && P > 1) { x.full *= 1 + .1 * i; x.power *= 1 + .15 * i; }
        d.phases.push_back(x);
        double f = i == P - 1 ? left : equal ? 1.0 / P : left * (.35 + .1 * i);
        d.frac.push_back(f);
        left -= f;
    }
    return d;
}
static std::vector<double> dwells(int P, bool equal) {
    std::vector<double> d;
    for (int i = 0; i < P; i++) d.push_back(P == 1 ? (equal ? 1 : .6) : equal ? 1.0 / P : .3 + .2 * i);
    return d;
}
static int power_(int b, int e) { int n = 1; while (e--) n *= b; return n; }
// rows and alphabet sizes within a bound on the number of columns
struct Size { int rows, letters; };
static std::vector<Size> sizes(MC& m, int quick_cols, int thorough_cols, int max_rows) {
    std::vector<Size> v;
    int lim = m.thorough ? thorough_cols : quick_cols;
    for (int r = 1; r <= max_rows; r++) {
        int l = 6;
        while (l > 2 && power_(l, r) > lim) l--;
        if (power_(l, r) <= lim * 2) v.push_back({r, l});
    }
    return v;
}
// a column for every pair of bright pixels, on an empty and on a charged background
static Image pairs(const WellCfg& w, int rows, int step) {
    Image v(rows);
    for (int bg = 0; bg < 2; bg++)
        for (int i = 0; i < rows; i++)
            for (int j = i; j < rows; j += step)
                for (int r = 0; r < rows; r++) v[r].push_back(r == i ? w.a[2] : r == j ? w.a[1] : bg ? w.a[3] : 0);
    return v;
}
static void visit(MC& m, const Result& R, const Image& out) {
    m.transitions += R.interactions;
    m.executions += out[0].size();
    uint64_t h = 5;
    for (size_t c = 0; c < out[0].size(); c++) {
        for (size_t r = 0; r < out.size(); r++) h = mixd(h, out[r][c]);
        m.state(h);
    }
}

#if PROP == 7
// ---------------------------------------------------------------- literal CCD
static void run(MC& m) {
    const TrapCfg& t = m.pick(trap_sets);
    const WellCfg& w = m.pick(wells);
    std::vector<Size> z = sizes(m, 300, 4000, 8);
    z.push_back({24, 0});  // long columns: every pair of bright pixels (the default pruning acts every 20 rows)
    if (m.thorough) z.push_back({45, 0});
    Size s = m.pick(z);
    m.own();
    Mode o;
    o.empty_first = true;
    o.dwell = {m.pickb() ? .6 : 1.0};
    int k = m.pick(m.thorough ? 12 : 7);
    static const int off[12] = {0, 1, 0, 3, 0, 2, 0, 0, 1, 0, 5, 2}, pre[12] = {0, 0, 2, 1, 0, 0, 1, 0, 1, 3, 0, 4};
    o.offset = off[k];
    o.prescan = pre[k];
    if (k == 4) o.overscan = std::max(2, s.rows);           // the last row is virtual
    if (k == 5) o.overscan = std::max(1, s.rows / 2 + 2);   // half of them
    if (k == 6) o.overscan = 2;                             // one physical pixel
    if (k == 7) o.overscan = s.rows + 1;
    if (k == 11) o.overscan = 3;
    int v = m.pick(3);
    if (v == 1) { o.prune_f = 1; o.express = 1000; }
    if (v == 2) { o.prune_f = 0; o.negatives = false; o.express = s.rows + o.offset + o.prescan; }
    Image in = s.letters ? all_columns(alphabet(w, s.letters), s.rows) : pairs(w, s.rows, m.thorough ? 1 : 6);
    if (!o.negatives)
        for (auto& r : in)
            for (auto& x : r) x = std::max(x, 0.0);
    m.desc = api::fmt("traps %s, well %s, %d rows, %s", t.name, w.name, s.rows, show(o).c_str());
    Result R = literal(in, o, w.w, t.t);
    Dir d(o, single(w.w), t.t);
    Image got;
    if (v == 0) got = d.clock(in);
    else got = add(in, &d, nullptr, o.negatives);
    compare(in, got, R.image, &R.unspecified, t.t, s.rows + o.offset + o.prescan, "differs from literal CCD", "the literal simulation");
    visit(m, R, got);
    m.count("columns", in[0].size());
}
#endif

#if PROP == 8
// ---------------------------------------------------------------- documented procedure
static void run(MC& m) {
    int part = m.pick(4);
    Mode o;
    int P = 1;
    bool equal = true;
    const TrapCfg* t;
    const WellCfg* w;
    Size s;
    if (part == 0) {
        // every combination of schedule options, a few trap sets
        static const int ts[] = {0, 1, 8, 6, 11};
        t = &trap_sets[ts[m.pick(m.thorough ? 5 : 3)]];
        w = &wells[m.pick(m.thorough ? 5 : 2) * 2 % 5];
        std::vector<Size> z = {{1, 5}, {2, 5}, {3, 4}, {4, 3}, {6, 2}};
        if (m.thorough) z = {{1, 6}, {2, 6}, {3, 5}, {4, 4}, {5, 4}, {6, 3}, {8, 2}};
        s = m.pick(z);
        o.type = m.pick(2);
        o.empty_first = o.type == Standard ? m.pickb() : false;
        o.integer = m.pickb();
        m.own();
        static const int ex[] = {0, 1, 2, 3, 5, 100};
        int e = m.pick(8);
        o.express = e == 6 ? s.rows : e == 7 ? std::max(1, s.rows - 1) : ex[e];
        static const int off[] = {0, 1, 0, 3}, pre[] = {0, 0, 2, 1};
        int k = m.pick(4);
        o.offset = off[k];
        o.prescan = pre[k];
        int ov = m.pick(3);
        o.overscan = ov == 0 ? -1 : ov == 1 ? s.rows : 2;
        o.negatives = m.pickb();
        if (m.thorough || o.negatives) { int f = m.pick(2); o.prune_f = f ? 1 : 20; }
    } else if (part == 1) {
        // every trap set and well
        t = &m.pick(trap_sets);
        w = &m.pick(wells);
        std::vector<Size> z = {{3, 5}, {5, 3}};
        if (m.thorough) z = {{3, 6}, {5, 4}, {7, 2}};
        s = m.pick(z);
        m.own();
        int k = m.pick(6);
        static const int ex[] = {1, 2, 0, 3, 1, 2};
        o.express = ex[k];
        o.empty_first = k == 1 || k == 3;
        o.type = k >= 4 ? Injection : Standard;
        o.integer = k == 3;
        o.dwell = {k % 2 ? .6 : 1};
        o.offset = k == 2 ? 2 : 0;
        o.negatives = k != 0;
    } else if (part == 3) {
        // few rows far from the register, and long columns: multipliers from far below one to the documented maximum
        static const int ts[] = {0, 1, 9, 6, 8, 10, 11};
        t = &trap_sets[ts[m.pick(m.thorough ? 7 : 3)]];
        w = &wells[m.pick(m.thorough ? 5 : 2)];
        std::vector<Size> z = {{2, 4}, {3, 3}, {26, 0}};
        s = m.pick(z);
        o.type = m.pick(2);
        o.empty_first = o.type == Standard ? m.pickb() : false;
        o.integer = m.pickb();
        m.own();
        static const int off[] = {10, 97, 996};
        o.offset = off[m.pick(s.letters ? 3 : 2)];
        if (m.pickb()) { o.prescan = 3; o.overscan = s.rows + o.offset - 1; }
        int N = s.rows + o.offset + o.prescan;
        const int ex[] = {1, 2, 7, N / 2 + 1, N - 1, N, 0};
        o.express = ex[m.pick(s.letters ? 7 : 3)];
        o.negatives = m.pickb();
        if (!s.letters) o.prune_f = 20;
    } else {
        // several phases
        P = 2 + m.pick(3);
        equal = m.pickb();
        static const int ts[] = {0, 1, 5, 7, 11, 3, 9};
        t = &trap_sets[ts[m.pick(m.thorough ? 7 : 5)]];
        w = &wells[m.pick(m.thorough ? 5 : 4)];
        std::vector<Size> z = {{1, 4}, {2, 4}, {3, 3}, {4, 2}};
        if (m.thorough) z = {{1, 6}, {2, 5}, {3, 4}, {4, 3}, {6, 2}};
        s = m.pick(z);
        m.own();
        o.dwell = dwells(P, equal);
        o.type = m.pick(2);
        o.away = m.pickb();
        o.empty_first = o.type == Standard ? m.pickb() : false;
        static const int ex[] = {0, 1, 2};
        o.express = ex[m.pick(3)];
        o.negatives = m.pickb();
        if (o.negatives && m.pickb()) { o.offset = 1; o.prescan = 1; o.overscan = s.rows; o.prune_f = 2; }
    }
    Image in = s.letters ? all_columns(alphabet(*w, s.letters), s.rows) : pairs(*w, s.rows, 5);
    Detector det = P == 1 ? single(w->w) : detector(w->w, P, equal);
    m.desc = api::fmt("traps %s, well %s, %d rows, %d phase(s), %s", t->name, w->name, s.rows, P, show(o).c_str());
    Result R = procedure(in, o, det, t->t);
    Image got = drive::run(in, o, det, t->t);
    double n = s.rows + o.offset + o.prescan;
    compare(in, got, R.image, &R.unspecified, t->t, n * P, "differs from procedure", "the documented procedure");
    visit(m, R, got);
}
#endif

#if PROP == 9
// ---------------------------------------------------------------- charge balance of whole images
static void run(MC& m) {
    int part = m.pick(4);
    const TrapCfg& t = m.pick(trap_sets);
    const WellCfg& w = m.pick(wells);
    Mode o;
    if (part == 0) {  // full accuracy: never more charge, and exactly what the traps do not keep
        if (!t.uniform) throw Skip();
        std::vector<Size> z = sizes(m, 250, 4000, 8);
        Size s = m.pick(z);
        m.own();
        o.empty_first = true;
        o.dwell = {m.pickb() ? .6 : 1.0};
        static const int off[] = {0, 2, 0, 1}, pre[] = {0, 0, 1, 3};
        int k = m.pick(4);
        o.offset = off[k];
        o.prescan = pre[k];
        o.prune_f = k % 2 ? 20 : 2;
        o.negatives = m.pickb();
        Image in = all_columns(alphabet(w, std::min(s.letters, 5)), s.rows);
        m.desc = api::fmt("traps %s, well %s, %d rows, %s", t.name, w.name, s.rows, show(o).c_str());
        Image got = drive::run(in, o, single(w.w), t.t);
        Result L = literal(in, o, w.w, t.t);
        for (size_t c = 0; c < in[0].size(); c++) {
            double a = 0, b = 0, tol = tolerance(in, c, t.t, s.rows, true);
            for (int r = 0; r < s.rows; r++) {
                a += in[r][c];
                b += got[r][c];
                if (!std::isfinite(got[r][c])) fail("not finite", "column %s became %s", column(in, c).c_str(), column(got, c).c_str());
                if (got[r][c] < -tol) fail("negative pixel", "column %s became %s", column(in, c).c_str(), column(got, c).c_str());
            }
            double pixels = s.rows + o.offset + o.prescan;
            if (b > a + tol) fail("charge created", "column %s (total %.12g) became %s (total %.12g)", column(in, c).c_str(), a, column(got, c).c_str(), b);
            double rest = L.trapped[c];
            if (!L.unspecified[c] && !(fabs(a - b - rest) <= tolerance(in, c, t.t, s.rows + pixels)))
                fail("charge balance", "column %s (total %.12g) became %s (total %.12g) but the traps are left with %.12g", column(in, c).c_str(), a, column(got, c).c_str(), b, rest);
            if (a - b > pixels * t.t.density() + tol) fail("charge destroyed", "column %s lost %.12g, more than all traps together can hold", column(in, c).c_str(), a - b);
        }
        m.transitions += in[0].size() * s.rows;
        Result R;
        visit(m, R, got);
        return;
    }
    if (part == 1) {  // enough trailing rows: all of it comes back
        if (!t.uniform || t.t.continuum() || w.w.fef > 0 || w.w.power == .5 || t.t.density() > 100) throw Skip();  // those keep recapturing small packets
        // emptying after each packet takes about log(1e10) release times per row of charge
        double slowest = 0;
        for (auto* v : {&t.t.ic, &t.t.sc})
            for (auto& s : *v) slowest = std::max(slowest, s.tau);
        if (slowest > 10) throw Skip();
        m.own();
        o.empty_first = true;
        o.dwell = {4};
        int rows = 2 + m.pick(2), total = m.thorough ? 110 : 70;
        Image head = all_columns(alphabet(w, 4), rows);
        Image in = head;
        in.resize(total, std::vector<double>(head[0].size(), 0));
        m.desc = api::fmt("traps %s, well %s, %d rows of charge and %d empty", t.name, w.name, rows, total - rows);
        Image got = drive::run(in, o, single(w.w), t.t);
        for (size_t c = 0; c < in[0].size(); c++) {
            double a = 0, b = 0;
            for (int r = 0; r < total; r++) a += in[r][c], b += got[r][c];
            // the last packet released by a pixel may still be travelling: recovered to one part in 1e6
            if (!(fabs(a - b) <= 1e-6 * (a + t.t.density()))) fail("charge not recovered", "column %s (then empty) of total %.12g came back as %.12g", column(head, c).c_str(), a, b);
        }
        m.transitions += in[0].size() * total;
        m.executions += in[0].size();
        return;
    }
    // every mode: finite, and no negative pixels when they are disallowed
    bool pump = part == 3;
    int P = pump ? 2 + m.pick(m.thorough ? 3 : 2) : 1 + m.pick(m.thorough ? 3 : 2);
    m.own();
    bool equal = m.pickb();
    o.dwell = dwells(P, equal);
    o.type = pump ? (int)Pumping : m.pick(2);
    if (pump) {  // the sequence returns along the same phases
        for (int i = 0; i < P; i++) o.dwell.push_back(o.dwell[i]);
        static const int np[] = {50, 3, 1};
        o.n_pumps = np[m.pick(m.thorough ? 3 : 2)];
        o.r0 = m.pick(3);
        o.r1 = o.r0 + 1;
    }
    o.empty_first = o.type == Standard ? m.pickb() : false;
    o.integer = m.pickb();
    static const int ex[] = {1, 2, 0, 4};
    o.express = ex[m.pick(4)];
    o.negatives = m.pickb();
    o.empty_columns = m.pickb();
    int far = pump ? 0 : m.pick(2), big = pump ? 0 : m.pick(2);
    if (pump && !m.thorough && (o.empty_columns != o.negatives || o.express == 2 || (t.t.continuum() && (o.r0 != 1 || o.integer)))) throw Skip();
    if (far) { o.offset = 4; o.prescan = 7; o.overscan = 6; }
    if (!m.thorough && ((big ^ o.integer) || (t.t.continuum() && (o.express + far + o.empty_columns) % 3))) throw Skip();
    Size s = pump ? Size{3, 4} : big ? Size{2, 6} : Size{4, 3};
    Image in = all_columns(alphabet(w, s.letters), s.rows);
    m.desc = api::fmt("traps %s, well %s, %d rows, %s", t.name, w.name, s.rows, show(o).c_str());
    Image got = drive::run(in, o, P == 1 ? single(w.w) : detector(w.w, P, equal), t.t);
    for (size_t c = 0; c < in[0].size(); c++)
        for (int r = 0; r < s.rows; r++) {
            if (!std::isfinite(got[r][c])) fail("not finite", "column %s became %s", column(in, c).c_str(), column(got, c).c_str());
            // a pixel that no transfer touches keeps a negative input
            if (!o.negatives && got[r][c] < 0 && !(in[r][c] < 0)) fail("negative pixel", "column %s became %s", column(in, c).c_str(), column(got, c).c_str());
        }
    m.transitions += in[0].size() * s.rows;
    Result R;
    visit(m, R, got);
}
#endif

#if PROP == 10
// ---------------------------------------------------------------- who can influence whom
static void run(MC& m) {
    const TrapCfg& t = m.pick(trap_sets);
    const WellCfg& w = m.pick(wells);
    Mode o;
    int P = 1 + m.pick(m.thorough ? 4 : 3);
    Size s = P == 1 ? Size{4, 3} : Size{3, 3};
    if (m.thorough && P == 1) s = m.pickb() ? Size{5, 3} : Size{4, 4};
    m.own();
    o.dwell = dwells(P, false);
    o.type = m.pick(2);
    o.empty_first = o.type == Standard ? m.pickb() : false;
    static const int ex[] = {1, 0, 2};
    o.express = ex[m.pick(3)];
    int k = m.pick(3);
    if (k == 1) { o.offset = 2; o.negatives = false; o.prune_f = 1; }
    if (k == 2) { o.prescan = 1; o.overscan = s.rows; o.integer = true; }
    Detector det = P == 1 ? single(w.w) : detector(w.w, P, false);
    std::vector<double> al = alphabet(w, s.letters);
    Image in = all_columns(al, s.rows);
    m.desc = api::fmt("traps %s, well %s, %d rows, %d phase(s), %s", t.name, w.name, s.rows, P, show(o).c_str());
    Image got = drive::run(in, o, det, t.t);
    int n = in[0].size();
    // causality: columns that agree up to row r come out equal up to row r
    // (all pairs of columns that share a prefix are compared with the prefix's first representative)
    for (int len = 1; len < s.rows; len++) {
        std::map<int, int> rep;
        for (int c = 0; c < n; c++) {
            int key = 0;
            for (int r = len - 1; r >= 0; r--) key = key * 10 + (int)(std::find(al.begin(), al.end(), in[r][c]) - al.begin());
            auto it = rep.insert({key, c});
            int c2 = it.first->second;
            double tol = tolerance(in, c, t.t, s.rows, true) + tolerance(in, c2, t.t, s.rows, true);
            for (int r = 0; r < len; r++)
                if (!(fabs(got[r][c] - got[r][c2]) <= tol))
                    fail("later pixel affects earlier", "columns %s and %s agree up to row %d but row %d became %.12g and %.12g", column(in, c).c_str(), column(in, c2).c_str(),
                         len - 1, r, got[r][c], got[r][c2]);
            m.transitions++;
        }
    }
    // every other arrangement of the same columns gives the same columns
    auto same = [&](const Image& im, const std::vector<int>& from, const char* what) {
        Image g = drive::run(im, o, det, t.t);
        m.executions += im[0].size();
        for (size_t c = 0; c < from.size(); c++)
            for (int r = 0; r < s.rows; r++)
                if (!(fabs(g[r][c] - got[r][from[c]]) <= tolerance(in, from[c], t.t, s.rows, true)))
                    fail("depends on other columns", "column %s gives %s %s but %s among all", column(in, from[c]).c_str(), column(g, c).c_str(), what, column(got, from[c]).c_str());
    };
    std::vector<int> rev, rot, one(1);
    for (int c = 0; c < n; c++) {
        rev.push_back(n - 1 - c);
        rot.push_back((c * 2 + 1) % n);
    }
    auto sel = [&](const std::vector<int>& f) {
        Image im(s.rows, std::vector<double>(f.size()));
        for (size_t c = 0; c < f.size(); c++)
            for (int r = 0; r < s.rows; r++) im[r][c] = in[r][f[c]];
        return im;
    };
    same(sel(rev), rev, "in reverse order");
    same(sel(rot), rot, "in another order");
    if (!t.t.continuum())
        for (int c = 0; c < n; c++) {
            one[0] = c;
            same(sel(one), one, "alone");
        }
    else {
        std::vector<int> two = {n / 2, 0};
        same(sel(two), two, "with one other");
    }
    Result R;
    visit(m, R, got);
}
#endif

#if PROP == 11
// ---------------------------------------------------------------- traps shared between columns
static void run(MC& m) {
    const TrapCfg& t = m.pick(trap_sets);
    const WellCfg& w = m.pick(wells);
    Mode o;
    int P = 1 + m.pick(2);
    m.own();
    o.empty_columns = false;
    o.dwell = dwells(P, true);
    o.type = m.pick(2);
    o.empty_first = o.type == Standard ? m.pickb() : false;
    static const int ex[] = {0, 1, 2};
    o.express = ex[m.pick(3)];
    int threads = m.thorough ? 1 + m.pick(4) : m.pickb() ? 3 : 1;
    static const int rows[] = {1, 2, 1, 2}, cols[] = {4, 2, 3, 3};
    int z = m.pick(m.thorough ? 4 : 3);
    int nr = rows[z], nc = cols[z];
    if (m.pickb()) { o.c0 = nc > 2 ? 1 : 0; o.c1 = nc; o.offset = 1; o.prune_f = 1; }
    Detector det = P == 1 ? single(w.w) : detector(w.w, P, true);
    int L = t.t.continuum() ? 2 : m.thorough ? 4 : 3;
    std::vector<double> al = alphabet(w, L);
    Image all = all_columns(al, nr * nc);
    m.desc = api::fmt("traps %s, well %s, %d x %d image, %d phase(s), %d thread(s), %s", t.name, w.name, nr, nc, P, threads, show(o).c_str());
    omp_set_num_threads(threads);
    Dir d(o, det, t.t);
    for (size_t k = 0; k < all[0].size(); k++) {
        Image in(nr, std::vector<double>(nc));
        for (int r = 0; r < nr; r++)
            for (int c = 0; c < nc; c++) in[r][c] = all[r * nc + c][k];
        Result R = procedure(in, o, det, t.t);
        Image got = d.clock(in);
        double total = 0;
        for (auto& r : in)
            for (double x : r) total += fabs(x);
        Traps tt = t.t;
        for (int c = 0; c < nc; c++) {
            bool skip = false;
            for (int q = 0; q <= c; q++) skip |= R.unspecified[q];
            if (skip) continue;
            double tol = 1e-9 * (total + tt.density()) * 2 + (tt.continuum() ? tolerance(in, c, tt, nr * nc * 2) : 0);
            for (int r = 0; r < nr; r++)
                if (!(fabs(got[r][c] - R.image[r][c]) <= tol)) {
                    std::string a, b, e;
                    for (int x = 0; x < nc; x++) a += column(in, x), b += column(got, x), e += column(R.image, x);
                    fail("carry-over wrong", "columns %s became %s but the sequential readout gives %s", a.c_str(), b.c_str(), e.c_str());
                }
        }
        m.transitions += R.interactions;
        m.executions++;
        uint64_t h = 9;
        for (auto& r : got)
            for (double x : r) h = mixd(h, x);
        m.state(h);
    }
    omp_set_num_threads(1);
}
#endif

#if PROP == 13
// ---------------------------------------------------------------- windows
static void run(MC& m) {
    int part = m.pick(2);
    const TrapCfg& t = m.pick(trap_sets);
    const WellCfg& w = m.pick(wells);
    if (part == 0) {
        int rows = 2 + m.pick(m.thorough ? 4 : 3);
        m.own();
        int L = rows <= 3 ? 4 : rows == 4 ? 3 : 2;
        if (m.thorough) L++;
        Mode o;
        o.r0 = m.pick(rows);
        o.r1 = o.r0 + 1 + m.pick(rows - o.r0);
        o.type = m.pick(2);
        o.empty_first = o.type == Standard ? m.pickb() : false;
        static const int ex[] = {0, 1, 2};
        o.express = ex[m.pick(3)];
        int k = m.pick(3);
        if (k == 1) o.offset = 2;
        if (k == 2) { o.prescan = 1; o.overscan = rows; o.integer = true; o.prune_f = 1; }
        Image in = all_columns(alphabet(w, L), rows);
        int n = in[0].size();
        o.c0 = n / 5;
        o.c1 = n - n / 7;
        m.desc = api::fmt("traps %s, well %s, %d rows, %s", t.name, w.name, rows, show(o).c_str());
        Image got = drive::run(in, o, single(w.w), t.t);
        for (int c = 0; c < n; c++)
            for (int r = 0; r < rows; r++)
                if ((r < o.r0 || r >= o.r1 || c < o.c0 || c >= o.c1) && got[r][c] != in[r][c])
                    fail("outside the window changed", "row %d of column %d %s outside the window became %.17g", r, c, column(in, c).c_str(), got[r][c]);
        Result R = procedure(in, o, single(w.w), t.t);
        compare(in, got, R.image, &R.unspecified, t.t, rows + 3, "differs inside window", "the documented procedure", o.c0, o.c1);
        // full accuracy: the same as the window's rows on their own, that much further from the register
        if (o.empty_first && o.express == 0 && o.overscan == -1) {
            Mode q = o;
            q.offset += o.r0;
            q.r0 = 0;
            q.r1 = -1;
            Image sub(in.begin() + o.r0, in.begin() + o.r1), g2 = drive::run(sub, q, single(w.w), t.t);
            Image part_(got.begin() + o.r0, got.begin() + o.r1);
            compare(sub, part_, g2, &R.unspecified, t.t, rows + 3, "differs from rows on their own", "reading those rows out with that offset");
        }
        // the whole image as window
        if (o.r0 == 0 && o.r1 == rows) {
            Mode q = o;
            q.r0 = 0;
            q.r1 = q.c1 = -1;
            q.c0 = 0;
            Image g2 = drive::run(in, q, single(w.w), t.t);
            compare(in, got, g2, nullptr, t.t, rows, "full window differs", "no window", o.c0, o.c1);
        }
        visit(m, R, got);
        return;
    }
    // both directions: the column window of one is the row window of the other
    static const int ts[] = {0, 1, 4, 7, 11};
    if (&t != &trap_sets[0] && &t != &trap_sets[1] && &t != &trap_sets[4] && &t != &trap_sets[7] && !(m.thorough && &t == &trap_sets[11])) throw Skip();
    (void)ts;
    if (&w != &wells[0] && &w != &wells[2] && !m.thorough) throw Skip();
    m.own();
    int nr = 3, nc = 4;
    Mode p, s;
    p.r0 = m.pick(nr); p.r1 = p.r0 + 1 + m.pick(nr - p.r0);
    s.r0 = m.pick(nc); s.r1 = s.r0 + 1 + m.pick(nc - s.r0);
    int which = m.pick(5);  // both, parallel only, serial only (the other without traps), the same with the other absent but for its window
    p.express = m.pick(2); s.express = 2;
    s.empty_columns = m.pickb();
    s.dwell = {.4};
    Mode pc = p, sc = s;
    pc.c0 = s.r0; pc.c1 = s.r1;
    sc.c0 = p.r0; sc.c1 = p.r1;
    Image in = {{10, 700, 0, 300}, {500, 0, 20, 900}, {0, 60, 800, 40}};
    m.desc = api::fmt("traps %s, well %s, parallel rows %d..%d, serial columns %d..%d, %s", t.name, w.name, p.r0, p.r1, s.r0, s.r1,
                      which == 0 ? "both" : which == 1 ? "parallel only" : which == 2 ? "serial only" : which == 3 ? "parallel only, serial window alone" : "serial only, parallel window alone");
    Well w2 = w.w;
    w2.full *= 1.5;
    Traps t2 = t.t;
    for (auto& x : t2.ic) x.D *= 2;
    Dir dp(p, single(w.w), t.t), ds(s, single(w2), t2), np(p, single(w.w), Traps()), ns(s, single(w2), Traps());
    np.absent = ns.absent = which >= 3;
    Dir *a = which == 2 || which == 4 ? &np : &dp, *b = which == 1 || which == 3 ? &ns : &ds;
    if (which >= 3) which -= 2;
    Image got = add(in, a, b);
    // one iteration of removal: the image, less what one readout adds, with the same windows
    Image back = remove(in, 1, a, b);
    for (int c = 0; c < nc; c++)
        for (int r = 0; r < nr; r++) {
            bool inside = r >= p.r0 && r < p.r1 && c >= s.r0 && c < s.r1;
            if (!inside && !(fabs(back[r][c] - in[r][c]) <= 1e-9)) fail("outside the window changed", "removal: pixel (%d,%d) outside the window: %.12g became %.12g", r, c, in[r][c], back[r][c]);
            if (!(fabs(back[r][c] - (2 * in[r][c] - got[r][c])) <= 1e-6)) fail("removal differs", "pixel (%d,%d) is %.12g after removal, expected %.12g", r, c, back[r][c], 2 * in[r][c] - got[r][c]);
        }
    Image want = in;
    bool skip = false;
    if (which != 2) { Result R = procedure(want, pc, single(w.w), t.t); want = R.image; for (char u : R.unspecified) skip |= u; }
    if (which != 1) { Result R = procedure(transposed(want), sc, single(w2), t2); want = transposed(R.image); for (char u : R.unspecified) skip |= u; }
    if (!skip) {
        for (int c = 0; c < nc; c++)
            for (int r = 0; r < nr; r++) {
                bool inside = r >= p.r0 && r < p.r1 && c >= s.r0 && c < s.r1;
                if (!inside && got[r][c] != in[r][c]) fail("outside the window changed", "pixel (%d,%d) outside the window: %.12g became %.12g", r, c, in[r][c], got[r][c]);
                if (!(fabs(got[r][c] - want[r][c]) <= 1e-5 + (t.t.continuum() ? 2 : 0))) fail("differs inside window", "pixel (%d,%d) is %.12g, expected %.12g", r, c, got[r][c], want[r][c]);
            }
    }
    Result R;
    R.interactions = nr * nc;
    visit(m, R, got);
}
#endif

#if PROP == 14
// ---------------------------------------------------------------- offsets, prescan, overscan
static void run(MC& m) {
    const TrapCfg& t = m.pick(trap_sets);
    const WellCfg& w = m.pick(wells);
    int rows = 1 + m.pick(m.thorough ? 5 : 4);
    Mode o;
    int off = m.pick(m.thorough ? 5 : 3), pre = m.pick(m.thorough ? 4 : 2);
    if (!m.thorough) { off = off == 2 ? 3 : off; pre *= 2; }
    m.own();
    int L = rows <= 2 ? 5 : rows == 3 ? 4 : rows == 4 ? 3 : 2;
    o.type = m.pick(2);
    o.empty_first = o.type == Standard ? m.pickb() : false;
    o.integer = !o.empty_first && m.pickb();
    static const int ex[] = {0, 1, 2, 3};
    o.express = ex[m.pick(4)];
    Image in = all_columns(alphabet(w, L), rows);
    Detector det = single(w.w);
    m.desc = api::fmt("traps %s, well %s, %d rows, offset %d prescan %d, %s", t.name, w.name, rows, off, pre, show(o).c_str());
    Mode a = o, b = o;
    a.offset = off; a.prescan = pre;
    b.offset = off + pre;
    Image ga = drive::run(in, a, det, t.t), gb = drive::run(in, b, det, t.t);
    compare(in, ga, gb, nullptr, t.t, rows + off + pre, "offset and prescan do not add", "one offset of the sum");
    Result R = procedure(in, a, det, t.t);
    compare(in, ga, R.image, &R.unspecified, t.t, rows + off + pre, "differs from procedure", "the documented procedure");
    if (o.empty_first || o.type == Injection) {
        // physically prepended empty rows, then discarded
        Image longer(off + pre, std::vector<double>(in[0].size(), 0));
        longer.insert(longer.end(), in.begin(), in.end());
        // first-electron wells: an empty row takes nothing from empty traps
        Image g = drive::run(longer, o, det, t.t);
        Image tail(g.begin() + off + pre, g.end());
        compare(in, ga, tail, &R.unspecified, t.t, rows + off + pre, "differs from prepended rows", "prepending that many empty rows");
    }
    // overscan at every position, also before and beyond the image
    for (int ov = 1; ov <= rows + off + 2; ov++) {
        Mode c = a;
        c.overscan = ov;
        Image gc = drive::run(in, c, det, t.t);
        m.executions += in[0].size();
        Result Rc = procedure(in, c, det, t.t);
        compare(in, gc, Rc.image, &Rc.unspecified, t.t, rows + off + pre, "overscan differs from procedure", api::fmt("the documented procedure with overscan from %d", ov).c_str());
        if (o.type == Standard) {
            if (o.empty_first && o.express == 0) {
                Result Q = literal(in, c, w.w, t.t);
                compare(in, gc, Q.image, &Q.unspecified, t.t, rows + off + pre, "overscan differs from literal CCD", api::fmt("a literal array ending at %d", ov).c_str());
            }
            // rows before it are unaffected (their charge starts in a physical pixel)
            for (int r = 0; r < rows && r + off + 1 <= ov - 1; r++)
                for (size_t k = 0; k < in[0].size(); k++)
                    if (!(fabs(gc[r][k] - ga[r][k]) <= tolerance(in, k, t.t, rows + off + pre, true)))
                        fail("overscan affects earlier rows", "overscan from %d: row %d of %s became %.12g, without overscan %.12g", ov, r, column(in, k).c_str(), gc[r][k], ga[r][k]);
        }
        m.transitions += Rc.interactions;
    }
    visit(m, R, ga);
}
#endif

#if PROP == 15
// ---------------------------------------------------------------- directions
static Mode options(int k, int n) {
    // settings of one direction; k enumerates which of them is unusual
    Mode o;
    switch (k) {
        case 0: break;
        case 1: o.express = 1; break;
        case 2: o.offset = 3; break;
        case 3: o.empty_first = true; break;
        case 4: o.prune_n = 3; o.prune_f = 1; break;
        case 5: o.type = Injection; break;
        case 6: o.prescan = 2; o.overscan = n; break;
        case 7: o.dwell = {.3}; break;
        case 8: o.empty_columns = false; break;
        case 9: o.integer = true; o.express = 2; break;
        case 10: o.dwell = {.3, .5}; o.away = false; break;
        case 11: o.dwell = {.3, .5, .4}; break;
        case 12: o.prune_n = 1e-10; o.prune_f = 0; break;
    }
    return o;
}
static void run(MC& m) {
    static const int ts[] = {0, 1, 4, 8, 11};
    const TrapCfg& tp = trap_sets[ts[m.pick(m.thorough ? 5 : 4)]];
    const TrapCfg& tq = trap_sets[ts[m.pick(m.thorough ? 5 : 4)]];
    m.own();
    static const int nrs[] = {2, 3, 1, 4}, ncs[] = {3, 2, 4, 1};
    int z = m.pick(4), nr = nrs[z], nc = ncs[z];
    int kp = m.pick(13), ks = m.pick(13);
    if (!m.thorough && kp && ks && (kp + ks) % 4) throw Skip();
    const WellCfg &wp = wells[m.thorough ? m.pick(3) : 0], &ws = wells[1];
    Mode p = options(kp, nr), s = options(ks, nc);
    bool neg = m.pickb();
    Detector dp = detector(wp.w, p.n_phases(), false), dsr = detector(ws.w, s.n_phases(), false);
    m.desc = api::fmt("parallel: traps %s, %s; serial: traps %s, %s; %d x %d", tp.name, show(p).c_str(), tq.name, show(s).c_str(), nr, nc);
    Dir P(p, dp, tp.t), Q(s, dsr, tq.t), Q2(s, dsr, tq.t);
    static const double px[] = {0, 700, 40, 1300, 5, 300, 0, 900, 100, 0, 60, 500, 20, 800};
    for (int rot = 0; rot < (m.thorough ? 14 : 5); rot++) {
        Image in(nr, std::vector<double>(nc));
        for (int r = 0; r < nr; r++)
            for (int c = 0; c < nc; c++) in[r][c] = px[(r * nc + c + rot * 3) % 14];
        auto near = [&](const Image& a, const Image& b, const char* cls, const char* what) {
            for (int r = 0; r < nr; r++)
                for (int c = 0; c < nc; c++)
                    if (!(fabs(a[r][c] - b[r][c]) <= 1e-7 * (1 + fabs(b[r][c])))) fail(cls, "pixel (%d,%d): %.12g but %s gives %.12g", r, c, a[r][c], what, b[r][c]);
        };
        Image par = add(in, &P, nullptr, neg), ser = add(in, nullptr, &Q, neg), both = add(in, &P, &Q, neg);
        near(ser, transposed(add(transposed(in), &Q2, nullptr, neg)), "serial is not transposed parallel", "parallel clocking of the transposed image");
        near(both, add(par, nullptr, &Q, neg), "both directions", "parallel, then serial on its result");
        Mode pm = p;
        pm.negatives = neg;
        near(par, Dir(pm, dp, tp.t).clock(in), "parallel direction", "clocking in one direction with those parameters");
        m.executions += 3;
        m.transitions += 3 * nr * nc;
        uint64_t h = 3;
        for (auto& r : both)
            for (double x : r) h = mixd(h, x);
        m.state(h);
        // one set of objects for both directions
        if (ks == 0) {
            Dir P1(p, dp, tp.t);
            near(add(in, &P, &P, neg), transposed(add(transposed(par), &P1, nullptr, neg)), "both directions with the same objects", "parallel, then serial with objects of its own");
        }
        // no traps given for a direction: that direction is left out, whatever its other parameters
        Dir P0(p, dp, Traps()), Q0(s, dsr, Traps());
        near(add(in, &P, &Q0, neg), par, "serial without traps", "leaving it out");
        near(add(in, &P0, &Q, neg), ser, "parallel without traps", "leaving it out");
    }
}
#endif

#if PROP == 19
// ---------------------------------------------------------------- trap pumping
static void run(MC& m) {
    const TrapCfg& t = m.pick(trap_sets);
    const WellCfg& w = m.pick(wells);
    int P = 2 + m.pick(3);  // the documented sequences have at least two phases
    if (P == 4 && t.t.continuum() && !m.thorough) throw Skip();
    if (!m.thorough && (&w == &wells[2] || &w == &wells[4]) && P != 2) throw Skip();
    m.own();
    bool equal = m.pickb();
    Mode o;
    o.type = Pumping;
    // the sequence returns along the same phases
    o.dwell = dwells(P, equal);
    for (int i = 0; i < P; i++) o.dwell.push_back(o.dwell[i]);
    o.n_pumps = 1 + m.pick(m.thorough ? 7 : 5);
    int e = m.pick(4);
    o.express = e == 3 ? std::max(1, o.n_pumps - 1) : e;
    bool columns;
    if (m.thorough) {
        o.empty_first = m.pickb();
        o.integer = m.pickb();
        o.negatives = m.pickb();
        if (m.pickb()) o.prune_f = 1;
        columns = m.pickb();
    } else {
        // every pair of options in some combination
        static const int mix[6] = {0b00000, 0b10110, 0b01101, 0b11011, 0b00111, 0b11100};
        int k = mix[m.pick(6)];
        if (t.t.continuum() && (o.n_pumps + e + k) % 3) throw Skip();
        o.empty_first = k & 1; o.integer = k & 2; o.negatives = k & 4;
        if (k & 8) o.prune_f = 1;
        columns = k & 16;
    }
    int rows = 1 + m.pick(3);
    o.r0 = m.pick(rows);
    o.r1 = o.r0 + 1;
    int L = rows == 3 ? 3 : 4;
    if (m.thorough) L++;
    Detector det = detector(w.w, P, equal);
    Image in = all_columns(alphabet(w, L), rows);
    int n = in[0].size();
    if (columns) { o.c0 = n / 3; o.c1 = n - 1; }
    m.desc = api::fmt("traps %s, well %s, %d rows, %d phases, %s", t.name, w.name, rows, P, show(o).c_str());
    Image got = drive::run(in, o, det, t.t);
    int c1 = o.c1 == -1 ? n : o.c1;
    for (int c = 0; c < n; c++)
        for (int r = 0; r < rows; r++) {
            if (!std::isfinite(got[r][c])) fail("not finite", "column %s became %s", column(in, c).c_str(), column(got, c).c_str());
            if ((abs(r - o.r0) > 1 || c < o.c0 || c >= c1) && got[r][c] != in[r][c])
                fail("other pixels touched", "row %d of column %d %s became %.17g", r, c, column(in, c).c_str(), got[r][c]);
        }
    int E = o.express == 0 ? o.n_pumps : std::min(o.express, o.n_pumps);
    Result R = procedure(in, o, det, t.t);
    compare(in, got, R.image, &R.unspecified, t.t, o.n_pumps * P * 2, "differs from procedure", "the documented procedure", o.c0, c1);
    if (E == o.n_pumps) {
        Result Q = pump(in, o, det, t.t);
        compare(in, got, Q.image, &Q.unspecified, t.t, o.n_pumps * P * 2, "differs from literal pumping", "literal pump cycles", o.c0, c1);
        if (rows == 3 && o.r0 == 1 && o.negatives && t.uniform)
            for (int c = o.c0; c < c1; c++) {
                if (Q.unspecified[c]) continue;
                double a = 0;
                for (int r = 0; r < rows; r++) a += in[r][c] - got[r][c];
                if (!(a >= -tolerance(in, c, t.t, 10) && a <= t.t.density() + tolerance(in, c, t.t, 10))) fail("charge balance", "column %s lost %.12g", column(in, c).c_str(), a);
            }
    }
    visit(m, R, got);
}
#endif

#if PROP == 20
// ---------------------------------------------------------------- removal
static void run(MC& m) {
    int part = m.pick(2);
    if (part == 0) {
        static const int ts[] = {0, 1, 4, 8, 11, 3};
        const TrapCfg& tp = trap_sets[ts[m.pick(m.thorough ? 6 : 4)]];
        const TrapCfg& tq = trap_sets[ts[m.pick(m.thorough ? 6 : 4)]];
        m.own();
        int which = m.pick(3);  // parallel, serial, both
        int n = m.pick(m.thorough ? 6 : 5);
        bool neg = m.pickb();
        int k = m.pick(8);
        Mode p, s;
        s.dwell = {.4};
        p.express = 2;
        switch (k) {
            case 1: p.express = 1; s.express = 3; break;
            case 2: p.offset = 4; s.offset = 1; break;
            case 3: p.r0 = 1; s.r0 = 0; s.r1 = 2; break;
            case 4: p.r1 = 2; s.r0 = 1; break;
            case 5: p.prune_n = 2; p.prune_f = 1; s.prune_n = .5; s.prune_f = 2; break;
            case 6: s.empty_columns = false; p.empty_first = true; p.express = 0; break;
            case 7: p.type = Injection; s.prescan = 3; s.overscan = 2; break;
        }
        const WellCfg &wp = wells[0], &ws = wells[1];
        Dir P(p, single(wp.w), tp.t), Q(s, single(ws.w), tq.t), P0(p, single(wp.w), Traps()), Q0(s, single(ws.w), Traps());
        Dir *a = which == 1 ? &P0 : &P, *b = which == 0 ? &Q0 : &Q;
        m.desc = api::fmt("%d iterations, parallel: traps %s, %s; serial: traps %s, %s; %s%s", n, tp.name, show(p).c_str(), tq.name, show(s).c_str(),
                          which == 0 ? "parallel" : which == 1 ? "serial" : "both", neg ? "" : ", no negatives");
        static const double px[] = {0, 700, 40, 1300, 5, 300, 0, 900, 100, -20, 60, 500, 20, 8};
        for (int rot = 0; rot < (m.thorough ? 14 : 5); rot++) {
            Image in(3, std::vector<double>(2));
            for (int r = 0; r < 3; r++)
                for (int c = 0; c < 2; c++) in[r][c] = px[(r * 2 + c + rot * 3) % 14];
            Image got = drive::remove(in, n, a, b, neg);
            Image x = in;
            for (int i = 0; i < n; i++) {
                Image y = add(x, a, b, neg);
                for (int r = 0; r < 3; r++)
                    for (int c = 0; c < 2; c++) {
                        x[r][c] += in[r][c] - y[r][c];
                        if (!neg && x[r][c] < 0) x[r][c] = 0;
                    }
                m.transitions++;
            }
            m.executions++;
            uint64_t h = 3;
            for (int r = 0; r < 3; r++)
                for (int c = 0; c < 2; c++) {
                    h = mixd(h, got[r][c]);
                    if (n == 0 && got[r][c] != in[r][c]) fail("zero iterations", "pixel (%d,%d) changed from %.12g to %.12g", r, c, in[r][c], got[r][c]);
                    if (!(fabs(got[r][c] - x[r][c]) <= 1e-8 * (1 + fabs(x[r][c])) * pow(2, n))) fail("not the iteration", "pixel (%d,%d) is %.12g, iterating add_cti gives %.12g", r, c, got[r][c], x[r][c]);
                }
            m.state(h);
        }
        return;
    }
    // convergence towards the original for trails small compared with the signal
    const TrapCfg& t = m.pick(trap_sets);
    const WellCfg& w = m.pick(wells);
    int which = m.pick(3);
    m.own();
    Traps ts = t.t;
    for (auto* v : {&ts.ic, &ts.sc, &ts.icco, &ts.scco})
        for (auto& s : *v) s.D *= 2.0 / t.t.density();  // two traps per pixel against hundreds of electrons
    Mode p, s;
    p.empty_first = s.empty_first = true;
    int ex = m.pick(2);
    p.express = s.express = ex;
    Dir P(p, single(w.w), ts), Q(s, single(w.w), ts);
    Dir *a = which == 1 ? nullptr : &P, *b = which == 0 ? nullptr : &Q;
    m.desc = api::fmt("convergence: traps %s (sparse), well %s, express %d, %s", t.name, w.name, ex, which == 0 ? "parallel" : which == 1 ? "serial" : "both");
    static const double px[] = {100, 700, 340, 900, 205, 300, 150, 820, 100, 410, 260, 500, 220, 810};
    for (int rot = 0; rot < 14; rot++) {
        Image truth(3, std::vector<double>(3));
        for (int r = 0; r < 3; r++)
            for (int c = 0; c < 3; c++) truth[r][c] = px[(r * 3 + c + rot) % 14];
        Image obs = add(truth, a, b);
        double last = 1e300;
        for (int n = 0; n <= 6; n++) {
            Image x = drive::remove(obs, n, a, b);
            double e = 0;
            for (int r = 0; r < 3; r++)
                for (int c = 0; c < 3; c++) e = std::max(e, fabs(x[r][c] - truth[r][c]));
            if (e > last * .7 + 1e-6) fail("does not converge", "after %d iterations the error is %g, before it was %g", n, e, last);
            last = e;
            m.executions++;
            m.transitions++;
        }
        m.state(mixd(rot, last));
    }
}
#endif

#if PROP == 24
// ---------------------------------------------------------------- no traps, no change; no side effects
static std::string snap(const Dir& d) {
    std::string s;
    auto v = [&](const std::valarray<double>& a) { for (double x : a) s += api::fmt("%.17g ", x); s += "/"; };
    const ROE& r = *d.roe;
    v(r.dwell_times);
    s += api::fmt("%d %d %d %d %d %d %d %d %d/", r.prescan_offset, r.overscan_start, (int)r.empty_traps_between_columns, (int)r.empty_traps_for_first_transfers,
                  (int)r.force_release_away_from_readout, (int)r.use_integer_express_matrix, (int)r.type, r.n_pumps, r.n_phases);
    v(d.ccd.fraction_of_traps_per_phase);
    for (auto& p : d.ccd.phases) s += api::fmt("%.17g %.17g %.17g %.17g/", p.full_well_depth, p.well_notch_depth, p.well_fill_power, p.first_electron_fill);
    for (auto& t : d.ic) s += api::fmt("%.17g %.17g %.17g %.17g/", t.density, t.release_timescale, t.fractional_volume_none_exposed, t.fractional_volume_full_exposed);
    for (auto& t : d.sc) s += api::fmt("%.17g %.17g %.17g/", t.density, t.release_timescale, t.capture_timescale);
    for (auto& t : d.icco) s += api::fmt("%.17g %.17g %.17g/", t.density, t.release_timescale, t.release_timescale_sigma);
    for (auto& t : d.scco) s += api::fmt("%.17g %.17g %.17g %.17g/", t.density, t.release_timescale, t.release_timescale_sigma, t.capture_timescale);
    return s;
}
// a call depends on its arguments and the present settings of its objects only, whatever they were in earlier calls
static void settings(MC& m) {
    static const int ts[] = {0, 1, 7, 11};
    const TrapCfg& t = trap_sets[ts[m.pick(4)]];
    int k = m.pick(m.thorough ? 6 : 4);
    const int N = 19;
    int a = m.pick(N);
    m.own();
    Mode o;
    if (k == 1) { o.express = 2; o.empty_first = true; o.dwell = {.5}; }
    if (k == 2) { o.type = Injection; o.prescan = 1; o.express = 1; }
    if (k == 3) { o.dwell = {.3, .5}; o.express = 1; o.empty_columns = false; }
    if (k == 4) { o.integer = true; o.express = 2; o.overscan = 3; }
    if (k == 5) { o.dwell = {.2, .3, .4, .3}; o.empty_first = true; o.away = false; }
    WellCfg& w = wells[k % 2 ? 0 : 3];
    Detector det = detector(w.w, o.n_phases(), true), det2 = detector(wells[1].w, o.n_phases(), false);
    Image in = {{0, 700, 900}, {300, 0, 20}, {0, 1200, 0}}, more = in;
    more.push_back({40, 0, 300});
    auto call = [&](int v, Dir& d) {
        Mode keep = d.o;
        ROE& r = *d.roe;
        int pre = r.prescan_offset, over = r.overscan_start;
        bool ef = r.empty_traps_for_first_transfers, it = r.use_integer_express_matrix, ec = r.empty_traps_between_columns, aw = r.force_release_away_from_readout;
        std::valarray<double> dw = r.dwell_times;
        CCD ccd = d.ccd;
        auto ic = d.ic;
        const Image* x = &in;
        bool serial = false, neg = true;
        switch (v) {
            case 1: d.o.offset += 2; break;
            case 2: d.o.express = d.o.express == 1 ? 2 : 1; break;
            case 3: d.o.express = 0; break;
            case 4: d.o.prune_f = 1; d.o.prune_n = 1; break;
            case 5: neg = false; break;
            case 6: x = &more; break;
            case 7: d.o.r0 = 1; break;
            case 8: d.o.r1 = 2; break;
            case 9: serial = true; break;
            case 10: r.prescan_offset += 2; break;
            case 11: r.overscan_start = 2; break;
            case 12: r.empty_traps_for_first_transfers = !ef; break;
            case 13: r.use_integer_express_matrix = !it; break;
            case 14: r.empty_traps_between_columns = !ec; break;
            case 15: r.dwell_times = r.dwell_times * 3.0; break;
            case 16: d.ccd = CCD(Dir(o, det2, t.t).ccd); break;
            case 17: d.ic[0].density *= 4; break;
            case 18: r.force_release_away_from_readout = !aw; break;
            default: break;
        }
        Image got = serial ? transposed(add(transposed(*x), nullptr, &d, neg)) : add(*x, &d, nullptr, neg);
        d.o = keep;
        r.prescan_offset = pre; r.overscan_start = over;
        r.empty_traps_for_first_transfers = ef; r.use_integer_express_matrix = it; r.empty_traps_between_columns = ec; r.force_release_away_from_readout = aw;
        r.dwell_times = dw;
        d.ccd = ccd;
        d.ic = ic;
        return got;
    };
    static std::map<int, std::vector<Image>> fresh;
    m.desc = api::fmt("traps %s, well %s, %s", t.name, w.name, show(o).c_str());
    int key = (int)(&t - &trap_sets[0]) * 10 + k;
    if (!fresh.count(key))
        for (int v = 0; v < N; v++) { Dir d(o, det, t.t); fresh[key].push_back(call(v, d)); }
    std::vector<Image>& want = fresh[key];
    int len = t.t.continuum() ? 2 : 3;
    std::vector<int> seq = {a, m.pick(N)};
    if (len == 3) seq.push_back(m.thorough ? m.pick(N) : m.pickb() ? a : 0);
    Dir d(o, det, t.t);
    for (int i = 0; i < len; i++) {
        Image x = call(seq[i], d);
        for (size_t r = 0; r < x.size(); r++)
            for (size_t c = 0; c < x[0].size(); c++)
                if (!(fabs(x[r][c] - want[seq[i]][r][c]) <= 1e-10 * (1 + fabs(x[r][c]))))
                    fail("depends on earlier settings", "call %d with change %d after change %d: pixel (%d, %d) is %.12g, %.12g with the same settings on fresh objects", i, seq[i], i ? seq[i - 1] : -1,
                         (int)r, (int)c, x[r][c], want[seq[i]][r][c]);
        m.transitions++;
        m.executions++;
    }
    uint64_t h = key;
    for (int x : seq) h = mix(h, x);
    m.state(h);
}
static void run(MC& m) {
    int part = m.pick(4);
    if (part == 3) return settings(m);
    if (part == 0) {
        int kind = m.pick(4);  // zero density, no exposed volume (notch), no exposed volume (trap position), null pointers
        const TrapCfg& t = m.pick(trap_sets);
        Traps z = t.t;
        Well w = {1000, 0, .5, kind == 0 ? .05 : 0};
        std::vector<double> al = {0, 300, 1400, -30};
        if (kind == 0)
            for (auto* v : {&z.ic, &z.sc, &z.icco, &z.scco})
                for (auto& s : *v) s.D = 0;
        if (kind == 1) { w.notch = 400; w.full = 2000; al = {0, 400, 399, -30}; }
        if (kind == 2) {
            if (!t.t.sc.empty() || t.t.continuum()) throw Skip();
            for (auto& s : z.ic) { s.a = .6; s.b = &t == &trap_sets[7] ? .6 : .9; }
            al = {0, 300, 355, -30};
            w.power = .5;
        }
        if (kind == 3) z = Traps();
        m.own();
        int P = 1 + m.pick(3);
        bool equal = m.pickb();
        Mode o;
        o.dwell = dwells(P, equal);
        o.type = m.pick(P > 1 ? 3 : 2);
        o.empty_first = o.type != Injection ? m.pickb() : false;
        o.empty_columns = m.pickb();
        static const int ex[] = {0, 1, 2};
        o.express = ex[m.pick(3)];
        int rows = 3;
        o.negatives = m.pickb();
        if (!o.negatives) al.pop_back();
        if (o.type == Pumping) {
            std::vector<double> d = o.dwell;
            o.dwell.insert(o.dwell.end(), d.begin(), d.end());
            o.n_pumps = 3;
            o.r0 = 1;
            o.r1 = 2;
        } else if (m.pickb()) { o.offset = 2; o.prescan = 1; o.overscan = 3; o.prune_f = 1; }
        if (!m.thorough && t.t.continuum() && (P + o.express + o.type + equal + o.negatives) % 4) throw Skip();
        Image in = all_columns(al, rows);
        Detector det = detector(w, P, true);
        static const char* what[] = {"zero density", "charge below the notch", "charge below the traps", "no traps"};
        m.desc = api::fmt("traps %s (%s), %d rows, %d phase(s), %s", t.name, what[kind], rows, P, show(o).c_str());
        auto same = [&](const Image& g, const char* call) {
            for (size_t c = 0; c < in[0].size(); c++)
                for (int r = 0; r < rows; r++)
                    if (g[r][c] != in[r][c]) fail("changed without traps", "%s: column %s became %s", call, column(in, c).c_str(), column(g, c).c_str());
        };
        Dir d(o, det, z, kind == 3);
        if (kind != 3) same(d.clock(in), "one direction");
        if (o.type != Pumping) {
            same(add(in, &d, nullptr, o.negatives), "add_cti");
            same(transposed(add(transposed(in), nullptr, &d, o.negatives)), "add_cti (serial)");
            for (int n = 0; n < 4; n++) same(drive::remove(in, n, &d, nullptr, o.negatives), "remove_cti");
        }
        m.executions += 6;
        m.transitions += in[0].size() * 6;
        m.state(mix(kind * 7 + P, (uint64_t)o.express + 3 * o.type));
        return;
    }
    // a history of calls on shared objects; every call must give what it gives on fresh ones
    static const int ts[] = {0, 1, 4, 7, 8, 11};
    const TrapCfg& t = trap_sets[ts[m.pick(6)]];
    const WellCfg& w = wells[m.pick(m.thorough ? 5 : 2)];
    int k = m.pick(4);
    m.own();
    Mode p, q;
    q.dwell = {.4};
    q.express = 2;
    if (k == 1) { p.empty_columns = false; p.express = 1; q.empty_first = true; q.express = 0; }
    if (k == 2) { p.type = Injection; p.prescan = 2; p.overscan = 3; q.offset = 3; }
    if (k == 3) { p.dwell = {.3, .5}; p.integer = true; q.dwell = {.2, .3, .4}; }
    Detector dp = detector(w.w, p.n_phases(), true), dq = detector(w.w, q.n_phases(), false);
    Image a = {{0, 700}, {300, 0}, {0, 1200}}, b = {{500, 20, 0, 900, -30}};
    const int OPS = 6;
    auto call = [&](int op, Dir& P, Dir& Q) {
        switch (op) {
            case 0: return add(a, &P, nullptr);
            case 1: return add(b, nullptr, &Q);
            case 2: return add(a, &P, &Q);
            case 3: return drive::remove(b, 2, &P, &Q);
            case 4: { P.o.r0 = 1; Image x = P.clock(a); P.o.r0 = 0; return x; }
            default: { P.o.express = 3; P.o.offset = 5; Image x = P.clock(b); P.o = p; return x; }
        }
    };
    auto equal = [&](const Image& x, const Image& y) {
        for (size_t r = 0; r < x.size(); r++)
            for (size_t c = 0; c < x[0].size(); c++)
                if (!(fabs(x[r][c] - y[r][c]) <= 1e-10 * (1 + fabs(y[r][c])))) return false;
        return true;
    };
    std::vector<Image> first;
    m.desc = api::fmt("traps %s, well %s, parallel %s, serial %s", t.name, w.name, show(p).c_str(), show(q).c_str());
    set_verbosity(0);
    for (int op = 0; op < OPS; op++) {
        Dir P(p, dp, t.t), Q(q, dq, t.t);
        first.push_back(call(op, P, Q));
    }
    if (part == 1) {
        int len = m.thorough ? 4 : 3;
        std::vector<int> seq(len);
        for (int i = 0; i < len; i++) seq[i] = m.pick(OPS);
        Dir P(p, dp, t.t), Q(q, dq, t.t);
        std::string sp = snap(P), sq = snap(Q);
        for (int i = 0; i < len; i++) {
            Image x = call(seq[i], P, Q);
            if (!equal(x, first[seq[i]])) fail("depends on earlier calls", "call %d (kind %d) of the history differs from the same call on fresh objects", i, seq[i]);
            if (snap(P) != sp || snap(Q) != sq) fail("caller's objects modified", "call %d (kind %d) changed the settings of an object it was given", i, seq[i]);
            m.transitions++;
        }
        m.executions++;
        uint64_t h = k;
        for (int x : seq) h = mix(h, x);
        m.state(h);
        return;
    }
    // verbosity, global and per call
    int v = m.pick(5);
    set_verbosity(v < 4 ? v : -1);
    for (int op = 0; op < OPS; op++) {
        Dir P(p, dp, t.t), Q(q, dq, t.t);
        Image x = call(op, P, Q);
        if (!equal(x, first[op])) { set_verbosity(0); fail("verbosity changes the result", "with verbosity %d the result of call kind %d differs", v, op); }
        m.transitions++;
        m.executions++;
        m.state(mix(v, op));
    }
    for (int pr = -1; pr < 3; pr++) {
        Dir P(p, dp, t.t);
        VImage va = to_v(a);
        VImage x = clock_charge_in_one_direction(va, P.roe.get(), &P.ccd, P.pic(), P.psc(), P.picco(), P.pscco(), p.express, p.offset, 0, -1, 0, -1, 0, -1, p.prune_n, p.prune_f, 1, pr);
        VImage y = add_cti(va, P.roe.get(), &P.ccd, P.pic(), P.psc(), P.picco(), P.pscco(), p.express, p.offset, 0, -1, 0, -1, p.prune_n, p.prune_f, P.roe.get(), &P.ccd, nullptr, nullptr,
                           nullptr, nullptr, 0, 0, 0, -1, 0, -1, 1e-10, 20, 1, pr, 0);
        set_verbosity(0);
        if (!equal(from_v(x), first[0]) || !equal(from_v(y), first[0])) fail("verbosity changes the result", "printing the inputs (%d) changes the result", pr);
        set_verbosity(v < 4 ? v : -1);
    }
    set_verbosity(0);
}
#endif

#if PROP == 25
// ---------------------------------------------------------------- splitting and reordering species
// every way to write the same population down: permutations, splits, and extra species that cannot interact
static std::vector<std::vector<Species>> rewrites(const std::vector<Species>& v, int which) {
    std::vector<std::vector<Species>> out;
    if (v.empty()) return {v};
    auto perms = [&](std::vector<Species> x) {
        std::vector<int> ix;
        for (size_t i = 0; i < x.size(); i++) ix.push_back(i);
        do {
            std::vector<Species> y;
            for (int i : ix) y.push_back(x[i]);
            out.push_back(y);
        } while (std::next_permutation(ix.begin(), ix.end()));
    };
    perms(v);
    for (size_t i = 0; i < v.size(); i++)
        for (double f : {.5, .9}) {
            std::vector<Species> x = v;
            x[i].D *= f;
            Species rest = v[i];
            rest.D *= 1 - f;
            x.push_back(rest);
            if (x.size() <= 3) perms(x);
            else out.push_back(x);
        }
    // three equal parts
    { std::vector<Species> x; for (auto& s : v) for (int k = 0; k < 3; k++) { x.push_back(s); x.back().D /= 3; } out.push_back(x); }
    // species that cannot interact
    for (int at = 0; at <= (int)v.size(); at++) {
        std::vector<Species> x = v;
        Species z = v[0];
        z.D = 0;
        z.tau *= 3;
        if (which != 0) z.cap = v[0].cap;
        x.insert(x.begin() + at, z);
        out.push_back(x);
    }
    return out;
}
static void run(MC& m) {
    static const std::vector<TrapCfg> sets = {
        {"two instant", T({S(10, 1.4427), S(5, 6)}), true},
        {"three instant", T({S(10, 1.4427), S(5, 6), S(3, .2)}), true},
        {"dense instant", T({S(600, 1.2), S(300, 5)}), true},
        {"ramps", T({N(30, 2, .2, .7), N(10, 5, .1, .4), S(5, 1)}), false},
        {"slow", T({}, {S(10, 3, .3), S(5, .6, 2)}), true},
        {"dense slow", T({}, {S(700, 3, .3), S(400, .6, .1)}), true},
        {"continuum", T({}, {}, {C(10, 2, .5), C(6, .7, 1)}), true},
        {"slow continuum", T({}, {}, {}, {C(10, 2, .4, .5), C(8, 5, .2, .1)}), true},
        {"instant+slow", T({S(8, 2), S(3, 7)}, {S(12, 1.5, .4), S(4, 6, 2)}), true},
        {"all types", T({S(4, 2), S(2, 9)}, {S(6, 1, .5)}, {C(5, 3, .3)}, {C(7, 1.5, .4, .3)}), true},
    };
    const TrapCfg& t = m.pick(sets);
    const WellCfg& w = m.pick(wells);
    int k = m.pick(m.thorough ? 10 : 7);
    m.own();
    Mode o;
    int P = 1;
    switch (k) {
        case 0: o.empty_first = true; break;
        case 1: o.express = 1; break;
        case 2: o.type = Injection; o.express = 2; break;
        case 3: P = 2; o.dwell = dwells(2, true); break;
        case 4: o.empty_columns = false; o.negatives = false; break;
        case 5: o.type = Pumping; P = 3; o.dwell = dwells(3, true); o.n_pumps = 3; break;
        case 6: o.offset = 3; o.prescan = 1; o.overscan = 3; o.prune_f = 1; o.express = 2; break;
        case 7: P = 3; o.dwell = dwells(3, false); o.away = false; break;
        case 8: o.empty_first = true; o.integer = true; o.express = 2; break;
        case 9: o.type = Injection; P = 2; o.dwell = dwells(2, false); break;
    }
    int rows = 4, L = 3;
    if (o.type == Pumping) {
        std::vector<double> d = o.dwell;
        o.dwell.insert(o.dwell.end(), d.begin(), d.end());
        o.r0 = 1;
        o.r1 = 2;
    }
    if (m.thorough && !t.t.continuum()) L = 4;
    Image in = all_columns(alphabet(w, L), rows);
    Detector det = detector(w.w, P, false);
    m.desc = api::fmt("traps %s, well %s, %s", t.name, w.name, show(o).c_str());
    Result R = procedure(in, o, det, t.t);
    if (!o.empty_columns)  // a column the reference leaves open makes the next one open too
        for (size_t c = 1; c < R.unspecified.size(); c++) R.unspecified[c] |= R.unspecified[c - 1];
    Image base = drive::run(in, o, det, t.t);
    compare(in, base, R.image, &R.unspecified, t.t, (o.empty_columns ? 1 : in[0].size()) * rows * P * 2, "order of types", "instant, slow, continuum, slow continuum in that order");
    const std::vector<Species> Traps::*type[4] = {&Traps::ic, &Traps::sc, &Traps::icco, &Traps::scco};
    for (int ty = 0; ty < 4; ty++) {
        const std::vector<Species>& v = t.t.*(type[ty]);
        if (v.empty()) continue;
        auto rw = rewrites(v, ty);
        for (size_t i = 0; i < rw.size(); i++) {
            Traps x = t.t;
            if (ty == 0) x.ic = rw[i]; else if (ty == 1) x.sc = rw[i]; else if (ty == 2) x.icco = rw[i]; else x.scco = rw[i];
            Image g = drive::run(in, o, det, x);
            for (size_t c = 0; c < in[0].size(); c++) {
                if (R.unspecified[c]) continue;
                double tol = tolerance(in, c, t.t, 10, true) * (o.empty_columns ? 1 : 10);
                if (t.t.continuum()) tol += 1e-5 * t.t.density();  // another species changes the range the tables cover
                for (int r = 0; r < rows; r++)
                    if (!(fabs(g[r][c] - base[r][c]) <= tol)) {
                        std::string l;
                        for (auto& s : rw[i]) l += api::fmt("(%g,%g) ", s.D, s.tau);
                        fail("depends on how the species are written", "listing the species as %s column %s becomes %s instead of %s", l.c_str(), column(in, c).c_str(), column(g, c).c_str(), column(base, c).c_str());
                    }
            }
            m.executions++;
            m.transitions += in[0].size();
        }
    }
    // an empty list of some type is the same as none
    { Image g = Dir(o, det, t.t, false).clock(in);
      for (size_t c = 0; c < in[0].size(); c++)
          for (int r = 0; r < rows; r++)
              if (!(fabs(g[r][c] - base[r][c]) <= tolerance(in, c, t.t, 10, true))) fail("empty list differs from none", "column %s becomes %s instead of %s", column(in, c).c_str(), column(g, c).c_str(), column(base, c).c_str()); }
    visit(m, R, base);
}
#endif

int main(int argc, char** argv) { return mc_main(argc, argv, run); }
