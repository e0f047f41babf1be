// Exhaustive enumeration of valid calls of the whole library in a build with address and undefined-behaviour
// sanitizers and checked containers (P21).
#define MC_MAIN
#include <omp.h>

#include "drive.hpp"
using namespace mc;
using namespace drive;

static Species S(double D, double tau, double cap = 0) { Species s{D, tau}; s.cap = cap; return s; }
static Species C(double D, double tau, double sigma, double cap = 0) { Species s{D, tau}; s.sigma = sigma; s.cap = cap; return s; }
static Species N(double D, double tau, double a, double b) { Species s{D, tau}; s.a = a; s.b = b; return s; }
static Traps T(std::vector<Species> ic, std::vector<Species> sc = {}, std::vector<Species> icco = {}, std::vector<Species> scco = {}) {
    Traps t;
    t.ic = ic; t.sc = sc; t.icco = icco; t.scco = scco;
    return t;
}
// cheap ones first
static const std::vector<Traps> sets = {
    T({S(10, 1.5)}), T({}, {S(10, 1.5, .3)}), T({S(8, 2), S(900, .1)}, {S(12, 1.5, .4), S(5, 1e9, 1e-3)}), T({N(30, 2, .2, .7), N(9, 1, .3, .3)}), T({}, {S(10, 1, 0), S(0, 1, 1)}), T({}), T({S(0, 1)}),
    T({}, {}, {C(10, 2, .5)}), T({}, {}, {}, {C(10, 2, .4, .5)}), T({S(4, 2)}, {S(6, 1, .5)}, {C(5, 1e-4, .3)}, {C(7, 1e6, .4, .3)}), T({}, {}, {C(0, 1, .1), C(3, .01, .01)}, {C(4, 1e-3, 2, 0), C(0, 1, 1, 1)})};
static const std::vector<Well> wells = {{1000, 0, 1, 0}, {1000, 30, .5, .02}, {1000, 0, 3, 0}};

static Image pattern(int k, int rows, int cols) {
    static const double letters[6] = {0, 300, 20, 1400, -30, 1e-9};
    Image a(rows, std::vector<double>(cols));
    for (int r = 0; r < rows; r++)
        for (int c = 0; c < cols; c++) switch (k) {
                case 0: a[r][c] = letters[(r * 2 + c * 5 + r * c) % 6]; break;
                case 1: a[r][c] = 900.0 / (1 + r + .1 * c); break;          // every packet adds a level
                case 2: a[r][c] = 20.0 * (1 + r) * (1 + c); break;          // every packet absorbs the levels
                case 3: a[r][c] = (r + c) % 2 ? 0 : 700.0 / (1 + r); break;
                case 4: a[r][c] = 0; break;
                case 5: a[r][c] = -5.0 * (r + 1); break;
                case 6: a[r][c] = 1e9; break;
                default: a[r][c] = r == rows - 1 ? 800 : 1e-300; break;
            }
    return a;
}
// depth 0: a core of settings; 1: that, or all schedules with default pruning, or all pruning with the main schedules; 2: everything
static void settings(MC& m, Mode& o, int rows, int depth) {
    int n = rows;
    int stratum = depth == 1 ? 1 + m.pick(2) : depth == 2 ? 3 : 0;
    bool sched = stratum & 1, prune = stratum & 2;
    static const std::vector<int> off = {0, 1, 4}, pre = {0, 2};
    if (o.type != Pumping) {
        o.offset = off[m.pick(prune && !sched ? 1 : 3)];
        o.prescan = pre[m.pick(prune && !sched ? 1 : 2)];
        n += o.offset + o.prescan;
    }
    if (o.type != Injection) o.empty_first = m.pickb();
    o.empty_columns = o.type == Pumping ? true : m.pickb();
    if (!prune || sched) o.integer = m.pickb();
    if (sched && o.type != Pumping) o.away = !m.pickb();
    std::vector<int> e = {0, 1, 2, n - 1, n, n + 1};
    if (o.type == Pumping) e = {0, 1, 2, o.n_pumps - 1, o.n_pumps + 1};
    o.express = std::max(0, e[m.pick(prune && !sched ? 3 : (int)e.size())]);
    if (sched && o.type == Standard) {
        std::vector<int> ov = {-1, 1, 2, rows, rows + o.offset + 1};
        o.overscan = m.pick(ov);
    } else if (sched && o.type == Injection) {
        std::vector<int> ov = {-1, 1, 3, rows + 5};
        o.overscan = m.pick(ov);
    }
    static const std::vector<int> pf = {20, 0, 1, 2};
    static const std::vector<double> pn = {1e-10, .5, 1e6};
    if (prune) {
        o.prune_f = m.pick(pf);
        if (o.prune_f) o.prune_n = m.pick(pn);
    } else if (!sched) {
        o.prune_f = 1 + 19 * m.pick(2);
        o.prune_n = o.prune_f == 1 ? .5 : 1e-10;
    }
    o.negatives = prune || !sched ? !m.pickb() : rows % 2;
}
static void finite(const Image& a) {
    for (size_t r = 0; r < a.size(); r++)
        for (size_t c = 0; c < a[0].size(); c++)
            if (!std::isfinite(a[r][c])) fail("not finite", "pixel (%d, %d) is %g", (int)r, (int)c, a[r][c]);
}
static Detector detector(const Well& w, int P) {
    Detector d;
    for (int i = 0; i < P; i++) {
        d.phases.push_back(w);
        d.phases.back().full *= 1 + .1 * i;
        d.frac.push_back(1.0 / P);
    }
    return d;
}
static void dwell(Mode& o, int P) {
    o.dwell.clear();
    for (int i = 0; i < (o.type == Pumping ? 2 * P : P); i++) o.dwell.push_back(1.0 / P + .01 * i);
}

static void run(MC& m) {
    double t0 = now();
    omp_set_num_threads(1);
    int part = m.pick(6);
    Mode o;
    if (part == 0 || part == 1) {  // one direction: 0 single-timescale traps, every setting; 1 continuum traps, fewer settings
        int ti = part == 0 ? m.pick(7) : 7 + m.pick(4);
        o.type = m.pick(3);
        int P = 1 + m.pick(part == 0 ? 4 : 2);
        if (o.type == Pumping && P == 1) throw Skip();
        int rows = 1 + m.pick(m.thorough ? 6 : part == 0 ? 4 : 3), cols = 1 + m.pick(m.thorough ? 3 : 2);
        if (!m.thorough && cols == 2 && P > 2) throw Skip();
        if (part == 1 && rows == 2 && !m.thorough) throw Skip();
        m.own();
        if (o.type == Pumping) {
            o.n_pumps = 1 + m.pick(m.thorough ? 5 : 3);
            o.r0 = m.pick(rows);
            o.r1 = o.r0 + 1;
        }
        dwell(o, P);
        settings(m, o, rows, part == 1 ? 0 : m.thorough && rows < 5 ? 2 : ti < 3 && rows < 4 ? 1 : 0);
        std::vector<int> pats = {0, 1, 2, 3, 4, 5, 6, 7};
        if (part == 1 && !m.thorough) pats = {0};
        else if (!m.thorough) pats = ti < 3 ? std::vector<int>{0, 1} : rows < 3 ? std::vector<int>{5, 7} : std::vector<int>{3, 6};
        if (part == 1 && !m.thorough) {
            // settings other than the ones that size the bookkeeping vary together
            if (o.negatives != o.integer || (o.prescan != 0) != (o.offset == 1) || (o.prune_f == 1) != o.negatives || (cols == 2) != !o.empty_columns) throw Skip();
        }
        int k = m.pick(pats);
        m.desc = api::fmt("trap set %d, %d phases, %d x %d image, pattern %d, %s", ti, P, rows, cols, k, show(o).c_str());
        // every well in turn
        Image out = run(pattern(k, rows, cols), o, detector(wells[(rows + k) % wells.size()], P), sets[ti]);
        finite(out);
        m.state(mixd(mixd(part, out[0][0]), out.back().back()));
    } else if (part == 2) {  // windows
        o.type = m.pick(3);
        int P = o.type == Pumping ? 2 + m.pick(2) : 1 + m.pick(3);
        int rows = 1 + m.pick(m.thorough ? 5 : 4), cols = 1 + m.pick(3);
        int ti = m.pick(m.thorough ? 5 : 2);
        if (!m.thorough && (P > 2 + (o.type == Pumping) || (ti == 1 && P > 1 && o.type != Pumping) || (cols == 2))) throw Skip();
        m.own();
        o.r0 = m.pick(rows);
        o.r1 = o.type == Pumping ? o.r0 + 1 : o.r0 + 1 + m.pick(rows - o.r0);
        o.c0 = m.pick(cols);
        o.c1 = o.c0 + 1 + m.pick(cols - o.c0);
        if (o.type == Pumping) o.n_pumps = 3;
        dwell(o, P);
        settings(m, o, rows, 0);
        m.desc = api::fmt("trap set %d, %d phases, %d x %d image, %s", ti, P, rows, cols, show(o).c_str());
        Image out = run(pattern(0, rows, cols), o, detector(wells[rows % 3], P), sets[ti]);
        finite(out);
    } else if (part == 3) {  // both directions, adding and removing, all verbosities
        int rows = 1 + m.pick(3), cols = 1 + m.pick(3);
        if (!m.thorough && !(rows * cols == 1 || (rows == 2 && cols == 3) || (rows == 3 && cols == 1))) throw Skip();
        int ta = m.pick((int)sets.size() + 1), tb = m.pick((int)sets.size() + 1);  // last: direction absent
        bool heavy = (ta >= 7 && ta < (int)sets.size()) || (tb >= 7 && tb < (int)sets.size());
        if (!m.thorough && heavy && ta != tb && ta != 0 && tb != (int)sets.size()) throw Skip();
        if (!m.thorough && !heavy && (ta + tb) % 2) throw Skip();
        m.own();
        int verb = m.pick(5) - 1;
        int iter = m.pick(4) - 1;  // -1: add
        if (iter >= 0 && verb >= 0) throw Skip();
        int P = 1 + m.pick(2);
        Mode a, b;
        dwell(a, P);
        a.express = m.pick(3);
        a.negatives = b.negatives = !m.pickb();
        b.type = m.pickb() ? Injection : Standard;
        b.express = 1 - m.pick(2);
        if (!m.thorough && heavy && (a.express != 1 - b.express || iter > 1 || a.negatives != (P == 1))) throw Skip();
        dwell(b, 3 - P);
        m.desc = api::fmt("%d x %d image, %s verbosity %d, trap sets %d and %d, parallel %s, serial %s", rows, cols, iter < 0 ? "add" : api::fmt("remove %d", iter).c_str(), verb, ta, tb,
                          show(a).c_str(), show(b).c_str());
        std::unique_ptr<Dir> p, s;
        if (ta < (int)sets.size()) p.reset(new Dir(a, detector(wells[0], P), sets[ta], ta % 2));
        if (tb < (int)sets.size()) s.reset(new Dir(b, detector(wells[1], 3 - P), sets[tb], tb % 2));
        Image in = pattern((rows + cols) % 4, rows, cols), out;
        if (iter < 0) {
            VImage v = to_v(in);
            VImage w = add_cti(v, p ? p->roe.get() : nullptr, p ? &p->ccd : nullptr, p ? p->pic() : nullptr, p ? p->psc() : nullptr, p ? p->picco() : nullptr, p ? p->pscco() : nullptr,
                               a.express, 0, 0, -1, 0, -1, 1e-10, 20, s ? s->roe.get() : nullptr, s ? &s->ccd : nullptr, s ? s->pic() : nullptr, s ? s->psc() : nullptr,
                               s ? s->picco() : nullptr, s ? s->pscco() : nullptr, b.express, 0, 0, -1, 0, -1, 1e-10, 20, a.negatives, verb);
            out = from_v(w);
            set_verbosity(0);
        } else
            out = remove(in, iter, p.get(), s.get(), a.negatives);
        finite(out);
    } else if (part == 4) {  // long columns, traps shared or not, so that the bookkeeping fills up
        int ti = m.pick(5);
        int P = 1 + m.pick(2);
        int type = m.pick(2);
        m.own();
        o.type = type;
        dwell(o, P);
        int rows = m.thorough ? 30 : 18, cols = 3;
        o.empty_columns = m.pickb();
        if (type == Standard) o.empty_first = m.pickb();
        static const std::vector<int> e = {0, 1, 3, 17};
        o.express = m.pick(e);
        o.prescan = m.pick(2) * 5;
        int pf = m.pick(3);
        o.prune_f = pf == 0 ? 0 : pf == 1 ? 1 : 20;
        if (pf == 1) o.prune_n = 3;
        int k = m.pick(8);
        m.desc = api::fmt("long columns: trap set %d, %d phases, pattern %d, %s", ti, P, k, show(o).c_str());
        Image out = run(pattern(k, rows, cols), o, detector(wells[k % 3], P), sets[ti]);
        finite(out);
    } else {  // threads
        int ti = m.pick(4);
        int nt = 2 + m.pick(2);
        m.own();
        o.empty_columns = m.pickb();
        o.express = m.pick(3);
        int k = m.pick(4), cols = 1 + m.pick(5);
        m.desc = api::fmt("%d threads, trap set %d, %d columns, pattern %d, %s", nt, ti, cols, k, show(o).c_str());
        omp_set_num_threads(nt);
        Image out = run(pattern(k, 4, cols), o, detector(wells[0], 1), sets[ti]);
        finite(out);
    }
    m.executions++;
    m.transitions++;
    static const char* names[] = {"single-timescale", "continuum", "windows", "both directions", "long columns", "threads"};
    m.count(names[part]);
    if (getenv("MC_TIME")) m.count((std::string(names[part]) + " ms").c_str(), (long long)(1e6 * (now() - t0)));
}
int main(int argc, char** argv) { return mc_main(argc, argv, run); }
