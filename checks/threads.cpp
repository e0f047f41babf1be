// Every team size and every order of the threads of every parallel region, on small images, with all memory accesses
// of the threads checked for unordered conflicts (P12).
#define MC_MAIN
#include "drive.hpp"
#include "read_noise.hpp"
#include "sched.hpp"
using namespace mc;
using namespace drive;

static Species S(double D, double tau, double cap = 0) { Species s{D, tau}; s.cap = cap; return s; }
static Species C(double D, double tau, double sigma, double cap = 0) { Species s{D, tau}; s.sigma = sigma; s.cap = cap; return s; }
static Species N(double D, double tau, double a, double b) { Species s{D, tau}; s.a = a; s.b = b; return s; }
static const std::vector<Traps> sets = {{{S(10, 1.5)}, {}, {}, {}}, {{}, {S(10, 1.5, .3)}, {}, {}}, {{N(30, 2, .2, .7), S(5, 3)}, {S(12, 1.5, .4), S(5, 9, 1)}, {}, {}},
                                        {{}, {}, {C(10, 2, .5)}, {}}, {{}, {}, {}, {C(10, 2, .4, .5)}}, {{S(4, 2)}, {S(6, 1, .5)}, {C(5, 3, .3)}, {C(7, 1.5, .4, .3)}}};
static int choose(int n) { return g_mc->pick(n); }

// what was computed with one thread, per configuration
static std::map<std::string, std::string> single;
template <class T>
static std::string bits(const T& v) {
    return std::string((const char*)&v[0], v.size() * sizeof(v[0]));
}
static void conclude(MC& m, const std::string& key, int n, std::string out) {
    m.executions++;
    m.transitions += sched::bodies;
    m.count("memory accesses", sched::accesses);
    m.count("scheduling points", sched::points);
    m.count("parallel regions", sched::regions);
    if (sched::race[0]) fail("data race", "%s", sched::race);
    auto it = single.find(key);
    if (it != single.end() && it->second != out) fail("depends on the schedule", "%d threads give a different result from one", n);
    m.state(std::hash<std::string>()(out));
}
static std::string run_one(MC& m, Mode o, const Traps& t, int P, const Image& in, int what) {
    Well w{1000, 0, .8, 0};
    Detector d;
    for (int i = 0; i < P; i++) {
        d.phases.push_back(w);
        d.frac.push_back(1.0 / P);
    }
    Dir a(o, d, t);
    Image out;
    if (what == 0) out = a.clock(in);
    else if (what == 1) { Mode z; z.express = 1; Dir b(z, Detector{{w}, {1}}, t); out = add(in, &a, &b, true); }
    else { out = remove(in, 2, &a, nullptr, true); }
    std::string s;
    for (auto& r : out) s += bits(r);
    return s;
}
static void run(MC& m) {
    sched::choose = 0;
    sched::preemptions = m.thorough ? 2 : 1;
    int part = m.pick(2);
    if (part == 0) {
        int ti = m.pick((int)sets.size());
        bool cont = ti >= 3;
        Mode o;
        o.type = m.pick(3);
        int P = o.type == Pumping ? 2 : 1 + m.pick(cont && !m.thorough ? 1 : 2);
        int cols = 1 + m.pick(cont && !m.thorough ? 3 : 5);
        if (cont && !m.thorough && cols == 2) throw Skip();
        m.own();
        o.dwell.clear();
        for (int i = 0; i < (o.type == Pumping ? 2 * P : P); i++) o.dwell.push_back(1.0 / P);
        int rows = 3;
        o.express = m.pick(2);
        if (o.type == Pumping) { o.r0 = 1; o.r1 = 2; o.n_pumps = 2; }
        else if (o.type == Standard) {
            o.empty_columns = !m.pickb();
            if (o.empty_columns) o.empty_first = m.pickb();
        }
        o.prune_f = 2;
        int what = o.type == Pumping ? 0 : m.pick(cont && !m.thorough ? 1 : 3);
        if (cols >= 3 && what == 0 && m.pickb()) { o.c0 = 1; o.c1 = cols - (cols > 3); }
        int n = 2 + m.pick(3);
        Image in(rows, std::vector<double>(cols));
        for (int r = 0; r < rows; r++)
            for (int c = 0; c < cols; c++) in[r][c] = (r * 7 + c * 3) % 5 == 0 ? 0 : 100.0 * ((r * 3 + c * 5) % 7) + 13 * c;
        m.desc = api::fmt("trap set %d, %d phases, %d columns, %s, %s", ti, P, cols, what == 0 ? "one direction" : what == 1 ? "both directions" : "removal", show(o).c_str());
        if (!single.count(m.desc)) {
            sched::threads = 1;
            single[m.desc] = run_one(m, o, sets[ti], P, in, what);
        }
        sched::threads = n;
        sched::reset();
        // several regions in one call (both directions, iterations): the orders of the first two are enumerated in full
        static int left;
        left = what == 0 ? 1 << 20 : 8;
        sched::choose = [](int k) { return left-- > 0 ? choose(k) : 0; };
        std::string out;
        try {
            out = run_one(m, o, sets[ti], P, in, what);
        } catch (...) {
            sched::choose = 0;
            throw;
        }
        sched::choose = 0;
        m.desc += api::fmt(", %d threads", n);
        conclude(m, m.desc.substr(0, m.desc.rfind(", ")), n, out);
    } else {
        int rows = 1 + m.pick(m.thorough ? 6 : 5), cols = 1 + m.pick(m.thorough ? 7 : 6), smooth = m.pick(2);
        m.own();
        int n = 2 + m.pick(3);
        int pat = m.pick(2);
        std::vector<double> in(rows * cols), sm(rows * cols), out(rows * cols), ref(rows * cols);
        for (int i = 0; i < rows * cols; i++) {
            in[i] = (i * 7 % 11) * 3.7 - 4;
            sm[i] = pat ? in[i] : (i * 5 % 9) * 2.9;
        }
        m.desc = api::fmt("read noise of a %d x %d image, columns %d, pattern %d", rows, cols, smooth, pat);
        if (!single.count(m.desc)) {
            sched::threads = 1;
            determine_read_noise_model(&in[0], &sm[0], rows, cols, 4.5, .2, smooth, &out[0]);
            single[m.desc] = bits(out);
        }
        sched::threads = n;
        sched::reset();
        // orders differ in one region at a time (regions before and after it are deterministic)
        static int at, left;
        at = m.pick(4) == 0 ? 0 : -1;
        int which = m.pos ? m.cur[m.pos - 1] : 0;
        int skip = which == 0 ? 0 : which == 1 ? std::max(0, rows - 3) : which == 2 ? std::max(0, rows - 2) : std::max(0, rows - 2) + 1;
        at = skip;
        left = 0;
        static int region;
        region = 0;
        static long seen;
        seen = -1;
        sched::choose = [](int k) {
            if (sched::regions != seen) { seen = sched::regions; region++; }
            (void)left;
            return region - 1 == at ? choose(k) : 0;
        };
        determine_read_noise_model(&in[0], &sm[0], rows, cols, 4.5, .2, smooth, &out[0]);
        sched::choose = 0;
        std::string key = m.desc;
        m.desc += api::fmt(", %d threads", n);
        conclude(m, key, n, bits(out));
    }
}
int main(int argc, char** argv) { return mc_main(argc, argv, run); }
