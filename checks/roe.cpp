// Exhaustive enumeration of clocking set-ups on the real ROE classes (P16, P18, P26).
#define MC_MAIN
#include "drive.hpp"
using namespace mc;
using namespace drive;
#ifndef PROP
#define PROP 16
#endif

#if PROP == 16
static void rows_of(ROE& r, int n_rows, Matrix& M, std::vector<std::vector<char>>& store) {
    int P = r.n_express_passes;
    if ((int)r.express_matrix.size() != P * n_rows) fail("shape", "matrix has %d entries for %d passes of %d rows", (int)r.express_matrix.size(), P, n_rows);
    if (r.store_trap_states_matrix.size() != r.express_matrix.size()) fail("shape", "save-point matrix has %d entries", (int)r.store_trap_states_matrix.size());
    M.assign(P, std::vector<double>(n_rows));
    store.assign(P, std::vector<char>(n_rows));
    for (int p = 0; p < P; p++)
        for (int i = 0; i < n_rows; i++) {
            M[p][i] = r.express_matrix[p * n_rows + i];
            store[p][i] = r.store_trap_states_matrix[p * n_rows + i];
        }
}
static std::string str(const Matrix& M) {
    std::string s;
    for (auto& p : M) {
        s += "[";
        for (double x : p) s += api::fmt("%g ", x);
        s += "]";
    }
    return s;
}
static void run(MC& m) {
    int type = m.pick(3);
    int n_rows = 1 + m.pick(m.thorough ? (type == Pumping ? 3 : 32) : (type == Pumping ? 2 : 18));
    Mode o;
    o.type = type;
    bool empty_first = false;
    int off = 0, pre = 0, ov = -1;
    if (type == Pumping) {
        o.n_pumps = 1 + m.pick(m.thorough ? 40 : 24);
        m.own();
        empty_first = m.pickb();
    } else {
        off = m.pick(4);
        pre = m.pick(3);
        if (off == 3) off = m.thorough ? 7 : 3;
        m.own();
        if (type == Standard) empty_first = m.pickb();
    }
    o.integer = m.pickb();
    int N = type == Pumping ? o.n_pumps : n_rows + off + pre;
    int express = m.pick(N + 3);
    if (type != Pumping) {
        ov = m.pick(n_rows + off + 4);
        if (ov == 0) ov = -1;
    }
    o.prescan = pre; o.overscan = ov; o.offset = off; o.express = express; o.empty_first = empty_first;
    if (type == Pumping) o.dwell = {.5, .5};
    std::valarray<double> dwell(o.dwell.data(), o.dwell.size());
    std::unique_ptr<ROE> roe;
    if (type == Standard) roe.reset(new ROE(dwell, pre, ov, true, empty_first, true, o.integer));
    else if (type == Injection) roe.reset(new ROEChargeInjection(dwell, pre, ov, true, true, o.integer));
    else roe.reset(new ROETrapPumping(dwell, o.n_pumps, empty_first, o.integer));
    m.desc = api::fmt("%s, %d rows", show(o).c_str(), n_rows);
    // the same object is set up for something else first: nothing may be left over
    if (express % 3 == 1) {
        roe->set_express_matrix_from_rows_and_express(n_rows + 2, 1, off + 1);
        roe->set_store_trap_states_matrix();
    }
    roe->set_express_matrix_from_rows_and_express(n_rows, express, off);
    roe->set_store_trap_states_matrix();
    Matrix M;
    std::vector<std::vector<char>> store;
    rows_of(*roe, n_rows, M, store);
    int P = M.size();
    bool residue = false;
    for (auto& p : M)
        for (double& x : p)
            if (x != 0 && fabs(x) < 1e-9) { x = 0; residue = true; }
    m.executions++;
    m.transitions += (long long)P * n_rows;
    uint64_t h = type;
    for (auto& p : M)
        for (double x : p) h = mixd(h, x);
    m.state(h);
    // how far every row has to go
    int E = express == 0 ? N : std::min(express, N);
    int physical = ov >= 0 ? ov - 1 + pre : 1 << 28;
    for (int i = 0; i < n_rows; i++) {
        double want = type == Standard ? std::min(i + 1 + off + pre, physical) : type == Pumping ? o.n_pumps : std::min(N, 1 << 28);
        if (type == Injection && ov >= 0) want = physical;
        double sum = 0;
        for (int p = 0; p < P; p++) sum += M[p][i];
        if (!(fabs(sum - want) <= 1e-9 * (1 + want))) fail("transfers do not add up", "row %d: %g transfers represented, %g to make: %s", i, sum, want, str(M).c_str());
    }
    int n_base = type == Injection ? (ov >= 0 ? physical : N) : N;
    int E2 = express == 0 ? n_base : std::min(express, n_base);
    double top = E2 ? (double)n_base / E2 : 0;
    if (o.integer) top = ceil(top);
    top = std::max(top, 1.0);
    for (int p = 0; p < P; p++)
        for (int i = 0; i < n_rows; i++) {
            double x = M[p][i];
            if (!(x >= 0 && x <= top * (1 + 1e-12))) fail("multiplier out of range", "pass %d row %d: %g, maximum %g: %s", p, i, x, top, str(M).c_str());
            if (o.integer && fabs(x - floor(x + .5)) > 1e-12) fail("multiplier not an integer", "pass %d row %d: %g: %s", p, i, x, str(M).c_str());
        }
    // passes in order, first transfers once
    if (type == Standard) {
        int last = -1, used = 0;
        for (int p = 0; p < P; p++) {
            int first = -1;
            for (int i = 0; i < n_rows && first < 0; i++)
                if (M[p][i] > 0) first = i;
            if (first < 0) continue;
            used++;
            if (!empty_first && first < last) fail("passes out of order", "pass %d starts at row %d, an earlier one at %d: %s", p, first, last, str(M).c_str());
            last = std::max(last, first);
            // a packet that meets empty traps stands for one transfer only (rows further out start the pass in the physical array)
            if (empty_first && M[p][first] > 1 + 1e-12 && first + off + pre > 0 && E < N && off + pre == 0)
                fail("first transfer multiplied", "pass %d starts at row %d with %g transfers: %s", p, first, M[p][first], str(M).c_str());
        }
    }
    // the number of computed passes follows the accuracy asked for
    for (int i = 0; i < n_rows; i++) {
        int k = 0;
        for (int p = 0; p < P; p++) k += M[p][i] > 0;
        int most = (type == Injection ? E2 : E) + (empty_first && E < N ? 1 : 0);
        if (k > most) fail("more passes than asked for", "row %d takes part in %d passes, express %d allows %d: %s", i, k, express, most, str(M).c_str());
    }
    // save points (they follow the multipliers, so not where one is zero only up to rounding)
    for (int p = 0; p < P && !residue; p++) {
        int n = 0, at = -1;
        for (int i = 0; i < n_rows; i++)
            if (store[p][i]) { n++; at = i; }
        if (type == Injection || (type == Standard && empty_first)) {
            if (n) fail("save point", "pass %d saves the trap state although every pass starts from empty traps", p);
            continue;
        }
        if (type == Pumping) {
            bool later = false;
            for (int q = p + 1; q < P; q++) later |= M[q][0] > 0;
            for (int i = 0; i < n_rows; i++)
                if (later && (M[p][i] > 0) != (bool)store[p][i]) fail("save point", "pump pass %d row %d: multiplier %g, saved %d", p, i, M[p][i], store[p][i]);
            continue;
        }
        if (p == P - 1) {
            if (n) fail("save point", "the last pass saves the trap state");
            continue;
        }
        int next = n_rows;
        for (int i = 1; i < n_rows; i++)
            if (M[p + 1][i] > 0) { next = i; break; }
        if (n != 1 || at != next - 1) fail("save point", "pass %d saves at %d rows, last %d; the next pass begins at row %d: %s", p, n, at, next, str(M).c_str());
    }
    // the whole schedule, against an independent evaluation
    Schedule S = schedule(o, n_rows);
    Matrix A, B;
    for (auto& r : M) for (double x : r) if (x > 1e-9) { A.push_back(r); break; }
    for (auto& r : S.m) for (double x : r) if (x > 1e-9) { B.push_back(r); break; }
    if (A.size() != B.size()) fail("schedule", "%d active passes, expected %d: %s, expected %s", (int)A.size(), (int)B.size(), str(A).c_str(), str(B).c_str());
    for (size_t p = 0; p < A.size(); p++)
        for (int i = 0; i < n_rows; i++)
            if (!(fabs(A[p][i] - B[p][i]) <= 1e-9)) fail("schedule", "pass %d row %d: %g, expected %g: %s, expected %s", (int)p, i, A[p][i], B[p][i], str(A).c_str(), str(B).c_str());
}
#endif

#if PROP == 18
static std::string list(const std::valarray<int>& v) {
    std::string s = "{";
    for (int x : v) s += api::fmt("%d ", x);
    return s + "}";
}
// the diagrams of the documentation, written out: [phases][step][phase] = pixels released to
static const char* diagram(int P, int step, int phase) {
    static const char* d1[] = {"0"};
    static const char* d2[] = {"0", "-1 0", "0 1", "0"};
    static const char* d3[] = {"0", "0", "-1", "0", "0", "0", "1", "0", "0"};
    static const char* d4[] = {"0", "0", "-1 0", "-1", "0", "0", "0", "-1 0", "0 1", "0", "0", "0", "1", "0 1", "0", "0"};
    const char** d = P == 1 ? d1 : P == 2 ? d2 : P == 3 ? d3 : d4;
    return d[step * P + phase];
}
static void run(MC& m) {
    int P = 1 + m.pick(m.thorough ? 24 : 12);
    int type = m.pick(3);
    m.own();
    bool away = type == Pumping ? false : m.pickb();
    int prior = m.pick(3);  // set the sequence up before, or again
    int steps = type == Pumping ? 2 * P : P;
    std::valarray<double> dwell(1.0 / steps, steps);
    std::unique_ptr<ROE> roe;
    if (type == Standard) roe.reset(new ROE(dwell, 0, -1, true, false, away, false));
    else if (type == Injection) roe.reset(new ROEChargeInjection(dwell, 0, -1, true, away, false));
    else roe.reset(new ROETrapPumping(dwell, 3, prior & 1, false));
    m.desc = api::fmt("%d phases, %d steps, type %d%s", P, steps, type, away ? ", never towards readout" : "");
    for (int i = 0; i <= prior; i++) roe->set_clock_sequence();
    auto& seq = roe->clock_sequence;
    if ((int)seq.size() != steps) fail("shape", "%d steps in the sequence, expected %d", (int)seq.size(), steps);
    for (int s = 0; s < steps; s++) {
        if ((int)seq[s].size() != P) fail("shape", "step %d has %d phases", s, (int)seq[s].size());
        int high = 0;
        for (int i = 0; i < P; i++) {
            ROEStepPhase& x = seq[s][i];
            std::string at = api::fmt("step %d phase %d: high %d, capture from %s, release to %s", s, i, (int)x.is_high, list(x.capture_from_which_pixels).c_str(), list(x.release_to_which_pixels).c_str());
            high += x.is_high;
            m.transitions++;
            m.state(mix(mix(P, s * 100 + i), away + 2 * type));
            if (x.n_capture_pixels != (int)x.capture_from_which_pixels.size() || x.n_release_pixels != (int)x.release_to_which_pixels.size()) fail("counts", "%s", at.c_str());
            if (x.release_fraction_to_pixels.size() != x.release_to_which_pixels.size()) fail("fractions", "%s: %d fractions", at.c_str(), (int)x.release_fraction_to_pixels.size());
            double sum = 0;
            for (double f : x.release_fraction_to_pixels) sum += f;
            if (!(fabs(sum - 1) < 1e-12)) fail("fractions", "%s: fractions sum to %g", at.c_str(), sum);
            if (!x.is_high && x.n_capture_pixels) fail("captures in a low phase", "%s", at.c_str());
            if (x.is_high && x.n_capture_pixels != 1) fail("captures in a high phase", "%s", at.c_str());
            Cell c = cell(P, s, i, away);
            std::vector<int> rel(std::begin(x.release_to_which_pixels), std::end(x.release_to_which_pixels));
            std::vector<int> cap(std::begin(x.capture_from_which_pixels), std::end(x.capture_from_which_pixels));
            std::sort(rel.begin(), rel.end());
            if ((bool)x.is_high != c.high) fail("wrong phase high", "%s", at.c_str());
            if (rel != c.release || cap != c.capture) fail("wrong pixel", "%s, expected release to %d%s", at.c_str(), c.release[0], c.release.size() > 1 ? " and the next" : "");
            for (double f : x.release_fraction_to_pixels)
                if (!(fabs(f - c.share) < 1e-12)) fail("fractions", "%s: fraction %g, expected %g", at.c_str(), f, c.share);
            if (away)
                for (int k : rel)
                    if (k < 0) fail("towards readout", "%s", at.c_str());
            if (!away && type != Pumping && P <= 4) {
                std::string w;
                for (int k : rel) w += api::fmt(w.empty() ? "%d" : " %d", k);
                if (w != diagram(P, s, i)) fail("differs from diagram", "%s, the documentation shows %s", at.c_str(), diagram(P, s, i));
            }
            // the return path of pumping
            if (type == Pumping && s > P) {
                ROEStepPhase& y = seq[2 * P - s][i];
                if (y.is_high != x.is_high || list(y.capture_from_which_pixels) != list(x.capture_from_which_pixels) || list(y.release_to_which_pixels) != list(x.release_to_which_pixels))
                    fail("does not return along the same path", "%s differs from step %d", at.c_str(), 2 * P - s);
            }
        }
        if (high != 1) fail("number of high phases", "step %d has %d high phases", s, high);
    }
    m.executions++;
}
#endif

#if PROP == 26
// Value semantics: histories of constructions, copies, assignments and changes over three slots, against plain values.
struct RV {  // what a clocking object must behave as
    int type = 0;
    std::vector<double> dwell{1.0};
    int pre = 0, over = -1, pumps = 1;
    bool between = true, first = false, away = true, integer = false;
};
struct RoeSys {
    std::unique_ptr<ROE> slot[3];
    RV val[3];
    bool live[3] = {false, false, false};
    static ROE* clone(const ROE* r, int type) {
        if (type == Standard) return new ROE(*r);
        if (type == Injection) return new ROEChargeInjection(*static_cast<const ROEChargeInjection*>(r));
        return new ROETrapPumping(*static_cast<const ROETrapPumping*>(r));
    }
};
static std::vector<int> kinds;
static const int OPS = 18;
// the operations; returns false when not applicable
static bool apply(RoeSys& s, int op) {
    auto put = [&](int i, ROE* r, RV v) { s.slot[i].reset(r); s.val[i] = v; s.live[i] = true; };
    RV v;
    switch (op) {
        case 0: put(0, new ROE(), v); return true;
        case 1: put(1, new ROE(), v); return true;
        case 2: { std::valarray<double> d = {.3, .7}; v.dwell = {.3, .7}; v.pre = 2; v.over = 5; v.between = false; v.first = true; v.away = false; v.integer = true;
                  put(1, new ROE(d, 2, 5, false, true, false, true), v); d[0] = 99; return true; }  // the caller's array goes away
        case 3: v.type = Injection; put(0, new ROEChargeInjection(), v); return true;
        case 4: { std::valarray<double> d = {2.0}; v.type = Injection; v.dwell = {2}; v.pre = 1; v.over = 3; v.integer = true;
                  put(1, new ROEChargeInjection(d, 1, 3, true, true, true), v); return true; }
        case 5: v.type = Pumping; v.dwell = {.5, .5}; v.pumps = 1; v.first = true; v.away = false; put(0, new ROETrapPumping(), v); return true;
        case 6: { std::valarray<double> d = {.1, .2, .3, .4}; v.type = Pumping; v.dwell = {.1, .2, .3, .4}; v.pumps = 4; v.first = false; v.away = false; v.integer = true;
                  put(1, new ROETrapPumping(d, 4, false, true), v); return true; }
        // copies
        case 7: if (!s.live[0]) return false; put(2, RoeSys::clone(s.slot[0].get(), s.val[0].type), s.val[0]); return true;
        case 8: if (!s.live[1]) return false; put(2, RoeSys::clone(s.slot[1].get(), s.val[1].type), s.val[1]); return true;
        case 9: if (!s.live[2]) return false; put(0, RoeSys::clone(s.slot[2].get(), s.val[2].type), s.val[2]); return true;
        // assignments between objects of one class
        case 10: case 11: case 12: {
            static const int from[] = {0, 1, 2}, to[] = {1, 0, 1};
            int a = from[op - 10], b = to[op - 10];
            if (!s.live[a] || !s.live[b] || s.val[a].type != s.val[b].type) return false;
            if (s.val[a].type == Standard) *s.slot[b] = *s.slot[a];
            else if (s.val[a].type == Injection) static_cast<ROEChargeInjection&>(*s.slot[b]) = static_cast<ROEChargeInjection&>(*s.slot[a]);
            else static_cast<ROETrapPumping&>(*s.slot[b]) = static_cast<ROETrapPumping&>(*s.slot[a]);
            s.val[b] = s.val[a];
            return true;
        }
        case 13: if (!s.live[0]) return false; *s.slot[0] = *s.slot[0]; return true;  // self
        // changes
        case 14: if (!s.live[0]) return false; s.slot[0]->dwell_times[0] = 7; s.val[0].dwell[0] = 7; return true;
        case 15: if (!s.live[1]) return false; s.slot[1]->dwell_times *= 2.0; for (auto& x : s.val[1].dwell) x *= 2; s.slot[1]->prescan_offset = 3; s.val[1].pre = 3;
                 s.slot[1]->empty_traps_between_columns = false; s.val[1].between = false; return true;
        case 16: if (!s.live[2]) return false; s.slot[2]->dwell_times[s.slot[2]->dwell_times.size() - 1] = .25; s.val[2].dwell.back() = .25; s.slot[2]->overscan_start = 2; s.val[2].over = 2;
                 s.slot[2]->use_integer_express_matrix = true; s.val[2].integer = true; return true;
        default: if (!s.live[0]) return false; s.slot[0].reset(); s.live[0] = false; return true;  // destroy
    }
}
static void same_settings(const ROE& r, const RV& v, const char* who) {
    std::string got = api::fmt("type %d, %d steps, prescan %d, overscan %d, pumps %d, flags %d%d%d%d, dwell", (int)r.type, r.n_steps, r.prescan_offset, r.overscan_start, r.n_pumps,
                               (int)r.empty_traps_between_columns, (int)r.empty_traps_for_first_transfers, (int)r.force_release_away_from_readout, (int)r.use_integer_express_matrix);
    std::string want = api::fmt("type %d, %d steps, prescan %d, overscan %d, pumps %d, flags %d%d%d%d, dwell", v.type, (int)v.dwell.size(), v.pre, v.over, v.pumps, v.between, v.first, v.away, v.integer);
    for (double x : r.dwell_times) got += api::fmt(" %g", x);
    for (double x : v.dwell) want += api::fmt(" %g", x);
    if (got != want) fail("copy is not independent", "%s has [%s] but its history makes it [%s]", who, got.c_str(), want.c_str());
}
// what the object does
static std::vector<double> behaviour(ROE& r) {
    std::vector<double> out;
    r.set_clock_sequence();
    r.set_express_matrix_from_rows_and_express(3, 2, 1);
    r.set_store_trap_states_matrix();
    out.push_back(r.n_express_passes);
    for (double x : r.express_matrix) out.push_back(x);
    for (bool x : r.store_trap_states_matrix) out.push_back(x);
    out.push_back(r.n_phases);
    for (auto& st : r.clock_sequence)
        for (auto& p : st) {
            out.push_back(p.is_high);
            for (int x : p.capture_from_which_pixels) out.push_back(x);
            for (int x : p.release_to_which_pixels) out.push_back(x + 10);
        }
    // and a readout of a small image
    std::vector<CCDPhase> ph(r.n_phases, CCDPhase(1000, 0, .5));
    std::valarray<CCDPhase> vp(ph.data(), ph.size());
    std::valarray<double> fr(1.0 / r.n_phases, r.n_phases);
    CCD ccd(vp, fr);
    std::valarray<TrapInstantCapture> ic = {TrapInstantCapture(20, 1.5)};
    bool pump = r.type == roe_type_trap_pumping;
    VImage im = {{300, 0}, {500, 100}, {20, 900}};
    VImage got = clock_charge_in_one_direction(im, &r, &ccd, &ic, nullptr, nullptr, nullptr, 2, 1, pump ? 1 : 0, pump ? 2 : -1, 0, -1, 0, -1, 1e-10, 20, 1, 0);
    for (auto& row : got)
        for (double x : row) out.push_back(x);
    return out;
}
static std::vector<double> expected(const RV& v) {
    std::valarray<double> d(v.dwell.data(), v.dwell.size());
    std::unique_ptr<ROE> r;
    if (v.type == Standard) r.reset(new ROE(d, v.pre, v.over, v.between, v.first, v.away, v.integer));
    else if (v.type == Injection) r.reset(new ROEChargeInjection(d, v.pre, v.over, v.between, v.away, v.integer));
    else { r.reset(new ROETrapPumping(d, v.pumps, v.first, v.integer)); }
    r->prescan_offset = v.pre;
    r->overscan_start = v.over;
    r->empty_traps_between_columns = v.between;
    return behaviour(*r);
}
static bool near(const std::vector<double>& a, const std::vector<double>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++)
        if (!(fabs(a[i] - b[i]) <= 1e-9 * (1 + fabs(b[i])))) return false;
    return true;
}

static void run_roe(MC& m) {
    int depth = m.thorough ? 6 : 5;
    std::vector<int> seq;
    for (int i = 0; i < depth; i++) {
        seq.push_back(m.pick(OPS));
        if (i == 1) m.own();
        // the operation must be applicable (checked on a plain model of liveness and class)
        bool live[3] = {false, false, false};
        int ty[3] = {0, 0, 0};
        bool ok = true;
        for (size_t k = 0; k < seq.size(); k++) {
            int op = seq[k];
            if (op == 0 || op == 1 || op == 2) { int s = op == 0 ? 0 : 1; live[s] = true; ty[s] = 0; }
            else if (op == 3) { live[0] = true; ty[0] = 1; }
            else if (op == 4) { live[1] = true; ty[1] = 1; }
            else if (op == 5) { live[0] = true; ty[0] = 2; }
            else if (op == 6) { live[1] = true; ty[1] = 2; }
            else if (op >= 7 && op <= 9) { int a = op - 7, b = op == 9 ? 0 : 2; ok &= live[a]; live[b] = live[a]; ty[b] = ty[a]; }
            else if (op >= 10 && op <= 12) { static const int f[] = {0, 1, 2}, t[] = {1, 0, 1}; int a = f[op - 10], b = t[op - 10]; ok &= live[a] && live[b] && ty[a] == ty[b]; }
            else if (op == 13 || op == 14) ok &= live[0];
            else if (op == 15) ok &= live[1];
            else if (op == 16) ok &= live[2];
            else { ok &= live[0]; live[0] = false; }
        }
        if (!ok) throw Skip();
    }
    m.desc = "clocking objects, operations";
    for (int op : seq) m.desc += api::fmt(" %d", op);
    RoeSys s;
    uint64_t h = 0;
    for (int op : seq) {
        apply(s, op);
        m.transitions++;
        for (int i = 0; i < 3; i++)
            if (s.live[i]) {
                static const char* who[] = {"object 0", "object 1", "object 2"};
                same_settings(*s.slot[i], s.val[i], who[i]);
                h = mix(h, s.val[i].type * 100 + s.val[i].pre * 10 + s.val[i].dwell.size());
                for (double x : s.val[i].dwell) h = mixd(h, x);
            } else h = mix(h, i);
        m.state(h);
    }
    {
        ROE fresh;
        same_settings(fresh, RV(), "a new default object");
        ROETrapPumping fp;
        RV v;
        v.type = Pumping; v.dwell = {.5, .5}; v.pumps = 1; v.first = true; v.away = false;
        same_settings(fp, v, "a new default pumping object");
    }
    // a changed setting must also change (only) what that object does
    for (int i = 0; i < 3; i++)
        if (s.live[i]) {
            static std::map<std::string, std::vector<double>> memo;
            std::string key = api::fmt("%d %d %d %d %d%d%d%d", s.val[i].type, s.val[i].pre, s.val[i].over, s.val[i].pumps, s.val[i].between, s.val[i].first, s.val[i].away, s.val[i].integer);
            for (double x : s.val[i].dwell) key += api::fmt(" %.17g", x);
            auto it = memo.find(key);
            if (it == memo.end()) it = memo.insert({key, expected(s.val[i])}).first;
            std::vector<double> got = behaviour(*s.slot[i]);
            if (!near(got, it->second)) fail("copy behaves differently", "object %d does not behave as one made with its settings [%s]", i, key.c_str());
        }
    m.executions++;
}

// detector and trap objects
struct DV { std::vector<Well> w; std::vector<double> f; };
static void check_ccd(const CCD& c, const DV& v, const char* who) {
    bool ok = c.n_phases == v.w.size() && c.phases.size() == v.w.size() && c.fraction_of_traps_per_phase.size() == v.f.size();
    for (size_t i = 0; ok && i < v.w.size(); i++) {
        CCDPhase p = c.phases[i];
        ok = p.full_well_depth == v.w[i].full && p.well_notch_depth == v.w[i].notch && p.well_fill_power == v.w[i].power && p.first_electron_fill == v.w[i].fef &&
             c.fraction_of_traps_per_phase[i] == v.f[i] && fabs(p.cloud_fractional_volume_from_electrons(300) - v.w[i].vol(300)) < 1e-12;
    }
    if (!ok) fail("detector copy", "%s does not have the phases its history gives it (%d phases, expected %d)", who, (int)c.n_phases, (int)v.w.size());
}
static void run_ccd(MC& m) {
    int depth = m.thorough ? 6 : 5;
    std::vector<int> seq;
    for (int i = 0; i < depth; i++) { seq.push_back(m.pick(9)); if (i == 1) m.own(); }
    m.desc = "detector objects, operations";
    for (int op : seq) m.desc += api::fmt(" %d", op);
    Well a{1000, 0, 1, 0}, b{2000, 50, .5, .1}, c{500, 10, .8, 0};
    CCD x(api::phase(a)), y(api::phase(a));
    std::unique_ptr<CCD> z(new CCD(x));
    DV vx{{a}, {1}}, vy = vx, vz = vx;
    uint64_t h = 1;
    for (int op : seq) {
        switch (op) {
            case 0: x = CCD(api::phase(b)); vx = DV{{b}, {1}}; break;
            case 1: { std::valarray<CCDPhase> p = {api::phase(a), api::phase(b)}; std::valarray<double> f = {.3, .7}; y = CCD(p, f); vy = DV{{a, b}, {.3, .7}}; p[0].full_well_depth = 1; f[0] = 9; break; }
            case 2: { std::valarray<CCDPhase> p = {api::phase(a), api::phase(b), api::phase(c)}; std::valarray<double> f = {.2, .3, .5}; x = CCD(p, f); vx = DV{{a, b, c}, {.2, .3, .5}}; break; }
            case 3: y = x; vy = vx; break;
            case 4: x = y; vx = vy; break;
            case 5: z.reset(new CCD(y)); vz = vy; break;
            case 6: x = *z; vx = vz; break;
            case 7: x.phases[0].full_well_depth *= 2; vx.w[0].full *= 2; x.fraction_of_traps_per_phase[0] = .25; vx.f[0] = .25; break;
            case 8: y.phases[vy.w.size() - 1].well_fill_power = .6; vy.w.back().power = .6; break;
        }
        m.transitions++;
        check_ccd(x, vx, "object x");
        check_ccd(y, vy, "object y");
        check_ccd(*z, vz, "object z");
        for (auto* v : {&vx, &vy, &vz})
            for (auto& w : v->w) h = mixd(mixd(h, w.full), w.power);
        m.state(h);
    }
    m.executions++;
}
static void run_traps(MC& m) {
    int kind = m.pick(4);
    int depth = m.thorough ? 5 : 4;
    std::vector<int> seq;
    for (int i = 0; i < depth; i++) { seq.push_back(m.pick(6)); if (i == 1) m.own(); }
    m.desc = api::fmt("trap objects of kind %d, operations", kind);
    for (int op : seq) m.desc += api::fmt(" %d", op);
    // value: density, tau; the behaviour observed is the readout of one column
    Well w{1000, 0, .5, 0};
    static std::map<std::string, Image> memo;
    auto readout = [&](Dir& d) { return d.clock({{400}, {0}, {100}, {0}}); };
    auto mk = [&](double D, double tau) {
        Species s{D, tau};
        Traps t;
        if (kind & 1) s.cap = .4;
        if (kind & 2) s.sigma = .5;
        (kind == 0 ? t.ic : kind == 1 ? t.sc : kind == 2 ? t.icco : t.scco).push_back(s);
        Mode o;
        o.empty_first = true;
        return Dir(o, Detector{{w}, {1}}, t);
    };
    auto expect = [&](double D, double tau) -> Image& {
        std::string k = api::fmt("%d %.17g %.17g", kind, D, tau);
        auto it = memo.find(k);
        if (it == memo.end()) { Dir d = mk(D, tau); it = memo.insert({k, readout(d)}).first; }
        return it->second;
    };
    Dir x = mk(10, 1.5), y = mk(20, 3), z = mk(5, .5);
    double v[3][2] = {{10, 1.5}, {20, 3}, {5, .5}};
    auto copy = [&](Dir& to, Dir& from) { to.ic = from.ic; to.sc = from.sc; to.icco = from.icco; to.scco = from.scco; };
    for (int op : seq) {
        switch (op) {
            case 0: copy(x, y); v[0][0] = v[1][0]; v[0][1] = v[1][1]; break;
            case 1: copy(y, z); v[1][0] = v[2][0]; v[1][1] = v[2][1]; break;
            case 2: copy(z, x); v[2][0] = v[0][0]; v[2][1] = v[0][1]; break;
            case 3: x.ic.size() ? x.ic[0].density *= 2 : x.sc.size() ? x.sc[0].density *= 2 : x.icco.size() ? x.icco[0].density *= 2 : x.scco[0].density *= 2; v[0][0] *= 2; break;
            case 4: { Image g = readout(x); (void)g; break; }  // using one must not affect the others
            case 5: { Dir n = mk(7, 2.5); copy(y, n); v[1][0] = 7; v[1][1] = 2.5; break; }
        }
        m.transitions++;
    }
    Dir* d[3] = {&x, &y, &z};
    for (int i = 0; i < 3; i++) {
        Image g = readout(*d[i]), e = expect(v[i][0], v[i][1]);
        for (size_t r = 0; r < g.size(); r++)
            if (!(fabs(g[r][0] - e[r][0]) <= 1e-9 * 500)) fail("trap copy", "trap object %d does not act as one of density %g and release time %g: %s instead of %s", i, v[i][0], v[i][1], column(g, 0).c_str(), column(e, 0).c_str());
        m.state(mixd(mixd(kind, v[i][0]), v[i][1]));
    }
    m.executions++;
}
static void run(MC& m) {
    switch (m.pick(3)) {
        case 0: return run_roe(m);
        case 1: return run_ccd(m);
        default: return run_traps(m);
    }
}
#endif

int main(int argc, char** argv) { return mc_main(argc, argv, run); }
