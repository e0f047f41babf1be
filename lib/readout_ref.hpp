// Independent reference for a whole readout (no code shared with the library).
//  literal(): every packet in its own physical pixel, stepping one pixel at a time to the register.
//  procedure(): the documented passes > rows > steps > phases procedure with its transfer multipliers.
//  pump(): literal back-and-forth pumping of one pixel.
#ifndef READOUT_REF_HPP
#define READOUT_REF_HPP
#include <map>
#include <string>
#include <tuple>

#include "ref.hpp"

namespace rr {
using ref::Pop;
using ref::Species;
using ref::Well;
typedef std::vector<std::vector<double>> Image;  // [row][column]

struct Traps {
    std::vector<Species> ic, sc, icco, scco;
    double density() const {
        double d = 0;
        for (auto* v : {&ic, &sc, &icco, &scco})
            for (auto& s : *v) d += s.D;
        return d;
    }
    bool continuum() const { return !icco.empty() || !scco.empty(); }
};
struct Detector {
    std::vector<Well> phases;
    std::vector<double> frac;
};
enum Type { Standard = 0, Injection = 1, Pumping = 2 };
struct Mode {
    int type = Standard;
    std::vector<double> dwell{1.0};
    int prescan = 0, overscan = -1;
    bool empty_columns = true, empty_first = false, away = true, integer = false;
    int n_pumps = 1;
    int express = 0, offset = 0;
    int r0 = 0, r1 = -1, c0 = 0, c1 = -1;
    double prune_n = 1e-10;
    int prune_f = 20;
    bool negatives = true;
    int n_phases() const { return type == Pumping ? (int)dwell.size() / 2 : (int)dwell.size(); }
};

// ---- transfer multipliers ----
typedef std::vector<std::vector<double>> Matrix;  // [pass][row]
struct Schedule {
    Matrix m;
    std::vector<std::vector<char>> store;
    bool tie = false;  // whether some transfer takes place at all hangs on the rounding of its multiplier
};

inline double clampd(double x, double lo, double hi) { return x < lo ? lo : x > hi ? hi : x; }

inline Matrix standard_matrix(int n_rows, int express, int offset, int prescan, int overscan, bool empty_first, bool integer, bool* tie = nullptr) {
    int off = offset + prescan, N = n_rows + off;
    int E = express == 0 ? N : std::min(express, N);
    bool separate = empty_first && E < N;
    int base = separate ? N - 1 : N;
    double mm = (double)base / E;
    if (integer) mm = ceil(mm);
    // transfers represented by base pass p for a charge that has d transfers to make
    auto B = [&](int p, int d) {
        double x = d - p * mm;
        if (fabs(x) < 1e-9) {
            if (tie && mm * 8 != floor(mm * 8)) *tie = true;
            x = 0;
        }
        return clampd(x, 0, mm);
    };
    int passes = separate ? N : E;
    Matrix M(passes, std::vector<double>(n_rows, 0));
    for (int r = 0; r < n_rows; r++) {
        int d = r + 1 + off;
        if (!empty_first)
            for (int p = 0; p < E; p++) M[p][r] = B(p, d);
        else if (!separate)
            for (int p = 0; p < E; p++) M[E - 1 - p][r] = B(p, d);
        else {
            M[N - d][r] += 1;
            for (int p = 0; p < E; p++) {
                int k = 0;  // how many distances still need this pass
                for (int e = 1; e <= base; e++) k += B(p, e) > 0;
                if (d >= 2 && k < passes) M[k][r] += B(p, d - 1);
            }
        }
        if (overscan >= 0) {
            double excess = d - (overscan - 1 + prescan);
            for (int q = 0; q < passes && excess > 1e-12; q++) {
                int p = empty_first ? q : passes - 1 - q;
                double x = std::min(excess, M[p][r]);
                M[p][r] -= x;
                excess -= x;
                if (M[p][r] < 1e-9) {
                    if (M[p][r] != 0 && tie) *tie = true;
                    M[p][r] = 0;
                }
                if (fabs(excess) < 1e-9) {
                    if (tie && mm * 8 != floor(mm * 8)) *tie = true;
                    excess = 0;
                }
            }
        }
    }
    return M;
}
inline Schedule schedule(const Mode& o, int n_rows) {
    Schedule s;
    if (o.type == Standard) {
        s.m = standard_matrix(n_rows, o.express, o.offset, o.prescan, o.overscan, o.empty_first, o.integer, &s.tie);
        int P = s.m.size();
        s.store.assign(P, std::vector<char>(n_rows, 0));
        if (!o.empty_first)
            for (int p = 0; p + 1 < P; p++) {
                int r = n_rows - 1;
                for (int i = 1; i < n_rows; i++)
                    if (s.m[p + 1][i] > 0) {
                        r = i - 1;
                        break;
                    }
                s.store[p][r] = 1;
            }
    } else if (o.type == Injection) {
        int N = o.prescan + (o.overscan >= 0 ? o.overscan - 1 : o.offset + n_rows);
        int E = o.express == 0 ? N : std::min(o.express, N);
        double mm = E ? (double)N / E : 0;
        if (o.integer) mm = ceil(mm);
        for (int p = 0; p < E; p++) s.m.push_back(std::vector<double>(n_rows, clampd(N - p * mm, 0, mm)));
        s.store.assign(E, std::vector<char>(n_rows, 0));
    } else {
        Matrix f = standard_matrix(o.n_pumps, o.express, 0, 0, -1, o.empty_first, o.integer, &s.tie);
        std::vector<double> col;
        for (auto& row : f)
            if (row.back() > 0) col.push_back(row.back());
        for (double x : col) s.m.push_back(std::vector<double>(n_rows, x));
        s.store.assign(col.size(), std::vector<char>(n_rows, 1));
    }
    return s;
}

// ---- clock sequence, from the geometry of the potential wells ----
struct Cell {
    bool high;
    std::vector<int> capture, release;  // relative pixel numbers
    double share;                       // of the release to each
};
inline Cell cell(int P, int step, int phase, bool away) {
    // position of a cloud along its path, in phases from where it starts (P = one whole pixel on)
    int l = step <= P ? step : 2 * P - step;
    Cell c;
    // the cloud of pixel +k is at distance (phase - l + kP) phases
    int best = 1 << 30;
    std::vector<int> near;
    for (int k = -2; k <= 2; k++) {
        int d = abs(phase - l + k * P);
        if (d < best) {
            best = d;
            near.clear();
        }
        if (d == best) near.push_back(k);
    }
    c.high = best == 0;
    if (c.high) c.capture = near;
    c.release = near;
    c.share = 1.0 / near.size();
    if (away && phase > l % P) {
        for (auto& k : c.capture) k++;
        for (auto& k : c.release) k++;
    }
    return c;
}

// ---- traps of one pixel, one phase ----
inline const ref::ContLaw& law(double mu, double sigma, double cap, double dwell) {
    static std::map<std::tuple<double, double, double, double>, ref::ContLaw> cache;
    auto key = std::make_tuple(mu, sigma, cap, dwell);
    auto it = cache.find(key);
    if (it == cache.end()) it = cache.insert({key, ref::LogNormal(mu, sigma, cap, dwell, dwell / 40, std::max(dwell * 2000, 10 * mu * exp(5 * sigma))).law()}).first;
    return it->second;
}
struct Site {
    std::vector<Pop> pops;  // in the fixed order instant, slow, instant continuum, slow continuum
    bool unspecified = false;
    Site() {}
    Site(const Traps& t, const Well& w, double frac, double dwell) {
        const std::vector<Species>* v[4] = {&t.ic, &t.sc, &t.icco, &t.scco};
        for (int k = 0; k < 4; k++) {
            if (v[k]->empty()) continue;
            Pop p;
            p.type = (ref::Type)k;
            p.sp = *v[k];
            for (auto& s : p.sp) {
                s.D *= frac;
                if (k >= 2) p.law.push_back(law(s.tau, s.sigma, k == 3 ? s.cap : 0, dwell));
            }
            p.well = w;
            p.dwell = dwell;
            pops.push_back(p);
        }
    }
    // exact: n is an input value (not the result of arithmetic that the library may round differently)
    double step(double n, bool exact) {
        double r = 0;
        for (auto& p : pops) {
            r += p.step(n + r, exact && r == 0);
            unspecified |= p.negative_partial;
        }
        return r;
    }
    void reset() { for (auto& p : pops) p.reset(); }
    double trapped() const {
        double t = 0;
        for (auto& p : pops) t += p.trapped();
        return t;
    }
};
inline std::vector<Site> sites(const Traps& t, const Detector& d, const Mode& o) {
    std::vector<Site> v;
    for (int i = 0; i < o.n_phases(); i++) v.push_back(Site(t, d.phases[i], d.frac[i], o.dwell[i]));
    return v;
}

struct Result {
    Image image;
    std::vector<char> unspecified;  // per column
    std::vector<double> trapped;    // left in the traps after each column
    long long interactions = 0;
};

// the documented procedure
inline Result procedure(const Image& in, const Mode& o, const Detector& det, const Traps& traps) {
    Result R;
    R.image = in;
    int n_rows = in.size(), n_cols = in[0].size();
    int r1 = o.r1 == -1 ? n_rows : o.r1, c1 = o.c1 == -1 ? n_cols : o.c1;
    R.unspecified.assign(n_cols, 0);
    R.trapped.assign(n_cols, 0);
    Schedule S = schedule(o, n_rows);
    if (S.tie) R.unspecified.assign(n_cols, 1);
    int P = o.n_phases(), n_steps = o.dwell.size();
    std::vector<std::vector<Cell>> seq(n_steps);
    for (int s = 0; s < n_steps; s++)
        for (int i = 0; i < P; i++) seq[s].push_back(cell(P, s, i, o.away && o.type != Pumping));
    std::vector<Site> st = sites(traps, det, o), saved = st;
    for (int c = o.c0; c < c1; c++) {
        std::vector<char> touched(n_rows, 0);
        for (size_t p = 0; p < S.m.size(); p++) {
            st = saved;
            for (int r = o.r0; r < r1; r++) {
                double mult = S.m[p][r];
                if (mult == 0) continue;
                for (int s = 0; s < n_steps; s++)
                    for (int i = 0; i < P; i++) {
                        const Cell& k = seq[s][i];
                        double n = 0;
                        bool exact = true;
                        for (int x : k.capture)
                            if (r + x >= 0 && r + x < n_rows) {
                                n += R.image[r + x][c];
                                exact &= R.image[r + x][c] == in[r + x][c] && !touched[r + x];
                            }
                        double d = st[i].step(n, exact);
                        R.unspecified[c] |= st[i].unspecified;
                        R.interactions++;
                        for (int x : k.release)
                            if (r + x >= 0 && r + x < n_rows) {
                                double& px = R.image[r + x][c];
                                if (d != 0) touched[r + x] = 1;
                                px += d * mult * k.share;
                                if (!o.negatives && px < 0) px = 0;
                            }
                    }
                if (S.store[p][r] && !(o.type == Pumping && p + 1 == S.m.size())) saved = st;
            }
        }
        for (auto& x : st) {
            R.unspecified[c] |= x.unspecified;
            R.trapped[c] += x.trapped();
        }
        if (o.empty_columns) {
            for (auto& x : st) {
                x.reset();
                x.unspecified = false;
            }
        }
        saved = st;
    }
    return R;
}

// a literal array of pixels, single phase
inline Result literal(const Image& in, const Mode& o, const Well& well, const Traps& traps) {
    Result R;
    R.image = in;
    int n_rows = in.size(), n_cols = in[0].size();
    R.unspecified.assign(n_cols, 0);
    R.trapped.assign(n_cols, 0);
    int off = o.offset + o.prescan, last = n_rows + off;
    int physical = o.overscan >= 0 ? o.overscan - 1 + o.prescan : last;
    for (int c = 0; c < n_cols; c++) {
        std::vector<Site> pixel(last + 1);
        for (int x = 1; x <= std::min(last, physical); x++) pixel[x] = Site(traps, well, 1, o.dwell[0]);
        std::vector<char> touched(last + 1, 0);
        std::vector<double> packet(last + 1, 0.0);  // indexed by starting distance from the register
        for (int r = 0; r < n_rows; r++) packet[r + 1 + off] = in[r][c];
        for (int t = 0; t < last; t++)      // after t transfers the packet from distance d is in pixel d - t
            for (int d = t + 1; d <= last; d++) {
                int x = d - t;
                if (x > physical) continue;
                R.interactions++;
                bool exact = d <= off || packet[d] == in[d - off - 1][c];
                double y = pixel[x].step(packet[d], exact && !touched[d]);
                if (y != 0) touched[d] = 1;
                packet[d] += y;
            }
        for (int r = 0; r < n_rows; r++) R.image[r][c] = packet[r + 1 + off];
        for (int x = 1; x <= std::min(last, physical); x++) {
            R.unspecified[c] |= pixel[x].unspecified;
            R.trapped[c] += pixel[x].trapped();
        }
    }
    return R;
}

// literal pumping of row r0: the cloud of every pixel moves along the phases into the next pixel and back
inline Result pump(const Image& in, const Mode& o, const Detector& det, const Traps& traps) {
    Result R;
    R.image = in;
    int n_rows = in.size(), n_cols = in[0].size(), P = o.n_phases(), r = o.r0;
    int c1 = o.c1 == -1 ? n_cols : o.c1;
    R.unspecified.assign(n_cols, 0);
    R.trapped.assign(n_cols, 0);
    for (int c = o.c0; c < c1; c++) {
        std::vector<Site> st = sites(traps, det, o);
        std::vector<char> touched(n_rows, 0);
        for (int k = 0; k < o.n_pumps; k++)
            for (int s = 0; s < 2 * P; s++) {
                int l = s <= P ? s : 2 * P - s;
                for (int i = 0; i < P; i++) {
                    // the trap is at i - r P, the cloud of pixel q at l - q P (also outside the image: empty wells)
                    int best = 1 << 30;
                    std::vector<int> near;
                    for (int q = r - 2; q <= r + 2; q++) {
                        int d = abs((i - r * P) - (l - q * P));
                        if (d < best) {
                            best = d;
                            near.clear();
                        }
                        if (d == best) near.push_back(q);
                    }
                    int q0 = near[0];
                    bool inside = q0 >= 0 && q0 < n_rows;
                    bool here = best == 0 && inside;
                    double x = st[i].step(here ? R.image[q0][c] : 0, !here || !touched[q0]);
                    R.interactions++;
                    for (int q : near)
                        if (q >= 0 && q < n_rows) {
                            double& px = R.image[q][c];
                            if (x != 0) touched[q] = 1;
                            px += x / near.size();
                            if (!o.negatives && px < 0) px = 0;
                        }
                }
            }
        for (auto& x : st) {
            R.unspecified[c] |= x.unspecified;
            R.trapped[c] += x.trapped();
        }
    }
    return R;
}
}  // namespace rr
#endif
