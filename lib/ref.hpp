// Independent, height-resolved reference model of a trap population (no code shared with the library).
// State: for a sorted list of heights z, the filled density f[species] between successive heights.
#ifndef REF_HPP
#define REF_HPP
#include <math.h>

#include <algorithm>
#include <array>
#include <functional>
#include <memory>
#include <vector>

namespace ref {

struct Well {
    double full, notch, power, fef;
    double vol(double n) const {
        if (n <= 0) return fef;
        double x = (n - notch) / (full - notch);
        if (x < 0) x = 0;
        if (x > 1) x = 1;
        return fef + (1 - fef) * (x == 0 ? 0.0 : ::pow(x, power));
    }
};

enum Type { IC = 0, SC = 1, ICCO = 2, SCCO = 3 };

struct Species {
    double D, tau;
    double cap = 0;    // capture timescale (slow capture)
    double sigma = 0;  // width (continuum)
    double a = 0, b = 0;  // volume range of exposure (instant capture only)
    // exposure weight integrated from 0 to v
    double W(double v) const {
        if (b == 0) return v;
        if (v <= a) return 0;
        if (a == b) return v - b;
        if (v <= b) return 0.5 * (v - a) * (v - a) / (b - a);
        return 0.5 * (b - a) + (v - b);
    }
};

// population law of a continuum species: fill fraction <-> effective time; result of slow capture
struct ContLaw {
    std::function<double(double)> fill_from_time, time_from_fill, after_capture;
};

typedef std::array<double, 4> F4;

struct Pop {
    Type type = IC;
    std::vector<Species> sp;
    std::vector<ContLaw> law;  // continuum only
    Well well;
    double dwell = 1;
    std::vector<double> top;  // segment tops, ascending; segment i spans (top[i-1], top[i]); empty above
    std::vector<F4> f;
    bool negative_partial = false;  // set when a negative packet (or one that is zero only up to rounding) met exposed traps

    void reset() { top.clear(); f.clear(); }
    double height() const { return top.empty() ? 0 : top.back(); }
    // make c a boundary; extend with empty traps if above
    void cut(double c) {
        if (c <= 0) return;
        double lo = 0;
        for (size_t i = 0; i < top.size(); i++) {
            if (c == top[i]) return;
            if (c < top[i]) {
                top.insert(top.begin() + i, c);
                f.insert(f.begin() + i, f[i]);
                return;
            }
            lo = top[i];
        }
        (void)lo;
        top.push_back(c);
        f.push_back(F4{0, 0, 0, 0});
    }
    double weight(const Species& s, double lo, double hi) const { return s.W(hi) - s.W(lo); }
    double trapped() const {
        double n = 0, lo = 0;
        for (size_t i = 0; i < top.size(); i++) {
            for (size_t k = 0; k < sp.size(); k++) n += f[i][k] * weight(sp[k], lo, top[i]);
            lo = top[i];
        }
        return n;
    }
    double trapped_abs() const { return trapped(); }

    double release_fill(size_t k, double fill) const {
        if (type == IC || type == SC) return fill * exp(-dwell / sp[k].tau);
        if (sp[k].D == 0) return 0;
        double fr = fill / sp[k].D;
        return sp[k].D * law[k].fill_from_time(law[k].time_from_fill(fr) + dwell);
    }
    double slow_fill(size_t k, double fill) const {
        const Species& s = sp[k];
        if (type == SC) {
            double r = 1 / s.tau, c = s.cap != 0 ? 1 / s.cap : 0, t = r + c;
            double e = (1 - exp(-t * dwell)) / t;
            double pe = s.cap == 0 ? 1.0 : c * e, pf = 1 - r * e;
            return pf * fill + pe * (s.D - fill);
        }
        if (s.D == 0) return 0;
        return s.D * law[k].after_capture(law[k].time_from_fill(fill / s.D));
    }

    // one interaction; returns electrons released minus captured
    double step(double n_free, bool exact = true) {
        negative_partial = false;
        double tiny = 0;
        if (!exact)
            for (auto& s : sp) tiny += 1e-9 * (s.D + fabs(n_free));
        if (type == IC || type == ICCO) {
            double rel = 0, lo = 0;
            for (size_t i = 0; i < top.size(); i++) {
                for (size_t k = 0; k < sp.size(); k++) {
                    double nf = release_fill(k, f[i][k]);
                    rel += (f[i][k] - nf) * weight(sp[k], lo, top[i]);
                    f[i][k] = nf;
                }
                lo = top[i];
            }
            double n = n_free + rel, c = well.vol(n);
            if (c <= 0) return rel;
            negative_partial = !exact && n < tiny;
            if (n < 0) { negative_partial = true; return rel; }
            cut(c);
            double cap = 0;
            lo = 0;
            for (size_t i = 0; i < top.size() && top[i] <= c; i++) {
                for (size_t k = 0; k < sp.size(); k++) cap += (sp[k].D - f[i][k]) * weight(sp[k], lo, top[i]);
                lo = top[i];
            }
            double enough = cap > 0 ? std::min(1.0, n / cap) : 1.0;
            for (size_t i = 0; i < top.size() && top[i] <= c; i++)
                for (size_t k = 0; k < sp.size(); k++) f[i][k] += enough * (sp[k].D - f[i][k]);
            return rel - cap * enough;
        }
        double c1 = well.vol(n_free);
        if (c1 > 0) cut(c1);
        double rel = 0, lo = 0;
        for (size_t i = 0; i < top.size(); i++) {
            if (lo >= c1)
                for (size_t k = 0; k < sp.size(); k++) {
                    double nf = release_fill(k, f[i][k]);
                    rel += (f[i][k] - nf) * (top[i] - lo);
                    f[i][k] = nf;
                }
            lo = top[i];
        }
        double n = n_free + rel, c = well.vol(n);
        if (c <= 0) return rel;
        negative_partial = !exact && n < tiny;
        if (n < 0) { negative_partial = true; return rel; }
        cut(c);
        double net = 0;
        lo = 0;
        std::vector<F4> g(f);
        for (size_t i = 0; i < top.size() && top[i] <= c; i++) {
            for (size_t k = 0; k < sp.size(); k++) {
                g[i][k] = slow_fill(k, f[i][k]);
                net += (f[i][k] - g[i][k]) * (top[i] - lo);
            }
            lo = top[i];
        }
        double enough = 1;
        if (net < 0) enough = std::min(1.0, n / -net);
        for (size_t i = 0; i < top.size() && top[i] <= c; i++)
            for (size_t k = 0; k < sp.size(); k++) f[i][k] += enough * (g[i][k] - f[i][k]);
        return rel + net * enough;
    }
};

// Numerically integrated log-normal population (independent of GSL): tabulated on a fine logarithmic time grid
struct LogNormal {
    double mu, sigma, cap, dwell;
    std::vector<double> lt, w;    // log tau nodes, weights
    std::vector<double> T, Ff, Fc;  // time grid
    LogNormal(double mu, double sigma, double cap, double dwell, double tmin = 0, double tmax = 0) : mu(mu), sigma(sigma), cap(cap), dwell(dwell) {
        const int N = 600;
        double sum = 0;
        for (int i = 0; i <= N; i++) {
            double x = -9 + 18.0 * i / N;
            double ww = exp(-0.5 * x * x) * ((i == 0 || i == N) ? 1 : (i % 2 ? 4 : 2));
            lt.push_back(log(mu) + sigma * x);
            w.push_back(ww);
            sum += ww;
        }
        for (auto& x : w) x /= sum;
        if (tmax == 0) return;  // no table
        const int M = 4000;
        for (int i = 0; i < M; i++) {
            double t = exp(log(tmin) + (log(tmax) - log(tmin)) * i / (M - 1));
            T.push_back(t);
            Ff.push_back(fill(t));
            if (cap > 0) Fc.push_back(after(t));
        }
    }
    double fill(double t) const {
        double s = 0;
        for (size_t i = 0; i < w.size(); i++) s += w[i] * exp(-t * exp(-lt[i]));
        return s;
    }
    double after(double t) const {  // population average after slow capture, t = effective time since full (inf: empty)
        double s = 0;
        for (size_t i = 0; i < w.size(); i++) {
            double r = exp(-lt[i]), c = 1 / cap, tot = r + c, e = (1 - exp(-tot * dwell)) / tot;
            double f0 = std::isinf(t) ? 0 : exp(-t * r);
            s += w[i] * (f0 * (1 - r * e) + (1 - f0) * c * e);
        }
        return s;
    }
    double interp(const std::vector<double>& Y, double t) const {
        if (t <= T.front()) return -1;
        if (t >= T.back()) return -1;
        double x = log(t / T.front()) / log(T.back() / T.front()) * (T.size() - 1);
        size_t i = (size_t)x;
        if (i + 1 >= T.size()) i = T.size() - 2;
        double u = x - i;
        return (1 - u) * Y[i] + u * Y[i + 1];
    }
    ContLaw law() const {
        std::shared_ptr<LogNormal> self(new LogNormal(*this));
        ContLaw L;
        L.fill_from_time = [self](double t) {
            if (t <= 0) return 1.0;
            if (std::isinf(t)) return 0.0;
            double v = self->interp(self->Ff, t);
            return v >= 0 ? v : self->fill(t);
        };
        L.time_from_fill = [self](double f) {
            if (f >= 1) return 0.0;
            if (f <= 0) return (double)INFINITY;
            const std::vector<double>& Y = self->Ff;
            if (f > Y.front()) {  // below the grid: bisect
                double lo = 0, hi = self->T.front();
                for (int i = 0; i < 60; i++) { double m = 0.5 * (lo + hi); (self->fill(m) > f ? lo : hi) = m; }
                return 0.5 * (lo + hi);
            }
            if (f < Y.back()) return (double)self->T.back() * 1.0000001;
            size_t lo = 0, hi = Y.size() - 1;
            while (hi - lo > 1) { size_t m = (lo + hi) / 2; (Y[m] >= f ? lo : hi) = m; }
            double u = (Y[lo] - f) / (Y[lo] - Y[hi]);
            return self->T[lo] * ::pow(self->T[hi] / self->T[lo], u);
        };
        L.after_capture = [self](double t) {
            if (std::isinf(t)) return self->after(INFINITY);
            double v = t > 0 ? self->interp(self->Fc, t) : -1;
            return v >= 0 ? v : self->after(t);
        };
        return L;
    }
};

}  // namespace ref
#endif
