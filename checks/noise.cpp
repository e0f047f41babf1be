// The compiled neighbourhood step of the read-noise separation on every small image (P30), with buffers of the exact size.
#define MC_MAIN
#include <algorithm>
#include <functional>
#include <memory>

#include "mc.hpp"
#include "read_noise.hpp"
using namespace mc;

static double clampd(double x, double lo, double hi) { return x < lo ? lo : x > hi ? hi : x; }
// a residual counts by how much it exceeds the noise, a difference by how little
static double exceeds(double x, double noise2) { return x == 0 ? 0 : x * x / (x * x + noise2); }
static double within(double x, double noise2) { return noise2 == 0 ? 0 : noise2 / (x * x + noise2); }

static double law(const double* in, const double* sm, int R, int C, int r, int c, double amp, double frac, bool cols) {
    double a2 = amp * amp, lim = amp * frac, mean = 0;
    int n = 0;
    for (int y = std::max(0, r - 1); y <= std::min(R - 1, r + 1); y++)
        for (int x = std::max(0, c - 1); x <= std::min(C - 1, c + 1); x++, n++) mean += in[y * C + x] - sm[y * C + x];
    mean /= n;
    double own = in[r * C + c] - sm[r * C + c];
    double s = clampd(own, -1, 1) * exceeds(own, 4 * a2) + clampd(mean, -lim, lim) * exceeds(mean, 18 * a2);
    auto diff = [&](int y, int x) {
        if (y < 0 || x < 0 || y >= R || x >= C) return 0.0;
        double d = sm[y * C + x] - sm[r * C + c];
        return clampd(d, -lim, lim) * within(d, 4 * a2);
    };
    s += diff(r - 1, c) + diff(r + 1, c);
    if (cols) s += diff(r, c - 1) + diff(r, c + 1);
    return s / (cols ? 6 : 4);
}
static const double AMP[] = {4.5, 0.5, 0, 30}, FRAC[] = {.2, .33, 1};

static void examine(MC& m, const std::vector<double>& a, const std::vector<double>& b, int R, int C) {
    static std::string base;
    base = m.desc;
    for (int k = 0; k < 4; k++)
        for (int f = 0; f < (m.thorough ? 3 : 2); f++)
            for (int smooth = 0; smooth < 2; smooth++) {
                if (!m.thorough && (k + f) % 2) continue;
                int n = R * C;
                std::unique_ptr<double[]> in(new double[n]), sm(new double[n]), out(new double[n]);
                for (int i = 0; i < n; i++) {
                    in[i] = a[i];
                    sm[i] = b[i];
                    out[i] = -1e30;
                }
                determine_read_noise_model(in.get(), sm.get(), R, C, AMP[k], FRAC[f], smooth, out.get());
                m.executions++;
                m.transitions += n;
                uint64_t h = 5;
                for (int i = 0; i < n; i++) {
                    if (in[i] != a[i] || sm[i] != b[i]) fail("alters its input", "pixel %d", i);
                    double want = law(&a[0], &b[0], R, C, i / C, i % C, AMP[k], FRAC[f], smooth);
                    if (!(fabs(out[i] - want) <= 1e-12 + 1e-10 * fabs(want))) {
                        char t[200];
                        snprintf(t, sizeof t, ", noise %g, fraction %g, columns %d", AMP[k], FRAC[f], smooth);
                        m.desc = base + t;
                        fail("wrong adjustment", "pixel (%d,%d) of %d x %d: %.12g instead of %.12g", i / C, i % C, R, C, out[i], want);
                    }
                    h = mixd(h, want);
                }
                m.state(h);
            }
}
static std::string show(const std::vector<double>& a, const std::vector<double>& b, int R, int C) {
    std::string s = std::to_string(R) + " x " + std::to_string(C) + " image";
    char t[40];
    for (auto* v : {&a, &b}) {
        s += v == &a ? ": " : ", smooth ";
        for (double x : *v) {
            snprintf(t, sizeof t, "%g ", x);
            s += t;
        }
    }
    return s;
}
static const double BASE[] = {50, 62, 0, 37, 150, 48.5, 51, 49, 900, 50.2, 50, -7, 44};

static void run(MC& m) {
    int part = m.pick(3);
    std::vector<double> a, b;
    int R, C;
    if (part == 0) {  // every image of at most 4 (thorough 5) pixels over 3 residuals and 3 smooth levels
        int n = m.thorough ? 5 : 4;
        R = 1 + m.pick(n);
        C = 1 + m.pick(n / R);
        const double lev[] = {10, 10.6, 40}, res[] = {0, .7, -25};
        for (int i = 0; i < R * C; i++) {
            int l = m.pick(3);
            b.push_back(lev[l]);
            if (i == 0) m.own();
        }
        for (int i = 0; i < R * C; i++) a.push_back(b[i] + res[m.pick(3)]);
    } else if (part == 1) {  // a residual and a level step at every pair of positions of every shape
        int n = m.thorough ? 7 : 5;
        R = 1 + m.pick(n);
        C = 1 + m.pick(n);
        m.own();
        int p = m.pick(R * C), q = m.pick(R * C);
        double d = m.pick(std::vector<double>{.4, 3, -60});
        for (int i = 0; i < R * C; i++) b.push_back(20 + (i == q ? 5 * d : 0));
        a = b;
        a[p] += d;
        int fill = m.pick(2);
        if (fill)
            for (int i = 0; i < R * C; i++) {
                b[i] += BASE[(i * 7) % 13];
                a[i] += BASE[(i * 7) % 13] + (i % 3 - 1) * 2.5;
            }
    } else {  // every subset of a neighbourhood, placed at every position of larger images
        R = 3 + m.pick(m.thorough ? 3 : 2);
        C = 3 + m.pick(m.thorough ? 3 : 2);
        int y = m.pick(R - 2), x = m.pick(C - 2);
        m.own();
        for (int i = 0; i < R * C; i++) b.push_back(BASE[(i * 5) % 13]);
        a = b;
        int s = m.pick(512);
        for (int k = 0; k < 9; k++)
            if (s >> k & 1) a[(y + k / 3) * C + x + k % 3] += k % 2 ? 7 : -1.5;
    }
    m.desc = show(a, b, R, C);
    examine(m, a, b, R, C);
}
int main(int c, char** v) { return mc_main(c, v, run); }
