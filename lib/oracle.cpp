// Plain C entry point to the C++ library, called from the Python checks: the library's own answer for a set of parameters.
#include <cstdio>
#include <unistd.h>
#include <valarray>
#include <vector>

#include "ccd.hpp"
#include "cti.hpp"
#include "roe.hpp"
#include "traps.hpp"
#include "util.hpp"

namespace {
struct Dir {
    bool on = false;
    ROE* roe = 0;
    CCD* ccd = 0;
    std::valarray<TrapInstantCapture> ic;
    std::valarray<TrapSlowCapture> sc;
    std::valarray<TrapInstantCaptureContinuum> ico;
    std::valarray<TrapSlowCaptureContinuum> sco;
    int express = 0, offset = 0, w0 = 0, w1 = -1, t0 = 0, t1 = -1, prune_f = 20;
    double prune_n = 1e-10;
    template <class T>
    static std::valarray<T> va(const std::vector<T>& v) { return std::valarray<T>(v.data(), v.size()); }
    explicit Dir(const double* p) {
        on = *p++ != 0;
        int type = *p++, nd = *p++;
        std::valarray<double> dwell(p, nd);
        p += nd;
        int prescan = *p++, overscan = *p++;
        bool ec = *p++, ef = *p++, fr = *p++, in = *p++;
        int pumps = *p++;
        if (type == 0) roe = new ROE(dwell, prescan, overscan, ec, ef, fr, in);
        else if (type == 1) roe = new ROEChargeInjection(dwell, prescan, overscan, ec, fr, in);
        else roe = new ROETrapPumping(dwell, pumps, ef, in);
        int np = *p++;
        std::vector<CCDPhase> ph;
        std::vector<double> frac;
        for (int i = 0; i < np; i++, p += 5) {
            frac.push_back(p[0]);
            ph.push_back(CCDPhase(p[1], p[2], p[3], p[4]));
        }
        std::valarray<CCDPhase> vp = va(ph);
        std::valarray<double> vf = va(frac);
        ccd = new CCD(vp, vf);
        int nt = *p++;
        std::vector<TrapInstantCapture> a;
        std::vector<TrapSlowCapture> b;
        std::vector<TrapInstantCaptureContinuum> c;
        std::vector<TrapSlowCaptureContinuum> d;
        for (int i = 0; i < nt; i++, p += 5) {
            if (p[0] == 0) a.push_back(TrapInstantCapture(p[1], p[2], p[3], p[4]));
            if (p[0] == 1) b.push_back(TrapSlowCapture(p[1], p[2], p[3]));
            if (p[0] == 2) c.push_back(TrapInstantCaptureContinuum(p[1], p[2], p[3]));
            if (p[0] == 3) d.push_back(TrapSlowCaptureContinuum(p[1], p[2], p[3], p[4]));
        }
        ic = va(a);
        sc = va(b);
        ico = va(c);
        sco = va(d);
        express = *p++;
        offset = *p++;
        w0 = *p++;
        w1 = *p++;
        t0 = *p++;
        t1 = *p++;
        prune_n = *p++;
        prune_f = *p++;
    }
    ~Dir() {
        delete roe;
        delete ccd;
    }
};
}  // namespace

extern "C" void oracle_cti(double* img, int rows, int cols, const double* pp, const double* ps, int negative, int iterations) {
    set_verbosity(0);
    Dir a(pp), b(ps);
    std::valarray<std::valarray<double> > in(std::valarray<double>(0.0, cols), rows), out;
    for (int r = 0; r < rows; r++)
        for (int c = 0; c < cols; c++) in[r][c] = img[r * cols + c];
#define ARGS(X) \
    X.on ? X.roe : 0, X.on ? X.ccd : 0, X.on ? &X.ic : 0, X.on ? &X.sc : 0, X.on ? &X.ico : 0, X.on ? &X.sco : 0, X.express, X.offset, X.w0, X.w1, X.t0, X.t1, X.prune_n, X.prune_f
    if (iterations <= 0) out = add_cti(in, ARGS(a), ARGS(b), negative);
    else out = remove_cti(in, iterations, ARGS(a), ARGS(b), negative);
    for (int r = 0; r < rows; r++)
        for (int c = 0; c < cols; c++) img[r * cols + c] = out[r][c];
}
extern "C" double oracle_volume(double full, double notch, double power, double fef, double n) {
    return CCDPhase(full, notch, power, fef).cloud_fractional_volume_from_electrons(n);
}
