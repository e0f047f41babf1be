// Every combination of a few clocking and detector settings, consistent or not: contradictory ones must be refused (P36).
// Each call runs in a child process, because a refusal may end the process.
#define MC_MAIN
#include <sys/wait.h>

#include "drive.hpp"
using namespace mc;
using namespace drive;

typedef std::valarray<double> A;
typedef std::valarray<A> VI;

struct Side {
    bool used = false;
    int type = 0, steps = 1, phases = 1, fractions = 1, prescan = 0, overscan = -1, pumps = 1, active = 1;
    bool list = true;  // detector given as a list of phases
    std::string why() const {
        if (!used) return "";
        if (list && fractions != phases) return api::fmt("%d phases with %d trap fractions", phases, fractions);
        if (type != 2 && prescan < 0) return api::fmt("prescan of %d", prescan);
        if (type != 2 && overscan != -1 && overscan < 1) return api::fmt("overscan from %d", overscan);
        if (type == 2 && steps % 2) return api::fmt("trap pumping in %d steps", steps);
        int need = type == 2 ? steps / 2 : steps;
        if ((list ? phases : 1) != need) return api::fmt("%d phases clocked as %d", list ? phases : 1, need);
        if (type == 2 && active != 1) return api::fmt("trap pumping of %d rows", active);
        return "";
    }
    std::string show() const {
        if (!used) return "none";
        return api::fmt("type %d, %d steps, %d phases, %d fractions%s, prescan %d, overscan %d, %d active rows", type, steps, list ? phases : 1,
                        list ? fractions : 1, list ? "" : " (single phase)", prescan, overscan, active);
    }
};

static ROE* roe_of(const Side& s) {
    A dwell(1.0, s.steps);
    if (s.steps) dwell /= s.steps;
    if (s.type == 0) return new ROE(dwell, s.prescan, s.overscan);
    if (s.type == 1) return new ROEChargeInjection(dwell, s.prescan, s.overscan);
    return new ROETrapPumping(dwell, s.pumps);
}
static CCD* ccd_of(const Side& s) {
    CCDPhase p(1000., 0., .6, 0.);
    if (!s.list) return new CCD(p);
    std::valarray<CCDPhase> ph(p, s.phases);
    A fr(1.0 / s.fractions, s.fractions);
    return new CCD(ph, fr);
}

enum { CAUGHT = 97, FOREIGN = 98, RETURNED = 99, TOUCHED = 96 };

static int child(const Side& P, const Side& S, int how, std::string* text) {
    int e[2];
    if (pipe(e)) abort();
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        close(e[0]);
        dup2(e[1], 2);
        dup2(e[1], 1);
        signal(SIGABRT, SIG_DFL);
        signal(SIGSEGV, SIG_DFL);
        signal(SIGALRM, SIG_DFL);
        mc_finished = true;
        alarm(60);
        const int n = 3;
        VI in(A(0.0, n), n);
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++) in[i][j] = (i * 5 + j * 3) % 7 * 60;
        VI keep = in;
        int rc = RETURNED;
        try {
            set_verbosity(0);
            std::valarray<TrapInstantCapture> t = {TrapInstantCapture(5., 2.)};
            ROE* pr = P.used ? roe_of(P) : nullptr;
            CCD* pc = P.used ? ccd_of(P) : nullptr;
            ROE* sr = S.used ? roe_of(S) : nullptr;
            CCD* sc = S.used ? ccd_of(S) : nullptr;
            // the rows clocked are limited by the window of their own direction
            int p0 = 0, p1 = -1, s0 = 0, s1 = -1;
            if (P.used && P.active < n) { p0 = 1; p1 = 1 + P.active; }
            if (S.used && S.active < n) { s0 = 1; s1 = 1 + S.active; }
            VI out;
            if (how == 2)
                out = clock_charge_in_one_direction(in, pr, pc, &t, nullptr, nullptr, nullptr, 0, 0, p0, p1, 0, -1);
            else if (how == 1)
                out = remove_cti(in, 1, pr, pc, P.used ? &t : nullptr, nullptr, nullptr, nullptr, 0, 0, p0, p1, 0, -1, 1e-10, 20, sr, sc, S.used ? &t : nullptr,
                                 nullptr, nullptr, nullptr, 0, 0, s0, s1, 0, -1, 1e-10, 20);
            else
                out = add_cti(in, pr, pc, P.used ? &t : nullptr, nullptr, nullptr, nullptr, 0, 0, p0, p1, 0, -1, 1e-10, 20, sr, sc, S.used ? &t : nullptr, nullptr,
                              nullptr, nullptr, 0, 0, s0, s1, 0, -1, 1e-10, 20);
            double sum = 0;
            bool good = out.size() == (size_t)n;
            for (size_t i = 0; i < out.size(); i++) {
                good = good && out[i].size() == (size_t)n;
                sum += out[i].sum();
            }
            if (!good || !(fabs(sum) < 1e9)) {
                dprintf(2, "%d rows, total %g", (int)out.size(), sum);
                rc = FOREIGN;
            }
        } catch (std::exception& x) {
            dprintf(2, "exception: %s", x.what());
            rc = CAUGHT;
        } catch (...) {
            rc = CAUGHT;
        }
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++)
                if (in[i][j] != keep[i][j]) rc = TOUCHED;
        _exit(rc);
    }
    close(e[1]);
    char b[512];
    ssize_t k;
    text->clear();
    while ((k = read(e[0], b, sizeof b)) > 0) text->append(b, k);
    close(e[0]);
    int st;
    waitpid(pid, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
}

static void decide(MC& m, const Side& P, const Side& S, int how) {
    m.desc = api::fmt("parallel %s; serial %s; %s", P.show().c_str(), S.show().c_str(), how == 2 ? "clocked in one direction" : how == 1 ? "removal" : "addition");
    std::string why = P.why();
    if (why.empty()) why = S.why();
    std::string text;
    int rc = child(P, S, how, &text);
    m.executions++;
    m.transitions++;
    if (rc == TOUCHED) fail("input altered", "the image was altered");
    if (rc < 0) fail("killed", "ended by signal %d (%s)", -rc, why.empty() ? "consistent" : why.c_str());
    if (why.empty()) {
        if (rc != RETURNED) fail("consistent settings refused", "status %d: %s", rc, text.c_str());
        m.count("accepted");
    } else {
        if (rc == RETURNED || rc == FOREIGN) fail("contradiction computed with", "%s gave an image", why.c_str());
        if (rc == 0) fail("refused with success", "%s ended the program with status 0", why.c_str());
        if (text.empty()) fail("refused without a reason", "%s, status %d", why.c_str(), rc);
        m.count("refused");
    }
    uint64_t h = rc + 1000;
    for (char c : text) h = mix(h, c);
    m.state(mix(h, why.size()));
}

static Side any(MC& m, bool full) {
    Side s;
    s.used = true;
    s.type = m.pick(3);
    s.steps = 1 + m.pick(m.thorough ? 8 : 6);
    s.list = m.pickb();
    if (s.list) {
        s.phases = 1 + m.pick(m.thorough ? 6 : 4);
        s.fractions = full ? 1 + m.pick(m.thorough ? 6 : 4) : s.phases;
    }
    if (s.type != 2) {
        static const int pre[] = {0, 1, -1, 3, -2, -100}, over[] = {-1, 1, 3, 9, 0, -2, -50};
        s.prescan = pre[m.pick(m.thorough ? 6 : 4)];
        s.overscan = over[m.pick(full ? m.thorough ? 7 : 6 : 3)];
        s.active = 3;
    } else {
        s.pumps = 1 + 2 * m.pick(2);
        s.active = 1 + m.pick(3);
    }
    return s;
}

static void run(MC& m) {
    int part = m.pick(3);
    Side P, S;
    if (part == 0) {  // one direction, by the clocking function itself
        P = any(m, true);
        m.own();
        decide(m, P, S, 2);
    } else if (part == 1) {  // one direction of an addition or a removal
        int how = m.pick(2);
        Side& s = m.pickb() ? P : S;
        s = any(m, m.thorough);
        m.own();
        decide(m, P, S, how);
    } else {  // both directions, at most one of them wrong
        bool first = m.pickb();
        Side& bad = first ? P : S;
        Side& other = first ? S : P;
        int how = m.pick(m.thorough ? 2 : 1);
        other.used = true;
        other.steps = 1 + m.pick(2);
        other.phases = other.fractions = other.steps;
        other.type = m.pick(2);
        other.prescan = m.pick(2);
        other.active = 3;
        bad = any(m, false);
        // pumping needs its own direction's window, which limits the other one's columns
        m.own();
        decide(m, P, S, how);
    }
}
int main(int argc, char** argv) { return mc_main(argc, argv, run); }
