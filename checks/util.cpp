// Exhaustive enumeration of small inputs of the array and file utilities (P29).
#define MC_MAIN
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>

#include "drive.hpp"
using namespace mc;
using namespace drive;

static std::string dir() {
    static std::string d;
    if (d.empty()) {
        char b[] = "arctic-util-XXXXXX";
        if (!mkdtemp(b)) { perror("mkdtemp"); abort(); }
        d = b;
    }
    return d;
}
static std::string path(const char* n) { return dir() + "/" + n; }
static void put(const std::string& p, const std::string& text) {
    FILE* f = fopen(p.c_str(), "w");
    if (!f || fwrite(text.data(), 1, text.size(), f) != text.size()) abort();
    fclose(f);
}
// run f in a child: exit status, or -1 when it was killed by a signal; ok: f returned
static int child(void (*f)(const char*), const char* arg, std::string* err) {
    int e[2];
    if (pipe(e)) abort();
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        close(e[0]);
        dup2(e[1], 2);
        dup2(e[1], 1);
        signal(SIGABRT, SIG_DFL);
        signal(SIGSEGV, SIG_DFL);
        mc_finished = true;
        alarm(20);
        signal(SIGALRM, SIG_DFL);
        try {
            f(arg);
        } catch (...) {
            _exit(98);  // not an error report
        }
        _exit(99);  // returned
    }
    close(e[1]);
    char b[512];
    ssize_t n;
    err->clear();
    while ((n = read(e[0], b, sizeof b)) > 0) err->append(b, n);
    close(e[0]);
    int st;
    waitpid(p, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
}
static void load(const char* p) {
    VImage v = load_image_from_txt(p);
    // what was read, for the parent
    printf("%d", (int)v.size());
    for (auto& r : v) {
        printf(";");
        for (double x : r) printf(" %.17g", x);
    }
    fflush(stdout);
}
static VImage g_save;
static void save(const char* p) { save_image_to_txt(p, g_save); }

// the medium is full after g_limit bytes
static long g_limit;
static void save_limited(const char* p) {
    signal(SIGXFSZ, SIG_IGN);
    struct rlimit l;
    l.rlim_cur = l.rlim_max = g_limit;
    setrlimit(RLIMIT_FSIZE, &l);
    save_image_to_txt(p, g_save);
}
static std::string slurp(const std::string& p) {
    std::string s;
    FILE* f = fopen(p.c_str(), "r");
    char b[4096];
    size_t n;
    while (f && (n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    if (f) fclose(f);
    return s;
}
// the numbers wholly or partly in a text
static int tokens(const std::string& t) {
    int n = 0;
    for (size_t i = 0; i < t.size(); i++) n += !isspace(t[i]) && (i == 0 || isspace(t[i - 1]));
    return n;
}

static const std::vector<double> values = {0, 1, -1, 0.5, 1234.567891, -0.0000004, 123456789012.25, 3e-9, 99999.9999996, -1e15, 1e22, 7};

static void run(MC& m) {
    int part = m.pick(8);
    if (part == 0) {  // save and load
        int r = 1 + m.pick(m.thorough ? 6 : 4), c = 1 + m.pick(m.thorough ? 6 : 4);
        m.own();
        int first = m.pick((int)values.size()), step = m.pick((int)values.size());
        VImage v(std::valarray<double>(0.0, c), r);
        for (int i = 0; i < r; i++)
            for (int j = 0; j < c; j++) v[i][j] = values[(first + (i * c + j) * step) % values.size()];
        m.desc = api::fmt("%d x %d image", r, c);
        VImage keep = v;
        std::string p = path("round");
        // an older, longer file must not shine through
        if (first % 2) put(p, std::string(4000, '9'));
        save_image_to_txt(p.c_str(), v);
        if (from_v(keep) != from_v(v)) fail("save modified the image", "%s", m.desc.c_str());
        VImage w = load_image_from_txt(p.c_str());
        if ((int)w.size() != r || (int)w[0].size() != c) fail("shape not preserved", "%d x %d came back as %d x %d", r, c, (int)w.size(), w.size() ? (int)w[0].size() : 0);
        for (int i = 0; i < r; i++)
            for (int j = 0; j < c; j++)
                if (!(fabs(w[i][j] - v[i][j]) <= 5.1e-7 + 1e-15 * fabs(v[i][j]))) fail("value not preserved", "(%d,%d): %.17g came back as %.17g", i, j, v[i][j], w[i][j]);
        // a second trip changes nothing more
        save_image_to_txt(p.c_str(), w);
        VImage x = load_image_from_txt(p.c_str());
        if (from_v(x) != from_v(w)) fail("second trip differs", "%s", m.desc.c_str());
        m.executions++;
        m.transitions += r * c;
        m.state(mix(first * 100 + step, r * 10 + c));
        return;
    }
    if (part == 1) {  // every layout of a valid file
        static const char* seps[] = {" ", "\n", "\t", "  \n "};
        int a = m.pick(4), b = m.pick(4), e = m.pick(4);
        m.own();
        std::string text = std::string(e == 3 ? "\n" : "") + "2" + seps[a] + "3" + seps[b];
        static const char* num[] = {"1", "-2.5", "+3e2", ".125", "4.", "-0"};
        static const double val[] = {1, -2.5, 300, .125, 4, 0};
        for (int i = 0; i < 6; i++) text += std::string(num[i]) + (i < 5 ? seps[(a + i * b) % 4] : e == 0 ? "" : "\n");
        m.desc = "file with text " + MC::esc(text);
        std::string p = path("layout"), err;
        put(p, text);
        VImage w = load_image_from_txt(p.c_str());
        for (int i = 0; i < 6; i++)
            if (w.size() != 2 || w[0].size() != 3 || w[i / 3][i % 3] != val[i]) fail("valid file misread", "value %d of %s", i, m.desc.c_str());
        m.executions++;
        m.transitions += 6;
        m.state(mix(a, b * 10 + e));
        return;
    }
    if (part == 2) {  // malformed: a valid file with one token damaged or the file cut after k tokens
        int r = 1 + m.pick(3), c = 1 + m.pick(3);
        m.own();
        int n = 2 + r * c, k = m.pick(n), how = m.pick(6);
        if (k == 1 && how == 3) throw Skip();  // "2 1.5" is two numbers to a text reader: 2 x 1, first value .5
        std::string text;
        for (int i = 0; i < n; i++) {
            std::string t = i == 0 ? api::fmt("%d", r) : i == 1 ? api::fmt("%d", c) : api::fmt("%g", 1.5 * i);
            if (i == k) {
                if (how == 0) break;  // cut
                if (how == 1) t = "x";
                if (how == 2) t = i < 2 ? "-1" : "--1";
                if (how == 3) t = i < 2 ? "1.5" : "e5";
                if (how == 4) t = i < 2 ? "0" : ",";
                if (how == 5) t = i < 2 ? "-2147483648" : "#";
            }
            text += t + (i == 1 || (i > 1 && (i - 1) % c == 0) ? "\n" : " ");
        }
        m.desc = api::fmt("file of %d x %d with entry %d %s: ", r, c, k, how ? "damaged" : "missing") + MC::esc(text);
        std::string p = path("bad"), err;
        put(p, text);
        int st = child(load, p.c_str(), &err);
        if (st == 99) fail("malformed file accepted", "read as %s", MC::esc(err).c_str());
        if (st <= 0 || st == 98) fail("malformed file not reported", "process status %d: %s", st, MC::esc(err).c_str());
        if (err.find("bad") == std::string::npos) fail("error does not name the file", "%s", MC::esc(err).c_str());
        m.executions++;
        m.transitions++;
        m.state(mix(k * 10 + how, r * 10 + c));
        return;
    }
    if (part == 3) {  // missing files and places that cannot be written
        int k = m.pick(5);
        m.own();
        std::string err, p;
        g_save = VImage(std::valarray<double>(1.0, 2), 2);
        int st = 0;
        switch (k) {
            case 0: p = path("absent"); st = child(load, p.c_str(), &err); break;
            case 1: p = path("no/such/place"); st = child(load, p.c_str(), &err); break;
            case 2: p = path("no/such/place"); st = child(save, p.c_str(), &err); break;
            case 3: p = path("empty"); put(p, ""); st = child(load, p.c_str(), &err); break;
            case 4: p = path("dir"); mkdir(p.c_str(), 0755); st = child(save, p.c_str(), &err); break;
        }
        m.desc = api::fmt("path kind %d", k);
        if (st == 99) fail("missing file accepted", "%s", MC::esc(err).c_str());
        if (st <= 0 || st == 98) fail("missing file not reported", "process status %d: %s", st, MC::esc(err).c_str());
        m.executions++;
        m.transitions++;
        m.state(k);
        return;
    }
    if (part == 4) {  // transpose, flatten
        int r = 1 + m.pick(m.thorough ? 12 : 8), c = 1 + m.pick(m.thorough ? 12 : 8);
        m.own();
        VImage v(std::valarray<double>(0.0, c), r);
        for (int i = 0; i < r; i++)
            for (int j = 0; j < c; j++) v[i][j] = i * 100 + j + .25;
        VImage keep = v;
        VImage t = transpose(v), tt = transpose(t);
        m.desc = api::fmt("%d x %d image", r, c);
        if ((int)t.size() != c || (int)t[0].size() != r) fail("transpose shape", "%d x %d", (int)t.size(), (int)t[0].size());
        for (int i = 0; i < r; i++)
            for (int j = 0; j < c; j++)
                if (t[j][i] != v[i][j]) fail("transpose", "(%d,%d) is %g", j, i, t[j][i]);
        if (from_v(tt) != from_v(v)) fail("transpose twice", "differs");
        std::vector<double> f = flatten(v);
        if ((int)f.size() != r * c) fail("flatten", "%d values", (int)f.size());
        for (int i = 0; i < r * c; i++)
            if (f[i] != v[i / c][i % c]) fail("flatten", "value %d is %g", i, f[i]);
        if (from_v(keep) != from_v(v)) fail("input modified", "%s", m.desc.c_str());
        m.executions++;
        m.transitions += r * c;
        m.state(r * 100 + c);
        return;
    }
    if (part == 5) {  // ranges
        static const std::vector<double> starts = {0, 1, -3, .5, -.1, 100, 1e6}, steps = {1, .1, .2, .3, .7, 2, .25, 1e-3, 1.0 / 3, 1.0 / 7};
        double start = m.pick(starts), step = m.pick(steps);
        m.own();
        int k = m.pick(m.thorough ? 400 : 120);
        int d = m.pick(5);
        // stop a little before, at, or after the k-th value, in between, or before the start
        double at = start + k * step, stop = d == 0 ? at : d == 1 ? at + step * .5 : d == 2 ? at - step * .25 : d == 3 ? at + step * .01 : start - k * step;
        // at the stop itself rounding decides; kept where both usual readings agree
        int below = 0;
        while (start + below * step < stop) below++;
        if (d == 0 && (below != k || below != std::max(0.0, ceil((stop - start) / step)))) throw Skip();
        std::valarray<double> a = arange(start, stop, step);
        m.desc = api::fmt("range from %.17g to %.17g by %.17g", start, stop, step);
        // number of values start + k step below stop (exactly at the stop: rounding of the stop itself must not add one)
        int want = d == 0 ? k : d == 1 || d == 3 ? k + 1 : d == 2 ? k : 0;
        if ((int)a.size() != want) fail("range has the wrong number of values", "%d instead of %d, last %.17g", (int)a.size(), want, a.size() ? a[a.size() - 1] : 0);
        for (int i = 0; i < want; i++)
            if (!(fabs(a[i] - (start + i * step)) <= 1e-12 * (fabs(start) + fabs(i * step)))) fail("range value", "value %d is %.17g instead of %.17g", i, a[i], start + i * step);
        if (step == 1 && d == 1) {
            std::valarray<double> b = arange(start, stop);
            if (b.size() != a.size()) fail("range default step", "%d values", (int)b.size());
        }
        m.executions++;
        m.transitions += want;
        m.state(mix(k * 10 + d, (uint64_t)(start * 1000) ^ (uint64_t)(step * 1e6)));
        return;
    }
    if (part == 6) {  // every point at which writing can fail, and every torn file that leaves
        static const int shapes[][2] = {{1, 1}, {2, 3}, {3, 2}, {1, 7}, {20, 40}, {40, 30}};
        int sh = m.pick(m.thorough ? 6 : 5);
        m.own();
        int r = shapes[sh][0], c = shapes[sh][1];
        g_save = VImage(std::valarray<double>(1.0, c), r);
        for (int i = 0; i < r; i++)
            for (int j = 0; j < c; j++) g_save[i][j] = values[(i * c + j * 5) % values.size()];
        std::string p = path("torn"), err, whole;
        save_image_to_txt(p.c_str(), g_save);
        whole = slurp(p);
        long n = whole.size(), step = n < 500 ? 1 : m.thorough ? 7 : 61;
        int blocks = 8, at = m.pick(blocks);
        // around the ends of the blocks written by the C library too
        for (long k = 0; k <= n + 1; k++) {
            if (k % blocks != at || !(k % step == 0 || k % 4096 < 2 || k % 4096 == 4095 || k > n - 30)) continue;
            m.desc = api::fmt("%d x %d image, writing fails after %ld of %ld bytes", r, c, k, n);
            put(p, whole.substr(0, k < n ? n : 0));
            g_limit = k;
            int st = child(save_limited, p.c_str(), &err);
            m.executions++;
            m.transitions++;
            m.state(mix(sh, k));
            if (k >= n) {
                if (st != 99 || slurp(p) != whole) fail("complete file not written", "process status %d: %s", st, MC::esc(err).c_str());
            } else if (st == 99)
                fail("incomplete file not reported", "%ld bytes on the disk", (long)slurp(p).size());
            else if (st <= 0 || st == 98)
                fail("failed write not reported", "process status %d: %s", st, MC::esc(err).c_str());
            // what is left is an error to read unless every number has begun
            put(p, whole.substr(0, k));
            if (tokens(whole.substr(0, k)) < 2 + r * c) {
                if (k > 400 && k % 5) continue;
                st = child(load, p.c_str(), &err);
                m.executions++;
                if (st == 99) fail("torn file accepted", "after %ld bytes", k);
                if (st <= 0 || st == 98) fail("torn file not reported", "process status %d", st);
            }
        }
        return;
    }
    // clamping and elapsed time
    m.own();
    static const std::vector<double> xs = {-1e300, -2, -1, -1e-300, 0, 1e-300, .5, 1, 1.5, 2, 1e300};
    for (double lo : xs)
        for (double hi : xs) {
            if (hi < lo) continue;
            for (double x : xs) {
                double y = clamp(x, lo, hi), want = x < lo ? lo : x > hi ? hi : x;
                m.desc = api::fmt("clamp %g to [%g, %g]", x, lo, hi);
                m.transitions++;
                if (y != want) fail("clamp", "gives %g", y);
            }
        }
    static const long us[] = {0, 1, 2, 499999, 500000, 999998, 999999};
    for (long s0 : {0L, 1L, 1700000000L})
        for (long ds : {0L, 1L, 2L, 3600L})
            for (long a : us)
                for (long b : us) {
                    if (ds == 0 && b < a) continue;
                    struct timeval x, y;
                    x.tv_sec = s0; x.tv_usec = a; y.tv_sec = s0 + ds; y.tv_usec = b;
                    double want = ds + (b - a) / 1e6, got = gettimelapsed(x, y);
                    m.desc = api::fmt("elapsed from %ld.%06ld to %ld.%06ld", s0, a, s0 + ds, b);
                    m.transitions++;
                    if (!(fabs(got - want) <= 1e-9)) fail("elapsed time", "%.9g instead of %.9g", got, want);
                }
    m.executions++;
    m.state(1);
}
int main(int argc, char** argv) { return mc_main(argc, argv, run); }
