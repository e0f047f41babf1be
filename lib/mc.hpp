// Stateless / explicit-state exploration core shared by every C++ check.
//
// A check is a function run(MC&).  It asks for every nondeterministic choice through pick(n); the driver
// enumerates *all* choice sequences depth first (odometer).  own() marks the end of the configuration prefix:
// prefixes are distributed over shards by hash, so that the union of all shards is the whole space.
// A violation is identified by its complete choice sequence ("a.b.c..."), which --replay re-executes.
#ifndef MC_HPP
#define MC_HPP
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <exception>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct Skip {};
struct Violation {
    std::string msg, cls;
};

inline double now() {
    struct timeval t;
    gettimeofday(&t, 0);
    return t.tv_sec + 1e-6 * t.tv_usec;
}

inline uint64_t mix(uint64_t h, uint64_t x) {
    h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 33;
    return h;
}
inline uint64_t mixd(uint64_t h, double x) {
    // quantise so that rounding differences do not make two states distinct
    if (x == 0) return mix(h, 0);
    char b[32];
    snprintf(b, sizeof b, "%.9g", x);
    for (char* p = b; *p; p++) h = h * 1099511628211ULL ^ (unsigned char)*p;
    return mix(h, 7);
}

struct MC {
    bool thorough = false, replaying = false;
    int shard = 0, nshards = 1;
    double budget = 700, t0 = now();
    std::vector<int> cur, lim, rep;
    size_t pos = 0;
    // dfs path below the current odometer leaf
    std::vector<int> path;
    long long executions = 0, transitions = 0, nviol = 0, cases = 0;
    std::unordered_set<uint64_t> states;
    std::map<std::string, long long> counters;
    std::vector<std::string> samples;
    std::string desc;  // human readable description of current configuration
    int outfd = 1;
    volatile long long beat = 0;
    bool incomplete = false;
    std::map<std::string, int> vclass;

    int pick(int n) {
        if (n <= 0) throw Skip();
        if (replaying) {
            int v = pos < rep.size() ? rep[pos] : 0;
            if (v >= n) v = n - 1;
            if (pos < cur.size()) cur[pos] = v;
            else { cur.push_back(v); lim.push_back(n); }
            pos++;
            return v;
        }
        if (pos == cur.size()) {
            cur.push_back(0);
            lim.push_back(n);
        }
        return cur[pos++];
    }
    template <class T>
    const T& pick(const std::vector<T>& v) { return v[pick((int)v.size())]; }
    bool pickb() { return pick(2) == 1; }

    void own() {
        if (replaying || nshards == 1) return;
        uint64_t h = 1469598103934665603ULL;
        for (size_t i = 0; i < pos; i++) h = mix(h, cur[i] + 1);
        if ((int)(mix(h, 12345) % nshards) != shard) throw Skip();
    }
    bool over() {
        if (now() - t0 > budget) { incomplete = true; return true; }
        return false;
    }
    void state(uint64_t h) { if (states.size() < 20000000) states.insert(h); }
    void count(const char* k, long long n = 1) { counters[k] += n; }

    bool advance() {
        // move to the next choice sequence
        cur.resize(pos);
        lim.resize(pos);
        while (!cur.empty()) {
            if (++cur.back() < lim.back()) return true;
            cur.pop_back();
            lim.pop_back();
        }
        return false;
    }
    std::string token() {
        std::string s;
        char b[16];
        for (size_t i = 0; i < pos && i < cur.size(); i++) {
            snprintf(b, sizeof b, "%s%d", s.empty() ? "" : ".", cur[i]);
            s += b;
        }
        for (int v : path) {
            snprintf(b, sizeof b, "%s%d", s.empty() ? "" : ".", v);
            s += b;
        }
        return s;
    }
    static std::string esc(const std::string& s) {
        std::string o;
        for (char c : s) {
            if (c == '"' || c == '\\') { o += '\\'; o += c; }
            else if (c == '\n') o += "\\n";
            else if ((unsigned char)c < 32) o += ' ';
            else o += c;
        }
        return o;
    }
    void emit(const std::string& s) {
        std::string t = s + "\n";
        size_t o = 0;
        while (o < t.size()) {
            ssize_t n = write(outfd, t.data() + o, t.size() - o);
            if (n <= 0) break;
            o += n;
        }
    }
    void violation(const std::string& msg, const std::string& cls) {
        // report at most a few violations of each class
        nviol++;
        if (vclass[cls]++ >= 4) return;
        emit("{\"violation\":\"" + esc(msg) + "\",\"class\":\"" + esc(cls) + "\",\"token\":\"" + token() + "\",\"desc\":\"" + esc(desc) + "\"}");
    }
    void sample() {
        if (samples.size() < 4 && !desc.empty()) samples.push_back(desc + " [" + token() + "]");
    }
    void stats() {
        std::string s = "{\"stats\":{\"executions\":" + std::to_string(executions) + ",\"transitions\":" + std::to_string(transitions) +
                        ",\"states\":" + std::to_string(states.size()) + ",\"cases\":" + std::to_string(cases) + ",\"violations\":" + std::to_string(nviol) +
                        ",\"complete\":" + (incomplete ? "false" : "true") + ",\"counters\":{";
        bool f = true;
        for (auto& k : counters) {
            s += (f ? "\"" : ",\"") + k.first + "\":" + std::to_string(k.second);
            f = false;
        }
        s += "},\"samples\":[";
        for (size_t i = 0; i < samples.size(); i++) s += (i ? ",\"" : "\"") + esc(samples[i]) + "\"";
        s += "]}}";
        emit(s);
    }
};

inline void fail(const std::string& cls, const char* fmt, ...) {
    char b[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    throw Violation{b, cls};
}

extern MC* g_mc;
inline void die_report(const char* what) {
    static bool once = false;
    if (once || !g_mc) return;
    once = true;
    g_mc->emit("{\"violation\":\"" + std::string(what) + "\",\"class\":\"" + what + "\",\"token\":\"" + g_mc->token() + "\",\"desc\":\"" + MC::esc(g_mc->desc) + "\"}");
}
#ifdef MC_MAIN
MC* g_mc = 0;
static bool mc_finished = false;
static long long last_beat = -1;
static void on_signal(int sig) {
    if (sig == SIGALRM) {
        if (g_mc && g_mc->beat == last_beat) {
            die_report("does not terminate (no progress for 40 s)");
            _exit(78);
        }
        if (g_mc) last_beat = g_mc->beat;
        alarm(40);
        return;
    }
    char b[64];
    snprintf(b, sizeof b, "crash: signal %d", sig);
    die_report(b);
    _exit(77);
}
static void on_exit_() {
    if (!mc_finished) die_report("library terminated the process (exit)");
}
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static void on_san() { die_report("sanitizer: invalid memory access or undefined behaviour"); }
#endif

inline int mc_main(int argc, char** argv, void (*run)(MC&)) {
    static MC m;
    g_mc = &m;
    const char* out = 0;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--tier") m.thorough = !strcmp(argv[++i], "thorough");
        else if (a == "--shard") sscanf(argv[++i], "%d/%d", &m.shard, &m.nshards);
        else if (a == "--budget") m.budget = atof(argv[++i]);
        else if (a == "--out") out = argv[++i];
        else if (a == "--replay") {
            m.replaying = true;
            for (char* p = strtok(strdup(argv[++i]), "."); p; p = strtok(0, ".")) m.rep.push_back(atoi(p));
        }
    }
    if (out) m.outfd = open(out, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    else m.outfd = dup(1);
    // the library prints to stdout/stderr: keep it out of the way
    if (!getenv("MC_KEEP_STDOUT")) {
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
    }
    signal(SIGABRT, on_signal);
    signal(SIGFPE, on_signal);
#if !defined(__SANITIZE_ADDRESS__)
    signal(SIGSEGV, on_signal);
    signal(SIGBUS, on_signal);
    signal(SIGILL, on_signal);
#else
    __sanitizer_set_death_callback(on_san);
#endif
    signal(SIGALRM, on_signal);
    alarm(40);
    atexit(on_exit_);
    bool more = true;
    while (more) {
        m.pos = 0;
        m.path.clear();
        m.beat++;
        try {
            run(m);
            m.cases++;
            m.sample();
        } catch (Skip&) {
        } catch (Violation& v) {
            m.violation(v.msg, v.cls);
        } catch (std::exception& e) {
            m.violation(std::string("exception: ") + e.what(), "exception");
        }
        if (m.replaying) break;
        if (m.nviol > 400 || m.over()) { if (m.nviol <= 400) m.incomplete = true; break; }
        more = m.advance();
    }
    m.stats();
    mc_finished = true;
    fflush(stdout);
    _exit(m.nviol ? 1 : 0);
}
#endif

// Depth-first search over operation sequences with copied system states.
// S: copyable; int nops(); bool enabled(int); void apply(MC&, int) (throws Violation); uint64_t hash()
template <class S>
void dfs(MC& m, const S& s, int depth) {
    if (m.replaying) {
        // follow the remaining replay token
        S cur = s;
        for (size_t i = m.pos; i < m.rep.size(); i++) {
            m.path.push_back(m.rep[i]);
            cur.apply(m, m.rep[i]);
        }
        m.path.clear();
        return;
    }
    if (depth == 0) {
        m.executions++;
        return;
    }
    int n = s.nops();
    for (int op = 0; op < n; op++) {
        if (!s.enabled(op)) continue;
        S t(s);
        m.path.push_back(op);
        m.transitions++;
        m.beat++;
        bool ok = true;
        try {
            t.apply(m, op);
        } catch (Violation& v) {
            m.violation(v.msg, v.cls);
            ok = false;
        } catch (Skip&) {
            ok = false;
        } catch (std::exception& e) {
            m.violation(std::string("exception: ") + e.what(), "exception");
            ok = false;
        }
        if (ok) {
            m.state(t.hash());
            if (m.nviol > 400) { m.path.pop_back(); return; }
            if ((m.transitions & 1023) == 0 && m.over()) { m.path.pop_back(); return; }
            dfs(m, t, depth - 1);
        } else
            m.executions++;
        m.path.pop_back();
    }
}

}  // namespace mc
#endif
