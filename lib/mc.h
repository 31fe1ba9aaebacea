/* Common part of the bounded model checks: command line, shards, counters, violation records, crash capture and the
 * choice-sequence explorer.  Every harness enumerates its space completely within its stated bounds; nothing is sampled. */
#ifndef MC_H
#define MC_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <setjmp.h>
#include <ctime>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/time.h>

namespace mc {

struct State {
    std::string prop, tier, out, cur, replay;
    int shard = 0, nshards = 1;
    long seed = 1;
    uint64_t states = 0, transitions = 0, evals = 0, traces = 0;
    std::unordered_set<uint64_t> outcomes;
    std::map<std::string, std::pair<uint64_t, std::pair<std::string, std::string>>> viols;
    std::map<std::string, std::map<std::string, uint64_t>> fams;
    std::vector<std::string> samples, caps;
    char *curbuf = nullptr;
    std::string curcase, curgroup;
    uint64_t counter = 0;
    sigjmp_buf jb;
    volatile int jbset = 0;
    bool thorough = false;
};
inline State &S() { static State s; return s; }

inline std::string fmt(const char *f, ...)
{
    char b[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
inline std::string esc(const std::string &s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) r += '?';
        else r += c;
    }
    return r;
}
inline uint64_t hmix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    return h ^ (h >> 32);
}
inline uint64_t hstr(const std::string &s, uint64_t h = 1469598103934665603ULL)
{
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}
/* hash of a double rounded so that numerically equal outcomes coincide */
inline uint64_t hdbl(double d, uint64_t h = 7)
{
    if (std::isnan(d)) return hmix(h, 1);
    if (std::isinf(d)) return hmix(h, d > 0 ? 2 : 3);
    double a = std::fabs(d) < 1e-9 ? 0 : d;
    char b[40];
    snprintf(b, sizeof b, "%.6e", a);
    return hmix(h, hstr(b));
}
inline bool thorough() { return S().thorough; }
inline void outcome(uint64_t h) { S().outcomes.insert(h); }
inline void state(uint64_t n = 1) { S().states += n; }
inline void trans(uint64_t n = 1) { S().transitions += n; }
inline void eval(uint64_t n = 1) { S().evals += n; }
inline void trace(uint64_t n = 1) { S().traces += n; }
inline void fam(const std::string &name, const std::string &k, uint64_t n = 1) { S().fams[name][k] += n; }
inline void sample(const std::string &s) { if (S().samples.size() < 2) S().samples.push_back(s); }
inline void capped(const std::string &s) { if (S().caps.size() < 20) S().caps.push_back(s); }

/* the group names a configuration (the unit of sharding and of replay), the case the concrete input / history */
inline void setcur()
{
    if (S().curbuf) {
        std::string s = S().curgroup + " | " + S().curcase;
        size_t n = std::min(s.size(), (size_t)4000);
        memcpy(S().curbuf, s.data(), n);
        S().curbuf[n] = 0;
    }
}
inline void setcase(const std::string &c) { S().curcase = c; setcur(); }

inline void violation(const std::string &key, const std::string &detail)
{
    std::string k = key;
    for (char &c : k) if (c == ' ' || c == '\t') c = '_';
    auto &v = S().viols[k];
    v.first++;
    std::string cs = S().curgroup + " | " + S().curcase;
    if (v.first == 1 || cs.size() < v.second.first.size()) { v.second.first = cs; v.second.second = detail; }
}
inline void flush_out(bool done)
{
    FILE *f = fopen(S().out.c_str(), "w");
    if (!f) return;
    for (auto &p : S().viols)
        fprintf(f, "{\"t\":\"viol\",\"key\":\"%s\",\"n\":%llu,\"case\":\"%s\",\"detail\":\"%s\"}\n", esc(p.first).c_str(),
                (unsigned long long)p.second.first, esc(p.second.second.first).c_str(), esc(p.second.second.second).c_str());
    for (auto &s : S().samples) fprintf(f, "{\"t\":\"sample\",\"s\":\"%s\"}\n", esc(s).c_str());
    for (auto &s : S().caps) fprintf(f, "{\"t\":\"capped\",\"s\":\"%s\"}\n", esc(s).c_str());
    for (auto &p : S().fams) {
        fprintf(f, "{\"t\":\"fam\",\"name\":\"%s\"", esc(p.first).c_str());
        for (auto &q : p.second) fprintf(f, ",\"%s\":%llu", esc(q.first).c_str(), (unsigned long long)q.second);
        fprintf(f, "}\n");
    }
    if (done)
        fprintf(f, "{\"t\":\"done\",\"states\":%llu,\"transitions\":%llu,\"evals\":%llu,\"traces\":%llu,\"outcomes\":%llu}\n",
                (unsigned long long)S().states, (unsigned long long)S().transitions, (unsigned long long)S().evals,
                (unsigned long long)S().traces, (unsigned long long)S().outcomes.size());
    fclose(f);
}
inline void on_abort(int sig)
{
    if (sig == SIGPROF) {
        violation(S().curgroup + ":hang", "no answer within the time limit of a case");
        flush_out(true);
        _exit(0);
    }
    if (S().jbset) siglongjmp(S().jb, sig);
    violation(S().curgroup + ":abort", "abort outside a case");
    flush_out(false);
    _exit(70);
}

/* processor time, not wall time: a busy machine is no endless loop */
inline void cpulimit(int sec)
{
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &it, nullptr);
}
/* Runs one configuration (if it belongs to this shard).  An assertion failure inside it is a violation of that
 * configuration; the remaining configurations still run. */
inline bool group(const std::string &name, const std::function<void()> &body, int alarm_s = 300)
{
    uint64_t id = S().counter++;
    if (!S().replay.empty()) {
        if (S().replay != name) return false;
    } else if ((int)(hmix(12345, id) % S().nshards) != S().shard) return false;
    S().curgroup = name;
    setcase("");
    clock_t t0 = clock();
    int sig = sigsetjmp(S().jb, 1);
    if (sig == 0) {
        S().jbset = 1;
        cpulimit(alarm_s);
        try { body(); }
        catch (const std::exception &e) { violation(name + ":exception", std::string("uncaught exception ") + e.what()); }
        catch (const char *e) { violation(name + ":exception", std::string("uncaught exception ") + e); }
    } else {
        violation(name + ":abort", fmt("the library aborted (signal %d), e.g. a failed assertion", sig));
    }
    cpulimit(0);
    if (getenv("MC_GT")) fprintf(stderr, "GT %.2f %s\n", double(clock() - t0) / CLOCKS_PER_SEC, name.c_str());
    S().jbset = 0;
    flush_out(false);
    return true;
}

inline int run(int argc, char **argv, const std::map<std::string, std::function<void()>> &props)
{
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--prop") S().prop = v;
        else if (a == "--tier") S().tier = v;
        else if (a == "--shard") S().shard = atoi(v.c_str());
        else if (a == "--nshards") S().nshards = atoi(v.c_str());
        else if (a == "--out") S().out = v;
        else if (a == "--cur") S().cur = v;
        else if (a == "--seed") S().seed = atol(v.c_str());
        else if (a == "--replay") S().replay = v;
    }
    S().thorough = S().tier == "thorough";
    int fd = open(S().cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ftruncate(fd, 8192) == 0) {
        void *p = mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p != MAP_FAILED) S().curbuf = (char *)p;
    }
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_abort;
    sa.sa_flags = SA_NODEFER;
    sigaction(SIGABRT, &sa, nullptr);
    sigaction(SIGPROF, &sa, nullptr);
    auto it = props.find(S().prop);
    if (it == props.end()) { fprintf(stderr, "no such property %s\n", S().prop.c_str()); return 64; }
    it->second();
    flush_out(true);
    fflush(stdout);
    _exit(0);
}

/* Depth-first enumeration of choice sequences: body calls choose(n) at each point where the environment answers.
 * Execution is deterministic given the choices, so every prefix is replayed on the real code from the initial state. */
struct Explorer {
    std::vector<int> prefix, path, width;
    uint64_t executions = 0;
    std::vector<int> maxdev;
    int deviations = 0;
    bool diverged = false;
    int choose(int n)
    {
        size_t d = path.size();
        int c = 0;
        if (d < prefix.size()) {
            c = prefix[d];
            if (c >= n) { diverged = true; c = 0; }
        }
        path.push_back(c);
        width.push_back(n);
        return c;
    }
    /* explores every choice sequence; returns number of executions */
    uint64_t explore(const std::function<void()> &body, uint64_t limit = 0)
    {
        prefix.clear();
        while (true) {
            path.clear();
            width.clear();
            body();
            executions++;
            if (diverged) { violation("explorer:diverged", "replaying a prefix of environment answers took another course"); return executions; }
            int i = (int)path.size() - 1;
            while (i >= 0 && path[i] + 1 >= width[i]) i--;
            if (i < 0) break;
            prefix.assign(path.begin(), path.begin() + i);
            prefix.push_back(path[i] + 1);
            if (limit && executions >= limit) { capped(S().curgroup + fmt(": stopped after %llu executions", (unsigned long long)limit)); break; }
        }
        return executions;
    }
    std::string str() const
    {
        std::string s;
        for (int c : path) s += fmt("%d.", c);
        return s;
    }
};
} // namespace mc
#endif
