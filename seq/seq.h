// Common code of the sequential enumerators: case guard, violations, counters, JSON result.
#pragma once
#include <cstdio>
#include <cstdarg>
#include <exception>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <csetjmp>
#include <csignal>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <sys/time.h>
#include <sys/mman.h>
#include <unistd.h>
#include <pthread.h>
namespace seq {
struct Viol { std::string key, text; uint64_t n; };
struct G {
    uint64_t evals = 0, states = 0, transitions = 0, nontrivial = 0;
    std::vector<Viol> viol; std::map<std::string, size_t> idx;
    std::vector<std::string> samples; std::map<std::string, std::string> info;
    std::string out, tier = "quick"; int shard = 0, nshards = 1; bool complete = true;
    sigjmp_buf jb; volatile bool armed = false; volatile int sig = 0; volatile int exitCode = 0;
    std::map<std::string, std::string> args;
};
inline G &g() { static G x; return x; }
inline bool thorough() { return g().tier == "thorough"; }
inline std::string fmt(const char *f, ...) { va_list a; va_start(a, f); char b[4096]; vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
inline std::string esc(const std::string &s) {
    std::string r; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += (char)c; }
    return r;
}
inline void violation(const std::string &key, const std::string &text) {
    auto &G_ = g(); auto it = G_.idx.find(key);
    if (it != G_.idx.end()) { ++G_.viol[it->second].n; return; }
    if (G_.viol.size() >= 400) return;
    G_.idx[key] = G_.viol.size(); G_.viol.push_back({key, text, 1});
}
inline void sample(const std::string &s) { if (g().samples.size() < 6) g().samples.push_back(s); }
inline pthread_t &mainThread() { static pthread_t t = pthread_self(); return t; }
inline void handler(int s) {
    auto &G_ = g();
    if (!pthread_equal(pthread_self(), mainThread()) && s == SIGALRM) { pthread_kill(mainThread(), s); return; }
    if (G_.armed && pthread_equal(pthread_self(), mainThread())) { G_.sig = s; G_.armed = false; sigset_t m; sigemptyset(&m); sigaddset(&m, s); sigprocmask(SIG_UNBLOCK, &m, nullptr); siglongjmp(G_.jb, 1); }
    static const char m[] = "seq: fatal signal outside a guarded case\n"; (void)!write(2, m, sizeof m - 1); _exit(97);
}
inline void install() {
    mainThread();
    static char stk[1 << 16]; stack_t ss{}; ss.ss_sp = stk; ss.ss_size = sizeof stk; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = handler; sa.sa_flags = SA_NODEFER | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
}
// Runs f; returns "" or a description of how it died. Time limit in seconds.
template<typename F> inline std::string guarded(F f, long limit = 30, long usec = 0) {
    auto &G_ = g(); G_.sig = 0;
    if (sigsetjmp(G_.jb, 1) == 0) {
        G_.armed = true; itimerval t{{0, 0}, {limit + usec / 1000000, usec % 1000000}}; setitimer(ITIMER_REAL, &t, nullptr);
        try { f(); } catch (std::exception &e) { G_.armed = false; itimerval z{}; setitimer(ITIMER_REAL, &z, nullptr); return std::string("exception: ") + e.what(); }
        G_.armed = false; itimerval z{}; setitimer(ITIMER_REAL, &z, nullptr);
        return "";
    }
    itimerval z{}; setitimer(ITIMER_REAL, &z, nullptr);
    if (G_.sig == SIGALRM) return "no termination within the time limit";
    if (G_.sig == -1) return fmt("called exit(%d)", G_.exitCode);
    return fmt("killed by signal %d (%s)", G_.sig, strsignal(G_.sig));
}
inline void init(int argc, char **argv) {
    for (int i = 1; i + 1 < argc; i += 2) { std::string a = argv[i] + 2, v = argv[i + 1];
        if (a == "out") g().out = v; else if (a == "tier") g().tier = v; else if (a == "shard") sscanf(v.c_str(), "%d/%d", &g().shard, &g().nshards); else g().args[a] = v; }
    install();
}
inline bool mine(uint64_t i) { return (int)(i % g().nshards) == g().shard; }
inline int finish() {
    auto &G_ = g(); FILE *f = G_.out.empty() ? stdout : fopen(G_.out.c_str(), "w");
    fprintf(f, "{\"evals\":%lu,\"states\":%lu,\"transitions\":%lu,\"nontrivial\":%lu,\"complete\":%s,\"samples\":[", G_.evals, G_.states, G_.transitions, G_.nontrivial, G_.complete ? "true" : "false");
    for (size_t i = 0; i < G_.samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", esc(G_.samples[i]).c_str());
    fprintf(f, "],\"info\":{"); size_t i = 0;
    for (auto &k : G_.info) fprintf(f, "%s\"%s\":\"%s\"", i++ ? "," : "", esc(k.first).c_str(), esc(k.second).c_str());
    fprintf(f, "},\"violations\":[");
    for (size_t i = 0; i < G_.viol.size(); ++i) fprintf(f, "%s{\"key\":\"%s\",\"text\":\"%s\",\"count\":%lu}", i ? "," : "", esc(G_.viol[i].key).c_str(), esc(G_.viol[i].text).c_str(), G_.viol[i].n);
    fprintf(f, "]}\n"); fflush(f); if (f != stdout) fclose(f);
    _exit(0);
}
}
// Memory pool for the decoder's huge (lazily touched) blocks so that enumerating many decoders does not exhaust address space.
extern "C" {
void *__real_malloc(size_t); void __real_free(void *); void __real_exit(int) __attribute__((noreturn));
}
#ifdef SEQ_POOL
namespace seq { struct Huge { char *p; size_t n; bool used; }; inline std::vector<Huge> &pool() { static std::vector<Huge> v; return v; }
inline void poolReset() { for (auto &h : pool()) h.used = false; } }
extern "C" inline __attribute__((used)) void *__wrap_malloc(size_t n) {
    if (n < (256u << 20)) return __real_malloc(n);
    for (auto &h : seq::pool()) if (!h.used && h.n >= n) { h.used = true; return h.p; }
    char *p = (char *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    seq::pool().push_back({p, n, true}); return p;
}
extern "C" inline __attribute__((used)) void __wrap_free(void *p) { for (auto &h : seq::pool()) if (h.p == p) { h.used = false; return; } __real_free(p); }
extern "C" inline __attribute__((used)) void __wrap_exit(int c) { auto &G_ = seq::g(); if (G_.armed) { G_.sig = -1; G_.exitCode = c; G_.armed = false; siglongjmp(G_.jb, 1); } __real_exit(c); }
#endif
