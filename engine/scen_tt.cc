// Time trace: threads recording events while others print (trace capacity = 1 << NANOLOG_VERIF_TIMETRACE_EXP events).
#include "scen.h"
#include "TimeTrace.h"
#include <string.h>
using PerfUtils::TimeTrace;
#define NS __attribute__((no_sanitize("thread"), noinline))
static const int SZ = 1 << NANOLOG_VERIF_TIMETRACE_EXP, MAXT = 4;
static int begun[MAXT], done[MAXT], nthreads; static const char *F[MAXT] = {"e0 %u %u %u %u", "e1 %u %u %u %u", "e2 %u %u %u %u", "e3 %u %u %u %u"};
// event k of thread t: strictly increasing in k, different for every (k,t)
static long ts(int t, int k) { return 1000 + 100 * k + 10 * t + (t == 1 ? 37 : 0); }
static int active; static bool maybe[4][64];
NS static void beg(int t) { maybe[t][begun[t]] = active > 0; begun[t]++; }
NS static void end(int t) { done[t]++; }
NS static int nth(int t) { return begun[t]; }
static void rec(int t) { int k = nth(t); beg(t); TimeTrace::record(ts(t, k), F[t], k, 10 * k + t, 7 * k, 1000 + t); end(t); }
struct Line { long ns, delta; int t, k; bool whole; };
NS static int parse(const std::string &s, Line *l) {
    int n = 0; const char *p = s.c_str(); if (!strcmp(p, "No time trace events to print")) return 0;
    while (*p && n < 64) { const char *e = strchr(p, '\n'); std::string x(p, e ? e - p : strlen(p)); double a = -1, d = -1; int off = 0; l[n] = {0, 0, -1, -1, false};
        if (sscanf(x.c_str(), "%lf ns (+%lf ns): %n", &a, &d, &off) == 2 && off) { l[n].ns = (long)a; l[n].delta = (long)d; int t = -1; unsigned b[4]; if (sscanf(x.c_str() + off, "e%d %u %u %u %u", &t, b, b + 1, b + 2, b + 3) == 5 && t >= 0 && t < MAXT && b[1] == 10 * b[0] + t && b[2] == 7 * b[0] && b[3] == 1000u + t) { l[n].t = t; l[n].k = b[0]; l[n].whole = true; } }
        n++; if (!e) break; p = e + 1; }
    return n;
}
// What may have been recorded: attempt k of a thread is certain unless its call overlapped a printing (it may then have been dropped). "tail" is a record that
// was in progress when this printing started: it may be shown whole, garbled or not at all.
struct View { int n, k[64]; bool tail; };
NS static bool fits(const Line *l, int n, const View *v, int early, const char **why) {
    long S = 0; int at[MAXT]; for (int t = 0; t < nthreads; t++) { int whole = v[t].n, w = whole - (early >> t & 1); at[t] = w - (SZ - 1) > 0 ? w - (SZ - 1) : 0; if (at[t] < whole - (v[t].tail && !(early >> 8)) && ts(t, v[t].k[at[t]]) > S) S = ts(t, v[t].k[at[t]]); }
    for (int t = 0; t < nthreads; t++) while (at[t] < v[t].n && ts(t, v[t].k[at[t]]) < S) at[t]++;
    bool used[MAXT] = {false, false, false, false}; int i = 0;
    for (;;) { int m = -1; for (int t = 0; t < nthreads; t++) if (at[t] < v[t].n - v[t].tail && (m < 0 || ts(t, v[t].k[at[t]]) < ts(m, v[m].k[at[m]]))) m = t;
        while (i < n && !(m >= 0 && l[i].whole && l[i].t == m && l[i].k == v[m].k[at[m]] && l[i].ns == ts(m, v[m].k[at[m]]) - S)) {
            int x = -1; for (int t = 0; t < nthreads; t++) if (v[t].tail && !used[t]) { if (l[i].whole && l[i].t == t && l[i].k == v[t].k[v[t].n - 1]) { x = t; break; } if (x < 0) x = t; }
            if (x < 0) { *why = "an unexpected line"; return false; } used[x] = true; i++; }
        if (m < 0) return i == n; if (i >= n) { *why = "a missing event"; return false; } i++; at[m]++; }
}
NS static void judge(const std::string &s, const int *c, const int *b) {
    Line l[64]; int n = parse(s, l); const char *why = ""; long prev = 0; for (int i = 0; i < n; i++) { if (l[i].delta != l[i].ns - prev) mc::fail("line %d of the trace shows the wrong time difference: %s", i, s.c_str()); prev = l[i].ns; }
    int bits[MAXT], sh[MAXT], total = 0; for (int t = 0; t < nthreads; t++) { bits[t] = 0; sh[t] = total; for (int k = 0; k < b[t]; k++) bits[t] += k >= c[t] || maybe[t][k]; if (bits[t] > 10) { fprintf(stderr, "too many uncertain events\n"); _exit(75); } total += bits[t] + 2; }
    for (long x = 0; x < 1l << total; x++) { View v[MAXT]; bool ok = true; int early = 0;
        for (int t = 0; t < nthreads && ok; t++) { long y = x >> sh[t]; v[t].n = 0; bool overl = false; for (int k = 0; k < b[t]; k++) { bool un = k >= c[t] || maybe[t][k], in = !un || (y & 1); if (un) y >>= 1; if (in) { v[t].k[v[t].n++] = k; overl = k >= c[t]; } }
            v[t].tail = y & 1; early |= (y >> 1 & 1) << t; if ((v[t].tail || (y >> 1 & 1)) && (!overl || !v[t].n)) ok = false; if ((y >> 1 & 1) && !v[t].tail) ok = false; }
        // a thread's only record, in progress, may or may not count as the start of its history
        if (ok && (fits(l, n, v, early, &why) || fits(l, n, v, early | 256, &why))) return; }
    std::string w; for (int t = 0; t < nthreads; t++) { char q[96]; snprintf(q, sizeof q, " thread %d: %d complete before, %d begun;", t, c[t], b[t]); w += q; }
    mc::fail("trace does not report the retained events (%s):%s\n%s", why, w.c_str(), s.c_str());
}
NS static void snap(int *to, const int *from) { for (int t = 0; t < nthreads; t++) to[t] = from[t]; }
NS static void startPrint() { active++; for (int t = 0; t < nthreads; t++) for (int k = done[t]; k < begun[t]; k++) maybe[t][k] = true; }
NS static void endPrint() { active--; }
static void show() { int c[MAXT], b[MAXT]; startPrint(); snap(c, done); std::string s = TimeTrace::getTrace(); snap(b, begun); endPrint(); judge(s, c, b); }
static void body(int t, int n) { for (int i = 0; i < n; i++) rec(t); }
// after all concurrent work: the next events of every thread that still lives are recorded
static void after(int t) { TimeTrace::reset(); TimeTrace::record(5, "again %u", 1); TimeTrace::record(7, "again %u", 2); std::string s = TimeTrace::getTrace(); if (s != "     0.0 ns (+   0.0 ns): again 1\n     2.0 ns (+   2.0 ns): again 2") mc::fail("recording does not work again after printing: %s", s.c_str()); }
static void nocheck() {}
#define TT(nm, nt) static void run_##nm(); static void go_##nm() { nthreads = nt; PerfUtils::Cycles::mockCyclesPerSec = 1e9; run_##nm(); } static mc::Reg reg_##nm({#nm, go_##nm, nocheck}); static void run_##nm()
// hand-over so that a known number of events precedes the printing
struct Gate { pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t c = PTHREAD_COND_INITIALIZER; int n = 0; void up() { pthread_mutex_lock(&m); n++; pthread_cond_broadcast(&c); pthread_mutex_unlock(&m); } void wait(int k) { pthread_mutex_lock(&m); while (n < k) pthread_cond_wait(&c, &m); pthread_mutex_unlock(&m); } };
static Gate g1, g2;
static void pre(int t, int before, int during) { body(t, before); g1.up(); body(t, during); g2.up(); }
static void rp(int before, int during, int prints) { UserThread a(pre, 0, before, during); g1.wait(1); for (int i = 0; i < prints; i++) show(); a.join(); show(); after(0); }
TT(t_a, 1) { rp(SZ - 1, 2, 1); }            // just before the wrap-around
TT(t_b, 1) { rp(SZ, 2, 1); }
TT(t_c, 1) { rp(SZ + 2, SZ + 1, 1); }       // more records during printing than the capacity
TT(t_d, 1) { rp(1, 2, 1); }
TT(t_e, 1) { rp(0, 2, 1); }
TT(t_f, 1) { rp(2 * SZ + 1, 2, 2); }
TT(t_g, 2) { UserThread a(pre, 0, SZ + 1, 2), b(pre, 1, 2, 1); g1.wait(2); show(); a.join(); b.join(); show(); after(0); }
TT(t_h, 2) { body(1, SZ + 1); UserThread a(pre, 0, SZ + 2, 2); g1.wait(1); show(); a.join(); body(1, 1); show(); after(1); }
// two printers at once
TT(t_i, 1) { body(0, SZ + 1); UserThread p([] { show(); }); show(); p.join(); rec(0); show(); after(0); }
TT(t_j, 1) { UserThread a(pre, 0, SZ + 1, SZ); g1.wait(1); UserThread p([] { show(); }); show(); p.join(); a.join(); show(); after(0); }
// first records of threads race with printing; threads that ended keep their events
TT(t_k, 2) { UserThread a(body, 0, 2), b(body, 1, 1); show(); a.join(); b.join(); show(); after(0); }
TT(t_l, 1) { { UserThread a(body, 0, SZ + 3); a.join(); } show(); UserThread p([] { show(); }); p.join(); after(0); }
// a thread's very first record in progress while older events of another thread are printed
TT(t_m, 2) { body(0, 2); UserThread b(body, 1, 1); show(); b.join(); show(); after(0); }
TT(t_n, 2) { body(0, SZ + 1); UserThread b(pre, 1, 0, 2); g1.wait(1); show(); b.join(); after(0); }
