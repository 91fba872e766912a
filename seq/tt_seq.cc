// C21 (sequential part): every sequence of record / print / reset operations on one to three thread buffers up to a depth, around the wrap-around point of a
// trace of 1 << NANOLOG_VERIF_TIMETRACE_EXP events per thread; the complete text of every trace is compared with a direct specification.
#include "seq.h"
#include "TimeTrace.h"
#include <deque>
using PerfUtils::TimeTrace;
static const int SZ = 1 << NANOLOG_VERIF_TIMETRACE_EXP;
struct Ev { uint64_t ts; int f; uint32_t a[4]; };
static const char *F[] = {"plain", "one %u", "two %u/%x", "four %u %u %u %u", "%u%% done"};
static std::string text(const Ev &e) { char b[200]; switch (e.f) { case 0: return "plain"; case 1: snprintf(b, 200, "one %u", e.a[0]); break; case 2: snprintf(b, 200, "two %u/%x", e.a[0], e.a[1]); break; case 3: snprintf(b, 200, "four %u %u %u %u", e.a[0], e.a[1], e.a[2], e.a[3]); break; default: snprintf(b, 200, "%u%% done", e.a[0]); } return b; }
static std::vector<TimeTrace::Buffer *> bufs; static std::vector<std::vector<Ev>> spec; static double cps = 1e9;
// Accepts any order of events with equal time stamps of different threads.
static bool matches(const std::string &got, std::vector<int> which, std::string &want) {
    uint64_t S = 0; std::vector<std::deque<Ev>> q; for (int w : which) { std::deque<Ev> d(spec[w].begin(), spec[w].end()); while ((int)d.size() > SZ - 1) d.pop_front(); if (!d.empty() && d.front().ts > S) S = d.front().ts; q.push_back(d); }
    for (auto &d : q) while (!d.empty() && d.front().ts < S) d.pop_front();
    size_t p = 0; double prev = 0; want.clear(); bool first = true, ok = true;
    for (;;) { uint64_t m = ~0ull; for (auto &d : q) if (!d.empty() && d.front().ts < m) m = d.front().ts; bool any = false; for (auto &d : q) any |= !d.empty(); if (!any) break;
        double ns = (double)(m - S) / cps * 1e9; char h[80]; snprintf(h, 80, "%8.1f ns (+%6.1f ns): ", ns, ns - prev); prev = ns; bool hit = false; std::string l0;
        for (auto &d : q) if (!d.empty() && d.front().ts == m) { std::string l = (first ? "" : "\n") + std::string(h) + text(d.front()); if (l0.empty()) l0 = l; size_t e = p + l.size(); if (ok && got.compare(p, l.size(), l) == 0 && (e == got.size() || got[e] == '\n')) { p = e; d.pop_front(); hit = true; want += l; break; } }
        if (!hit) { ok = false; want += l0; for (auto &d : q) if (!d.empty() && d.front().ts == m) { d.pop_front(); break; } } first = false; }
    if (first) { want = "No time trace events to print"; return got == want; } return ok && p == got.size();
}
static uint64_t traces = 0; static std::string hist;
static std::string slurp(const char *p) { std::string r; FILE *f = fopen(p, "rb"); if (!f) return r; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
static void all(const std::string &got, std::vector<int> which, const char *how) { std::string want; ++traces; if (!matches(got, which, want)) seq::violation(std::string("trace-") + how, "after " + hist + ": " + how + " returns\n" + got + "\ninstead of\n" + want); }
static void setup(int n) { for (auto *b : bufs) delete b; bufs.clear(); spec.assign(n, {}); for (int i = 0; i < n; ++i) bufs.push_back(new TimeTrace::Buffer()); TimeTrace::threadBuffers = bufs; TimeTrace::threadBuffer = nullptr; hist.clear(); }
static uint64_t now; static uint32_t serial;
static void recordOn(int t, int dt) { now += dt; Ev e; e.ts = now; e.f = serial % 5; for (int i = 0; i < 4; ++i) e.a[i] = serial * 3 + i * 1000003u; if (serial % 7 == 3) e.a[0] = ~0u; ++serial; TimeTrace::threadBuffer = bufs[t];
    switch (e.f) { case 0: TimeTrace::record(e.ts, F[0]); break; case 1: TimeTrace::record(e.ts, F[1], e.a[0]); break; case 2: TimeTrace::record(e.ts, F[2], e.a[0], e.a[1]); break; case 3: TimeTrace::record(e.ts, F[3], e.a[0], e.a[1], e.a[2], e.a[3]); break; default: TimeTrace::record(e.ts, F[4], e.a[0]); }
    spec[t].push_back(e); hist += seq::fmt(" r%d+%d", t, dt); }
static void reset() { TimeTrace::reset(); for (auto &s : spec) s.clear(); hist += " reset"; }
static std::vector<int> idx(int n) { std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(i); return v; }
static void observe(int n, bool file) { all(TimeTrace::getTrace(), idx(n), "getTrace");
    if (file) { unlink("tt.out"); TimeTrace::setOutputFileName("tt.out"); TimeTrace::print(); std::string g = slurp("tt.out"); if (g.size() && g.back() == '\n') g.pop_back(); all(g, idx(n), "print"); for (int i = 0; i < n; ++i) all(bufs[i]->getTrace(), {i}, "Buffer::getTrace"); unlink("tt.out"); bufs[0]->print(); g = slurp("tt.out"); if (g.size() && g.back() == '\n') g.pop_back(); all(g, {0}, "Buffer::print"); } }
int main(int argc, char **argv) {
    seq::init(argc, argv); auto &G = seq::g(); bool t = seq::thorough(); PerfUtils::Cycles::mockCyclesPerSec = 1e9; uint64_t n = 0, id = 0, steps = 0;
    // threads x depth: letters record on thread i (+10), record on thread i (+0), trace, reset
    struct Cfg { int threads, depth; }; for (Cfg c : t ? std::vector<Cfg>{{1, 12}, {2, 9}, {3, 8}} : std::vector<Cfg>{{1, 10}, {2, 8}, {3, 7}}) {
        int A = c.threads * 2 + 2; std::vector<int> w(c.depth, 0); uint64_t total = 1; for (int i = 0; i < c.depth; ++i) total *= A;
        for (uint64_t x = 0; x < total; ++x) { if (!seq::mine(id++)) continue; setup(c.threads); now = 1000; serial = (uint32_t)(x % 11); ++n; uint64_t y = x; bool last = false;
            for (int i = 0; i < c.depth; ++i) { int o = y % A; y /= A; last = false; if (o < c.threads * 2) recordOn(o / 2, o % 2 ? 0 : 10); else if (o == c.threads * 2) { observe(c.threads, false); hist += " trace"; last = true; } else reset(); ++steps; }
            if (!last) observe(c.threads, n % 512 == 1); if (n % 200000 == 5) seq::sample(seq::fmt("%d threads:", c.threads) + hist); } }
    // long runs: every number of events on each of two threads around several wrap-arounds, in blocks and alternating, with and without an earlier reset or trace
    for (int a = 0; a <= 4 * SZ; ++a) for (int b = 0; b <= 4 * SZ; ++b) for (int how = 0; how < 16; ++how) { if (!seq::mine(id++)) continue; setup(2); now = 5000; serial = a * 7 + b; ++n; if (how & 4) { for (int i = 0; i < SZ + (how & 3); ++i) recordOn(i & 1, 7); reset(); }
        if ((how & 3) == 0) { for (int i = 0; i < a; ++i) recordOn(0, 10); for (int i = 0; i < b; ++i) recordOn(1, 10); } else if ((how & 3) == 1) { for (int i = 0; i < a || i < b; ++i) { if (i < a) recordOn(0, 10); if (i < b) recordOn(1, i % 3 ? 5 : 0); } } else if ((how & 3) == 2) { for (int i = 0; i < b; ++i) recordOn(1, 3); for (int i = 0; i < a; ++i) { recordOn(0, 1000); if (how & 8) observe(2, false); } } else { for (int i = 0; i < a + b; ++i) recordOn(i % 3 == 0 && a || !b ? 0 : 1, i); }
        steps += a + b; observe(2, (a + b) % 4 == 0); }
    // other clock frequencies: relative times
    for (double f : {1e9, 2.5e9, 3.2e9, 1e8}) { cps = f; PerfUtils::Cycles::mockCyclesPerSec = f; for (int step : {1, 3, 1000, 123456789}) if (seq::mine(id++)) { setup(1); now = 1ull << 40; for (int i = 0; i < SZ; ++i) recordOn(0, step); observe(1, true); ++n; } }
    G.evals = traces; G.states = n; G.transitions = steps; G.nontrivial = n; G.info["operation_sequences"] = std::to_string(n); G.info["traces_compared"] = std::to_string(traces);
    return seq::finish();
}
