// C12: ordered decompression. All event histories of an abstract model of the runtime's scan loop (log by thread, ring wrap, visit of the next
// buffer, output buffer full) up to a depth are turned into log files by the real encoder and decoded by the real ordered decoder.
#include "loglib.h"
using namespace ll;
enum { L = 0, LW = 10, P = 20, F0E = 21, F0N = 22, F1E = 23 };
struct Ext { uint32_t id; bool np; std::vector<int> m; };          // messages by number = time order
struct Hist { std::vector<Ext> e; std::vector<int> th; };          // extents; thread of each message
static std::string evName(int e) { if (e < 10) return seq::fmt("log%d", e + 1); if (e < 20) return seq::fmt("log%dwrapped", e - 9); return e == P ? "visit" : e == F0E ? "full(empty extent)" : e == F0N ? "full" : "full(after one)"; }
// Runs the model; returns false if the history is not enabled/interesting.
static bool model(const std::vector<int> &ev, Hist &h) {
    struct B { int t; std::vector<std::pair<int, bool>> q; bool wrapped = false; }; std::vector<B> bufs; size_t i = 0; bool wrap = false; int n = 0;
    h = Hist();
    auto visit = [&](int kind) -> bool {
        if (bufs.empty()) return false;
        B &b = bufs[i]; size_t k = 0; while (k < b.q.size() && !(k > 0 && b.q[k].second)) ++k;     // peek stops at the wrap point
        bool full = false;
        if (k > 0) {
            if (b.q[0].second) { b.q[0].second = false; b.wrapped = false; }
            size_t take = k; if (kind == F0E || kind == F0N) take = 0; if (kind == F1E) { if (k < 2) return false; take = 1; }
            if (take) { Ext e{(uint32_t)b.t + 1, wrap, {}}; for (size_t j = 0; j < take; ++j) e.m.push_back(b.q[j].first); b.q.erase(b.q.begin(), b.q.begin() + take); h.e.push_back(e); wrap = false; }
            if (kind == F0E || kind == F1E) { h.e.push_back({(uint32_t)b.t + 1, wrap, {}}); wrap = false; }
            full = kind != P;
        } else if (kind != P) return false;
        size_t at = i; i = (i + 1) % bufs.size(); if (full) { if (i == 0 && MODEL_FULL_WRAP) wrap = true; i = at; } else if (i == 0) wrap = true;
        return true;
    };
    for (int e : ev) {
        if (e < 20) { int t = e % 10; bool w = e >= 10; B *b = nullptr; for (auto &x : bufs) if (x.t == t) b = &x; if (!b) { if (w) return false; bufs.push_back({t, {}, false}); b = &bufs.back(); }
            if (w && (b->wrapped || b->q.empty())) return false; if (w) b->wrapped = true;
            b->q.push_back({n++, w}); h.th.push_back(t); }
        else if (!visit(e)) return false;
    }
    for (int it = 0; it < 100; ++it) { bool any = false; for (auto &b : bufs) any |= !b.q.empty(); if (!any) break; visit(P); }
    return n > 0;
}
static uint64_t slot(const Hist &h, uint64_t div, int m);
// dm: bit k set = a further call site's description precedes extent k; bit 31 = zero padding (end of an output block) follows every second extent
static std::string encode(const Hist &h, uint64_t base, uint64_t div, int variant, uint32_t dm) {
    static char buf[1 << 15]; auto D0 = dict(variant);
    PerfUtils::Cycles::mockTscValue = base; Log::Encoder enc(buf, sizeof buf);
    std::vector<StaticLogInfo> D(D0.begin(), D0.begin() + idOf(variant, F_INT) + 1);
    uint32_t dp = 0; enc.encodeNewDictionaryEntries(dp, D);
    std::string out; auto flush = [&](int pad) { out.append(buf, enc.getEncodedBytes()); out.append(pad, 0); enc.swapBuffer(buf, sizeof buf); };
    uint32_t k = 0;
    for (auto &e : h.e) { if (dm >> std::min(k, 30u) & 1) { D.push_back(D0[0]); enc.encodeNewDictionaryEntries(dp, D); } if ((dm >> 31) && (k & 1)) flush(1 + k % 5); ++k;
        std::string in; for (int m : e.m) { Msg x; x.f = F_INT; x.ts = base + 10 + 10 * slot(h, div, m); x.a = m; in += raw(x, variant); } std::vector<char> v(in.begin(), in.end()); v.resize(in.size() + 64); enc.encodeLogMsgs(v.data(), in.size(), e.id, e.np, D, nullptr); }
    flush(0); return out;
}
struct Run { Hist h; uint64_t base, div; int variant; std::string ev; uint32_t dm = 0; };
// time slot of a message; with div == 2 neighbouring messages of different threads share one time stamp, with div == 3 also of the same thread (coarse clock)
static uint64_t slot(const Hist &h, uint64_t div, int m) { if (div == 3) return m - m % 2; return (div == 2 && m % 2 == 1 && h.th[m] != h.th[m - 1]) ? m - 1 : m; }
static std::string describe(const std::vector<Run> &rs) { std::string d; for (auto &r : rs) { d += " {" + r.ev + (r.dm ? seq::fmt(" (dictionary fragments/padding %x)", r.dm) : "") + " => extents"; for (auto &e : r.h.e) { d += seq::fmt(" %s%u(", e.np ? "*" : "", e.id); for (int m : e.m) d += seq::fmt(" %d", m); d += " )"; } d += "}"; } return d; }
static uint64_t files = 0, extents = 0, msgs = 0;
static void checkFile(const std::vector<Run> &rs, const char *key) {
    std::string f; size_t total = 0; for (auto &r : rs) { f += encode(r.h, r.base, r.div, r.variant, r.dm); total += r.h.th.size(); extents += r.h.e.size(); }
    writeFile("o.log", f); ++files; msgs += total;
    Decoded d = decode("o.log", 1); std::string err;
    if (!d.died.empty()) err = d.died; else if (!d.opened) err = "cannot be opened"; else if (d.junk) err = "garbage in the output: " + d.junkText;
    std::vector<std::string> order; 
    if (err.empty()) {
        std::vector<std::vector<int>> got(rs.size()); size_t curRun = 0; std::string seqs;
        for (size_t i = 0; i < d.msgs.size() && err.empty(); ++i) {
            // identify the message by its text (texts differ per execution)
            size_t r = 0; int m = -1; size_t p = d.msgs[i].text.find("i "); if (p != std::string::npos) m = atoi(d.msgs[i].text.c_str() + p + 2);
            for (r = 0; r < rs.size(); ++r) { if (m < 0 || m >= (int)rs[r].h.th.size()) continue; Msg x; x.f = F_INT; x.a = m; if (text(x, rs[r].variant) == d.msgs[i].text && (int)got[r].size() <= (int)rs[r].h.th.size() && r >= curRun) break; }
            seqs += seq::fmt(" %d", m);
            if (r >= rs.size()) { err = "output contains '" + d.msgs[i].text + "', which was not logged there (or executions are mixed)"; break; }
            if (r < curRun) { err = "executions are interleaved"; break; }
            curRun = r; if (d.msgs[i].tid != rs[r].h.th[m] + 1) err = "message shown with another thread's id"; got[r].push_back(m);
        }
        for (size_t r = 0; r < rs.size() && err.empty(); ++r) {
            auto g = got[r]; std::vector<int> cnt(rs[r].h.th.size()); for (int m : g) ++cnt[m];
            for (size_t m = 0; m < cnt.size() && err.empty(); ++m) if (cnt[m] != 1) err = seq::fmt("message %zu is output %d times (output:%s)", m, cnt[m], seqs.c_str());
            for (size_t i = 1; i < g.size() && err.empty(); ++i) {
                if (slot(rs[r].h, rs[r].div, g[i]) < slot(rs[r].h, rs[r].div, g[i - 1])) err = seq::fmt("message %d is output after the later message %d (output:%s)", g[i], g[i - 1], seqs.c_str());
                for (size_t j = 0; j < i && err.empty(); ++j) if (rs[r].h.th[g[j]] == rs[r].h.th[g[i]] && g[j] > g[i]) err = "messages of one thread are reordered";
            }
        }
        if (err.empty() && d.ret != (long)total) err = seq::fmt("reports %ld messages, %zu were logged", d.ret, total);
        if (err.empty() && d.newExec != (int)rs.size() - 1) err = "execution separators missing";
    }
    if (!err.empty()) seq::violation(key, err + describe(rs));
    if (files % 30011 == 2) seq::sample(describe(rs));
}
int main(int argc, char **argv) {
    seq::init(argc, argv); initEnv(); auto &G = seq::g(); bool T = seq::thorough();
    uint64_t idx = 0; std::vector<int> ev; Hist h;
    auto name = [&] { std::string s; for (int e : ev) s += (s.empty() ? "" : " ") + evName(e); return s; };
    std::vector<Run> pool;    // distinct small executions for the multi-execution part
    Run second; { std::vector<int> e2 = {L, L + 1, P, P, L}; model(e2, second.h); second.base = 400000; second.div = 1; second.variant = 1; second.ev = "log1 log2 visit visit log1"; }
    auto gen = [&](int nt, int depth, int maxF, int maxW, uint64_t div, const char *key, bool collect) {
        std::function<void(int, int, int)> rec = [&](int usedT, int f, int w) {
            if ((int)ev.size() == depth || collect) { if (!ev.empty() && (ev.back() < 20 || collect)) { bool m = seq::mine(idx++) || collect; if (m && model(ev, h)) { if (collect) { bool dup = false; for (auto &p : pool) dup |= p.h.th == h.th && p.h.e.size() == h.e.size() && std::equal(p.h.e.begin(), p.h.e.end(), h.e.begin(), [](const Ext &a, const Ext &b) { return a.id == b.id && a.np == b.np && a.m == b.m; }); if (!dup) pool.push_back({h, 0, 1, 0, name()}); } else { Run a{h, 5000, div, 0, name()}; checkFile({a}, key); if (h.e.size() > 2) { a.dm = 0x7ffffffe; checkFile({a}, "ordered-with-dictionary-fragments"); if (files & 4) { a.dm = 1u << 31; checkFile({a}, "ordered-with-padding"); } if (depth <= 7) for (size_t k = 1; k < h.e.size(); ++k) { a.dm = 1u << k; checkFile({a}, "ordered-with-dictionary-fragments"); } a.dm = 0; } Run b{h, 900000, div, 0, name()}, c = second; checkFile({(files & 1) ? a : b, c}, "executions"); } } } if ((int)ev.size() == depth) return; }
            for (int t = 0; t < std::min(nt, usedT + 1); ++t) { ev.push_back(L + t); rec(std::max(usedT, t + 1), f, w); ev.pop_back(); }
            if (w < maxW) for (int t = 0; t < usedT; ++t) { ev.push_back(LW + t); rec(usedT, f, w + 1); ev.pop_back(); }
            if (!ev.empty()) { ev.push_back(P); rec(usedT, f, w); ev.pop_back(); 
                if (f < maxF) for (int k : {F0E, F0N, F1E}) { ev.push_back(k); rec(usedT, f + 1, w); ev.pop_back(); } }
        };
        ev.clear(); rec(0, 0, 0);
    };
    int D2 = T ? 11 : 9, D3 = T ? 9 : 8;
    gen(2, D2, 0, 2, 1, "ordered", false); gen(3, D3, 0, 2, 1, "ordered", false); gen(2, T ? 8 : 7, 0, 1, 2, "ordered-equal-times", false); gen(2, T ? 8 : 7, 0, 1, 3, "ordered-coarse-clock", false);
    if (MAXFULL) { gen(2, T ? 10 : 8, 1, 2, 1, "ordered-after-full", false); gen(3, T ? 8 : 7, 1, 1, 1, "ordered-after-full", false); }
    // several executions in one file
    gen(2, T ? 6 : 5, 0, 1, 1, "", true); size_t single = files;
    std::vector<Run> small = pool; if (!T) { std::vector<Run> s; for (size_t i = 0; i < pool.size(); i++) if (pool[i].h.e.size() >= 3 || i % 4 == 0) s.push_back(pool[i]); small = s; }
    Run empty; empty.div = 1; empty.ev = "(nothing)"; small.push_back(empty);
    for (size_t a = 0; a < small.size(); ++a) for (size_t b = 0; b < small.size(); b += (T ? 3 : 17)) for (int o = 0; o < 2; ++o) { if (!seq::mine(idx++)) continue; Run x = small[a], y = small[b]; x.base = o ? 900000 : 5000; y.base = o ? 5000 : 900000; y.variant = 1; checkFile({x, y}, "executions"); Run z = small[(a * 7 + b) % small.size()]; z.base = 400000; z.variant = 2; if (((a + b) & 3) == 0) checkFile({x, y, z}, "executions"); }
    G.evals = G.nontrivial = files; G.states = extents; G.transitions = msgs; G.info["single_execution_files"] = std::to_string(single); G.info["multi_execution_files"] = std::to_string(files - single); G.info["distinct_small_executions"] = std::to_string(small.size());
    return seq::finish();
}
