// C13: every log file of an item grammar (dictionary fragments, buffer extents, padding, appended executions), cut at every byte position of its last item
// (shorter cuts are covered by the shorter files), plus log files of the real runtime cut at every byte. All three decoding modes.
#include "loglib.h"
#include <sys/wait.h>
#include <sys/stat.h>
#include <thread>
using namespace ll;
enum { D, E0, E1, EL, W, Z, P, C, ITEMS };
static const char *iname[] = {"dictionary", "extent(1 message)", "extent(other thread, 2 messages)", "extent(long id, long strings)", "extent(new pass)", "extent(empty)", "padding", "new execution"};
struct Want { std::string text; int tid; uint64_t ts; int ex; };
struct File { std::string bytes; std::vector<size_t> ends; std::vector<Want> want; std::vector<size_t> nwant; size_t header = 0; };
static std::vector<StaticLogInfo> *dictOf(int v) { static std::vector<StaticLogInfo> *d[4]; if (!d[v]) d[v] = new std::vector<StaticLogInfo>(dict(v)); return d[v]; }
static File make(const std::vector<int> &items) {
    static char buf[1 << 14]; File f; int variant = 0, ex = 0, n = 0; uint32_t dp = 0; PerfUtils::Cycles::mockTscValue = 1000000;
    auto *enc = new Log::Encoder(buf, sizeof buf); auto flush = [&] { f.bytes.append(buf, enc->getEncodedBytes()); enc->swapBuffer(buf, sizeof buf); };
    std::vector<StaticLogInfo> known; auto grow = [&](size_t k) { auto &all = *dictOf(variant); known.clear(); for (size_t i = 0; i < std::min(all.size(), dp + k); ++i) known.push_back(all[i]); enc->encodeNewDictionaryEntries(dp, known); };
    flush(); f.header = f.bytes.size(); grow(3); flush();
    auto end = [&] { f.ends.push_back(f.bytes.size()); f.nwant.push_back(f.want.size()); }; f.ends.push_back(f.header); f.nwant.push_back(0); end();
    uint64_t now = 2000000;
    auto ext = [&](uint32_t id, bool np, std::vector<int> fs, int64_t back, int slen) {
        std::string in; uint64_t t = now - back;
        for (int k : fs) { Msg m; m.f = k; m.a = ++n; m.s1 = std::string(slen, 'a' + n % 26); m.s2 = seq::fmt("n%d", n); m.ts = t; t += 7; in += raw(m, variant); f.want.push_back({text(m, variant), (int)id, m.ts, ex}); }
        now += 100; std::vector<char> v(in.begin(), in.end()); v.resize(in.size() + 64); long r = enc->encodeLogMsgs(v.data(), in.size(), id, np, known, nullptr); if (r != (long)in.size()) seq::violation("harness", "encoder did not take the input"); flush(); };
    // a call site that is known in this execution (variant 1 registers in reverse order)
    auto pick = [&](int want) { return idOf(variant, want) < (int)known.size() ? want : variant % 2 ? (F_N - 1) : 0; };
    for (int it : items) {
        switch (it) {
            case D: grow(2); flush(); break;
            case E0: ext(1, false, {pick(F_INT)}, 0, 3); break;
            case E1: ext(2, false, {pick(F_STR), pick(F_NONE)}, 115, 5); break;
            case EL: ext(300, false, {pick(F_MIX), pick(F_STR)}, 111, 30); break;
            case W: ext(1, true, {pick(F_INT), pick(F_MIX)}, 0, 2); break;
            case Z: ext(2, true, {}, 0, 0); break;
            case P: f.bytes.append(5, 0); break;
            case C: delete enc; variant = variant == 0 ? 1 : variant == 1 ? 2 : 0; ++ex; dp = 0; now = 2000000 + 1000 * ex; PerfUtils::Cycles::mockTscValue = 1000000 + ex; enc = new Log::Encoder(buf, sizeof buf); grow(3); { flush(); } break;
        }
        end();
    }
    delete enc; return f;
}
static const char *mname[] = {"unordered", "ordered", "iterator"};
static uint64_t cuts = 0;
static std::string show(const std::vector<Out> &o) { std::string s; for (auto &m : o) s += " {" + m.text + "}"; return s.substr(0, 600); }
static void checkCut(const File &f, const std::vector<int> &items, size_t cut, size_t from = 0) {
    size_t k = 0; for (size_t i = 0; i < f.ends.size(); ++i) if (f.ends[i] <= cut) k = f.nwant[i];
    writeFile("c.log", f.bytes.substr(0, cut)); std::string in = "file"; for (int i : items) in += std::string(" ") + iname[i]; in += seq::fmt(", cut to %zu of %zu bytes: ", cut, f.bytes.size());
    for (int mode = 0; mode < 3; ++mode) {
        Decoded d = decode("c.log", mode); ++seq::g().evals; std::string err;
        if (!d.died.empty()) err = d.died; else if (!d.opened && cut >= f.header) err = "cannot be opened"; else if (d.junk) err = "garbage in the output: " + d.junkText;
        std::vector<Want> w(f.want.begin(), f.want.begin() + k); if (mode == 1) std::stable_sort(w.begin(), w.end(), [](const Want &a, const Want &b) { return a.ex != b.ex ? a.ex < b.ex : a.ts < b.ts; });
        if (err.empty()) { if (d.msgs.size() != w.size()) err = seq::fmt("%zu messages decoded, %zu are completely present", d.msgs.size(), w.size());
            for (size_t i = 0; i < w.size() && err.empty(); ++i) { uint64_t ns = w[i].ts - 1000000 - w[i].ex; char fr[16]; snprintf(fr, 16, ".%09lu", (unsigned long)ns); const std::string &tm = d.msgs[i].time;
                if (d.msgs[i].text != w[i].text || d.msgs[i].tid != w[i].tid || d.execOf[i] != w[i].ex || tm.size() < 10 || tm.substr(tm.size() - 10) != fr) err = seq::fmt("message %zu decoded as '%s' [%d] time %s execution %d, logged '%s' [%d] %s execution %d", i, d.msgs[i].text.c_str(), d.msgs[i].tid, tm.c_str(), d.execOf[i], w[i].text.c_str(), w[i].tid, fr, w[i].ex); }
            if (err.empty() && mode && d.ret != (long)w.size()) err = seq::fmt("reports %ld messages, %zu are present", d.ret, w.size()); }
        if (!err.empty()) { size_t it = items.empty() ? 0 : items.size(); seq::violation(seq::fmt("cut-%s-%s", mname[mode], it ? iname[items.back()] : "header"), in + mname[mode] + " decoding: " + err + (d.msgs.size() < 12 ? "; output:" + show(d.msgs) : "")); }
    }
    ++cuts;
}
// ---- files of the real runtime: framing from the documented layout
static std::vector<size_t> boundaries(const std::string &b, size_t &header) {
    std::vector<size_t> e; size_t p = 0; header = 0;
    while (p < b.size()) { unsigned char t = b[p] & 3; size_t n = 1;
        if (t == 3) { Log::Checkpoint c; if (p + sizeof c > b.size()) break; memcpy(&c, &b[p], sizeof c); n = sizeof c + c.newMetadataBytes; if (!header) header = n; }
        else if (t == 2) { Log::BufferExtent x; if (p + sizeof x > b.size()) break; memcpy(&x, &b[p], sizeof x); n = x.length; }
        else if (t == 1) { Log::DictionaryFragment x; if (p + sizeof x > b.size()) break; memcpy(&x, &b[p], sizeof x); n = x.newMetadataBytes; }
        if (!n) break; p += n; e.push_back(p); }
    if (p != b.size()) e.clear(); return e;
}
static std::string slurp(const char *p) { std::string r; FILE *f = fopen(p, "rb"); if (!f) return r; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
static void session(int s, int which) {   // runs in a process of its own
    NanoLog::setLogFile("r.log"); using namespace NanoLog::LogLevels;
    auto f = [&](int t) { for (int i = 0; i < 4 + 3 * which; ++i) { NANO_LOG(NOTICE, "session %d thread %d message %d %s", s, t, i, std::string((i * 7 + which) % 40, 'x').c_str()); if (i % 3 == 0) NANO_LOG(WARNING, "tick"); if (which & 2) NanoLog::sync(); } };
    std::thread a(f, 1); f(0); a.join(); NanoLog::sync(); if (s == 1) _exit(0); exit(0);
}
static void runtimeFile(int which) {
    unlink("r.log"); uint64_t expect = 0;
    for (int s = 0; s < 2 + which % 2; ++s) {
        fflush(nullptr); pid_t c = fork(); if (c == 0) { alarm(60); execl("/proc/self/exe", "cut_seq", "--session", seq::fmt("%d", s).c_str(), "--which", seq::fmt("%d", which).c_str(), nullptr); _exit(9); }
        int st; waitpid(c, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { seq::violation("runtime-session", "logging session died"); return; }
        int n = 4 + 3 * which; expect += 2 * (n + (n + 2) / 3);
    }
    std::string b = slurp("r.log"); size_t header; auto e = boundaries(b, header);
    if (e.empty()) { seq::violation("runtime-framing", "a log file written by the runtime is not a sequence of complete entries"); return; }
    std::vector<Decoded> last(3); 
    for (size_t cut = header; cut <= b.size(); ++cut) {
        bool at = std::find(e.begin(), e.end(), cut) != e.end(); writeFile("c.log", b.substr(0, cut)); ++cuts;
        for (int mode = 0; mode < 3; ++mode) { Decoded d = decode("c.log", mode); ++seq::g().evals; std::string err;
            if (!d.died.empty()) err = d.died; else if (!d.opened) err = "cannot be opened"; else if (d.junk) err = "garbage: " + d.junkText;
            auto key = [](const Decoded &x) { std::string s; for (auto &m : x.msgs) s += m.time + m.text + seq::fmt("[%d]\n", m.tid); return s; };
            if (err.empty() && !at && key(d) != key(last[mode])) err = seq::fmt("%zu messages decoded, %zu are in complete entries", d.msgs.size(), last[mode].msgs.size());
            if (err.empty() && at) { if (d.msgs.size() < last[mode].msgs.size()) err = "fewer messages than in a shorter prefix"; else if (mode != 1 && key(d).substr(0, key(last[mode]).size()) != key(last[mode])) err = "not an extension of the shorter prefix"; last[mode] = d; }
            if (err.empty() && cut == b.size() && d.msgs.size() != expect) err = seq::fmt("whole file: %zu messages, %lu logged", d.msgs.size(), expect);
            if (!err.empty()) seq::violation(seq::fmt("runtime-%s", mname[mode]), seq::fmt("runtime history %d cut to %zu of %zu bytes, %s: ", which, cut, b.size(), mname[mode]) + err); }
    }
    seq::g().transitions += b.size();
}
int main(int argc, char **argv) {
    if (argc > 4 && !strcmp(argv[1], "--session")) session(atoi(argv[2]), atoi(argv[4]));
    seq::init(argc, argv); initEnv(); auto &G = seq::g(); bool t = seq::thorough();
    int depth = t ? 5 : 4; uint64_t files = 0, idx = 0; std::vector<int> cur;
    std::function<void()> rec = [&] {
        if (seq::mine(idx++)) { File f = make(cur); ++files; size_t from = cur.empty() ? 0 : f.ends[f.ends.size() - 2]; G.transitions += cur.size();
            for (size_t c = from + (cur.empty() ? 0 : 1); c <= f.bytes.size(); ++c) checkCut(f, cur, c);
            if (files % 257 == 3) { std::string s; for (int i : cur) s += std::string(i == cur[0] && s.empty() ? "" : ", ") + iname[i]; seq::sample("items: " + s + seq::fmt("; %zu bytes, cut at %zu positions", f.bytes.size(), f.bytes.size() - from)); } }
        if ((int)cur.size() == depth) return;
        for (int i = 0; i < ITEMS; ++i) { if (i == P && !cur.empty() && cur.back() == P) continue; int nc = 0; for (int x : cur) nc += x == C; if (i == C && nc == 2) continue; if (!t && cur.size() == 3 && cur[0] != E1 && cur[0] != C) continue; cur.push_back(i); rec(); cur.pop_back(); } };
    rec();
    for (int w = 0; w < (t ? 8 : 4); ++w) if (seq::mine(w * 5 + 1)) runtimeFile(w);
    G.states = files; G.nontrivial = cuts; G.info["files"] = std::to_string(files); G.info["cut_positions"] = std::to_string(cuts); G.info["depth"] = std::to_string(depth);
    return seq::finish();
}
