// C16: every sequence of open / next / decompressUnordered / decompressTo operations up to a depth on one decoder (and one reused LogMessage), over a set of
// files with different contents, call sites, executions and damage. After every open the decoder must behave like a fresh one given the same operations.
#define LL_NC 87      // beyond three growth steps of the decoded message
#include "loglib.h"
#include <dirent.h>
using namespace ll;
enum { FA, FB, FE, FL, FM, FJ, FT, FC, NF };
static const char *fname[] = {"one execution", "two executions of different programs", "no messages", "many arguments, padding", "missing file", "not a log", "cut inside an extent", "damaged second execution"};
static const char *path[] = {"a.log", "b.log", "e.log", "l.log", "missing.log", "j.log", "t.log", "c.log"};
enum { N1 = NF, N2, NALL, UN, ORD, NOPS };
static std::string opName(int o) { return o < NF ? std::string("open(") + fname[o] + ")" : o == N1 ? "next" : o == N2 ? "next x2" : o == NALL ? "next until false" : o == UN ? "decompressUnordered" : "decompressTo"; }
struct Rec { Msg m; int variant, ex; };
static std::vector<Rec> content[NF]; static bool opens[NF] = {true, true, true, true, false, false, true, true};
struct Builder {
    char buf[1 << 14]; Log::Encoder *enc = nullptr; std::string bytes; int variant = 0, ex = -1, n = 0; uint32_t dp = 0; std::vector<StaticLogInfo> known; std::vector<Rec> recs;
    void flush() { bytes.append(buf, enc->getEncodedBytes()); enc->swapBuffer(buf, sizeof buf); }
    void exec(int v, size_t sites) { delete enc; variant = v; ++ex; dp = 0; PerfUtils::Cycles::mockTscValue = 1000000; enc = new Log::Encoder(buf, sizeof buf); auto all = dict(v); known.clear(); for (size_t i = 0; i < std::min(sites, all.size()); ++i) known.push_back(all[i]); flush(); enc->encodeNewDictionaryEntries(dp, known); flush(); }
    void ext(uint32_t id, bool np, std::vector<int> fs, uint64_t ts) { std::string in; for (int f : fs) { Msg m; m.f = f; m.a = (++n) * 37 - 90; m.s1 = std::string(n % 5, 'a' + n % 26); m.s2 = seq::fmt("z%d", n); m.d = n * 1.25; m.ts = ts; ts += 9; in += raw(m, variant); recs.push_back({m, variant, ex}); }
        in.resize(in.size() + 64); long r = enc->encodeLogMsgs(&in[0], in.size() - 64, id, np, known, nullptr); if (r != (long)in.size() - 64) seq::violation("harness", "encoder did not take the input"); flush(); }
};
static void makeFiles() {
    { Builder b; b.exec(0, F_N); b.ext(1, false, {F_INT, F_STR, F_MIX}, 2000000); b.ext(2, true, {F_NONE, F_PD}, 1999990); b.ext(70000, true, {F_INT}, 2000100); writeFile(path[FA], b.bytes); content[FA] = b.recs; delete b.enc; }
    { Builder b; b.exec(1, F_N); b.ext(3, false, {F_STR, F_INT}, 3000000); b.ext(4, true, {F_MIX}, 2999999); b.exec(2, F_N); b.ext(1, false, {F_INT, F_CH}, 1500000); b.ext(5, false, {F_STR}, 1500001); writeFile(path[FB], b.bytes); content[FB] = b.recs;
        std::string whole = b.bytes; delete b.enc; }
    { Builder b; b.exec(0, 3); b.ext(1, true, {}, 5); writeFile(path[FE], b.bytes); delete b.enc; }
    { Builder b; b.exec(0, F_N); b.ext(9, false, {F_CH, F_LD, F_CH, F_MIX}, 2000000); b.bytes.append(37, 0); b.ext(8, true, {F_CH, F_INT}, 2000010); for (int i = 0; i < 6; ++i) { b.ext(3 + i, i & 1, {}, 5); if (i > 2) b.bytes.append(i, 0); } b.ext(9, true, {F_INT}, 2000100); b.bytes.append(3, 0); writeFile(path[FL], b.bytes); content[FL] = b.recs; delete b.enc; }
    unlink(path[FM]); writeFile(path[FJ], std::string(300, 'Q'));
    { Builder b; b.exec(0, F_N); b.ext(1, false, {F_STR, F_INT}, 2000000); size_t keep = b.bytes.size(); b.ext(2, false, {F_MIX, F_MIX}, 2000005); writeFile(path[FT], b.bytes.substr(0, keep + (b.bytes.size() - keep) / 2)); content[FT].assign(b.recs.begin(), b.recs.begin() + 2); delete b.enc; }
    { Builder b; b.exec(2, 4); b.ext(1, false, {F_INT, F_INT}, 2000000); size_t at = b.bytes.size(); b.exec(0, F_N); b.ext(2, false, {F_STR}, 2000005); writeFile(path[FC], b.bytes.substr(0, at + sizeof(Log::Checkpoint) / 2)); content[FC].assign(b.recs.begin(), b.recs.begin() + 2); delete b.enc; }
}
static int openFds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
// What one operation shows: return value, printed bytes, and (for next) the message's typed contents.
static std::string args(Log::LogMessage &m, const Rec *r) {
    std::string s = seq::fmt("valid=%d n=%d", m.valid(), m.getNumArgs()); if (!m.valid()) return s;
    s += seq::fmt(" id=%u ts=%lu", m.getLogId(), m.getTimestamp()); if (!r) return s + " ?";
    switch (r->m.f) { case F_INT: s += seq::fmt(" %d", m.get<int>(0)); break; case F_STR: s += seq::fmt(" %s", m.get<const char *>(0)); break; case F_MIX: s += seq::fmt(" %d %s %ld %s", m.get<int>(0), m.get<const char *>(1), m.get<long>(2), m.get<const char *>(3)); break;
        case F_PD: s += seq::fmt(" %p %a", m.get<const void *>(0), m.get<double>(1)); break; case F_CH: for (int i = 0; i < NC; ++i) s += seq::fmt(" %d", (char)m.get<int>(i)); break; }
    return s;
}
static std::string wantArgs(const Rec &r) {
    static const int na[] = {0, 1, 1, 4, 2, 1, NC}; std::string s = seq::fmt("valid=1 n=%d id=%u ts=%lu", na[r.m.f], idOf(r.variant, r.m.f), r.m.ts);
    switch (r.m.f) { case F_INT: s += seq::fmt(" %d", (int)r.m.a); break; case F_STR: s += " " + r.m.s1; break; case F_MIX: s += seq::fmt(" %d %s %ld %s", (int)r.m.a, r.m.s1.c_str(), r.m.a * 1000003L, r.m.s2.c_str()); break;
        case F_PD: s += seq::fmt(" %p %a", (void *)r.m.a, r.m.d); break; case F_CH: for (int i = 0; i < NC; ++i) s += seq::fmt(" %d", 'a' + (r.m.a + i) % 26); break; }
    return s;
}
struct Obs { std::string text, printed; long ret = 0; bool died = false; };
static const Rec *at(int file, size_t i) { return file >= 0 && i < content[file].size() ? &content[file][i] : nullptr; }
static Obs apply(Log::Decoder &d, Log::LogMessage &m, int op, int file, size_t &pos, bool print) {
    Obs o; char *b = nullptr; size_t n = 0; FILE *f = open_memstream(&b, &n); std::string died;
    died = seq::guarded([&] {
        if (op < NF) o.ret = d.open(path[op]);
        else if (op == UN) o.ret = d.decompressUnordered(f); else if (op == ORD) o.ret = d.decompressTo(f);
        else { int k = op == N1 ? 1 : op == N2 ? 2 : 1000; for (int i = 0; i < k; ++i) { bool r = d.getNextLogStatement(m, print ? f : nullptr); o.text += r ? " +" : " -"; const Rec *rec = r ? at(file, pos) : nullptr; if (r) { ++pos; ++o.ret; } o.text += args(m, rec); if (!r) { if (k == 1000) break; } } } });
    fflush(f); o.printed.assign(b, n); fclose(f); ::free(b); if (!died.empty()) { o.died = true; o.text = died; } return o;
}
static std::string str(const Obs &o) { return seq::fmt("returns %ld;%s; prints '%s'", o.ret, o.text.c_str(), o.printed.c_str()); }
typedef std::vector<int> Ops;
static std::map<Ops, Obs> memo; static uint64_t seqs = 0;
static std::string name(const Ops &s) { std::string r; for (int o : s) r += (r.empty() ? "" : ", ") + opName(o); return r; }
// The last operation of s = {open, op...} (or {op...} before any open) on a fresh decoder
static const Obs &fresh(const Ops &s) {
    auto it = memo.find(s); if (it != memo.end()) return it->second;
    Obs o; Log::Decoder *d = new Log::Decoder(); Log::LogMessage *m = new Log::LogMessage(); int file = -1; size_t pos = 0;
    for (int op : s) { if (op < NF) { file = op; pos = 0; } o = apply(*d, *m, op, file, pos, true); if (o.died) break; }
    if (!o.died) { delete d; delete m; } return memo[s] = o;
}
// Oracle for a fresh decoder: complete contents, in order, by every interface.
static void absolute() {
    for (int f = 0; f < NF; ++f) {
        auto bad = [&](const std::string &k, const std::string &t) { seq::violation("fresh-" + k, std::string("file '") + fname[f] + "': " + t); };
        const Obs &op = fresh({f}); if (op.ret != opens[f]) { bad("open", seq::fmt("open() returns %ld", op.ret)); continue; }
        auto &C = content[f]; bool clean = f != FC && f != FT;   // a damaged tail is reported, its messages do not exist
        for (int mode = 0; mode < 3; ++mode) { const Obs &o = fresh({f, mode == 0 ? UN : mode == 1 ? ORD : NALL}); if (o.died) { bad("died", o.text); continue; }
            Decoded r; r.raw = o.printed; parseAll(r); std::vector<Rec> w = C; if (mode == 1) std::stable_sort(w.begin(), w.end(), [](const Rec &a, const Rec &b) { return a.ex != b.ex ? a.ex < b.ex : a.m.ts < b.m.ts; });
            if (!opens[f]) { w.clear(); if (mode < 2 && o.ret != -1) bad("unopened", seq::fmt("%s on an unopened decoder returns %ld", opName(mode == 0 ? UN : ORD).c_str(), o.ret)); }
            else if (o.ret != (long)w.size() && (clean || mode == 2)) bad("count", seq::fmt("%s reports %ld messages of %zu", opName(mode == 0 ? UN : mode == 1 ? ORD : NALL).c_str(), o.ret, w.size()));
            if (r.msgs.size() != w.size()) { bad("missing", seq::fmt("%zu messages of %zu in mode %d", r.msgs.size(), w.size(), mode)); continue; }
            for (size_t i = 0; i < w.size(); ++i) if (r.msgs[i].text != text(w[i].m, w[i].variant) || r.execOf[i] != w[i].ex) bad("text", r.msgs[i].text + " instead of " + text(w[i].m, w[i].variant));
            if (mode == 2) { std::string e; for (auto &x : w) e += " +" + wantArgs(x); e += " -valid=0 n=0"; if (o.text != e) bad("arguments", "typed arguments:" + o.text + " instead of" + e); }
            seq::g().nontrivial += w.size(); ++seq::g().evals; } }
}
int main(int argc, char **argv) {
    seq::init(argc, argv); initEnv(); auto &G = seq::g(); bool t = seq::thorough(); makeFiles(); absolute(); int depth = t ? 6 : 5; uint64_t idx = 0, cmp = 0;
    int base = openFds();
    auto sym = [&](int o) { return !t && (o == FE || o == FM) ? 1 : 0; };
    std::function<void(Ops &)> rec = [&](Ops &s) {
        // a sequence is run when it cannot be extended (its prefixes are checked on the way)
        if ((int)s.size() == depth) { if (!seq::mine(idx++)) return; ++seqs;
            seq::poolReset(); Log::Decoder *d = new Log::Decoder(); Log::LogMessage *m = new Log::LogMessage(); Ops since; int file = -1; size_t pos = 0; bool died = false, partial = false, mixed = false;
            for (size_t i = 0; i < s.size(); ++i) { if (s[i] < NF) { since.clear(); file = s[i]; pos = 0; partial = mixed = false; } since.push_back(s[i]);
                // mixing interfaces inside an extent is not specified; it must only not disturb what follows the next open
                if (s[i] == N1 || s[i] == N2) partial = true; else if (s[i] == UN || s[i] == ORD) mixed |= partial;
                if (mixed) { if (s[i] == UN || s[i] == ORD) apply(*d, *m, s[i], file, pos, true); continue; }
                const Obs &w = fresh(since); Obs o = apply(*d, *m, s[i], file, pos, true); ++cmp; ++G.transitions;
                if (w.died) { died = true; seq::violation("fresh-died-seq", name(since) + ": " + w.text); break; }   // reported by the fresh run where claimed
                if (o.ret != w.ret || o.text != w.text || o.printed != w.printed) { Ops pre(s.begin(), s.begin() + i + 1); seq::violation(std::string(o.died ? "died-" : "differs-") + (s[i] < NF ? "open" : s[i] == UN ? "unordered" : s[i] == ORD ? "ordered" : "next"), "after: " + name(pre) + ": " + str(o) + "; a fresh decoder (" + name(since) + "): " + str(w)); died = true; break; } }
            if (!died) { int now = openFds(); if (now > base + 1) { seq::violation("fd-leak", seq::fmt("%d file descriptors held by one decoder after: ", now - base) + name(s)); base = now; } delete d; delete m; base = openFds(); }
            if (seqs % 5000 == 7) seq::sample(name(s)); return; }
        for (int o = 0; o < NOPS; ++o) { bool lastTwo = (int)s.size() >= depth - 2; if (s.empty() && o >= NF) { if (!t) continue; } if (sym(o) && !lastTwo) continue; if (!s.empty() && o < NF && s.back() < NF && (int)s.size() > 1 && !t) continue;
            if (!t && s.size() == 1 && o == N2) continue; s.push_back(o); rec(s); s.pop_back(); } };
    Ops s; rec(s);
    // one LogMessage shared by two decoders, without printing
    uint64_t inter = 0; const int ST = t ? 10 : 8; for (int f = 0; f < NF; ++f) for (int h = 0; h < NF; ++h) if (opens[f] && opens[h] && seq::mine(f * NF + h)) for (int mask = 0; mask < 1 << ST; ++mask) {
        seq::poolReset(); Log::Decoder *d[2] = {new Log::Decoder(), new Log::Decoder()}; Log::LogMessage m; int fl[2] = {f, h}; size_t p[2] = {0, 0}; d[0]->open(path[f]); d[1]->open(path[h]); ++inter;
        for (int k = 0; k < ST; ++k) { int w = mask >> k & 1; size_t was = p[w]; Obs o = apply(*d[w], m, N1, fl[w], p[w], k & 1); ++cmp; std::string e = was < content[fl[w]].size() ? " +" + wantArgs(content[fl[w]][was]) : " -valid=0 n=0"; if (o.died || o.text != e) { seq::violation("shared-message", std::string("two decoders on '") + fname[f] + "' and '" + fname[h] + seq::fmt("', schedule %d, step %d: ", mask, k) + o.text + " instead of" + e); break; } }
        delete d[0]; delete d[1]; }
    G.evals += cmp; G.states = seqs + inter; G.info["operation_sequences"] = std::to_string(seqs); G.info["two_decoder_schedules"] = std::to_string(inter); G.info["depth"] = std::to_string(depth);
    return seq::finish();
}
