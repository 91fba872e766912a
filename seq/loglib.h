// Helpers to write log files with the real Encoder and read them with the real Decoder.
#pragma once
#include "seq.h"
#include "NanoLogCpp17.h"
#include "Log.h"
#include "GeneratedCode.h"
#include <fcntl.h>
#include <cmath>
using namespace NanoLogInternal;
namespace ll {
typedef std::vector<ParamType> PT;
static const ParamType ptI[] = {NON_STRING}, ptS[] = {STRING_WITH_NO_PRECISION}, ptMix[] = {NON_STRING, STRING_WITH_NO_PRECISION, NON_STRING, STRING_WITH_NO_PRECISION}, ptPD[] = {NON_STRING, NON_STRING}, ptLD[] = {NON_STRING};
#ifndef LL_NC
#define LL_NC 20
#endif
static const int NC = LL_NC;      // arguments of the call site with many arguments
struct PtC { ParamType p[NC]; PtC() { for (auto &x : p) x = NON_STRING; } };
static const PtC ptC_; static const ParamType *const ptC = ptC_.p;
template<size_t... I> constexpr auto compressChars(std::index_sequence<I...>) { return &compress<decltype((void)I, char())...>; }
enum { F_NONE, F_INT, F_STR, F_MIX, F_PD, F_LD, F_CH, F_N };
// Call sites; "variant" gives a different program (other files, lines, texts).
inline std::vector<StaticLogInfo> dict(int variant = 0) {
    static std::vector<std::string> keep[8];
    auto &k = keep[variant]; if (k.empty()) {
        std::string v = variant ? seq::fmt("v%d ", variant) : std::string(); k.reserve(64);
        std::string cs = "c "; for (int i = 0; i < NC; ++i) cs += "%c";
        for (const char *s : {"tick", "i %d", "s %s", "m %d %s %ld %s.", "pd %p %.17g", "ld %Lf", cs.c_str()}) k.push_back(v + s);
        for (int i = 0; i < F_N; ++i) k.push_back(seq::fmt("prog%d/file%d.cc", variant, i));
    }
    auto f = [&](int i) { return k[i].c_str(); }; auto fn = [&](int i) { return k[F_N + i].c_str(); };
    std::vector<StaticLogInfo> d;
    d.push_back(StaticLogInfo(&compress<>, fn(0), 10 + variant, 1, f(0), 0, 0, nullptr));
    d.push_back(StaticLogInfo(&compress<int>, fn(1), 20 + variant, 2, f(1), 1, 1, ptI));
    d.push_back(StaticLogInfo(&compress<const char *>, fn(2), 30 + variant, 3, f(2), 1, 0, ptS));
    d.push_back(StaticLogInfo(&compress<int, const char *, long, const char *>, fn(3), 40 + variant, 4, f(3), 4, 2, ptMix));
    d.push_back(StaticLogInfo(&compress<const void *, double>, fn(4), 70000 + variant, 1, f(4), 2, 2, ptPD));
    d.push_back(StaticLogInfo(&compress<long double>, fn(5), 60 + variant, 2, f(5), 1, 1, ptLD));
    d.push_back(StaticLogInfo(compressChars(std::make_index_sequence<NC>()), fn(6), 80 + variant, 3, f(6), NC, NC, ptC));
    if (variant % 2) { auto x = d[1]; std::vector<StaticLogInfo> r; for (size_t i = 0; i < d.size(); ++i) r.push_back(d[d.size() - 1 - i]); return r; }   // other order of registration
    return d;
}
inline int idOf(int variant, int f) { return variant % 2 ? F_N - 1 - f : f; }
struct Msg { int f; uint64_t ts; long a = 0; std::string s1, s2; double d = 0; };
template<typename T> inline void put(std::string &o, T v) { o.append((char *)&v, sizeof v); }
inline void putS(std::string &o, const std::string &s) { put<uint32_t>(o, s.size()); o += s; }
inline std::string raw(const Msg &m, int variant = 0) {
    std::string a;
    switch (m.f) { case F_NONE: break; case F_INT: put<int>(a, m.a); break; case F_STR: putS(a, m.s1); break;
        case F_MIX: put<int>(a, m.a); putS(a, m.s1); put<long>(a, m.a * 1000003L); putS(a, m.s2); break;
        case F_PD: put<const void *>(a, (void *)m.a); put<double>(a, m.d); break; case F_LD: put<long double>(a, (long double)m.d); break;
        case F_CH: for (int i = 0; i < NC; ++i) put<char>(a, 'a' + (m.a + i) % 26); break; }
    std::string o(sizeof(Log::UncompressedEntry), 0); auto *u = (Log::UncompressedEntry *)&o[0];
    u->fmtId = idOf(variant, m.f); u->entrySize = o.size() + a.size(); u->timestamp = m.ts; return o + a;
}
inline std::string text(const Msg &m, int variant = 0) {   // what the decoder must print after the time
    char b[8192]; std::string v = variant ? seq::fmt("v%d ", variant) : std::string(); std::string r;
    static const int line[] = {10, 20, 30, 40, 70000, 60, 80}; static const char *lev[] = {"ERROR", "WARNING", "NOTICE", "DEBUG", "ERROR", "WARNING", "NOTICE"};
    switch (m.f) { case F_NONE: strcpy(b, "tick"); break; case F_INT: snprintf(b, sizeof b, "i %d", (int)m.a); break; case F_STR: snprintf(b, sizeof b, "s %s", m.s1.c_str()); break;
        case F_MIX: snprintf(b, sizeof b, "m %d %s %ld %s.", (int)m.a, m.s1.c_str(), m.a * 1000003L, m.s2.c_str()); break;
        case F_PD: snprintf(b, sizeof b, "pd %p %.17g", (void *)m.a, m.d); break; case F_LD: snprintf(b, sizeof b, "ld %Lf", (long double)m.d); break;
        case F_CH: strcpy(b, "c "); for (int i = 0; i < NC; ++i) { b[2 + i] = 'a' + (m.a + i) % 26; b[3 + i] = 0; } break; }
    return seq::fmt("prog%d/file%d.cc:%d %s", variant, m.f, line[m.f] + variant, lev[m.f]) + "|" + v + b;
}
inline std::string scratchFile(const char *n) { return std::string("./") + n; }
inline void writeFile(const std::string &p, const std::string &d) { int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); size_t o = 0; while (o < d.size()) { ssize_t r = write(fd, d.data() + o, d.size() - o); if (r <= 0) break; o += r; } close(fd); }
// One decoded message: "file:line LEVEL[tid]|text"; tid split off; time kept.
struct Out { std::string time, where, text; int tid; };
// Splits "<date> <time>.<nanos> file:line LEVEL[tid]: text\r\n" records. Texts must not contain newlines.
inline bool parseLine(const std::string &l, Out &o) {
    size_t p = l.find(' '); if (p == std::string::npos) return false; p = l.find(' ', p + 1); if (p == std::string::npos) return false;
    o.time = l.substr(0, p); size_t e = l.find("]: ", p); if (e == std::string::npos) { if (l.size() > 2 && l.substr(l.size() - 2) == "]:") e = l.size() - 2; else return false; }
    std::string h = l.substr(p + 1, e - p - 1); size_t b = h.rfind('['); if (b == std::string::npos) return false;
    o.tid = atoi(h.c_str() + b + 1); o.where = h.substr(0, b); o.text = o.where + "|" + (e + 3 <= l.size() ? l.substr(e + 3) : ""); return true;
}
struct Decoded { bool opened = false; std::vector<Out> msgs; std::vector<int> execOf; long ret = 0; std::string raw, died; int newExec = 0; bool junk = false; std::string junkText; };
inline void parseAll(Decoded &r) {
    size_t p = 0; int ex = 0;
    while (p < r.raw.size()) { size_t e = r.raw.find("\r\n", p); std::string l = r.raw.substr(p, e == std::string::npos ? std::string::npos : e - p); p = e == std::string::npos ? r.raw.size() : e + 2;
        if (l.empty()) continue; if (l[0] == '#') { if (l.find("New execution") != std::string::npos) { ++ex; ++r.newExec; } continue; }
        Out o; if (parseLine(l, o)) { r.msgs.push_back(o); r.execOf.push_back(ex); } else { r.junk = true; r.junkText = l; } }
}
// mode 0 unordered, 1 ordered, 2 iterator
inline Decoded decode(const std::string &path, int mode, bool keepStderr = false) {
    Decoded r; char *b = nullptr; size_t n = 0; FILE *f = open_memstream(&b, &n); seq::poolReset();
    Log::Decoder *d = nullptr;
    r.died = seq::guarded([&] { d = new Log::Decoder(); r.opened = d->open(path.c_str()); if (r.opened) { if (mode == 0) r.ret = d->decompressUnordered(f); else if (mode == 1) r.ret = d->decompressTo(f); else { Log::LogMessage m; while (d->getNextLogStatement(m, f)) ++r.ret; } } });
    fflush(f); r.raw.assign(b, n); fclose(f); ::free(b);
    if (r.died.empty()) delete d;
    parseAll(r); return r;
}
inline void quiet() { int n = open("/dev/null", O_WRONLY); dup2(n, 2); }
inline void initEnv() { setenv("TZ", "UTC", 1); tzset(); quiet(); PerfUtils::Cycles::mockTscValue = 1000000; PerfUtils::Cycles::mockCyclesPerSec = 1e9; }
}
