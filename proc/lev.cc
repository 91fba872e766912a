// C15: all sequences of level changes (in and out of range) x severities x statement shapes, by several threads; the program's own log is decoded and compared.
#include "sess.h"
#include "Log.h"
#include <vector>
#include <string>
#include <map>
#include <signal.h>
using namespace NanoLogInternal;
struct Exp { int line; const char *lev; std::string text; };
static std::vector<Exp> ex; static uint64_t calls = 0, evals = 0; static int evalCount = 0;
static std::map<std::string, std::pair<std::string, int>> viol;
static void bad(const std::string &k, const std::string &t) { auto &v = viol[k]; if (!v.second++) v.first = t; }
static int ev(int x) { ++evalCount; return x; }
static const char *evs(const char *s) { ++evalCount; return s; }
static int level = NOTICE; static std::string hist; static char xb[512];
#ifdef PREPROCESSOR_NANOLOG
static const bool lazy = false;   // arguments of a filtered message: function arguments, evaluated by design
#else
static const bool lazy = true;
#endif
// One call: N argument evaluations when recorded
#define CALL(LV, N, F, ...) do { ++calls; int b_ = evalCount; snprintf(xb, sizeof xb, F " " #LV, ##__VA_ARGS__); evalCount = b_; bool rec_ = (int)LV <= level; if (rec_) ex.push_back({__LINE__, #LV, xb}); \
    NANO_LOG(LV, F " " #LV, ##__VA_ARGS__); int n_ = evalCount - b_; \
    if (n_ != (rec_ ? N : lazy ? 0 : n_) && (rec_ || n_ > N)) bad(#LV "-evaluations", "after level changes " + hist + ": a " #LV " message (level in force " + std::to_string(level) + ") evaluated its " #N " arguments " + std::to_string(n_) + " times"); \
    if (!rec_ && lazy && n_) bad(#LV "-evaluated-filtered", "after level changes " + hist + ": the arguments of a filtered " #LV " message were evaluated"); } while (0)
#define FOUR(N, F, ...) CALL(ERROR, N, F, ##__VA_ARGS__); CALL(WARNING, N, F, ##__VA_ARGS__); CALL(NOTICE, N, F, ##__VA_ARGS__); CALL(DEBUG, N, F, ##__VA_ARGS__)
static void one(int k) {
    FOUR(0, "plain text");
    FOUR(1, "int %d", ev(k));
    FOUR(2, "str %s %d", evs("text"), ev(k + 1));
    FOUR(3, "%*d%s", ev(5), ev(k), evs("!"));
    if (k % 3 == 0) { FOUR(0, "in an if %d", k); } else CALL(WARNING, 1, "in an else %d", ev(k));
    switch (k % 2) { case 0: CALL(ERROR, 1, "case %ld", (long)ev(k)); break; default: CALL(DEBUG, 1, "default %ld", (long)ev(k)); }
}
static int clampLevel(int v) { return v < 0 ? 0 : v > 4 ? 4 : v; }
static void setL(int v) {
    hist += " " + std::to_string(v); level = clampLevel(v); NanoLog::setLogLevel(static_cast<NanoLog::LogLevel>(v));
    int g = (int)NanoLog::getLogLevel(); ++evals; if (g != level) bad("get-level", "after level changes" + hist + ": getLogLevel() returns " + std::to_string(g) + ", in force should be " + std::to_string(level));
}
static std::string q(const std::string &s) { std::string o; for (unsigned char c : s) { char b[8]; if (c == '\\' || c == '"') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
int main(int argc, char **argv) {
    const char *out = argv[1]; bool t = argc > 2 && !strcmp(argv[2], "thorough"); const char *log = "lev.log"; alarm(300); freopen("/dev/null", "w", stderr);
    NanoLog::setLogFile(log); if ((int)NanoLog::getLogLevel() != NOTICE) bad("initial-level", "the initial level is not NOTICE");
    one(0);
    static const int V[] = {-128, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 100, 127, 128, 255, 256, 1 << 20, (1 << 30) + 1, -(1 << 30), 2147483647, -2147483647 - 1}; const int NV = sizeof V / sizeof *V; int k = 1;
    uint64_t seqs = 0;
    for (int a = 0; a < NV; ++a) { hist.clear(); setL(V[a]); one(k++); ++seqs;
        for (int b = 0; b < NV; ++b) { hist = " " + std::to_string(V[a]); setL(V[b]); one(k++); ++seqs; setL(V[a]); one(k++);
            if (t) for (int c = 0; c < NV; ++c) { setL(V[b]); setL(V[c]); one(k++); ++seqs; setL(V[a]); } } }
    // several threads: each change made before a thread starts or between hand-overs applies to all threads
    for (int a = 0; a <= 4; ++a) for (int b = 0; b <= 4; ++b) { hist.clear(); setL(a); NanoLog::sync(); std::thread x([&] { one(k++); setL(b); one(k++); }); x.join(); NanoLog::sync(); one(k++); NanoLog::sync(); std::thread y([&] { one(k++); }); y.join(); NanoLog::sync(); ++seqs; }
    // file switches keep the level
    for (int a = 0; a <= 4; ++a) { hist.clear(); setL(a); NanoLog::setLogFile("lev2.log"); NanoLog::setLogFile(log); if ((int)NanoLog::getLogLevel() != a) bad("level-after-switch", "a file switch changed the level"); one(k++); ++seqs; }
    NanoLog::sync();
    Log::Decoder d; Log::LogMessage m; size_t i = 0;
    if (!d.open(log)) bad("open", "own log cannot be opened");
    else for (;; ++i) { char *p = nullptr; size_t n = 0; FILE *f = open_memstream(&p, &n); bool ok = d.getNextLogStatement(m, f); fclose(f); std::string s(p, n); free(p);
        if (!ok) { if (i < ex.size()) bad("missing", "message " + std::to_string(i) + " '" + ex[i].text + "' (" + ex[i].lev + ") and later ones were not recorded"); break; }
        if (i >= ex.size()) { bad("extra", "recorded although filtered: " + s); break; }
        size_t st = s.rfind("\r\n", s.size() - 3); if (st != std::string::npos) s = s.substr(st + 2);
        size_t e = s.find("]: "); std::string head = " lev.cc:" + std::to_string(ex[i].line) + " " + ex[i].lev + "["; ++evals;
        if (e == std::string::npos || s.find(head) == std::string::npos || s.substr(e + 3, s.size() - e - 5) != ex[i].text) { bad("mismatch", "message " + std::to_string(i) + ": expected" + head + "]: " + ex[i].text + ", decoded " + s); break; } }
    FILE *o = fopen(out, "w"); fprintf(o, "{\"evals\":%lu,\"states\":%lu,\"transitions\":%lu,\"nontrivial\":%zu,\"complete\":true,\"info\":{\"calls\":\"%lu\",\"recorded\":\"%zu\",\"level_sequences\":\"%lu\"},\"samples\":[\"%lu level-change sequences, %lu log calls, %zu recorded\"],\"violations\":[", calls + evals, seqs, calls, ex.size(), calls, ex.size(), seqs, seqs, calls, ex.size());
    bool first = true; for (auto &v : viol) { fprintf(o, "%s{\"key\":\"%s\",\"text\":\"%s\",\"count\":%d}", first ? "" : ",", q(v.first).c_str(), q(v.second.first).c_str(), v.second.second); first = false; }
    fprintf(o, "]}\n"); fclose(o); _exit(0);
}
