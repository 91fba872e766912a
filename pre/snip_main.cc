#include "snip.h"
#define EXPOSE_PRIVATES
#include "Log.h"
#include "NanoLog.h"
#include <unistd.h>
#include <map>
#include <set>
using namespace NanoLogInternal;
std::vector<Rec> refRecs; std::vector<std::string> trace;
namespace pp { extern void (*const fns[])(); extern const int nfns; void mark(int); }
namespace ref { extern void (*const fns[])(); extern const int nfns; void mark(int); }
static std::string q(const std::string &s) { std::string o; for (unsigned char c : s) { char b[8]; if (c == '\\' || c == '"') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static std::string show(const std::vector<Rec> &v) { static const char *L[] = {"NONE", "ERROR", "WARNING", "NOTICE", "DEBUG"}; std::string s; for (auto &r : v) { s += (s.empty() ? "" : " | ") + r.file + ":" + std::to_string(r.line) + " " + L[r.sev % 5] + " " + r.text; if (s.size() > 500) break; } return "{" + s + "}"; }
static std::string show(const std::vector<std::string> &v) { std::string s; for (auto &r : v) s += (s.empty() ? "" : " ") + r; return "{" + s + "}"; }
static std::vector<std::vector<Rec>> split(const std::vector<Rec> &v, int n) { // by the marks
    std::vector<std::vector<Rec>> o(n); int cur = -1; for (auto &r : v) { if (r.text.compare(0, 7, "##mark ") == 0) { cur = atoi(r.text.c_str() + 7); continue; } if (cur >= 0 && cur < n) o[cur].push_back(r); } return o; }
int main(int argc, char **argv) { // snip OUT
    const char *log = "snip.log"; alarm(200); freopen("/dev/null", "w", stderr); unlink(log); NanoLog::setLogFile(log); NanoLog::setLogLevel(DEBUG);
    int n = pp::nfns; std::vector<std::vector<std::string>> tp, tr;
    for (int i = 0; i < n; ++i) { trace.clear(); pp::mark(i); pp::fns[i](); tp.push_back(trace); trace.clear(); ref::mark(i); ref::fns[i](); tr.push_back(trace); }
    NanoLog::sync();
    std::vector<Rec> got; char *p = nullptr; size_t sz = 0; FILE *f = open_memstream(&p, &sz); { Log::Decoder d; d.open(log); d.decompressUnordered(f); } fclose(f);
    std::string s(p, sz); size_t a = 0; std::map<std::string, int> L{{"ERROR", 1}, {"WARNING", 2}, {"NOTICE", 3}, {"DEBUG", 4}};
    while (a < s.size()) { size_t e = s.find("\r\n", a); if (e == std::string::npos) break; std::string l = s.substr(a, e - a); a = e + 2; if (l.empty() || l[0] == '#') { got.push_back({0, "?", 0, l}); if (l.compare(0, 2, "# ") == 0 || l.empty()) got.pop_back(); continue; }
        // DATE TIME FILE:LINE SEV[TID]: TEXT
        size_t b = l.find("]: "); size_t c = b == std::string::npos ? b : l.rfind('[', b); size_t d = c == std::string::npos ? c : l.rfind(' ', c); size_t g = d == std::string::npos ? d : l.rfind(':', d); size_t h = g == std::string::npos ? g : l.rfind(' ', g);
        if (h == std::string::npos) { got.push_back({0, "?", 0, l}); continue; }
        got.push_back({L.count(l.substr(d + 1, c - d - 1)) ? L[l.substr(d + 1, c - d - 1)] : 0, l.substr(h + 1, g - h - 1), atoi(l.c_str() + g + 1), l.substr(b + 3)}); }
    auto G = split(got, n), R = split(refRecs, n); uint64_t evals = 0, recs = 0; std::string v; int shown = 0; std::set<std::string> distinct; std::string sample;
    for (int i = 0; i < n; ++i) { ++evals; recs += R[i].size(); std::string k = show(R[i]) + show(tr[i]); distinct.insert(k); if (i == n / 2) sample = "snippet " + std::to_string(i) + ": " + show(R[i]) + " trace " + show(tr[i]);
        std::string why; if (!(G[i] == R[i])) why = "logged " + show(G[i]) + ", the statements say " + show(R[i]); else if (tp[i] != tr[i]) why = "surrounding code behaves differently: " + show(tp[i]) + ", expected " + show(tr[i]);
        if (!why.empty() && shown++ < 20) v += std::string(v.empty() ? "" : ",") + "{\"snippet\":" + std::to_string(i) + ",\"text\":\"" + q(why) + "\"}"; }
    FILE *o = fopen(argv[1], "w"); fprintf(o, "{\"evals\":%lu,\"records\":%lu,\"distinct\":%zu,\"bad\":%d,\"sample\":\"%s\",\"violations\":[%s]}\n", evals, recs, distinct.size(), shown, q(sample).c_str(), v.c_str()); fclose(o); _exit(0);
}
