// Driver: runs the enumerated statements, decodes this process's own log and compares.
#define EXPOSE_PRIVATES
#include "fmt.h"
#include <stdarg.h>
#ifdef PREPROCESSOR_NANOLOG
#include "GeneratedCode.h"
#endif
#include "Log.h"
#include <vector>
#include <string>
#include <map>
#include <locale.h>
#include <unistd.h>
#include <signal.h>
using namespace NanoLogInternal;
char xbuf[131072];
struct Exp { const char *file; int line; const char *fmt; std::string text; };
static std::vector<Exp> ex;
void rec(const char *file, int line, const char *fmt, int n) { ex.push_back({file, line, fmt, std::string(xbuf, n < 0 ? 0 : n)}); }
void statements();
static FILE *out; static std::string phase = "logging";
static std::string q(const std::string &s) { std::string o; for (unsigned char c : s) { char b[8]; if (c == '\\' || c == '"') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static std::map<std::string, std::pair<std::string, int>> viol;   // one entry per statement
static void bad(const Exp &e, const std::string &what) { auto &v = viol[std::string(e.fmt)]; if (!v.second++) v.first = what; }
static void report(size_t done) {
    fprintf(out, "{\"evals\":%zu,\"states\":0,\"transitions\":%zu,\"nontrivial\":%zu,\"complete\":true,\"info\":{},\"samples\":[", done, done, done);
    for (size_t i = 0, k = 0; i < ex.size() && k < 2; i += ex.size() / 2 + 1, ++k) fprintf(out, "%s\"format '%s' -> '%s'\"", k ? "," : "", q(ex[i].fmt).c_str(), q(ex[i].text).substr(0, 150).c_str());
    fprintf(out, "],\"violations\":["); bool first = true;
    for (auto &v : viol) { fprintf(out, "%s{\"key\":\"%s\",\"text\":\"%s\",\"count\":%d}", first ? "" : ",", q(v.first).c_str(), q(v.second.first).c_str(), v.second.second); first = false; }
    fprintf(out, "]}\n"); fclose(out); _exit(0);
}
static size_t cur = 0;
static void die(int s) { for (int k : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGALRM}) signal(k, SIG_DFL); alarm(5); Exp e = ex.empty() ? Exp{"", 0, "start", ""} : cur < ex.size() && phase == "decoding" ? ex[cur] : ex.back(); viol[e.fmt] = {std::string("crash (signal ") + std::to_string(s) + ") while " + phase + " format '" + e.fmt + "'", 1}; report(cur); }
static size_t gen = 0; static uint32_t aggStep = 1; static std::vector<std::string> agg;
static void aggFn(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = vsnprintf(xbuf, sizeof xbuf, fmt, ap); va_end(ap); agg.push_back(std::string(xbuf, n < 0 ? 0 : n)); }
int main(int argc, char **argv) {
    out = fopen(argv[1], "w"); setlocale(LC_ALL, "C.UTF-8"); freopen("stderr.txt", "w", stderr);
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGALRM}) signal(s, die);
    alarm(120);
    NanoLog::setLogFile("fmt.log");
    statements();
    NanoLog::sync();
    phase = "decoding";
    Log::Decoder *d = new Log::Decoder(); Log::LogMessage m;
    if (!d->open("fmt.log")) { viol["open"] = {"own log cannot be opened", 1}; report(0); }
    for (cur = 0; cur < ex.size(); ++cur) {
        Exp &e = ex[cur]; char *p = nullptr; size_t n = 0; FILE *f = open_memstream(&p, &n);
        bool ok = d->getNextLogStatement(m, f); fclose(f); std::string s(p, n); free(p);
        if (!ok) { bad(e, "message with format '" + std::string(e.fmt) + "' is missing (and all after it)"); break; }
        std::string head = std::string(" ") + e.file + ":" + std::to_string(e.line) + " NOTICE["; size_t a = s.find(head), b = s.find("]: ");
        if (a == std::string::npos || b == std::string::npos || s.size() < b + 5 || s.substr(s.size() - 2) != "\r\n") { bad(e, "format '" + std::string(e.fmt) + "': decoded line '" + s + "' does not start with" + head); break; }
        std::string t = s.substr(b + 3, s.size() - b - 5);
        if (t != e.text) bad(e, "format '" + std::string(e.fmt) + "': printf gives '" + e.text + "', decoded '" + t + "'");
    }
    if (cur == ex.size()) { char *p = nullptr; size_t n = 0; FILE *f = open_memstream(&p, &n); if (d->getNextLogStatement(m, f)) { fflush(f); viol["extra"] = {"extra message decoded: " + std::string(p, n), 1}; } }
#ifdef PREPROCESSOR_NANOLOG
    // the generated decompression functions: everything printed by them, then each statement's arguments as passed to an aggregation function
    phase = "decoding with the generated functions";
    { Log::Decoder g; char *p = nullptr; size_t n = 0; FILE *f = open_memstream(&p, &n); g.open("fmt.log"); agg.clear(); g.internalDecompressUnordered(f, ~0u, &aggFn); fclose(f); std::string s(p, n); size_t a = 0; 
      for (size_t i = 0; i < ex.size(); ++i) { Exp &e = ex[i]; std::string head = std::string(" ") + e.file + ":" + std::to_string(e.line) + " NOTICE[", tail = e.text + "\r\n"; size_t h = s.find(head, a), b = h == std::string::npos ? h : s.find("]: ", h);
        if (b == std::string::npos || h > a + 60) { bad(e, "format '" + std::string(e.fmt) + "': not printed by the generated function (found '" + s.substr(a, 120) + "')"); break; }
        if (s.compare(b + 3, tail.size(), tail)) { bad(e, "format '" + std::string(e.fmt) + "': printf gives '" + e.text + "', the generated function '" + s.substr(b + 3, tail.size() + 10) + "'"); size_t x = s.find("\r\n", b); a = x == std::string::npos ? s.size() : x + 2; } else a = b + 3 + tail.size(); ++gen; }
      if (!agg.empty()) viol["agg"] = {"aggregation function called for another statement", 1}; }
    std::map<std::string, std::vector<Exp *>> by; for (auto &e : ex) by[std::string(e.file) + ":" + std::to_string(e.line) + ":" + e.fmt].push_back(&e);
    std::map<std::string, bool> hit;
    for (uint32_t id = 0; id < GeneratedFunctions::numLogIds; ++id) { auto &md = GeneratedFunctions::logId2Metadata[id]; auto it = by.find(std::string(md.fileName) + ":" + std::to_string(md.lineNumber) + ":" + md.fmtString); if (it == by.end()) continue; auto &w = it->second; hit[it->first] = true; if (id % aggStep) continue;
        Log::Decoder g; g.open("fmt.log"); agg.clear(); g.internalDecompressUnordered(nullptr, id, &aggFn); if (agg.size() != w.size()) bad(*w[0], "format '" + std::string(w[0]->fmt) + "': aggregation function called " + std::to_string(agg.size()) + " times for " + std::to_string(w.size()) + " messages");
        for (size_t i = 0; i < agg.size() && i < w.size(); ++i) { ++gen; if (agg[i] != w[i]->text) { bad(*w[i], "format '" + std::string(w[i]->fmt) + "': aggregation function called with arguments of '" + agg[i] + "', logged '" + w[i]->text + "'"); break; } } }
    for (auto &b : by) if (!hit[b.first]) bad(*b.second[0], "no generated code for statement " + b.first);
    cur += gen;
#endif
    report(cur);
}
