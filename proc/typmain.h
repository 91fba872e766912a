static std::map<std::string, std::pair<std::string, int>> viol; static uint64_t evals = 0, argsRead = 0;
static void bad(const std::string &k, const std::string &t) { auto &v = viol[k]; if (!v.second++) v.first = t; }
static std::string get(Log::LogMessage &m, int i, char k) {
    switch (k) { case 'i': case 'c': return show(m.get<int>(i)); case 's': return show(m.get<const char *>(i)); case 'l': return show(m.get<long>(i)); case 'd': case 'f': return show(m.get<double>(i)); case 'u': return show(m.get<unsigned>(i)); case 'p': return show(m.get<const void *>(i));
        case 'L': return show(m.get<long long>(i)); case 'U': return show(m.get<unsigned long long>(i)); case 'z': return show(m.get<size_t>(i)); case 'j': return show(m.get<intmax_t>(i)); case 'h': return show(m.get<short>(i)); case 'b': return show(m.get<unsigned char>(i)); case 't': return show(m.get<ptrdiff_t>(i)); case 'B': return show(m.get<signed char>(i)); } return "?"; }
static std::string join(const Item &i) { std::string s = i.fmt + " <-"; for (auto &v : i.v) s += " " + v.s; return s; }
static std::vector<std::string> lines(const std::string &s) { std::vector<std::string> r; size_t p = 0; while (p < s.size()) { size_t e = s.find("\r\n", p); if (e == std::string::npos) e = s.size(); std::string l = s.substr(p, e - p); p = e + 2; if (!l.empty() && l[0] != '#') r.push_back(l); } return r; }
struct Cap { char *p = nullptr; size_t n = 0; FILE *f = open_memstream(&p, &n); std::string take() { fclose(f); std::string s(p, n); free(p); return s; } };
// aggregation: what the aggregation function was called with
static std::vector<std::string> agg; static std::vector<const Item *> aggWant;
static void aggFn(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); std::string s = fmt; s += " <-"; size_t k = agg.size(); const Item *w = k < aggWant.size() ? aggWant[k] : nullptr;
    if (w) for (auto &v : w->v) { s += " "; switch (v.kind) { case 'i': case 'c': s += show(va_arg(ap, int)); break; case 's': s += show(va_arg(ap, const char *)); break; case 'l': s += show(va_arg(ap, long)); break; case 'd': case 'f': s += show(va_arg(ap, double)); break; case 'u': s += show(va_arg(ap, unsigned)); break; case 'p': s += show(va_arg(ap, const void *)); break;
        case 'L': s += show(va_arg(ap, long long)); break; case 'U': s += show(va_arg(ap, unsigned long long)); break; case 'z': s += show(va_arg(ap, size_t)); break; case 'j': s += show(va_arg(ap, intmax_t)); break; case 'h': s += show((short)va_arg(ap, int)); break; case 'b': s += show((unsigned char)va_arg(ap, int)); break; case 't': s += show(va_arg(ap, ptrdiff_t)); break; case 'B': s += show((signed char)va_arg(ap, int)); break; } }
    va_end(ap); agg.push_back(s);
}
static std::string q(const std::string &s) { std::string o; for (unsigned char c : s) { char b[8]; if (c == '\\' || c == '"') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
int main(int argc, char **argv) {
    const char *log = "typ.log", *cur = "start"; alarm(300); freopen("/dev/null", "w", stderr); unlink(log); NanoLog::setLogFile(log);
    for (int i = 0; i < 3; ++i) logAll(); NanoLog::sync(); (void)cur;
    std::vector<std::string> it; Log::LogMessage m;
    for (int print = 0; print < 2; ++print) { Log::Decoder d; size_t i = 0; if (!d.open(log)) { bad("open", "own log cannot be opened"); break; }
        for (;; ++i) { Cap c; bool ok = d.getNextLogStatement(m, print ? c.f : nullptr); std::string s = c.take(); ++evals; if (!ok) break; if (i >= items.size()) { bad("extra", "more messages than logged"); break; }
            Item &w = items[i]; w.id = m.getLogId(); for (auto &l : lines(s)) it.push_back(l); if (!m.valid() || m.getNumArgs() != (int)w.v.size()) { bad("num-args", "message with " + std::to_string(w.v.size()) + " arguments reports " + std::to_string(m.getNumArgs())); continue; }
            for (int k = 0; k < (int)w.v.size(); ++k) { ++argsRead; std::string g = get(m, k, w.v[k].kind); if (g != w.v[k].s) bad(std::string("get-") + w.v[k].kind, "argument " + std::to_string(k) + " of '" + join(w) + "' read back as " + g); } }
        if (i < items.size()) bad("iterator-count", std::to_string(i) + " of " + std::to_string(items.size()) + " messages by iteration"); if (m.valid()) bad("end-valid", "message still valid after the end of the log"); }
    if (it.size() != items.size()) bad("iterator-lines", "iteration printed " + std::to_string(it.size()) + " messages");
    for (size_t i = 0; i < it.size() && i < items.size(); ++i) { std::string h = " typ.cc:" + std::to_string(items[i].line) + " NOTICE[", f = "]: m" + std::to_string(items[i].n) + (items[i].v.empty() ? "" : " "); ++evals; if (it[i].find(h) == std::string::npos || it[i].find(f) == std::string::npos) bad("where", it[i] + " is not" + h + f); }
    { Log::Decoder d; Cap c; d.open(log); long r = d.decompressUnordered(c.f); auto l = lines(c.take()); ++evals; if (r != (long)items.size() || l != it) bad("unordered", "decompressUnordered: " + std::to_string(r) + " reported, " + std::to_string(l.size()) + " printed, " + std::to_string(items.size()) + " logged, or other texts than by iteration"); }
    { Log::Decoder d; Cap c; d.open(log); long r = d.decompressTo(c.f); auto l = lines(c.take()); ++evals; if (r != (long)items.size() || l != it) bad("ordered", "decompressTo: " + std::to_string(r) + " reported, " + std::to_string(l.size()) + " printed, " + std::to_string(items.size()) + " logged, or other texts than by iteration"); }
    uint64_t aggs = 0;
#ifdef PREPROCESSOR_NANOLOG
    std::map<uint32_t, std::vector<const Item *>> by; for (auto &i : items) by[i.id].push_back(&i);
    for (uint32_t id = 0; id < GeneratedFunctions::numLogIds + 1; ++id) for (int print = 0; print < 2; ++print) { if (print && id % 16) continue; Log::Decoder d; Cap c; d.open(log); agg.clear(); aggWant = by[id]; bool ok = d.internalDecompressUnordered(print ? c.f : nullptr, id, &aggFn); auto l = lines(c.take()); ++evals; ++aggs;
        if (!ok) bad("aggregation-return", "aggregation over log id " + std::to_string(id) + " failed"); if (agg.size() != aggWant.size()) bad("aggregation-count", "log id " + std::to_string(id) + ": aggregation function called " + std::to_string(agg.size()) + " times, " + std::to_string(aggWant.size()) + " messages");
        for (size_t i = 0; i < agg.size() && i < aggWant.size(); ++i) { ++argsRead; if (agg[i] != join(*aggWant[i])) bad("aggregation-args", "aggregation function called with " + agg[i] + " for " + join(*aggWant[i])); }
        if (print && l != it) bad("aggregation-text", "aggregation prints other messages than iteration"); }
#endif
    // for the command line tool: what each command must show
    if (FILE *f = fopen("typ.want", "w")) { for (auto &l : it) fprintf(f, "%s\n", l.c_str()); fclose(f); }
    if (FILE *f = fopen("typ.ids", "w")) { std::map<uint32_t, std::vector<std::string>> by; for (auto &i : items) if (!i.v.empty() && i.v[0].kind == 'i') by[i.id].push_back(i.v[0].s); for (auto &b : by) { fprintf(f, "%u", b.first); for (auto &s : b.second) fprintf(f, " %s", s.c_str()); fprintf(f, "\n"); } fclose(f); }
    FILE *o = fopen(argv[1], "w"); fprintf(o, "{\"evals\":%lu,\"states\":%d,\"transitions\":%zu,\"nontrivial\":%lu,\"complete\":true,\"info\":{\"statements\":\"%d\",\"messages\":\"%zu\",\"arguments_read\":\"%lu\",\"aggregations\":\"%lu\"},\"samples\":[\"%s\"],\"violations\":[", evals, COUNT, items.size(), argsRead, COUNT, items.size(), argsRead, aggs, q(join(items[COUNT / 2])).c_str());
    bool first = true; for (auto &v : viol) { fprintf(o, "%s{\"key\":\"%s\",\"text\":\"%s\",\"count\":%d}", first ? "" : ",", q(v.first).c_str(), q(v.second.first).c_str(), v.second.second); first = false; }
    fprintf(o, "]}\n"); fclose(o); _exit(0);
}
