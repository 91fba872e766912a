// C14: every sequence of logging sessions (programs with different log statements, C++17 and preprocessor builds, several ways to open and leave the log)
// on one log file: existing bytes stay, and the whole file decodes to all sessions in order, each with its own call sites and clock.
#include "loglib.h"
#include <sys/wait.h>
#include <sys/stat.h>
using namespace ll;
struct Line { long t; std::string text; };
struct Sess { std::string name; std::vector<Line> lines; };
static std::string dirp; static uint64_t sessions = 0, files = 0, total = 0;
static std::string slurp(const std::string &p) { std::string r; FILE *f = fopen(p.c_str(), "rb"); if (!f) return r; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
static bool runSess(const std::string &prog, const std::string &log, int s, int kind, Sess &out) {
    int p[2]; if (pipe(p)) return false; fflush(nullptr); pid_t c = fork();
    if (c == 0) { dup2(p[1], 1); close(p[0]); close(p[1]); int n = open("/dev/null", O_RDWR); dup2(n, 2); alarm(60); execl((dirp + "/" + prog).c_str(), prog.c_str(), log.c_str(), std::to_string(s).c_str(), std::to_string(kind).c_str(), nullptr); _exit(9); }
    close(p[1]); std::string o; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) o.append(b, n); close(p[0]); int st; waitpid(c, &st, 0); ++sessions;
    out.lines.clear(); size_t a = 0; while (a < o.size()) { size_t e = o.find('\n', a); std::string l = o.substr(a, e - a); a = e + 1; if (l == "-") continue; size_t sp = l.find(' '); out.lines.push_back({atol(l.c_str()), l.substr(sp + 1)}); }
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
static const char *mname[] = {"unordered", "ordered", "iterator"};
static void check(const std::string &log, const std::vector<Sess> &ss) {
    std::string in; size_t n = 0; for (auto &s : ss) in += s.name + "; ", n += s.lines.size(); ++files; total += n;
    for (int mode = 0; mode < 3; ++mode) {
        Decoded d = decode(log, mode); ++seq::g().evals; std::string err;
        if (!d.died.empty()) err = d.died; else if (!d.opened) err = "cannot be opened"; else if (d.junk) err = "garbage in the output: " + d.junkText;
        else if (d.msgs.size() != n) err = seq::fmt("%zu messages decoded, %zu logged", d.msgs.size(), n);
        size_t k = 0; int lastEx = -1;
        for (size_t s = 0; s < ss.size() && err.empty(); ++s) {
            std::vector<std::string> want, got; for (size_t i = 0; i < ss[s].lines.size(); ++i) { want.push_back(ss[s].lines[i].text); got.push_back(k + i < d.msgs.size() ? d.msgs[k + i].text : ""); }
            if (!want.empty() && s && lastEx >= d.execOf[k]) err = "no new execution announced between sessions"; 
            if (mode != 1) { std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); }
            for (size_t i = 0; i < want.size() && err.empty(); ++i) if (want[i] != got[i]) err = seq::fmt("session %zu (%s): message decoded as '%s', expected '%s'", s + 1, ss[s].name.c_str(), got[i].c_str(), want[i].c_str());
            for (size_t i = 0; i < ss[s].lines.size() && err.empty(); ++i) { struct tm tm{}; const std::string &t = d.msgs[k + i].time; if (!strptime(t.c_str(), "%Y-%m-%d %H:%M:%S", &tm)) err = "unreadable time " + t; else { long w = timegm(&tm), lo = ss[s].lines.front().t, hi = ss[s].lines.back().t; if (w < lo - 3 || w > hi + 3) err = "session " + ss[s].name + ": time " + t + seq::fmt(" is not the time of the call (%ld..%ld)", lo, hi); } }
            k += ss[s].lines.size(); if (k) lastEx = d.execOf[k - 1];
        }
        if (!err.empty()) seq::violation(seq::fmt("append-%s-%s", mname[mode], ss.back().name.c_str()), "sessions " + in + mname[mode] + " decoding: " + err);
    }
}
int main(int argc, char **argv) {
    seq::init(argc, argv); initEnv(); PerfUtils::Cycles::mockTscValue = 0; auto &G = seq::g(); dirp = G.args["dir"]; bool t = seq::thorough();
    const char *progs[] = {"sessA17", "sessApp", "sessB17", "sessBpp"}; uint64_t idx = 0;
    std::vector<Sess> cur; std::vector<int> kinds;
    std::function<void(int, bool)> rec = [&](int depth, bool on) {
        for (int p = 0; p < 4; ++p) for (int k = 0; k < 7; ++k) {
            if (!t && depth == 2) { bool ok = k < 3 || k == 6; for (int x : kinds) ok &= x == 0 || x == 4 || x == 1; if (!ok) continue; }
            if (t && depth == 3) { bool ok = k < 2; for (int x : kinds) ok &= x < 2; if (!ok) continue; }
            if (depth == 1 && !seq::mine(idx++)) continue; if (depth == 0) { /* every shard needs all first sessions */ }
            std::string from = seq::fmt("f%d.log", depth), to = seq::fmt("f%d.log", depth + 1), old = depth ? slurp(from) : std::string();
            unlink(to.c_str()); unlink((to + ".other").c_str()); if (depth) writeFile(to, old);
            Sess s; s.name = std::string(progs[p]) + seq::fmt("/kind%d", k); bool ok = runSess(progs[p], to, depth * 10 + 1, k, s);
            cur.push_back(s); kinds.push_back(k); std::string in; for (auto &x : cur) in += x.name + "; ";
            if (!ok) seq::violation("session-" + s.name, "sessions " + in + "the last one did not end normally");
            std::string now = slurp(to); ++G.transitions;
            if (now.substr(0, old.size()) != old) seq::violation("overwrites-" + s.name, "sessions " + in + "the last session changed existing bytes of the log");
            if (k == 3 && ok && depth < 2) { Decoded d = decode(to + ".other", 0); ++G.evals; size_t half = s.lines.size() / 2; std::string err; if (d.msgs.size() != half) err = seq::fmt("%zu messages in the other file, %zu logged there", d.msgs.size(), half); if (!d.died.empty()) err = d.died; if (!err.empty()) seq::violation("other-" + s.name, "sessions " + in + err); }
            check(to, cur); if (files % 97 == 5) seq::sample("sessions " + in + seq::fmt("%zu bytes", now.size()));
            if (depth + 1 < (t ? 4 : 3)) rec(depth + 1, true);
            cur.pop_back(); kinds.pop_back();
        }
    };
    rec(0, true);
    G.states = files; G.nontrivial = files; G.info["sessions_run"] = std::to_string(sessions); G.info["files_decoded"] = std::to_string(files); G.info["messages"] = std::to_string(total);
    return seq::finish();
}
