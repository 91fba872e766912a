#include "oracle.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <sys/syscall.h>
#include <unistd.h>
extern "C" int dec_decode(const char *path, int mode, char **out, size_t *n, long *count);
namespace orc {
bool parse(const std::string &raw, std::vector<Msg> &out, int *newExec, std::string *err) {
    size_t i = 0;
    while (i < raw.size()) {
        size_t e = raw.find("\r\n", i);
        std::string l = raw.substr(i, e == std::string::npos ? std::string::npos : e - i);
        i = e == std::string::npos ? raw.size() : e + 2;
        if (l.empty()) continue;
        if (l[0] == '#') { if (l.find("New execution") != std::string::npos && newExec) ++*newExec; continue; }
        // 2018-01-01 00:00:00.123456789 file:line LEVEL[id]: text
        Msg m; char file[256] = "", lvl[64] = ""; int line = 0; unsigned id = 0; int pos = 0; char d[16], t[40];
        if (sscanf(l.c_str(), "%15s %39s %255[^:]:%d %63[A-Z][%u]: %n", d, t, file, &line, lvl, &id, &pos) < 6) {
            if (err) *err = "unparsable line: " + l; return false;
        }
        m.time = std::string(d) + " " + t; m.file = file; m.line = line; m.level = lvl; m.id = id;
        size_t k = l.find("]: "); m.text = l.substr(k + 3);
        out.push_back(m);
    }
    return true;
}
Log decodeFile(const std::string &path, int mode) {
    Log r; r.newExec = 0; char *o = nullptr; size_t n = 0; r.count = 0;
    std::string content = mc::slurp(path); int rc = 0;
    if (!mc::cacheGet(content, mode, &r.raw, &r.count, &rc)) {
        rc = dec_decode(path.c_str(), mode, &o, &n, &r.count);
        if (o) r.raw.assign(o, n);
        mc::cachePut(content, mode, r.raw, r.count, rc);
    }
    r.opened = rc == 0;
    std::string err;
    if (!parse(r.raw, r.msgs, &r.newExec, &err)) mc::fail("decoded log is corrupt (%s): %s", path.c_str(), err.c_str());
    return r;
}
Log decodeBytes(const std::string &b, int mode) {
    Log r; int rc; if (mc::cacheGet(b, mode, &r.raw, &r.count, &rc)) { r.newExec = 0; r.opened = rc == 0; std::string err; if (!parse(r.raw, r.msgs, &r.newExec, &err)) mc::fail("decoded durable log is corrupt: %s", err.c_str()); return r; }
    char name[] = "./.decodeXXXXXX"; int fd = mkostemp(name, O_CLOEXEC);
    size_t off = 0; while (off < b.size()) { ssize_t n = syscall(SYS_write, fd, b.data() + off, b.size() - off); if (n <= 0) break; off += n; }
    syscall(SYS_close, fd);
    Log l = decodeFile(name, mode); unlink(name); return l;
}
static std::string dump(const std::vector<Msg> &m) { std::string s; for (auto &x : m) { s += "<" + x.text + ">"; if (s.size() > 800) { s += "..."; break; } } return s; }
static int tagOf(const std::string &t) { int k = -1; sscanf(t.c_str(), "T%d", &k); return k; }
static void match(const std::vector<Msg> &msgs, const std::vector<const mc::Expect *> &want, const std::string &what) {
    std::map<int, std::vector<const mc::Expect *>> by; std::map<int, std::vector<const Msg *>> got;
    for (auto *e : want) by[e->tag].push_back(e);
    for (auto &m : msgs) got[tagOf(m.text)].push_back(&m);
    for (auto &g : got) if (!by.count(g.first)) mc::fail("%s: decoded a message that was never logged: '%s'", what.c_str(), g.second[0]->text.c_str());
    for (auto &b : by) {
        auto &g = got[b.first];
        for (size_t i = 0; i < std::max(g.size(), b.second.size()); i++) {
            if (i >= g.size()) mc::fail("%s: message lost: '%s' (thread %d, #%zu); decoded: %s", what.c_str(), b.second[i]->text.c_str(), b.first, i, dump(msgs).c_str());
            if (i >= b.second.size()) mc::fail("%s: extra or duplicated message '%s'; decoded: %s", what.c_str(), g[i]->text.c_str(), dump(msgs).c_str());
            const mc::Expect &e = *b.second[i];
            if (g[i]->text != e.text) mc::fail("%s: thread %d message #%zu is '%s', expected '%s'; decoded: %s", what.c_str(), b.first, i, g[i]->text.c_str(), e.text.c_str(), dump(msgs).c_str());
            if (e.line && g[i]->line != e.line) mc::fail("%s: message '%s' attributed to line %d, logged at line %d", what.c_str(), e.text.c_str(), g[i]->line, e.line);
            if (!e.level.empty() && g[i]->level != e.level) mc::fail("%s: message '%s' has severity %s, logged as %s", what.c_str(), e.text.c_str(), g[i]->level.c_str(), e.level.c_str());
        }
    }
}
void checkExact(const std::vector<Msg> &msgs, const std::string &what, bool (*pick)(const mc::Expect &)) {
    std::vector<const mc::Expect *> w;
    for (auto &e : mc::expects()) if (!pick || pick(e)) w.push_back(&e);
    match(msgs, w, what);
}
void checkIds(const std::vector<Msg> &msgs) {
    std::map<int, unsigned> t2i; std::map<unsigned, int> i2t;
    for (auto &m : msgs) {
        int t = tagOf(m.text);
        if (t2i.count(t) && t2i[t] != m.id) mc::fail("messages of one thread carry different thread identifiers (%u and %u)", t2i[t], m.id);
        if (i2t.count(m.id) && i2t[m.id] != t) mc::fail("messages of two threads (T%d and T%d) carry the same thread identifier %u", i2t[m.id], t, m.id);
        t2i[t] = m.id; i2t[m.id] = t;
    }
}
void checkSyncs() {
    int k = 0;
    for (auto &s : mc::syncs()) {
        ++k;
        if (!s.stampEnd) continue;
        std::vector<Msg> all;
        for (size_t i = 0; i < s.durable.size(); i++) {
            if (s.durable[i].empty()) continue;
            Log l = decodeBytes(s.durable[i], 0);
            all.insert(all.end(), l.msgs.begin(), l.msgs.end());
        }
        for (int e : s.completedBefore) {
            auto &x = mc::expects()[e];
            bool f = false; for (auto &m : all) if (m.text == x.text && tagOf(m.text) == x.tag) { f = true; break; }
            if (!f) mc::fail("sync() #%d returned but message '%s', logged before it, is not durable; durable: %s", k, x.text.c_str(), dump(all).c_str());
        }
    }
}
void standard() {
    Log u = decodeFile("./compressedLog", 0);
    if (!u.opened && !mc::expects().empty()) mc::fail("log file cannot be opened by the decoder");
    checkExact(u.msgs, "unordered");
    if (u.count != (long)u.msgs.size()) mc::fail("decoder reports %ld messages, delivered %zu", u.count, u.msgs.size());
    checkSyncs();
    checkIds(u.msgs);
    Log o = decodeFile("./compressedLog", 1);
    checkExact(o.msgs, "ordered");
    for (auto &m : u.msgs) mc::note("%s;", m.text.c_str());
}
void checkChrono(const std::vector<Msg> &msgs) {
    std::vector<const mc::Expect *> e;
    for (auto &m : msgs) { const mc::Expect *f = nullptr; for (auto &x : mc::expects()) if (x.text == m.text) f = &x; e.push_back(f); }
    for (size_t i = 0; i < e.size(); i++) for (size_t j = i + 1; j < e.size(); j++)
        if (e[i] && e[j] && e[j]->stampEnd && e[j]->stampEnd < e[i]->stampBegin)
            mc::fail("ordered output shows '%s' before '%s', although the call of the latter had returned before the former was logged; output: %s", e[i]->text.c_str(), e[j]->text.c_str(), dump(msgs).c_str());
}
void ordered() {
    Log o = decodeFile("./compressedLog", 1);
    if (!o.opened) mc::fail("log file cannot be opened by the decoder");
    checkExact(o.msgs, "ordered"); checkChrono(o.msgs);
    if (o.count != (long)o.msgs.size()) mc::fail("decoder reports %ld messages, delivered %zu", o.count, o.msgs.size());
    for (auto &m : o.msgs) mc::note("%s;", m.text.c_str());
}
}
