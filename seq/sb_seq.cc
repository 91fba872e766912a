// C20: explicit-state search over all reachable states of the real StagingBuffer under reserve/commit/peek/consume.
#include "seq.h"
#include "RuntimeLogger.h"
#include <deque>
#include <unordered_set>
#include <unordered_map>
using namespace NanoLogInternal;
typedef RuntimeLogger::StagingBuffer SB;
static const int S = NanoLogConfig::STAGING_BUFFER_SIZE;
struct Model { std::vector<std::pair<int, uint8_t>> q; int peeked = 0; int peekOff = 0; uint8_t next = 1; };   // (offset,value) of every committed, unconsumed byte; bytes the consumer has seen
struct Node { std::string img; Model m; int parent; int op; int depth; };
static SB *sb; static char *st; static int maxN;
static void load(const Node &n) { memcpy((void *)sb, n.img.data(), sizeof(SB)); }
static std::string opName(int op) { if (op < 1000) return seq::fmt("push(%d)", op); if (op == 1000) return "peek"; return seq::fmt("consume(%d)", op - 2000); }
static std::vector<Node> nodes;
static std::string trace(int i, int op) { std::string r = opName(op); while (i > 0) { r = opName(nodes[i].op) + " " + r; i = nodes[i].parent; } return r; }
static std::string key(const Model &m) {
    std::string k; auto add = [&](long v) { k.append((char *)&v, sizeof v); };
    add(sb->producerPos - st); add(sb->consumerPos - st); add(sb->endOfRecordedSpace - st); add((long)sb->minFreeSpace); add(m.peeked); add(m.peekOff); add(m.q.size());
    int last = -5; for (auto &b : m.q) { if (b.first != last + 1) { add(b.first); } last = b.first; }
    return k;
}
static char *tryReserve(size_t n) { return (n < sb->minFreeSpace) ? sb->reserveProducerSpace(n) : sb->reserveSpaceInternal(n, false); }
// returns error text or "", ok=false if the operation is not enabled
static std::string push(Model &m, int n, bool &ok) {
    char *p = tryReserve(n); ok = p != nullptr; if (!p) return "";
    if (p < st || p + n > st + S) return seq::fmt("reservation of %d at offset %ld outside the queue", n, (long)(p - st));
    for (auto &b : m.q) if (b.first >= p - st && b.first < p - st + n) return seq::fmt("reservation of %d at offset %ld overlaps unconsumed byte at offset %d", n, (long)(p - st), b.first);
    for (int i = 0; i < n; ++i) { p[i] = (char)m.next; m.q.push_back({(int)(p - st) + i, m.next}); m.next = m.next % 250 + 1; }
    sb->finishReservation(n); return "";
}
static std::string peek(Model &m) {
    uint64_t av = 0; char *p = sb->peek(&av);
    if (av > m.q.size()) return seq::fmt("peek reports %lu bytes, only %zu were committed and not consumed", av, m.q.size());
    if (av == 0 && !m.q.empty()) return seq::fmt("peek reports an empty queue with %zu bytes outstanding", m.q.size());
    for (uint64_t i = 0; i < av; ++i) {
        if (p + i < st || p + i >= st + S) return "peek returns bytes outside the queue";
        if ((uint8_t)p[i] != m.q[i].second) return seq::fmt("byte %lu of %lu delivered is %u, committed was %u", i, av, (uint8_t)p[i], m.q[i].second);
        if (p - st + (long)i != m.q[i].first) return seq::fmt("delivered byte %lu is at offset %ld, was committed at %d", i, (long)(p - st + i), m.q[i].first);
    }
    m.peeked = av; m.peekOff = p - st; return "";
}
static std::string drainCheck(Node &n0) {
    for (int n = 1; n < maxN; ++n) {
        load(n0); Model m = n0.m; std::string e; bool done = false;
        for (int it = 0; it < 6 && !done; ++it) {
            bool ok; e = push(m, n, ok); if (!e.empty()) return e; if (ok) { done = true; break; }
            e = peek(m); if (!e.empty()) return e; sb->consume(m.peeked); m.q.erase(m.q.begin(), m.q.begin() + m.peeked); m.peeked = 0;
        }
        ++seq::g().evals;
        if (!done) return seq::fmt("a reservation of %d bytes (queue size %d) never succeeds although the consumer drains the queue", n, S);
        for (int it = 0; it < 4; ++it) { e = peek(m); if (!e.empty()) return e; sb->consume(m.peeked); m.q.erase(m.q.begin(), m.q.begin() + m.peeked); m.peeked = 0; }
        if (!m.q.empty()) return seq::fmt("%zu committed bytes are never delivered", m.q.size());
    }
    return "";
}
int main(int argc, char **argv) {
    seq::init(argc, argv); auto &G = seq::g(); maxN = S;
    if (G.args.count("maxn")) maxN = atoi(G.args["maxn"].c_str());
    size_t cap = G.args.count("cap") ? atol(G.args["cap"].c_str()) : 2000000;
    void *mem = mmap(nullptr, (sizeof(SB) + 8191) & ~4095ul, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sb = new (mem) SB(77); st = sb->storage;
    std::unordered_set<std::string> seen;
    auto img = [&] { return std::string((char *)sb, sizeof(SB)); };
    nodes.push_back({img(), Model(), -1, 0, 0}); seen.insert(key(nodes[0].m));
    std::string err; int cur = 0, curOp = 0; int maxDepth = 0;
    std::string died = seq::guarded([&] {
        for (size_t i = 0; i < nodes.size() && err.empty(); ++i) {
            cur = i; curOp = 1000; maxDepth = nodes[i].depth;
            { Node n0 = nodes[i]; err = drainCheck(n0); if (!err.empty()) { err = "[then drain] " + err; break; } }
            auto expand = [&](int op) {
                curOp = op; load(nodes[i]); Model m = nodes[i].m; bool ok = true;
                if (op < 1000) err = push(m, op, ok);
                else if (op == 1000) err = peek(m);
                else { int k = op - 2000; sb->consume(k); m.q.erase(m.q.begin(), m.q.begin() + k); m.peeked -= k; m.peekOff += k; }
                if (!err.empty()) return;
                if (m.peeked == 0) m.peekOff = 0;
                ++G.transitions;
                // bytes already shown to the consumer must stay intact until consumed
                for (int b = 0; b < m.peeked; ++b) if ((uint8_t)st[m.peekOff + b] != m.q[b].second) { err = "bytes handed to the consumer were overwritten before it consumed them"; return; }
                if (seen.insert(key(m)).second) { if (nodes.size() < cap) nodes.push_back({img(), m, (int)i, op, nodes[i].depth + 1}); else G.complete = false; }
            };
            for (int n = 1; n < maxN && err.empty(); ++n) expand(n);
            if (err.empty()) expand(1000);
            for (int k = 1; err.empty() && k <= nodes[i].m.peeked; ++k) expand(2000 + k);
        }
    }, 800);
    if (!died.empty()) err = died;
    // the public (blocking) entry point must block exactly where the non-blocking one fails
    if (err.empty() && S <= 12) {
        size_t blocked = 0;
        for (size_t i = 0; i < nodes.size() && err.empty(); ++i) for (int n = 1; n < maxN && err.empty(); ++n) {
            load(nodes[i]); char *e = sb->reserveSpaceInternal(n, false);
            load(nodes[i]); char *volatile p = nullptr; ++G.evals;
            std::string d = seq::guarded([&] { p = sb->reserveProducerSpace(n); }, 0, e ? 20000000 : 400);
            if (!e) ++blocked;
            if (e && p != e) err = d.empty() ? "reservation returns a different place than the non-blocking one" : d;
            if (!e && p) err = "reservation succeeds although there is no room: " + seq::fmt("n=%d offset=%ld", n, (long)(p - st));
            if (!err.empty()) { cur = i; curOp = n; }
        }
        G.info["blocking_calls_observed"] = std::to_string(blocked);
    }
    if (!err.empty()) seq::violation(seq::fmt("queue-%d", S), err + " after: " + trace(cur, curOp));
    G.states = nodes.size(); G.nontrivial = G.transitions; G.evals += G.transitions;
    G.info["queue_size"] = std::to_string(S); G.info["max_depth"] = std::to_string(maxDepth);
    if (nodes.size() > 10) seq::sample(seq::fmt("queue of %d bytes, state %zu reached by: %s", S, nodes.size() / 2, trace(nodes[nodes.size() / 2].parent, nodes[nodes.size() / 2].op).c_str()));
    return seq::finish();
}
