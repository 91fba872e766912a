// C11: encoding into output buffers of every size; buffer swaps wherever the encoder stops; result decoded and compared.
#include "loglib.h"
using namespace ll;
struct Chunk { uint32_t id; std::vector<Msg> m; };
static char *arena; static const size_t ARENA = 1 << 16;
static uint64_t cases = 0, fits = 0, calls = 0, swaps = 0;
static std::string desc;
static const int DICT_UPFRONT = 0, DICT_GROW = 1, DICT_LATE = 2;
// returns error or ""
static std::string runCase(size_t S, const std::vector<Chunk> &chunks, int dmode, size_t cut, bool decodeIt) {
    auto D = dict(); uint32_t dpos = 0; std::string file; std::vector<std::string> expect; std::string err;
    char *buf[2] = {arena + 4096, arena + 4096 + 2 * (S + 512)};
    for (auto *b : buf) memset(b - 256, 0xA5, S + 512);
    auto canary = [&](char *b) { for (int i = 1; i <= 256; ++i) if ((uint8_t)b[-i] != 0xA5) return false; for (size_t i = 0; i < 256; ++i) if ((uint8_t)b[S + i] != 0xA5) return false; return true; };
    int cur = 0; if (S < sizeof(Log::Checkpoint)) return "";
    Log::Encoder enc(buf[0], S); size_t before = enc.getEncodedBytes();
    if (before > S) return "checkpoint exceeds the buffer";
    bool stuck = false; size_t guard = 0; bool freshNoProgress = false; bool pass = false;
    auto swap = [&]() -> std::string {
        char *o = nullptr; size_t len = 0, osz = 0; cur ^= 1; memset(buf[cur] - 256, 0xA5, S + 512);
        enc.swapBuffer(buf[cur], S, &o, &len, &osz); ++swaps;
        if (o != buf[cur ^ 1] || osz != S || len > S) return "swapBuffer returns a wrong buffer, size or length";
        file.append(o, len); if (enc.getEncodedBytes() != 0) return "swapped-in buffer is not empty"; return "";
    };
    auto feedDict = [&](uint32_t upto) -> std::string {
        std::vector<StaticLogInfo> part(D.begin(), D.begin() + std::min<size_t>(upto, D.size()));
        while (dpos < part.size()) {
            size_t b0 = enc.getEncodedBytes(); uint32_t p0 = dpos; uint32_t r = enc.encodeNewDictionaryEntries(dpos, part); ++calls;
            if (!canary(buf[cur])) return "dictionary encoding writes outside the output buffer";
            if (enc.getEncodedBytes() != b0 + r) return seq::fmt("dictionary encoding reports %u bytes, wrote %zu", r, enc.getEncodedBytes() - b0);
            if (dpos < p0 || dpos > part.size()) return "dictionary position moved wrongly";
            if (enc.getEncodedBytes() > S) return "more bytes than the buffer holds";
            if (dpos == part.size()) break;
            if (dpos == p0 && b0 == 0) { auto &c = D[dpos]; size_t need = sizeof(Log::DictionaryFragment) + sizeof(Log::CompressedLogInfo) + strlen(c.filename) + strlen(c.formatString) + 2;
                if (need < S) return seq::fmt("a call-site description of %zu bytes does not fit an empty buffer of %zu", need, S); stuck = true; return ""; }
            std::string e = swap(); if (!e.empty()) return e; if (++guard > 1000) return "no progress writing call-site descriptions";
        }
        return "";
    };
    if (dmode == DICT_UPFRONT) { err = feedDict(D.size()); if (!err.empty() || stuck) return err; }
    for (size_t ci = 0; ci < chunks.size() && !stuck; ++ci) {
        std::string in; std::vector<size_t> ends; std::vector<std::string> tx; uint32_t need = 0;
        for (auto &m : chunks[ci].m) { in += raw(m); ends.push_back(in.size()); tx.push_back(text(m)); need = std::max(need, (uint32_t)m.f + 1); }
        std::string inBuf = in + std::string(64, 0); std::vector<char> al(inBuf.begin(), inBuf.end());
        size_t pos = 0, done = 0; pass = ci % 2; bool fresh = enc.getEncodedBytes() == 0; 
        while (pos < in.size() && !stuck) {
            std::vector<StaticLogInfo> known(D.begin(), D.begin() + dpos);
            size_t want = in.size() - pos; if (cut && want > cut) want = cut;   // like the runtime: at most a threshold per call
            if (cut && cut < (ends[done] - pos)) want = ends[done] - pos;        // a threshold below one message is not a runtime situation
            uint64_t ev = 0; size_t b0 = enc.getEncodedBytes();
            long r = enc.encodeLogMsgs(al.data() + pos, want, chunks[ci].id, pass, known, &ev); ++calls;
            if (!canary(buf[cur])) return "message encoding writes outside the output buffer";
            if (enc.getEncodedBytes() > S) return "more bytes than the buffer holds";
            if (memcmp(al.data(), inBuf.data(), inBuf.size())) return "input was modified";
            size_t k = done; while (k < ends.size() && ends[k] <= pos + (size_t)std::max(r, 0l)) ++k;
            size_t endPos = k ? ends[k - 1] : 0; if (r < 0 || endPos != pos + (size_t)r) return seq::fmt("reports %ld consumed input bytes, which is not a whole number of messages", r);
            if ((size_t)r > want) return "reports more consumed input than it was given";
            if (ev != k - done) return seq::fmt("reports %lu messages consumed, the byte count says %zu", ev, k - done);
            for (size_t i = done; i < k; ++i) if (chunks[ci].m[i].f >= (int)dpos) return "encoded a message whose call site is not described yet";
            // maximality: everything that was described and fits must have been taken
            size_t left = S - enc.getEncodedBytes();
            if (k < ends.size() && ends[k] <= pos + want && chunks[ci].m[k].f < (int)dpos) { size_t es = ends[k] - (k ? ends[k - 1] : 0); if (left >= 2 * es + 64) return seq::fmt("stopped before a message of %zu bytes although %zu bytes are free", es, left); }
            for (size_t i = done; i < k; ++i) expect.push_back(tx[i]);
            pos += r; done = k; if (r > 0) freshNoProgress = false;
            if (pos == in.size()) break;
            if (chunks[ci].m[done].f >= (int)dpos) { // metadata missing: describe (all that are needed next, or everything)
                err = feedDict(dmode == DICT_LATE ? D.size() : chunks[ci].m[done].f + 1); if (!err.empty() || stuck) break; continue; }
            if (r == 0 && b0 == 0) { size_t es = ends[done] - pos; if (S >= 2 * es + sizeof(Log::UncompressedEntry) + Log::BufferExtent::maxSizeOfHeader()) return seq::fmt("a message of %zu bytes does not fit an empty buffer of %zu", es, S); stuck = true; break; }
            if (r > 0 && cut && enc.getEncodedBytes() + 2 * (ends[done] - pos) + 64 <= S) continue;     // next threshold chunk into the same buffer
            err = swap(); if (!err.empty()) return err; if (++guard > 1000) return "no progress";
        }
    }
    if (!err.empty()) return err;
    err = swap(); if (!err.empty()) return err;
    if (!stuck) ++fits;
    if (!decodeIt) return "";
    writeFile("enc.log", file);
    Decoded d = decode("enc.log", 2);
    if (!d.died.empty()) return "decoder: " + d.died; if (!d.opened) return "decoder cannot open the output";
    if (d.junk) return "decoder prints garbage: " + d.junkText;
    for (size_t i = 0; i < std::max(d.msgs.size(), expect.size()); ++i) {
        if (i >= d.msgs.size()) return seq::fmt("only %zu of %zu consumed messages decode", d.msgs.size(), expect.size());
        if (i >= expect.size()) return "decodes a message that was not consumed: " + d.msgs[i].text;
        if (d.msgs[i].text != expect[i]) return "message " + std::to_string(i) + " decodes as '" + d.msgs[i].text + "', was '" + expect[i] + "'";
    }
    size_t i = 0; if (!stuck) for (auto &c : chunks) for (auto &m : c.m) { if (d.msgs[i].tid != (int)c.id) return seq::fmt("message of buffer %u decodes with buffer id %d", c.id, d.msgs[i].tid); ++i; }
    return "";
}
int main(int argc, char **argv) {
    seq::init(argc, argv); initEnv(); auto &G = seq::g();
    arena = (char *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    bool T = seq::thorough();
    auto M = [](int f, uint64_t ts, long a, int n1 = 0, int n2 = 0, double d = 0) { Msg m; m.f = f; m.ts = ts; m.a = a; m.s1 = std::string(n1, 'x'); m.s2 = std::string(n2, 'y'); m.d = d; return m; };
    std::vector<Msg> reps = {M(F_NONE, 1000000, 0), M(F_INT, 1000300, -1), M(F_INT, 5, 2000000000), M(F_STR, 1 << 30, 0, 0), M(F_STR, 1ull << 60, 0, 17), M(F_MIX, 1000001, -70000, 3, 5), M(F_PD, 1000002, 0x7fff12345678, 0, 0, 0.1), M(F_LD, 77, 0, 0, 0, -2.75), M(F_CH, 1000010, 3)};
    std::vector<std::vector<Msg>> seqs; size_t R = reps.size();
    for (size_t a = 0; a < R; ++a) { seqs.push_back({reps[a]}); for (size_t b = 0; b < R; ++b) { seqs.push_back({reps[a], reps[b]}); if (T || (a + b) % 2 == 0) for (size_t c = 0; c < R; c += (T ? 1 : 2)) seqs.push_back({reps[a], reps[b], reps[c]}); } }
    { std::vector<Msg> l; for (int i = 0; i < 12; ++i) l.push_back(reps[(i * 5) % R]); seqs.push_back(l); l.clear(); for (int i = 0; i < 9; ++i) l.push_back(reps[8]); seqs.push_back(l); l.clear(); for (int n = 0; n < 30; n += 3) l.push_back(M(F_STR, 1000 * n, 0, n)); seqs.push_back(l); }
    std::vector<size_t> sizes; for (size_t s = sizeof(Log::Checkpoint); s <= 160; ++s) sizes.push_back(s); for (size_t s = 161; s <= 460; s += T ? 1 : 5) sizes.push_back(s);
    uint64_t idx = 0;
    for (size_t S : sizes) for (size_t q = 0; q < seqs.size(); ++q) {
        if (!T && seqs[q].size() == 3 && (S % 4) != (q % 4)) continue;
        for (int dm = 0; dm < 3; ++dm) for (int split = 0; split < (seqs[q].size() == 1 ? 4 : 3); ++split) for (size_t cut : {128ul, 60ul}) {
            if (!T && seqs[q].size() == 3 && ((dm + split + S) % 3)) continue;
            if (cut == 60 && seqs[q].size() < 2) continue;
            if (!seq::mine(idx++)) continue;
            static const uint32_t ids[] = {1, 15, 16, 255, 256, 65535, 65536, 1u << 24, 0xfffffffeu};
            std::vector<Chunk> ch;
            if (split == 0) ch.push_back({ids[(S + q) % 9], seqs[q]});
            else if (split == 3) { ch.push_back({3, {}}); ch.push_back({ids[q % 9], seqs[q]}); }
            else { size_t k = split == 1 ? 1 : seqs[q].size() - 1; ch.push_back({ids[q % 9], {seqs[q].begin(), seqs[q].begin() + k}}); if (k < seqs[q].size()) ch.push_back({ids[(q + 4) % 9], {seqs[q].begin() + k, seqs[q].end()}}); }
            ++cases; std::string e; std::string died = "";
            e = runCase(S, ch, dm, cut, true);
            if (!e.empty()) { std::string d; for (auto &c : ch) { d += seq::fmt(" [buffer %u:", c.id); for (auto &m : c.m) d += seq::fmt(" f%d(%zu bytes)", m.f, raw(m).size()); d += "]"; }
                seq::violation("output-buffer", seq::fmt("output buffer of %zu bytes, dictionary mode %d, threshold %zu,%s: ", S, dm, cut, d.c_str()) + e); }
            if (cases % 20011 == 1) { std::string d; for (auto &c : ch) for (auto &m : c.m) d += seq::fmt(" f%d", m.f); seq::sample(seq::fmt("output size %zu, messages%s, dictionary mode %d", S, d.c_str(), dm)); }
        }
    }
    G.evals = G.nontrivial = cases; G.states = swaps; G.transitions = calls; G.info["cases_that_fit"] = std::to_string(fits);
    return seq::finish();
}
