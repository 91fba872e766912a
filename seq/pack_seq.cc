// C10: lossless packing. Exhaustive over all 8/16/32 bit values and float bit patterns, all boundary neighbourhoods of wider types,
// and all sequences (up to a depth) of representative values read back through the Nibbler.
#include "seq.h"
#include "Packer.h"
#include <cmath>
#include <cfloat>
#include <climits>
using namespace BufferUtils;
static char buf[64]; static uint64_t n_ = 0;
template<typename T> static bool same(T a, T b) {
    if constexpr (std::is_same<T, long double>::value) return memcmp(&a, &b, 10) == 0;
    else if constexpr (std::is_floating_point<T>::value) return memcmp(&a, &b, sizeof(T)) == 0;
    else return a == b;
}
template<typename T> static std::string show(T v) { std::string r; const unsigned char *p = (const unsigned char *)&v; for (size_t i = 0; i < sizeof(T); ++i) r = seq::fmt("%02x", p[i]) + r; return "0x" + r; }
// R: type used to read the value back (what the decoder uses for the printf conversion of T)
template<typename R, typename T> static inline void one(T v, const char *tn, int maxBytes) {
    char *o = buf + 8; int nib = pack(&o, v); ++n_;
    int used = int(o - (buf + 8));
    uint8_t stored = 0xf & nib;       // the format stores only four bits
    const char *in = buf + 8; R r = unpack<R>(&in, stored);
    int got = int(in - (buf + 8));
    TwoNibbles tn2; tn2.first = stored; tn2.second = 0;
    uint32_t sz = getSizeOfPackedValues(&tn2, 1);
    if (!same<R>(r, (R)v)) seq::violation(seq::fmt("value-%s", tn), seq::fmt("%s value %s decodes to %s", tn, show(v).c_str(), show(r).c_str()));
    if (got != used) seq::violation(seq::fmt("consumed-%s", tn), seq::fmt("%s value %s: %d bytes written, %d consumed", tn, show(v).c_str(), used, got));
    if ((int)sz != used) seq::violation(seq::fmt("size-%s", tn), seq::fmt("%s value %s: %d bytes written, size function says %u", tn, show(v).c_str(), used, sz));
    if (used > maxBytes || used < 1) seq::violation(seq::fmt("max-%s", tn), seq::fmt("%s value %s: %d bytes written, maximum is %d", tn, show(v).c_str(), used, maxBytes));
}
template<typename T> static void bounds64(const char *tn) {
    long W = seq::thorough() ? 70000 : 3000;
    for (int k = 0; k <= 64; ++k) for (int sgn = 0; sgn < 2; ++sgn) {
        unsigned __int128 b = (unsigned __int128)1 << k; uint64_t c = (uint64_t)b; if (sgn) c = 0 - c;
        for (long d = -W; d <= W; ++d) one<T, T>((T)(c + (uint64_t)d), tn, 8);
    }
    // all values with at most three bytes different from 00/ff
    for (int base = 0; base < 2; ++base) for (int i = 0; i < 8; ++i) for (int j = i; j < 8; ++j) for (int x = 0; x < 256; ++x) for (int y = 0; y < 256; y += (seq::thorough() ? 1 : 15)) {
        uint64_t v = base ? ~0ull : 0; uint8_t *p = (uint8_t *)&v; p[i] = x; p[j] = y; one<T, T>((T)v, tn, 8);
    }
}
// ---- sequences
struct V { int t; uint64_t u; double d; long double ld; float f; };
enum { I32, U32, I64, U64, LL, ULL, PTR, DBL, LDBL, FLT, NT };
static int packV(char **o, const V &v) {
    switch (v.t) { case I32: return pack(o, (int32_t)v.u); case U32: return pack<uint32_t>(o, (uint32_t)v.u); case I64: return pack(o, (int64_t)v.u); case U64: return pack<uint64_t>(o, v.u);
        case LL: return pack(o, (long long)v.u); case ULL: return pack<unsigned long long>(o, v.u); case PTR: return pack(o, (const char *)v.u); case DBL: return pack(o, v.d); case LDBL: return pack(o, v.ld); default: return pack(o, v.f); }
}
static bool getV(Nibbler &nb, const V &v, std::string &got) {
    switch (v.t) {
        case I32: { auto x = nb.getNext<int32_t>(); got = show(x); return x == (int32_t)v.u; }
        case U32: { auto x = nb.getNext<uint32_t>(); got = show(x); return x == (uint32_t)v.u; }
        case I64: { auto x = nb.getNext<int64_t>(); got = show(x); return x == (int64_t)v.u; }
        case U64: { auto x = nb.getNext<uint64_t>(); got = show(x); return x == v.u; }
        case LL: { auto x = nb.getNext<long long>(); got = show(x); return x == (long long)v.u; }
        case ULL: { auto x = nb.getNext<unsigned long long>(); got = show(x); return x == v.u; }
        case PTR: { auto x = nb.getNext<const void *>(); got = show(x); return x == (const void *)v.u; }
        case DBL: { auto x = nb.getNext<double>(); got = show(x); return same(x, v.d); }
        case LDBL: { auto x = nb.getNext<long double>(); got = show(x); return same(x, v.ld); }
        default: { auto x = nb.getNext<float>(); got = show(x); return same(x, v.f); }
    }
}
static const char *tname[] = {"int", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "pointer", "double", "long double", "float"};
static void sequences(int depth) {
    std::vector<V> reps; auto ad = [&](int t, uint64_t u, double d = 0, long double ld = 0, float f = 0) { reps.push_back({t, u, d, ld, f}); };
    ad(I32, 0); ad(I32, (uint32_t)-1); ad(I32, (uint32_t)-300); ad(I32, (uint32_t)INT_MIN); ad(U32, 0x12345); ad(U32, UINT_MAX); ad(I64, (uint64_t)-70000); ad(I64, (uint64_t)LLONG_MIN); ad(I64, 1ull << 40);
    ad(U64, 0x0102030405060708ull); ad(LL, (uint64_t)-(1ll << 33)); ad(ULL, ~0ull); ad(PTR, 0x7fffdeadbeefull); ad(PTR, 0); ad(DBL, 0, -0.1); ad(DBL, 0, 0.0); ad(LDBL, 0, 0, 1.0L / 3); ad(FLT, 0, 0, 0, 2.5f);
    size_t R = reps.size(); std::vector<size_t> ix;
    std::function<void()> rec = [&] {
        if (!ix.empty()) {
            ++seq::g().states; ++n_; char b[512]; memset(b, 0xEE, sizeof b); int cnt = ix.size(); char *o = b + (cnt + 1) / 2; auto *tn = (TwoNibbles *)b;
            for (int i = 0; i < cnt; ++i) { int r = 0xf & packV(&o, reps[ix[i]]); if (i & 1) tn[i / 2].second = r; else tn[i / 2].first = r; }
            char *end = o; std::string d, name; for (auto i : ix) name += std::string(name.empty() ? "" : ",") + tname[reps[i].t];
            std::string died = seq::guarded([&] {
                Nibbler nb(b, cnt);
                if (nb.getEndOfPackedArguments() != end) { d = seq::fmt("end of arguments at %ld, written %ld", (long)(nb.getEndOfPackedArguments() - b), (long)(end - b)); }
                for (int i = 0; i < cnt && d.empty(); ++i) { std::string got; if (!getV(nb, reps[ix[i]], got)) d = seq::fmt("element %d (%s) read back as %s", i, tname[reps[ix[i]].t], got.c_str()); }
                if (d.empty() && nb.currPackedValue != end) d = "reader does not end where the writer ended";
            });
            if (d.empty()) d = died;
            if (!d.empty()) seq::violation("sequence", name + ": " + d);
            if (ix.size() == 3 && n_ % 4001 == 0) seq::sample("sequence " + name);
        }
        if ((int)ix.size() == depth) return;
        for (size_t i = 0; i < R; ++i) { if (ix.empty() && !seq::mine(i)) continue; ix.push_back(i); rec(); ix.pop_back(); }
    };
    rec();
}
int main(int argc, char **argv) {
    seq::init(argc, argv); auto &G = seq::g();
    std::string died = seq::guarded([&] {
        if (G.shard == 0) {
            for (int v = 0; v < 256; ++v) { one<uint8_t, uint8_t>(v, "uint8", 1); one<bool, bool>(v & 1, "bool", 1); one<int, signed char>(v, "signed char", 4); one<int, char>(v, "char", 4); one<signed char, signed char>(v, "hhd", 4); }
            for (int v = 0; v < 65536; ++v) { one<uint16_t, uint16_t>(v, "uint16", 2); one<int, short>(v, "short", 4); one<short, short>(v, "hd", 4); }
            bounds64<int64_t>("int64"); bounds64<uint64_t>("uint64"); bounds64<long long>("long long"); bounds64<unsigned long long>("unsigned long long");
            for (int k = 0; k < 64; ++k) for (int d = -300; d <= 300; ++d) { one<const void *, const void *>((const void *)((1ull << k) + (int64_t)d), "pointer", 8); one<const void *, const char *>((const char *)((1ull << k) + (int64_t)d), "char pointer", 8); }
            for (int e = 0; e < 2048; ++e) for (int s = 0; s < 2; ++s) for (int m = 0; m < 200; ++m) { uint64_t mm = m < 52 ? 1ull << m : m < 104 ? (1ull << 52) - (1ull << (m - 52)) : (uint64_t)m * 0x9E3779B97F4A7ull & ((1ull << 52) - 1); uint64_t u = (uint64_t)s << 63 | (uint64_t)e << 52 | mm; double d; memcpy(&d, &u, 8); one<double, double>(d, "double", 8); }
            for (int e = -300; e < 300; e++) for (int m = 1; m < 50; ++m) { long double l = ldexpl(1.0L / m, e); one<long double, long double>(l, "long double", 16); one<long double, long double>(-l, "long double", 16); }
            one<long double, long double>(INFINITY, "long double", 16); one<long double, long double>(NAN, "long double", 16);
        }
        // all 32 bit values of int, unsigned and float
        uint64_t lo = ((uint64_t)G.shard << 32) / G.nshards, hi = ((uint64_t)(G.shard + 1) << 32) / G.nshards;
        for (uint64_t v = lo; v < hi; ++v) { one<int32_t, int32_t>((int32_t)v, "int", 4); one<uint32_t, uint32_t>((uint32_t)v, "unsigned", 4); uint32_t w = v; float f; memcpy(&f, &w, 4); if (seq::thorough() || (w & 7) == 0) one<float, float>(f, "float", 4);
            if (seq::thorough() || (w & 15) == 0) { if (f == f) { /* a float is read back as double by the decoder */ char *o = buf + 8; int nib = pack(&o, f); const char *in = buf + 8; double r = unpack<double>(&in, nib); ++n_; if (r != (double)f || in != o) seq::violation("value-float-as-double", show(f)); } } }
        // 64 bit values built from the same 32 bit space in the upper half are covered by bounds64; long values equal to every 32 bit value:
        for (uint64_t v = lo; v < hi; v += seq::thorough() ? 1 : 5) { one<long, long>((long)(int32_t)v, "long", 8); one<long, long>((long)(v << 17), "long", 8); }
    }, 800);
    if (!died.empty()) seq::violation("died", died);
    G.states = n_; sequences(seq::thorough() ? 4 : 3);
    G.evals = G.nontrivial = G.transitions = n_;
    seq::sample("every int, unsigned value in the shard's range packed and unpacked; 64-bit neighbourhoods of every power of two");
    return seq::finish();
}
