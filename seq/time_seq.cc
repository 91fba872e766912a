// C19: printed times of messages at every small offset around every boundary x clock frequencies x calibration times x time zones, against exact rational
// arithmetic; and recorded time stamps of every sequence of boundary values through the real encoder and decoder.
#include "loglib.h"
using namespace ll;
typedef __int128 I;
static std::string mk(const std::vector<uint64_t> &ts, uint64_t rdtsc, double cps, time_t unixTime, bool split) {   // a log with one message per time stamp
    static char buf[1 << 20]; PerfUtils::Cycles::mockTscValue = rdtsc ? rdtsc : 1; PerfUtils::Cycles::mockCyclesPerSec = cps; static auto D = dict(0); uint32_t dp = 0; std::string bytes;
    Log::Encoder e(buf, sizeof buf); { Log::Checkpoint c; memcpy(&c, buf, sizeof c); c.unixTime = unixTime; c.rdtsc = rdtsc; c.cyclesPerSecond = cps; memcpy(buf, &c, sizeof c); }
    e.encodeNewDictionaryEntries(dp, D); std::string in; int k = 0; auto put = [&] { if (in.empty()) return; size_t n = in.size(); in.resize(n + 64); long r = e.encodeLogMsgs(&in[0], n, 1, false, D, nullptr); if (r != (long)n) seq::violation("harness", "encoder did not take the input"); in.clear(); };
    for (uint64_t t : ts) { Msg m; m.f = F_INT; m.a = k++; m.ts = t; in += raw(m); if (split && k % 3 == 0) put(); if (in.size() > 3000) put(); }
    put(); bytes.assign(buf, e.getEncodedBytes()); return bytes;
}
static uint64_t printedTimes = 0, stamps = 0, files = 0;
// "YYYY-mm-dd HH:MM:SS" in the local zone
static std::string day(time_t t) { char b[64]; std::tm tm; localtime_r(&t, &tm); strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &tm); return b; }
static void printed(const std::vector<int64_t> &diffs, uint64_t base, double cps, time_t ut, const char *zone, bool ascending, int mode) {
    std::vector<uint64_t> ts; for (int64_t d : diffs) ts.push_back(base + d); writeFile("t.log", mk(ts, base, cps, ut, false)); Decoded r = decode("t.log", mode); ++files;
    std::string in = seq::fmt("frequency %.17g, calibration at %ld (zone %s), ", cps, (long)ut, zone); if (!r.died.empty() || r.msgs.size() != ts.size()) { seq::violation("lost", in + r.died + seq::fmt(" %zu of %zu messages", r.msgs.size(), ts.size())); return; }
    time_t lastSec = 0; std::string prev; long prevN = -1; std::string prevD;
    for (size_t i = 0; i < ts.size(); ++i) { ++printedTimes; const std::string &t = r.msgs[i].time; std::string c = in + seq::fmt("message %ld cycles after it is printed at '%s': ", (long)diffs[i], t.c_str());
        size_t dot = t.find('.'); std::string frac = dot == std::string::npos ? "" : t.substr(dot + 1); bool digits = frac.size() == 9; for (char ch : frac) digits &= ch >= '0' && ch <= '9';
        if (!digits) { seq::violation(diffs[i] < 0 ? "fraction-before" : "fraction", c + "the fraction is not nine digits"); continue; }
        long double exact = (long double)diffs[i] / (long double)cps, fl = floorl(exact); long double fn = (exact - fl) * 1e9L, tol = 0.5000001L + fabsl(exact) * 1e9L * 8 / 9007199254740992.0L; long n = atol(frac.c_str());
        // the printed value must be within rounding of the exact one: same second, or the neighbouring one at its edge
        bool ok = false; for (int s = -1; s <= 1 && !ok; ++s) { long double err = (long double)n - (fn - s * 1e9L); if (fabsl(err) <= tol && t.substr(0, dot) == day(ut + (time_t)fl + s)) { ok = true; lastSec = ut + (time_t)fl + s; } }
        if (!ok) { seq::violation(diffs[i] < 0 ? "time-before" : "time", c + seq::fmt("should be %s + %.3Lf ns", day(ut + (time_t)fl).c_str(), fn)); continue; }
        static time_t ps; if (ascending && i && prevN >= 0 && (lastSec < ps || (lastSec == ps && n < prevN))) seq::violation("monotone", c + "earlier than the message before it"); ps = lastSec; prevN = n;
        if (r.msgs[i].text.find(seq::fmt("|i %zu", i)) == std::string::npos) seq::violation("order", c + "message text " + r.msgs[i].text); }
    seq::g().transitions += ts.size();
}
static void exactStamps(const std::vector<uint64_t> &ts, bool split) {
    writeFile("s.log", mk(ts, 1000, 1e9, 0, split)); ++files; std::vector<uint64_t> got; Log::Decoder *d = nullptr; seq::poolReset();
    std::string died = seq::guarded([&] { d = new Log::Decoder(); Log::LogMessage m; if (d->open("s.log")) while (d->getNextLogStatement(m)) got.push_back(m.getTimestamp()); }); if (died.empty()) delete d; stamps += ts.size();
    if (!died.empty() || got != ts) { std::string a, b; for (auto t : ts) a += seq::fmt(" %lx", t); for (auto t : got) b += seq::fmt(" %lx", t); if (a.size() > 400) { size_t i = 0; while (i < got.size() && i < ts.size() && got[i] == ts[i]) ++i; a = seq::fmt(" (at %zu of %zu) %lx after %lx", i, ts.size(), i < ts.size() ? ts[i] : 0, i ? ts[i - 1] : 0); b = seq::fmt(" %lx", i < got.size() ? got[i] : 0); } seq::violation("stamp", "time stamps" + a + " decoded as" + b + " " + died); }
}
int main(int argc, char **argv) {
    seq::init(argc, argv); initEnv(); auto &G = seq::g(); bool t = seq::thorough(); uint64_t idx = 0;
    std::vector<double> F = {1e9, 2.4e9, 2.9999e9, 1e6, 3.6e9, 2.1e9 / 3, 999999999.0, 2592.0057e6, 5.1e9, 1e9 + 0.25, 1.0, 7.0}; if (t) for (double x : {1.9e9, 2.2e9, 2.0e9, 2.6e9, 3.4e9, 4.7e9, 1234567891.0, 3.3e9 / 7, 100e6, 133e6, 24e6, 19.2e6, 62.5e6}) F.push_back(x);
    std::vector<const char *> Z = {"UTC", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3"};
    std::vector<time_t> U = {0, 1, 951782399, 1511481593, 1552201199 /* before US DST */, 1572760800, 1700000000, 2147483647, 4102444799};
    std::vector<long> S = {0, 1, 2, 59, 60, 3599, 3600, 86399, 86400, 86401, 1000000, 31535999, 31536000, 100000000}; int64_t R = t ? 400 : 120;
    for (double f : F) for (size_t z = 0; z < Z.size(); ++z) for (size_t u = 0; u < U.size(); ++u) { if (!t && z && u % 2 == z % 2 && f != 2.4e9) continue; if (!seq::mine(idx++)) continue; setenv("TZ", Z[z], 1); tzset();
        for (uint64_t base : {(uint64_t)1 << 62, (uint64_t)123456789012345ull}) { int mode = idx % 3;
            for (long s : S) for (int sg = -1; sg <= 1; sg += 2) { if (s * f > 4e18 || (base < 1ull << 60 && s * f > 1e14)) continue; if (!s && sg < 0) continue; int64_t c = (int64_t)(sg * s * (long double)f); std::vector<int64_t> d; for (int64_t j = -R; j <= R; ++j) d.push_back(c + j); if ((int64_t)base + d[0] < 0) continue; printed(d, base, f, U[u], Z[z], true, mode); if (u == 3 && z == 0) { std::reverse(d.begin(), d.end()); printed(d, base, f, U[u], Z[z], false, mode == 1 ? 0 : mode); } }
            // every binary and decimal magnitude, and the rounding edge of each second: k/2 and (k + .5) nanoseconds
            { std::vector<int64_t> d; for (int sg = -1; sg <= 1; sg += 2) for (int b = 0; b < 46; ++b) for (int j = -2; j <= 2; ++j) { int64_t v = sg * (1l << b) + j; if ((long double)v / f < 1e8L && (long double)v / f > -1e8L && (int64_t)base + v > 0) d.push_back(v); } for (long m = 1; m < 4000000000000l; m *= 10) for (int sg = -1; sg <= 1; sg += 2) for (int j = -3; j <= 3; ++j) { int64_t v = (int64_t)(sg * m * (long double)f / 1e9L) + j; if ((int64_t)base + v > 0 && m * 1e-9 < 1e8) d.push_back(v); } printed(d, base, f, U[u], Z[z], false, mode == 1 ? 2 : mode); } }
        if (idx % 37 == 3) seq::sample(seq::fmt("frequency %.17g, calibration %ld, zone %s: %ld offsets around each of %zu second boundaries", f, (long)U[u], Z[z], (long)(2 * R + 1), S.size() * 2)); }
    setenv("TZ", "UTC", 1); tzset();
    // recorded stamps: boundary values of every encoded size, as all sequences of 2, of 3 from a smaller set, each also split over extents
    std::vector<uint64_t> V; for (int b = 0; b < 64; b += 1) for (int j = -1; j <= 1; ++j) V.push_back((1ull << b) + j); V.push_back(~0ull); V.push_back(~0ull - 1); V.push_back(0x7fffffffffffffffull - 255); std::sort(V.begin(), V.end()); V.erase(std::unique(V.begin(), V.end()), V.end());
    for (uint64_t a : V) { if (!seq::mine(idx++)) continue; std::vector<uint64_t> all; for (uint64_t b : V) { all.push_back(a); all.push_back(b); } exactStamps(all, false); exactStamps(all, true);   // every ordered pair (a,b) and (b,a) adjacent
        std::vector<uint64_t> rel; uint64_t x = a; for (int b = 0; b < 64; ++b) for (int j = -1; j <= 1; ++j) { for (uint64_t dl : {(1ull << b) + j, (uint64_t)0 - ((1ull << b) + j)}) { rel.push_back(x); rel.push_back(x + dl); rel.push_back(x + dl + dl); } } exactStamps(rel, false); }
    std::vector<uint64_t> W; for (int b : {0, 7, 8, 15, 16, 24, 31, 32, 40, 48, 56, 62, 63}) { W.push_back(1ull << b); if (t) W.push_back((1ull << b) - 1); } W.push_back(0); W.push_back(~0ull);
    for (uint64_t a : W) for (uint64_t b : W) { if (!seq::mine(idx++)) continue; for (uint64_t c : W) { exactStamps({a, b, c}, false); if (t) exactStamps({c, a, b, c}, true); } }
    G.evals = printedTimes + stamps; G.states = files; G.nontrivial = printedTimes; G.info["printed_times"] = std::to_string(printedTimes); G.info["stamps"] = std::to_string(stamps); G.info["files"] = std::to_string(files);
    return seq::finish();
}
