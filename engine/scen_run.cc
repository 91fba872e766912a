// Scenarios over the real runtime: producers, syncs, file switches, thread exits, shutdown.
#include "scen.h"
#include <pthread.h>
#include <cstring>
#include <string>
using thread = UserThread;
#define SCEN(nm, spur) static void run_##nm(); static mc::Reg reg_##nm({#nm, run_##nm, orc::standard, nullptr, spur}); static void run_##nm()
#define SCENC(nm, chk, prep) static void run_##nm(); static mc::Reg reg_##nm({#nm, run_##nm, chk, prep, false}); static void run_##nm()

static const char *S30 = "abcdefghijklmnopqrstuvwxyz0123";
static const char *S60 = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123abcdefghijklmnopqrstuvwxyz0123";
// blocks the calling model thread for good (a thread that is alive at exit)
static pthread_mutex_t parkM = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t parkC = PTHREAD_COND_INITIALIZER;
static void park() { pthread_mutex_lock(&parkM); for (;;) pthread_cond_wait(&parkC, &parkM); }
// one-shot event
struct Ev { pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t c = PTHREAD_COND_INITIALIZER; int n = 0;
    void set() { pthread_mutex_lock(&m); n++; pthread_cond_broadcast(&c); pthread_mutex_unlock(&m); }
    void wait(int k = 1) { pthread_mutex_lock(&m); while (n < k) pthread_cond_wait(&c, &m); pthread_mutex_unlock(&m); } };

// number of registered call sites (-1 if the implementation keeps them elsewhere)
template <class T> static auto siteCount(int) -> decltype((int)T::nanoLogSingleton.invocationSites.size()) { return (int)T::nanoLogSingleton.invocationSites.size(); }
template <class T> static int siteCount(long) { return -1; }
static void oneSite(int want) { int n = siteCount<NanoLogInternal::RuntimeLogger>(0); if (n >= 0 && n != want) mc::fail("%d call site(s) were registered as %d", want, n); }
// lets the next thread get id v (no-op if the implementation numbers its threads elsewhere)
template <class T> static auto nextId(unsigned v, int) -> decltype((void)(T::nanoLogSingleton.nextBufferId = v)) { T::nanoLogSingleton.nextBufferId = v; }
template <class T> static void nextId(unsigned, long) {}
// ---------------------------------------------------------------- producers
SCEN(p1_wrap, false) {
    L(0, "T0 a%d", 1); L(0, "T0 b%s", S30); L(0, "T0 c%d %d", 2, 3); L(0, "T0 d%s", "xy"); L(0, "T0 e%s", S30); L(0, "T0 f%ld", 7L);
}
SCEN(p1_many, false) { for (int i = 0; i < 12; i++) L(0, "T0 m%d", i); }
SCEN(p1_sizes, false) { static const char *s[] = {"", "1", "4567", "0123456789", "0123456789012345", "01234567890123456789012", S30}; for (int i = 0; i < 7; i++) L(0, "T0 %d%s", i, s[i]); }
SCEN(p2, false) {
    thread a([] { L(1, "T1 a%d", 1); L(1, "T1 b%s", S30); L(1, "T1 c"); });
    thread b([] { L(2, "T2 x%ld", 5L); L(2, "T2 y%s", "q"); L(2, "T2 z%d", 3); });
    a.join(); b.join();
}
SCEN(p2_full, false) {
    thread a([] { for (int i = 0; i < 3; i++) L(1, "T1 a%d %s", i, S30); });
    thread b([] { for (int i = 0; i < 3; i++) L(2, "T2 b%d %s", i, S30); });
    a.join(); b.join();
}
SCEN(p3, false) {
    thread a([] { L(1, "T1 a%d", 1); L(1, "T1 b%d", 2); });
    thread b([] { L(2, "T2 a%d", 1); });
    thread c([] { L(3, "T3 a%d", 1); });
    L(0, "T0 m%d", 1);
    a.join(); b.join(); c.join();
}
SCEN(p2_same, false) {   // both threads through the very same call sites
    auto f = [](int t) { for (int i = 0; i < 2; i++) L(t, "T%d same %d %s", t, i, "zz"); };
    thread a(f, 1), b(f, 2); a.join(); b.join();
}
SCEN(p1_big, false) {    // one message larger than half the staging buffer
    L(0, "T0 s%d", 1); L(0, "T0 big%s", S60); L(0, "T0 e%d", 2); L(0, "T0 big%s", S60);
}
SCEN(p_prealloc, false) {
    thread a([] { NanoLog::preallocate(); NanoLog::preallocate(); L(1, "T1 a%d", 1); L(1, "T1 b%d", 2); });
    NanoLog::preallocate(); L(0, "T0 x%d", 1); a.join(); L(0, "T0 y%d", 2);
}
SCEN(p_ids, false) {     // threads with ids that need another encoding
    nextId<NanoLogInternal::RuntimeLogger>(15, 0);
    L(0, "T0 a%d", 1);
    thread a([] { L(1, "T1 a%d", 1); L(1, "T1 b%s", S30); }); thread b([] { L(2, "T2 a%d", 1); }); a.join(); b.join();
    nextId<NanoLogInternal::RuntimeLogger>(255, 0);
    thread c([] { L(3, "T3 a%d", 1); }), d([] { L(4, "T4 a%d", 1); L(4, "T4 b"); }); c.join(); d.join(); L(0, "T0 b%d", 1);
}
// ---------------------------------------------------------------- sync
SCEN(s1, false) { L(0, "T0 a%d", 1); SYNC(); L(0, "T0 b%d", 2); SYNC(); }
SCEN(s_empty, false) { SYNC(); SYNC(); L(0, "T0 a"); SYNC(); }
SCEN(s_spur, true) { L(0, "T0 a%d", 1); SYNC(); }
SCEN(s2, false) {
    thread a([] { L(1, "T1 a%d", 1); SYNC(); });
    L(0, "T0 b%d", 2); SYNC(); a.join();
}
SCEN(s2_spur, true) {
    thread a([] { L(1, "T1 a%d", 1); SYNC(); });
    L(0, "T0 b%d", 2); SYNC(); a.join();
}
SCEN(s3, false) {
    thread a([] { L(1, "T1 a%d", 1); SYNC(); });
    thread b([] { L(2, "T2 a%d", 1); SYNC(); });
    L(0, "T0 b%d", 2); SYNC(); a.join(); b.join();
}
SCEN(s_other, false) {   // messages of another thread, sync by main
    static Ev e;
    thread a([] { L(1, "T1 a%d", 1); e.set(); L(1, "T1 b%d", 2); });
    e.wait(); SYNC(); a.join(); SYNC();
}
SCEN(s_inflight, false) { // a write is likely in flight when sync starts
    L(0, "T0 a%s", S30); mc::yieldPoint(); L(0, "T0 b%s", S30); SYNC(); L(0, "T0 c%s", S30); SYNC();
}
SCEN(s_full, false) {    // output buffer fills up
    for (int i = 0; i < 6; i++) L(0, "T0 a%d %s", i, S30);
    SYNC(); L(0, "T0 z");
}
SCEN(s_dead, false) {    // exited threads' empty buffers sit before a buffer with data
    thread a([] { L(1, "T1 a%d", 1); }); a.join();
    SYNC();
    thread b([] { L(2, "T2 b%d", 1); static Ev never; SYNC(); }); b.join();
    L(0, "T0 c%d", 3); SYNC();
}
SCEN(s_dead2, false) {
    thread a([] { L(1, "T1 a"); }), b([] { L(2, "T2 a"); });
    L(0, "T0 c%d", 3); a.join(); b.join(); SYNC(); L(0, "T0 d%d", 4); SYNC();
}
SCEN(s_busy, false) {    // another thread keeps logging during the sync
    thread a([] { for (int i = 0; i < 4; i++) L(1, "T1 a%d", i); });
    L(0, "T0 b%d", 2); SYNC(); a.join();
}
// ---------------------------------------------------------------- exit
SCEN(x_none, false) {}
SCEN(x_main, false) { L(0, "T0 a%d", 1); L(0, "T0 b%s", S30); }
SCEN(x_live, false) {    // a live thread, blocked for good, has unsynced messages
    static Ev e;
    thread a([] { L(1, "T1 a%d", 1); L(1, "T1 b%d", 2); e.set(); park(); });
    a.detach(); L(0, "T0 m"); e.wait();
}
SCEN(x_detached, false) { // thread ended by itself, never joined
    static Ev e;
    thread a([] { L(1, "T1 a%d", 1); L(1, "T1 b%s", S30); e.set(); });
    a.detach(); e.wait(); L(0, "T0 m%d", 1);
}
SCEN(x_exit, false) { L(0, "T0 a%d", 1); thread a([] { L(1, "T1 z%d", 9); }); a.join(); exit(0); }
SCEN(x_exit_thread, false) { static Ev e; L(0, "T0 a%d", 1); thread a([] { L(1, "T1 z%d", 9); e.set(); exit(0); }); a.detach(); e.wait(); park(); }
SCEN(x_mixed, false) {
    static Ev e;
    thread a([] { L(1, "T1 a%d", 1); }); a.join();
    thread b([] { L(2, "T2 a%d", 1); e.set(); park(); }); b.detach(); e.wait();
    thread c([] { L(3, "T3 a%d", 1); e.set(); }); c.detach(); e.wait(2);
    L(0, "T0 end");
}
SCEN(x_full, false) { for (int i = 0; i < 7; i++) L(0, "T0 a%d %s", i, S30); }
SCEN(x_sync_exit, false) { L(0, "T0 a"); SYNC(); L(0, "T0 b"); }
SCEN(x_dead_live, false) { // dead thread's buffer first in the list, live one with data behind it
    static Ev e, g;
    thread a([] { L(1, "T1 a%d", 1); e.set(); }); e.wait();
    thread b([] { L(2, "T2 a%d", 1); g.set(); park(); }); b.detach(); a.join(); g.wait();
}
// ---------------------------------------------------------------- thread exit and reclamation
static const size_t SBSZ = sizeof(NanoLogInternal::RuntimeLogger::StagingBuffer);
static int sbCount() { return mc::liveHeapBlocks(SBSZ, SBSZ + 64); }
SCEN(t_one, false) { thread a([] { L(1, "T1 a%d", 1); L(1, "T1 b%d", 2); }); a.join(); }
SCEN(t_seq, false) {
    thread a([] { L(1, "T1 a%d", 1); }); a.join();
    thread b([] { L(2, "T2 a%d", 1); }); b.join();
    thread c([] { L(3, "T3 a%d", 1); }); c.join();
}
SCEN(t_churn, false) {   // buffers of ended threads are released once drained
    int base = sbCount();
    thread a([] { L(1, "T1 a%d", 1); }); a.join();
    thread b([] { L(2, "T2 a%d", 1); L(2, "T2 b%d", 2); }); b.join();
    SYNC(); SYNC(); SYNC();
    int n = sbCount() - base;
    if (n > 0) mc::fail("%d staging buffers of ended threads still allocated after they were drained and three further syncs", n);
}
SCEN(t_churnSilent, false) {   // the same for threads that allocated a buffer and never logged
    int base = sbCount();
    thread a([] { NanoLog::preallocate(); }); a.join();
    thread b([] { L(2, "T2 a%d", 1); }); b.join();
    thread c([] { NanoLog::preallocate(); }); c.join();
    SYNC(); SYNC(); SYNC();
    int n = sbCount() - base;
    if (n > 0) mc::fail("%d staging buffers of ended threads still allocated after they were drained and three further syncs", n);
}
SCEN(t_par, false) {
    thread a([] { L(1, "T1 a%d", 1); L(1, "T1 b%d", 1); }), b([] { L(2, "T2 a%d", 1); });
    a.join();
    thread c([] { L(3, "T3 a%d", 1); });
    b.join(); c.join(); L(0, "T0 m");
}
SCEN(t_par3, false) {
    thread a([] { L(1, "T1 a"); }), b([] { L(2, "T2 a"); }), c([] { L(3, "T3 a"); });
    a.join(); b.join(); c.join(); SYNC();
    thread d([] { L(4, "T4 a"); }); d.join(); SYNC();
    thread f([] { L(5, "T5 a"); }); f.join();
}
SCEN(t_silent, false) {  // a thread that only allocated its buffer
    thread a([] { NanoLog::preallocate(); }); thread b([] { L(2, "T2 a%d", 1); }); a.join(); b.join(); SYNC();
    thread c([] { L(3, "T3 a%d", 1); }); c.join();
}
SCEN(t_full, false) {    // thread ends right after filling its buffer
    thread a([] { for (int i = 0; i < 5; i++) L(1, "T1 a%d %s", i, S30); }); thread b([] { L(2, "T2 x%s", S30); }); a.join(); b.join();
}
SCEN(t_middle, false) {  // the middle one of three ends first; others continue
    static Ev e;
    thread a([] { L(1, "T1 a"); e.wait(); L(1, "T1 b"); }); thread b([] { L(2, "T2 a"); });
    b.join(); thread c([] { L(3, "T3 a"); L(3, "T3 b"); }); e.set(); a.join(); c.join(); SYNC(); L(0, "T0 q");
}
static void lateCheck() { orc::checkExact(orc::decodeFile("./compressedLog", 0).msgs, "unordered"); }
SCENC(t_lateLog, lateCheck, nullptr) { // thread_local destructor logging after the buffer was handed back
    struct D { ~D() { L(1, "T1 dtor%d", 2); } };
    thread a([] { static thread_local D d; (void)&d; L(1, "T1 a%d", 1); (void)&d; });
    a.join();
}
// ---------------------------------------------------------------- call-site registration
SCEN(r_same, false) {
    auto f = [](int t) { L(t, "T%d site %d", t, 5); };
    thread a(f, 1), b(f, 2); a.join(); b.join(); oneSite(1);
}
SCEN(r_same3, false) {
    auto f = [](int t) { L(t, "T%d site %d", t, 5); };
    thread a(f, 1), b(f, 2), c(f, 3); a.join(); b.join(); c.join(); oneSite(1);
}
static void regCheck() {
    orc::standard();
}
SCEN(r_diff, false) {
    NanoLog::setLogLevel(DEBUG);
    thread a([] { LV(ERROR, 1, "T1 one %s", "p"); LV(DEBUG, 1, "T1 shared %d", 1); });
    thread b([] { LV(WARNING, 2, "T2 two %d", 8); LV(NOTICE, 2, "T2 four %ld", 8L); });
    a.join(); b.join();
}
static void siteA(int t) { LV(ERROR, t, "T%d A %d", t, 1); }
static void siteB(int t) { LV(WARNING, t, "T%d B %s", t, "w"); }
SCEN(r_cross, false) {
    thread a([] { siteA(1); siteB(1); }), b([] { siteB(2); siteA(2); }); a.join(); b.join();
    oneSite(2);
}
SCEN(r_late, false) {    // new call sites appear while output is being written / buffer nearly full
    L(0, "T0 a%s", S30); L(0, "T0 b%s", S30); SYNC(); LV(ERROR, 0, "T0 a rather long format string to fill the dictionary %d", 4);
    LV(WARNING, 0, "T0 yet another long format string that fills the dictionary %d", 4); L(0, "T0 third long format string that fills the dictionary %d", 4); L(0, "T0 e"); 
}
SCEN(r_flood, false) {   // more dictionary bytes than one output buffer holds, registered before the compressor runs
    L(0, "T0 a first format string of some length to take up space %d", 1); L(0, "T0 b second format string of some length to take up space %d", 2);
    L(0, "T0 c third format string of some length to take up space %d", 3); L(0, "T0 d fourth format string of some length to take up space %d", 4); L(0, "T0 e%d", 5);
}
SCEN(r_reuse, false) {   // registered by one thread, used by another while dictionary is pending
    auto f = [](int t) { L(t, "T%d r %d", t, 5); L(t, "T%d q %d", t, 5); };
    thread a(f, 1); f(0); a.join();
}
// ---------------------------------------------------------------- log file switching
struct Sw { uint64_t b, e; std::string path; bool ok; };
static std::vector<Sw> sws;
static void sw(const char *p) {
    sws.push_back({mc::stamp(), 0, p, false}); size_t k = sws.size() - 1;
    bool ok = true;
    try { NanoLog::setLogFile(p); } catch (std::exception &) { ok = false; }
    sws[k].e = mc::stamp(); sws[k].ok = ok;
}
static void fileCheck() {
    std::vector<std::string> files = {"./compressedLog"};
    for (auto &s : sws) if (s.ok && std::find(files.begin(), files.end(), s.path) == files.end()) files.push_back(s.path);
    std::map<int, std::vector<std::pair<std::string, std::string>>> got;  // tag -> (file, text)
    std::map<std::string, std::map<std::string, int>> where;              // text -> file -> n
    std::vector<orc::Msg> all;
    std::map<std::string, std::vector<orc::Msg>> per;
    for (auto &f : files) {
        orc::Log l = orc::decodeFile(f, 0); per[f] = l.msgs;
        for (auto &m : l.msgs) { where[m.text][f]++; all.push_back(m); }
        orc::Log o = orc::decodeFile(f, 1); if (o.msgs.size() != l.msgs.size()) mc::fail("%s: ordered decoding delivers %zu messages, unordered %zu", f.c_str(), o.msgs.size(), l.msgs.size());
        mc::note("%s:", f.c_str()); for (auto &m : l.msgs) mc::note("%s;", m.text.c_str());
    }
    for (auto &e : mc::expects()) {
        // files that may hold this message
        std::vector<std::string> may; std::string cur = "./compressedLog"; 
        // the file in force before e begins, plus every switch overlapping the call or following before end
        std::string before = "./compressedLog"; for (auto &s : sws) if (s.ok && s.e < e.stampBegin) before = s.path;
        may.push_back(before);
        for (auto &s : sws) if (s.ok && s.e > e.stampBegin && s.b < e.stampEnd) may.push_back(s.path);
        // completed while a switch was in progress: it may land in the new file although the call ended before the switch did -- only if the switch had begun
        auto &w = where[e.text]; int n = 0; for (auto &x : w) n += x.second;
        if (n == 0) mc::fail("message '%s' is in no file", e.text.c_str());
        if (n > 1) mc::fail("message '%s' was written %d times", e.text.c_str(), n);
        std::string f; for (auto &x : w) if (x.second) f = x.first;
        if (std::find(may.begin(), may.end(), f) == may.end()) mc::fail("message '%s' is in %s, expected in %s", e.text.c_str(), f.c_str(), may[0].c_str());
    }
    if (all.size() != mc::expects().size()) mc::fail("files hold %zu messages, %zu were logged", all.size(), mc::expects().size());
    // per-thread order within each file
    std::map<std::string, size_t> seqOf; std::map<std::string, const mc::Expect *> ex;
    for (auto &e : mc::expects()) { seqOf[e.text] = e.seq; ex[e.text] = &e; }
    for (auto &p : per) { std::map<int, int> last; for (auto &m : p.second) { auto it = ex.find(m.text); if (it == ex.end()) mc::fail("%s: unknown message '%s'", p.first.c_str(), m.text.c_str()); int t = it->second->tag; if (last.count(t) && last[t] >= it->second->seq) mc::fail("%s: messages of thread %d out of order at '%s'", p.first.c_str(), t, m.text.c_str()); last[t] = it->second->seq;
        if (it->second->line && m.line != it->second->line) mc::fail("%s: '%s' attributed to line %d instead of %d", p.first.c_str(), m.text.c_str(), m.line, it->second->line); } }
    orc::checkIds(all); orc::checkSyncs();
}
SCENC(f_basic, fileCheck, nullptr) { L(0, "T0 a%d", 1); sw("./f1"); L(0, "T0 b%d", 2); L(0, "T0 c"); }
SCENC(f_pending, fileCheck, nullptr) { for (int i = 0; i < 4; i++) L(0, "T0 a%d %s", i, S30); sw("./f1"); for (int i = 0; i < 3; i++) L(0, "T0 b%d %s", i, S30); }
SCENC(f_back, fileCheck, nullptr) { L(0, "T0 a%d", 1); sw("./f1"); L(0, "T0 b%d", 2); sw("./compressedLog"); L(0, "T0 c%d", 3); sw("./f1"); L(0, "T0 d%d", 4); }
SCENC(f_samesite, fileCheck, nullptr) { for (int i = 0; i < 3; i++) { L(0, "T0 i%d", i); if (i == 0) sw("./f1"); if (i == 1) sw("./f2"); } }
SCENC(f_conc, fileCheck, nullptr) { thread a([] { L(1, "T1 a%d", 1); L(1, "T1 b%d", 2); L(1, "T1 c%d", 3); }); L(0, "T0 m%d", 1); sw("./f1"); L(0, "T0 n%d", 1); a.join(); }
SCENC(f_concsync, fileCheck, nullptr) { thread a([] { L(1, "T1 a%d", 1); SYNC(); L(1, "T1 b%d", 2); }); sw("./f1"); a.join(); L(0, "T0 m%d", 1); }
SCENC(f_dead, fileCheck, nullptr) { thread a([] { L(1, "T1 a%d", 1); }); a.join(); L(0, "T0 m%d", 1); sw("./f1"); thread b([] { L(2, "T2 a%d", 1); }); b.join(); L(0, "T0 n%d", 1); }
SCENC(f_fail, fileCheck, nullptr) {
    L(0, "T0 a%d", 1); sw("./nodir/x"); L(0, "T0 b%d", 2); sw("."); L(0, "T0 c%d", 3);
    for (auto &s : sws) if (s.ok) mc::fail("setLogFile(\"%s\") did not throw", s.path.c_str());
    SYNC(); L(0, "T0 d");
}
SCENC(f_failgood, fileCheck, nullptr) { L(0, "T0 a%d", 1); sw("./f1"); L(0, "T0 b%d", 2); sw("./nodir/x"); L(0, "T0 c%d", 3); SYNC(); }
SCENC(f_blocked, fileCheck, nullptr) { thread a([] { for (int i = 0; i < 5; i++) L(1, "T1 a%d %s", i, S30); }); sw("./f1"); a.join(); L(0, "T0 n%d", 1); }
SCENC(f_fresh, fileCheck, nullptr) { sw("./f1"); L(0, "T0 a%d", 1); L(0, "T0 b%s", S30); }
SCENC(f_same, fileCheck, nullptr) { L(0, "T0 a%d", 1); sw("./compressedLog"); L(0, "T0 b%d", 2); }
SCENC(f_unwritten, fileCheck, nullptr) { L(0, "T0 a%d", 1); sw("./f1"); sw("./f2"); L(0, "T0 b%d", 2); sw("./f3"); }
// ---------------------------------------------------------------- arguments captured by value
SCEN(m_mut, false) {     // buffers are overwritten (and freed) right after each call returns
    char b[32]; int v = 5; 
    strcpy(b, "first"); L(0, "T0 %s %d", b, v); memset(b, '#', sizeof b); v = -1;
    strcpy(b, "second one"); L(0, "T0 %s", b); memset(b, '#', sizeof b);
    char *h = strdup(S30); L(0, "T0 %.9s", h); memset(h, '#', 30); free(h);
    wchar_t w[] = L"wide"; L(0, "T0 %ls", w); w[0] = L'#'; w[1] = 0; 
}
SCEN(m_mut2, false) {
    auto f = [](int t) { char b[40]; for (int i = 0; i < 2; i++) { memcpy(b, S30, 31); b[0] = 'A' + t; b[20 + i] = 0; L(t, "T%d %s", t, b); memset(b, '#', sizeof b); } };
    thread a(f, 1), c(f, 2); a.join(); c.join();
}
SCEN(m_share, false) {   // one buffer handed from thread to thread; each writes and logs its own contents
    static char b[32]; 
    thread a([] { strcpy(b, "by a"); L(1, "T1 %s", b); strcpy(b, "xxxxxxxx"); }); a.join();
    thread c([] { strcpy(b, "and by c"); L(2, "T2 %s", b); strcpy(b, "y"); L(2, "T2 %s", b); memset(b, 'z', 31); }); c.join();
    L(0, "T0 %s", b); memset(b, 0, 32); 
}
