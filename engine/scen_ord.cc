// Scenarios for chronological order of ordered decompression (global clock).
#include "scen.h"
#include <pthread.h>
#include <string>
using thread = UserThread;
#define SCENO(nm) static void run_##nm(); static mc::Reg reg_##nm({#nm, run_##nm, orc::ordered, nullptr, false, true}); static void run_##nm()
static const char *S30 = "abcdefghijklmnopqrstuvwxyz0123";
struct Turn { pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t c = PTHREAD_COND_INITIALIZER; int n = 0;
    void wait(int k) { pthread_mutex_lock(&m); while (n != k) pthread_cond_wait(&c, &m); pthread_mutex_unlock(&m); }
    void next() { pthread_mutex_lock(&m); n++; pthread_cond_broadcast(&c); pthread_mutex_unlock(&m); } };
static Turn turn;
// strictly alternating by a turn variable: the k-th letter of the plan says which thread logs the k-th message
static void plan(const char *p, int sizeMask) {
    int nt = 0; for (const char *q = p; *q; q++) if (*q - '0' + 1 > nt) nt = *q - '0' + 1;
    auto body = [p, sizeMask](int t) { for (int k = 0; p[k]; k++) if (p[k] - '0' == t) { turn.wait(k); if ((sizeMask >> (k % 8)) & 1) L(t, "T%d k%d %s", t, k, S30); else L(t, "T%d k%d", t, k); turn.next(); } };
    thread th[3]; for (int t = 1; t < nt; t++) th[t] = thread(body, t); body(0); for (int t = 1; t < nt; t++) th[t].join();
}
SCENO(o_a) { plan("0101010", 0); }
SCENO(o_b) { plan("01100101", 0xff); }
SCENO(o_c) { plan("0011001101", 0x5a); }
SCENO(o_d) { plan("012210012", 0x36); }
SCENO(o_e) { plan("0111011101", 0xff); }
SCENO(o_f) { plan("1000100010", 0xff); }
SCENO(o_free) { thread a([] { for (int i = 0; i < 3; i++) L(1, "T1 a%d %s", i, S30); }); for (int i = 0; i < 3; i++) L(0, "T0 b%d %s", i, S30); a.join(); }
