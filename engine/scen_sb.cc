// One producer and one consumer on a bare staging queue (ring size = NANOLOG_VERIF_STAGING_BUFFER_SIZE).
#include "scen.h"
using SB = NanoLogInternal::RuntimeLogger::StagingBuffer;
static const int SZ = NANOLOG_VERIF_STAGING_BUFFER_SIZE;
static const char *lo, *hi;                 // storage bounds, learnt from an empty queue
static unsigned char pat(long i) { return (unsigned char)(i * 7 + 3 + (i >> 5)); }
struct Job { std::vector<int> sizes; int mode; };
static SB *q; static long produced, total;
static void producer(const std::vector<int> *sizes) {
    long off = 0;
    for (int n : *sizes) {
        char *p = q->reserveProducerSpace(n);
        if (!p) mc::fail("reservation of %d bytes returned nothing", n);
        if (p < lo || p + n > lo + SZ) mc::fail("reservation of %d bytes lies outside the queue (offset %ld)", n, (long)(p - lo));
        for (int i = 0; i < n; i++) p[i] = (char)pat(off + i);
        q->finishReservation(n); off += n;
    }
}
static void consumer(int mode) {
    long off = 0; int idle = 0;
    while (off < total) {
        uint64_t n = 0; char *p = q->peek(&n);
        if (mode >= 3) sched_yield();         // the producer gets ahead between a peek and its consumption
        if (n == 0) { if (++idle % 3 == 0) sched_yield(); continue; }
        if (p < lo || p + n > lo + SZ) mc::fail("peek returned %lu bytes outside the queue", (unsigned long)n);
        if (off + (long)n > total) mc::fail("peek returned %lu bytes, only %ld were ever produced", (unsigned long)n, total - off);
        for (uint64_t i = 0; i < n; i++) if ((unsigned char)p[i] != pat(off + i)) mc::fail("byte %ld delivered as %u instead of %u", off + (long)i, (unsigned char)p[i], pat(off + i));
        uint64_t k = mode == 0 || mode == 3 ? n : mode == 1 || mode == 4 ? (n + 1) / 2 : 1;
        uint64_t done = 0;
        while (done < n) {                    // piecewise consumption of one peek
            uint64_t m = std::min(k, n - done);
            for (uint64_t i = done; i < n; i++) if ((unsigned char)p[i] != pat(off + i - done)) mc::fail("unconsumed byte %ld was overwritten", off + (long)(i - done));
            q->consume(m); done += m; off += m;
            if (mode == 4) sched_yield();
            if (mode == 2) break;             // peek again after every byte group
        }
    }
    uint64_t n = 0; q->peek(&n); if (n) mc::fail("queue holds %lu bytes although all were consumed", (unsigned long)n);
}
static void go(const std::vector<int> &sizes, int mode) {
    q = new SB(77);
    uint64_t n = 9; lo = q->peek(&n); if (n) mc::fail("a new queue is not empty");
    total = 0; for (int s : sizes) total += s;
    UserThread t(producer, &sizes);
    consumer(mode);
    t.join();
    if (q->checkCanDelete()) mc::fail("queue of a live producer reported deletable");
}
static void nocheck() {}
#define Q(nm, mode, ...) static std::vector<int> sz_##nm{__VA_ARGS__}; static void run_##nm() { go(sz_##nm, mode); } static mc::Reg reg_##nm({#nm, run_##nm, nocheck})
Q(q_a, 0, SZ / 3, SZ / 3, SZ / 3, SZ / 3, SZ / 3);
Q(q_b, 1, SZ / 2, SZ / 2 - 1, SZ / 2, 1, SZ / 2);
Q(q_c, 0, SZ - 1, SZ - 1, 1, SZ - 1);
Q(q_d, 0, 1, SZ - 2, 2, SZ - 3, SZ / 2);
Q(q_e, 1, SZ / 4, SZ / 4, SZ / 4, SZ / 4 - 1, 1, SZ / 4, SZ / 4);
Q(q_f, 2, 3, 5, SZ - 9, 7, SZ / 2);
Q(q_g, 0, SZ / 2 + 1, SZ / 2 + 1, SZ / 2 - 1, SZ / 2 + 1);
Q(q_h, 0, SZ - 4, 3, 1, 2, SZ - 4, 3);
Q(q_i, 3, SZ / 3, SZ / 3, SZ / 3, SZ / 3, SZ / 3, SZ / 3);
Q(q_j, 4, SZ / 3, SZ / 3, SZ / 3, SZ / 3, SZ / 3, SZ / 3);
Q(q_k, 4, SZ - 5, 4, 3, 4, SZ - 6, 4, 4);
Q(q_l, 3, SZ / 2 - 1, SZ / 2 - 1, SZ / 2 - 2, 2, SZ / 2, SZ / 2 - 1);
