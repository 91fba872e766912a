#include "scen.h"
// --- two producers, small ring ---
static void t1() { for (int i = 0; i < 2; i++) L(1, "T1 m%d", i); }
static void t2() { for (int i = 0; i < 2; i++) L(2, "T2 n%d", i); }
static void two() { UserThread a(t1), b(t2); a.join(); b.join(); }
static mc::Reg r1({"two_producers", two, orc::standard});
static void one() { L(0, "T0 a%d", 1); SYNC(); L(0, "T0 b%d", 2); }
static mc::Reg r2({"one_sync", one, orc::standard});
