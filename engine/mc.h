// Interface between scenarios (compiled with the code under test) and the explorer.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string>
#include <vector>

namespace mc {
struct Scenario {
    const char *name;
    void (*run)();                 // executed by model thread 0; then the process exits normally
    void (*check)();               // oracle, runs after static destruction (uninstrumented helpers)
    void (*prepare)() = nullptr;   // runs in the child's scratch cwd before the model starts
    bool spurious = false;         // explore spurious wake-ups of untimed condition waits
    bool globalClock = false;      // time stamps from one global clock (default: deterministic per thread)
};
void addScenario(const Scenario &s);
struct Reg { Reg(Scenario s) { addScenario(s); } };

// --- helpers callable from scenarios (never scheduling points unless stated) ---
void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // records violation and ends the execution
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // adds to the observation string
void nextThreadIsUser();           // the next thread this thread creates belongs to the scenario, not to the library
void yieldPoint();                 // voluntary scheduling point
int  tid();
bool active();
void setActive(bool);
uint64_t logicalNow();

// message bookkeeping
struct Expect { int tag; int seq; std::string text; int line; std::string level; uint64_t stampBegin, stampEnd; std::string file; bool done; };
// begin/end bracket one logging call of logical thread `tag`
int  logBegin(int tag, const std::string &text, int line, const char *level);
void logEnd(int handle);
extern std::vector<Expect> &expects();
extern uint64_t stamp();           // global event counter (bumped by begin/end/sync)

struct SyncEv { uint64_t stampBegin, stampEnd; std::vector<std::string> paths; std::vector<std::string> durable; std::vector<int> completedBefore; };
int  syncBegin();
void syncEnd(int h);
extern std::vector<SyncEv> &syncs();

std::string slurp(const std::string &path);
std::string durableOf(const std::string &path);   // bytes durable right now
int liveHeapBlocks(size_t atLeast, size_t below);   // number of live model-heap blocks with size in [atLeast, below)
bool cacheGet(const std::string &content, int mode, std::string *raw, long *count, int *rc);
void cachePut(const std::string &content, int mode, const std::string &raw, long count, int rc);
}

#include <thread>
// a thread of the scenario
struct UserThread : std::thread {
    UserThread() = default;
    template <class F, class... A> explicit UserThread(F &&f, A &&...a) : std::thread((mc::nextThreadIsUser(), std::forward<F>(f)), std::forward<A>(a)...) {}
};
