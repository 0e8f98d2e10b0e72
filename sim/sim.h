// Deterministic simulator core: fibers, scheduler, decisions, simulated heap, synchronisation, time.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <functional>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <unordered_map>
#include <memory>

namespace sim {
typedef uint64_t u64;
typedef uint32_t u32;

// ---- decisions -----------------------------------------------------------------------------
enum Kind {
    K_PREEMPT = 1, // fiber, local step -> 1: yield, >1: delay for v ns
    K_NEXT,        // fiber, switch no  -> index into the runnable order
    K_WAKE,        // fiber, signal no  -> which waiter of a condition is woken
    K_SPUR,        // fiber, wait no    -> spurious wakeup after v ns
    K_LAT,         // direction, seg no -> extra latency ns
    K_SEG,         // direction, seg no -> segment cut after v bytes
    K_INTR,        // fiber, syscall no -> EINTR / interrupted after v-1 bytes
    K_SHORT,       // fiber, syscall no -> transfer at most v bytes (non-blocking paths)
    K_EPOLL,       // fiber, wait no    -> rotation of the ready list
    K_MALLOC,      // fiber, alloc no   -> allocation fails
    K_SYSFAIL,     // fiber, syscall no -> call fails with errno v
    K_DGRAM,       // socket, dgram no  -> 1 lost, 2 duplicated
    K_EVENTS,      // epoll_wait delivers at most v events
    K_N
};
extern const char* kindName[K_N];

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed) {}
    u64 next() { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    u64 range(u64 a, u64 b) { return a + below(b - a + 1); }
    bool chance(u64 ppm) { return below(1000000) < ppm; }
    u64 logu(u64 lo, u64 hi); // log-uniform
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
u64 mix(u64 a, u64 b);

struct Dec { u64 key; u64 v; };
inline u64 deckey(u32 kind, u64 src, u64 n) { return ((u64)kind << 58) | ((src & 0x3FFFFF) << 36) | (n & 0xFFFFFFFFFull); }

// tunables of one run (part of the plan)
struct Tuning {
    int policy = 0;          // 0 run-to-block, 1 random, 2 pct-like priorities
    u64 preemptMean = 0;     // mean number of memory accesses between preemptions (0 = never)
    u64 siteDensity = 0;     // 1/x of the code sites preempt with probability 1/4 (0 = off)
    u64 syncPpm = 0;         // preemption probability at synchronisation and system calls
    u64 delayPpm = 0;        // given a preemption: probability that the fiber is delayed instead
    u64 delayMax = 1000000;  // ns
    u64 spurPpm = 0, latPpm = 0, latMax = 100000, segPpm = 0, intrPpm = 0, shortPpm = 0, epollPpm = 0;
    u64 mallocPpm = 0, sysfailPpm = 0, dropPpm = 0, dupPpm = 0, wakePpm = 0;
    u64 maxSteps = 20000000;
    u64 maxTime = 600ull * 1000000000ull;
};

// ---- fibers --------------------------------------------------------------------------------
enum FState { F_NEW, F_RUN, F_BLOCKED, F_DONE, F_DEAD };
struct Fiber {
    u32 id; int node;
    const char* name;
    FState state = F_NEW;
    void* sp = nullptr; int slot = -1;
    int err = 0;
    const void *sendFrom = nullptr, *sendDst = nullptr; // while blocked in a send: own end, full end
    u64 steps = 0, nextPreempt = ~0ull, lastYield = 0, lastRest = 0, waitFrom = 0;
    u64 nswitch = 0, nsys = 0, nalloc = 0, nsig = 0, nwait = 0, nepoll = 0, nconn = 0, nsock = 0, nshort = 0;
    size_t preIdx = 0; std::vector<Dec> pre; // replay: own preemption points
    const char* why = "";
    u64 wakeSeq = 0;     // incremented on each wake: cancels timers
    bool joined = false, detached = false;
    std::function<void()> fn;
    std::vector<Fiber*> joiners;
    int exitCode = 0;
    u64 prio = 0;
    void* pcs[64]; int depth = 0;
    void* user = nullptr;
    bool opaque = false; // fiber of the harness that may stay blocked at the end
    bool refused = false; // the last datagram was refused by the operating system
    bool harness = false; // system calls of the harness itself: no injected interrupts
    bool noBlock = false; // inside a call that must not wait
    int noFail = 3;      // bit 0: no allocation failures, bit 1: no system call failures injected
};
extern Fiber* cur; extern u64 progressAt; // step of the last observable progress

extern std::vector<Fiber*> fibers;
extern u64 now, steps; extern unsigned char* siteSeen; constexpr u64 siteBytes = 4 << 20; // instrumented accesses reached, by return address
extern Tuning T;
extern bool replaying;

Fiber* spawn(int node, u32 id, const char* name, std::function<void()> fn);
void yield();
void block(const char* why);
void wake(Fiber* f);
bool blockUntil(u64 t, const char* why);     // returns true when the time passed, false when woken
void sleepFor(u64 ns);
void schedPoint();                            // preemption opportunity at a sync operation / system call
void syscallCost(u64 ns);
void at(u64 when, std::function<void()> f);   // simulated-time event
typedef std::vector<Fiber*> WaitQ;
void waitOn(WaitQ& q, const char* why);
void wakeAll(WaitQ& q);
void killNode(int node);                      // all fibers of the node stop; kernel closes its descriptors
bool nodeDead(int node);
void nodeExit(int node);                      // orderly exit(): same for fibers and descriptors

u64 decide(Kind k, u64 src, u64 n, u64 proposed);
extern Rng rngv[K_N];
extern u64 oomNodes;                          // processes that are short of memory at the moment

// ---- results -------------------------------------------------------------------------------
extern u64 fired[K_N];
void trace(u64 a, u64 b = 0);                 // folds into the execution hash
extern u64 traceHash, traceCount;
extern u64 schedHash;                         // interleaving signature: sequence of fiber switches at sites
[[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
extern bool verbose;
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void count(const char* what, u64 n = 1);      // named reach counters

// ---- heap ----------------------------------------------------------------------------------
void* alloc(size_t n, bool zero);
void  release(void* p);
void* reallocate(void* p, size_t n);
void  check(const void* p, size_t n, bool write, void* pc);
struct HeapStat { u64 live, liveBytes; };
HeapStat heapOf(int node);
void heapForget(int node);                    // memory of a dead process
std::string heapLeaks(int node);              // description of the live blocks
u64 heapSerial();                             // id of the latest allocation
u64 heapLiveSince(int node, u64 serial, u64* bytes);

// ---- run -----------------------------------------------------------------------------------
struct Outcome { bool done; };
void setup();                                  // once per process (mappings)
void begin(u64 seed, const Tuning& t, const std::vector<Dec>* replay);
// runs until `finished` says so, nothing can happen any more, or a budget is exceeded.
// returns 0 finished, 1 stuck (nothing can run), 2 step budget, 3 time budget
int runUntil(const std::function<bool()>& finished);
std::string describeBlocked();
extern std::vector<Dec> declog;
extern std::map<std::string, u64> counters;

// kernel side (kernel.cpp)
void kernelReset();
void kernelNodeGone(int node, bool abortive);
}
