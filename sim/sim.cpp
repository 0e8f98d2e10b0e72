#include <sys/time.h>
#include "sim.h"
#include <sys/mman.h>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <unistd.h>
#include <ucontext.h>
#include <threads.h>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <algorithm>
#include <queue>
#include "shared.h"

namespace sim {
u64 oomNodes;
static u64 liveBytes[64]; // per process
const char* kindName[K_N] = { "", "preempt", "next", "wake", "spurious-wakeup", "latency", "segmentation", "eintr", "short-io",
    "epoll-order", "alloc-fail", "syscall-fail", "datagram", "epoll-batch" };

u64 Rng::logu(u64 lo, u64 hi) {
    if (hi <= lo) return lo;
    int a = 63 - __builtin_clzll(lo | 1), b = 63 - __builtin_clzll(hi);
    int e = (int)range(a, b);
    u64 v = (1ull << e) + below(1ull << e);
    return v < lo ? lo : v > hi ? hi : v;
}
u64 mix(u64 a, u64 b) { Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x632BE59BD9B4E019ull + (a << 7))); r.next(); return r.next(); }

Fiber* cur; std::vector<Fiber*> fibers; u64 now, steps, progressAt; unsigned char* siteSeen; Tuning T; bool replaying;
Rng rngv[K_N]; u64 fired[K_N]; u64 traceHash, traceCount, schedHash; bool verbose;
std::vector<Dec> declog; std::map<std::string, u64> counters;
static std::unordered_map<u64, u64> replayTab;
static Rng rngSched, rngSite, rngMisc;
static Fiber* last;
static u64 deadNodes;
static void* schedSp;
struct Ev { u64 t, seq; std::function<void()> f; };
struct EvCmp { bool operator()(const Ev* a, const Ev* b) const { return a->t != b->t ? a->t > b->t : a->seq > b->seq; } };
static std::priority_queue<Ev*, std::vector<Ev*>, EvCmp> evq;
static u64 evSeq;
static unsigned char siteTab[4096];
static bool siteMode;

// ---------------------------------------------------------------- memory layout
static char* const HEAP = (char*)0x100000000000ull; static const size_t HEAPSZ = 2ull << 30;
static char* const STACKS = (char*)0x200000000000ull; static const size_t STKSZ = 192 << 10; static const int NSLOT = 512;
static u32* const GRAN = (u32*)0x300000000000ull;
static size_t brk_;
struct Blk { char* p; size_t n; int node; bool freed; Fiber* by; void* pc; bool forgot; };
static std::vector<Blk> blks;
static std::vector<int> freeSlots; static int nslots;

void setup() {
    auto m = [](void* a, size_t n) {
        void* r = mmap(a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (r != a) { perror("mmap"); _exit(3); }
    };
    m(HEAP, HEAPSZ); m(STACKS, STKSZ * NSLOT); m(GRAN, HEAPSZ / 16 * 4);
    for (int i = 0; i < NSLOT; i++) mprotect(STACKS + i * STKSZ, 4096, PROT_NONE);
}

// ---------------------------------------------------------------- context switch
extern "C" void sim_switch(void** save, void* load);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
)");
static void toSched() { Fiber* f = cur; f->err = errno; sim_switch(&f->sp, schedSp); errno = f->err; }
static void fiberMain() {
    Fiber* f = cur;
    errno = 0;
    f->fn();
    f->state = F_DONE; f->depth = 0;
    for (Fiber* j : f->joiners) wake(j);
    f->joiners.clear();
    trace(0xF1BE, f->id);
    toSched();
    abort();
}

Fiber* spawn(int node, u32 id, const char* name, std::function<void()> fn) {
    Fiber* f = new Fiber();
    f->id = id; f->node = node; f->name = name; f->fn = std::move(fn);
    for (Fiber* o : fibers) if (o->id == id && o->state != F_DONE && o->state != F_DEAD) { fprintf(stderr, "duplicate fiber id %u\n", id); _exit(3); }
    if (!freeSlots.empty()) { f->slot = freeSlots.back(); freeSlots.pop_back(); }
    else { f->slot = nslots++; if (nslots > NSLOT) { fprintf(stderr, "too many fibers\n"); _exit(3); } }
    u64* sp = (u64*)(STACKS + (size_t)(f->slot + 1) * STKSZ);
    *--sp = 0; *--sp = (u64)(void*)fiberMain;
    for (int i = 0; i < 6; i++) *--sp = 0;
    f->sp = sp;
    f->state = F_RUN; f->lastYield = 0;
    f->prio = rngSched.next() | 1;
    if (replaying) {
        for (auto& kv : declog) if ((kv.key >> 58) == K_PREEMPT && ((kv.key >> 36) & 0x3FFFFF) == (id & 0x3FFFFF)) f->pre.push_back({kv.key & 0xFFFFFFFFFull, kv.v});
        std::sort(f->pre.begin(), f->pre.end(), [](const Dec& a, const Dec& b) { return a.key < b.key; });
        f->nextPreempt = f->pre.empty() ? ~0ull : f->pre[0].key;
    } else if (T.preemptMean) f->nextPreempt = 1 + rngSched.below(2 * T.preemptMean);
    auto it = std::upper_bound(fibers.begin(), fibers.end(), id, [](u32 v, Fiber* x) { return v < x->id; });
    fibers.insert(it, f);
    trace(0x5BA, id);
    return f;
}

void trace(u64 a, u64 b) { traceHash = (traceHash ^ (a * 0x9E3779B97F4A7C15ull + b)) * 0xD6E8FEB86659FD93ull; traceHash ^= traceHash >> 32; traceCount++; }
void logf(const char* fmt, ...) {
    if (!verbose) return;
    char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    fprintf(stderr, "[%10.3fus %8llu n%d %s#%u] %s\n", now / 1000.0, (unsigned long long)steps, cur ? cur->node : -1, cur ? cur->name : "-", cur ? cur->id : 0, b);
}
void count(const char* what, u64 n) { counters[what] += n; }

u64 decide(Kind k, u64 src, u64 n, u64 proposed) {
    u64 v;
    if (replaying) {
        auto it = replayTab.find(deckey(k, src, n));
        v = it == replayTab.end() ? 0 : it->second;
    } else {
        v = proposed;
        if (v) declog.push_back({deckey(k, src, n), v});
    }
    if (v) { fired[k]++; trace(0xDEC0 + k, v); if (k != K_NEXT && k != K_PREEMPT) logf("decision %s src=%llu n=%llu v=%llu", kindName[k], (unsigned long long)src, (unsigned long long)n, (unsigned long long)v); }
    return v;
}

void at(u64 when, std::function<void()> f) { evq.push(new Ev{when < now ? now : when, evSeq++, std::move(f)}); }

// fairness of the priority policy: who only ever computes or polls, and is merely preempted, does not keep its rank for ever
static void rested() { if (cur->steps - cur->lastRest > 40000) { cur->lastRest = cur->steps; cur->prio = rngSched.next() >> 8; } }
static void preempt(u64 v) {
    // v==1: plain yield, otherwise delay
    if (v > 1) { u64 rest = cur->lastRest; blockUntil(now + v, "delayed"); cur->lastRest = rest; }
    else { rested(); cur->state = F_RUN; cur->lastYield = cur->steps; last = cur; toSched(); }
}
static u64 proposePreempt() {
    if (T.delayPpm && rngSched.chance(T.delayPpm)) return rngSched.logu(1000, T.delayMax);
    return 1;
}
static bool inSched;
static __attribute__((noinline)) void preemptHere() {
    Fiber* f = cur; u64 v;
    if (replaying) { v = 0; while (f->preIdx < f->pre.size() && f->pre[f->preIdx].key <= f->steps) { if (f->pre[f->preIdx].key == f->steps) v = f->pre[f->preIdx].v; f->preIdx++; }
        f->nextPreempt = f->preIdx < f->pre.size() ? f->pre[f->preIdx].key : ~0ull; if (v) { fired[K_PREEMPT]++; trace(0xDEC1, v); } }
    else { f->nextPreempt = T.preemptMean ? f->steps + 1 + rngSched.below(2 * T.preemptMean) : ~0ull;
        v = decide(K_PREEMPT, f->id, f->steps, proposePreempt()); }
    if (v) preempt(v);
}
static inline void step(void* pc) {
    Fiber* f = cur;
    steps++; f->steps++; now += 1;
    if (siteSeen) { u64 o = (u64)pc - 0x400000; if (o < siteBytes) siteSeen[o] = 1; }
    if (__builtin_expect(f->steps >= f->nextPreempt, 0)) preemptHere();
    else if (siteMode && siteTab[((u64)pc >> 1) & 4095] && !replaying) {
        if ((rngSite.next() & 3) == 0) { u64 v = decide(K_PREEMPT, f->id, f->steps, proposePreempt()); if (v) preempt(v); }
    }
    if (__builtin_expect(f->steps - f->lastYield > 40000, 0)) { // fairness: nobody computes for ever
        f->lastYield = f->steps; f->prio = rngSched.next() >> 8; f->state = F_RUN; last = f; count("forced-preemption"); toSched();
    }
}
void schedPoint() {
    if (!cur) return;
    Fiber* f = cur;
    steps++; f->steps++; now += 10;
    if (f->steps >= f->nextPreempt) { preemptHere(); return; }
    if (!replaying && T.syncPpm && rngSched.chance(T.syncPpm)) { u64 v = decide(K_PREEMPT, f->id, f->steps, proposePreempt()); if (v) preempt(v); }
    if (f->steps - f->lastYield > 40000) { f->lastYield = f->steps; f->prio = rngSched.next() >> 8; f->state = F_RUN; last = f; toSched(); }
}
void syscallCost(u64 ns) { now += ns; steps += 20; }
void yield() { rested(); cur->state = F_RUN; cur->lastYield = cur->steps; last = cur; toSched(); }
void block(const char* why) { cur->state = F_BLOCKED; cur->why = why; cur->lastYield = cur->lastRest = cur->steps; last = cur; toSched(); }
void wake(Fiber* f) { if (f->state == F_BLOCKED) { f->state = F_RUN; f->wakeSeq++; } }
bool blockUntil(u64 t, const char* why) {
    Fiber* f = cur; u64 s = f->wakeSeq; bool timed = false;
    at(t, [f, s, &timed]() { if (f->state == F_BLOCKED && f->wakeSeq == s) { timed = true; f->state = F_RUN; f->wakeSeq++; } });
    block(why);
    return timed;
}
void sleepFor(u64 ns) { u64 t = now + ns; while (now < t) blockUntil(t, "sleep"); }
void waitOn(WaitQ& q, const char* why) {
    q.push_back(cur); block(why);
    // when woken by somebody else (timer), leave the queue
    for (size_t i = 0; i < q.size(); i++) if (q[i] == cur) { q.erase(q.begin() + i); break; }
}
void wakeAll(WaitQ& q) { WaitQ t; t.swap(q); for (Fiber* f : t) wake(f); }

bool nodeDead(int node) { return (deadNodes >> node) & 1; }
static void stopNode(int node, bool abortive) {
    if (nodeDead(node)) return;
    deadNodes |= 1ull << node;
    for (Fiber* f : fibers) if (f->node == node && f->state != F_DONE) { f->state = F_DEAD; f->wakeSeq++; }
    heapForget(node);
    kernelNodeGone(node, abortive);
    trace(0xDEAD, node);
    if (cur && cur->node == node) { toSched(); abort(); }
}
void killNode(int node) { stopNode(node, true); }
void nodeExit(int node) { stopNode(node, false); }

static int pickIndex(const std::vector<Fiber*>& r) {
    // r is in default order
    if (r.size() == 1) return 0;
    u64 prop = 0;
    if (!replaying) {
        if (T.policy == 1) prop = rngSched.below(r.size());
        else if (T.policy == 2) { for (size_t i = 1; i < r.size(); i++) if (r[i]->prio > r[prop]->prio) prop = i;
            for (size_t i = 0; i < r.size(); i++) { if (!r[i]->waitFrom) r[i]->waitFrom = steps; else if (steps - r[i]->waitFrom > 60000) { prop = i; r[i]->prio = ~0ull >> 8; break; } } r[prop]->waitFrom = 0; }
        else if (T.policy == 3) prop = rngSched.below(4) == 0 ? rngSched.below(r.size()) : 0;
    }
    Fiber* src = last ? last : r[0];
    u64 v = decide(K_NEXT, src->id, src->nswitch++, prop);
    return (int)(v % r.size());
}

std::string describeBlocked() {
    std::string s;
    for (Fiber* f : fibers) if (f->state == F_BLOCKED || f->state == F_RUN) {
        char b[200]; snprintf(b, sizeof b, "%s%s#%u(node %d): %s", s.empty() ? "" : "; ", f->name, f->id, f->node, f->state == F_RUN ? "running" : f->why); s += b; }
    return s;
}

int runUntil(const std::function<bool()>& finished) {
    std::vector<Fiber*> r;
    while (true) {
        if (finished()) return 0;
        if (steps - progressAt > T.maxSteps) return 2;
        if (steps > 20 * T.maxSteps) return 4;
        if (now > T.maxTime) return 3;
        while (!evq.empty() && evq.top()->t <= now) { Ev* e = evq.top(); evq.pop(); e->f(); delete e; }
        r.clear();
        // default order: the fiber that ran last if it merely blocked is not here; cyclic by id after `last`
        size_t n = fibers.size(), st = 0;
        if (last) { while (st < n && fibers[st]->id <= last->id) st++; }
        for (size_t i = 0; i < n; i++) { Fiber* f = fibers[(st + i) % n]; if (f->state == F_RUN) r.push_back(f); }
        if (r.empty()) {
            if (evq.empty()) return 1;
            u64 t = evq.top()->t; if (t > now) now = t;
            continue;
        }
        Fiber* f = r[pickIndex(r)];
        if (f != last) schedHash = (schedHash ^ (f->id * 0x9E3779B97F4A7C15ull + (u64)(f->depth ? (u64)f->pcs[f->depth - 1 < 63 ? f->depth - 1 : 63] : 0))) * 0xD6E8FEB86659FD93ull;
        trace(0x5C4ED, ((u64)f->id << 40) ^ f->steps);
        cur = f; last = f;
        sim_switch(&schedSp, f->sp);
        cur = nullptr;
        // drop finished fibers from the list now and then
        if (f->state == F_DONE || f->state == F_DEAD) {
            if (f->slot >= 0 && f->state == F_DONE) { freeSlots.push_back(f->slot); f->slot = -1; }
            for (size_t i = 0; i < fibers.size();) { Fiber* g = fibers[i]; if ((g->state == F_DONE || g->state == F_DEAD)) { fibers.erase(fibers.begin() + i); } else i++; }
        }
    }
}

// ---------------------------------------------------------------- begin
void begin(u64 seed, const Tuning& t, const std::vector<Dec>* rp) {
    T = t; replaying = rp != nullptr;
    declog.clear(); replayTab.clear();
    if (rp) { declog = *rp; for (auto& d : declog) replayTab[d.key] = d.v; }
    else declog.reserve(4096);
    for (int i = 0; i < K_N; i++) rngv[i] = Rng(mix(seed, 100 + i));
    rngSched = Rng(mix(seed, 1)); rngSite = Rng(mix(seed, 2)); rngMisc = Rng(mix(seed, 3));
    now = 1000; steps = progressAt = 0; traceHash = 0x1234567; traceCount = 0; schedHash = 7;
    siteMode = t.siteDensity != 0 && !replaying;
    if (siteMode) for (int i = 0; i < 4096; i++) siteTab[i] = rngSite.below(t.siteDensity) == 0;
    blks.push_back({});
    memset(liveBytes, 0, sizeof liveBytes);
    brk_ = 64; 
    kernelReset();
}

// ---------------------------------------------------------------- violations
void violate(const char* cls, const char* fmt, ...) {
    char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    Shared* s = shm;
    if (verbose) logf("VIOLATION %s: %s", cls, b);
    s->violated = 1; s->maintained = 0;
    snprintf(s->cls, sizeof s->cls, "%s", cls);
    snprintf(s->msg, sizeof s->msg, "%s", b);
    s->npcs = 0;
    if (cur) for (int i = cur->depth < 64 ? cur->depth : 64; i > 0 && s->npcs < 16; i--) s->pcs[s->npcs++] = (u64)cur->pcs[i - 1];
    finishRun();
    _exit(0);
}

// ---------------------------------------------------------------- heap
void* alloc(size_t n, bool zero) {
    size_t need = ((n + 15) & ~15ull) + 32 + (n ? 0 : 16);
    if (brk_ + need + 64 > HEAPSZ) violate("resource:heap", "simulated heap of %zu MB exhausted", HEAPSZ >> 20);
    char* p = HEAP + brk_ + 32;
    u32 id = (u32)blks.size();
    blks.push_back({p, n, cur ? cur->node : -1, false, cur, cur && cur->depth ? cur->pcs[cur->depth < 64 ? cur->depth - 1 : 63] : nullptr, false});
    for (size_t g = 0; g < ((n + 15) >> 4); g++) GRAN[((size_t)(p - HEAP) >> 4) + g] = id;
    brk_ += need;
    int nd = cur && cur->node >= 0 && cur->node < 64 ? cur->node : 63;
    if ((liveBytes[nd] += n) > (96ull << 20)) violate("resource:heap", "%s process holds more than 96 MB of memory (now asking for %zu bytes)", nd == 0 ? "the server" : "a client", n);
    memset(p, zero ? 0 : 0xCD, n);
    return p;
}
static Blk* blkOf(const void* p) {
    if ((const char*)p < HEAP || (const char*)p >= HEAP + brk_) return nullptr;
    u32 id = GRAN[((const char*)p - HEAP) >> 4];
    return id ? &blks[id] : nullptr;
}
void release(void* p) {
    if (!p) return;
    Blk* b = blkOf(p);
    if (!b && (char*)p >= HEAP && (char*)p < HEAP + brk_) { // zero-sized block?
        for (auto& x : blks) if (x.p == p) { b = &x; break; }
    }
    if (!b || b->p != p) violate("memory:bad-free", "free of %p which is not the start of an allocated block", p);
    if (b->freed) violate("memory:double-free", "double free of a %zu byte block", b->n);
    b->freed = true; { int nd = b->node >= 0 && b->node < 64 ? b->node : 63; liveBytes[nd] -= b->n; }
    memset(b->p, 0xDD, b->n);
}
void* reallocate(void* p, size_t n) {
    if (!p) return alloc(n, false);
    Blk* b = blkOf(p);
    if (!b || b->p != p || b->freed) violate("memory:bad-free", "realloc of %p which is not a live block", p);
    size_t old = b->n;
    void* q = alloc(n, false);
    memcpy(q, p, old < n ? old : n);
    release(p);
    return q;
}
static __attribute__((noinline)) void badAccess(const void* p, size_t n, bool write) {
    u32 id = GRAN[((const char*)p - HEAP) >> 4];
    if (!id) { u32 id2 = GRAN[((const char*)p - HEAP + n - 1) >> 4]; if (id2) id = id2; }
    if (!id) { // redzone: find the neighbour
        for (int k = 1; k < 5 && !id; k++) if (((const char*)p - HEAP) >= k * 16) id = GRAN[(((const char*)p - HEAP) >> 4) - k];
    }
    Blk* b = id ? &blks[id] : nullptr;
    if (b && b->freed) violate("memory:use-after-free", "%s of %zu bytes at offset %ld of a freed %zu byte block", write ? "write" : "read", n, (long)((const char*)p - b->p), b->n);
    violate("memory:out-of-bounds", "%s of %zu bytes at offset %ld of a %zu byte block", write ? "write" : "read", n, b ? (long)((const char*)p - b->p) : -1L, b ? b->n : 0);
}
static inline void checkFast(const void* p, size_t n, bool write) {
    size_t off = (size_t)((const char*)p - HEAP);
    if (off >= HEAPSZ) return;
    if (!n) return;
    u32 id = GRAN[off >> 4];
    if (__builtin_expect(id, 1)) { Blk& b = blks[id]; if (__builtin_expect(!b.freed && (const char*)p >= b.p && (const char*)p + n <= b.p + b.n, 1)) return; }
    badAccess(p, n, write);
}
void check(const void* p, size_t n, bool write, void*) { checkFast(p, n, write); }
HeapStat heapOf(int node) { HeapStat h{0, 0}; for (size_t i = 1; i < blks.size(); i++) if (!blks[i].freed && !blks[i].forgot && blks[i].node == node) { h.live++; h.liveBytes += blks[i].n; } return h; }
void heapForget(int node) { for (auto& b : blks) if (b.node == node) b.forgot = true; }
u64 heapSerial() { return blks.size(); }
u64 heapLiveSince(int node, u64 serial, u64* bytes) { u64 c = 0, by = 0; for (size_t i = serial; i < blks.size(); i++) if (!blks[i].freed && blks[i].node == node && !blks[i].forgot) { c++; by += blks[i].n; } if (bytes) *bytes = by; return c; }
std::string heapLeaks(int node) {
    std::string s; int k = 0;
    for (size_t i = 1; i < blks.size() && k < 6; i++) if (!blks[i].freed && !blks[i].forgot && blks[i].node == node) { char t[80]; snprintf(t, sizeof t, "%s%zu bytes", k ? ", " : "", blks[i].n); s += t; k++;
        if (shm->npcs2 < 8) shm->pcs2[shm->npcs2++] = (u64)blks[i].pc; }
    return s;
}

static void onSignal(int sig, siginfo_t* si, void*) {
    static int once; if (once++) _exit(4);
    if (!cur) { fprintf(stderr, "signal %d outside a fiber, address %p\n", sig, si->si_addr); _exit(4); }
    violate(sig == SIGSEGV || sig == SIGBUS ? "memory:invalid-access" : sig == SIGFPE ? "crash:SIGFPE" : sig == SIGABRT ? "crash:abort" : "crash:SIGILL", "signal %d, address %p, in %s#%u", sig, si->si_addr, cur->name, cur->id);
}
void installHandlers() {
    static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
}

// ---------------------------------------------------------------- synchronisation
struct Mx { bool starved = false; Fiber* owner = nullptr; int depth = 0; bool rec = false; bool errchk = false; WaitQ q; };
struct Cv { WaitQ q; };
struct Rw { int readers = 0; Fiber* writer = nullptr; WaitQ q; };
struct Sem { long v = 0; WaitQ q; };
static std::unordered_map<uintptr_t, Mx> mxs; static std::unordered_map<uintptr_t, Cv> cvs; static std::unordered_map<uintptr_t, Rw> rws; static std::unordered_map<uintptr_t, Sem> sems;
static void mxInit(void* m, bool rec) { check(m, sizeof(mtx_t), true, nullptr); memset(m, 0, sizeof(mtx_t)); Mx& x = mxs[(uintptr_t)m]; x = Mx(); x.rec = rec; if (rec) ((pthread_mutex_t*)m)->__data.__kind = PTHREAD_MUTEX_RECURSIVE; }
static Mx& mx(void* m) {
    check(m, sizeof(mtx_t), true, nullptr);
    auto it = mxs.find((uintptr_t)m);
    if (it == mxs.end()) { Mx& x = mxs[(uintptr_t)m]; x.rec = ((pthread_mutex_t*)m)->__data.__kind == PTHREAD_MUTEX_RECURSIVE; return x; }
    return it->second;
}
static int mxLock(void* m, u64 deadline = 0) {
    schedPoint();
    Mx* x = &mx(m); int tries = 0;
    while (x->owner) {
        if (x->owner == cur && x->rec) { x->depth++; return 0; }
        if (x->owner->state == F_DONE) { /* locked by a thread that ended: stays locked */ }
        if (deadline && now >= deadline) return ETIMEDOUT;
        if (deadline) { x->q.push_back(cur); blockUntil(deadline, "mutex"); for (size_t i = 0; i < x->q.size(); i++) if (x->q[i] == cur) { x->q.erase(x->q.begin() + i); break; } }
        else waitOn(x->q, "mutex");
        x = &mx(m); tries++; if (tries > 3 && x->owner) x->starved = true;
    }
    x->owner = cur; x->depth = 1; if (tries > 3) x->starved = false;
    return 0;
}
static int mxTry(void* m) {
    schedPoint();
    Mx& x = mx(m);
    if (x.owner) { if (x.owner == cur && x.rec) { x.depth++; return 0; } return EBUSY; }
    x.owner = cur; x.depth = 1; return 0;
}
static int mxUnlock(void* m, bool point = true) {
    Mx& x = mx(m);
    if (x.rec && x.owner == cur && --x.depth > 0) return 0;
    x.owner = nullptr; x.depth = 0; bool unfair = x.starved && !x.q.empty(); x.starved = false;
    wakeAll(x.q);
    if (unfair && point) { cur->prio = rngSched.next() >> 8; yield(); } // fairness: somebody keeps losing the race for this lock
    else if (point) schedPoint();
    return 0;
}
static void mxDestroy(void* m) { check(m, sizeof(mtx_t), true, nullptr); mxs.erase((uintptr_t)m); }
static Cv& cv(void* c) { check(c, sizeof(cnd_t), true, nullptr); return cvs[(uintptr_t)c]; }
static int cvWait(void* c, void* m, u64 deadline = 0) {
    if (cur->noBlock) violate("wait:blocked", "a non-blocking wait for messages waits for another thread");
    schedPoint();
    Cv* x = &cv(c);
    Mx& mm = mx(m);
    int savedDepth = mm.owner == cur ? mm.depth : 1;
    mm.depth = 1;
    mxUnlock(m, false);
    Fiber* f = cur;
    u64 prop = 0;
    if (!replaying && T.spurPpm && rngv[K_SPUR].chance(T.spurPpm)) prop = rngv[K_SPUR].logu(100, 200000);
    u64 sp = decide(K_SPUR, f->id, f->nwait++, prop);
    x->q.push_back(f);
    bool timed = false;
    u64 lim = deadline; if (sp && (!lim || now + sp < lim)) lim = now + sp;
    if (lim) { bool t = blockUntil(lim, "condition"); timed = t && deadline && now >= deadline; if (t && !timed) count("spurious-wakeups"); }
    else block("condition");
    x = &cv(c);
    for (size_t i = 0; i < x->q.size(); i++) if (x->q[i] == f) { x->q.erase(x->q.begin() + i); break; }
    mxLock(m);
    mx(m).depth = savedDepth;
    return timed ? ETIMEDOUT : 0;
}
static void cvSignal(void* c, bool all) {
    schedPoint();
    Cv& x = cv(c);
    if (x.q.empty()) { count("signal-without-waiter"); return; }
    if (all) { wakeAll(x.q); return; }
    u64 prop = 0;
    if (!replaying && x.q.size() > 1 && T.wakePpm && rngv[K_WAKE].chance(T.wakePpm)) prop = rngv[K_WAKE].below(x.q.size());
    u64 v = decide(K_WAKE, cur->id, cur->nsig++, prop) % x.q.size();
    Fiber* f = x.q[v]; x.q.erase(x.q.begin() + v); wake(f);
}
static u64 absNs(const struct timespec* ts) { return ts ? (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec : 0; }

// threads
static std::unordered_map<u64, Fiber*> thr; static u32 thrSeq[64];
static std::unordered_map<u64, u64> tss; static u32 tssSeq = 1;
static bool sysFail(int err) {
    if (!cur || (cur->noFail & 2)) return false;
    u64 prop = (!replaying && T.sysfailPpm && rngv[K_SYSFAIL].chance(T.sysfailPpm)) ? err : 0;
    return decide(K_SYSFAIL, cur->id, cur->nsys++, prop) != 0;
}
static int thrCreate(u64* t, std::function<void(Fiber*)> body) {
    schedPoint();
    if (sysFail(EAGAIN)) { count("thread-create-fail"); return EAGAIN; }
    u32 id = 2000 + (u32)cur->node * 400 + thrSeq[cur->node]++;
    check(t, 8, true, nullptr);
    Fiber* holder = nullptr; (void)holder;
    Fiber* f = spawn(cur->node, id, "thread", nullptr);
    f->fn = [f, body]() { body(f); };
    f->noFail = 3; // setup faults stay with the thread that sets up
    *t = 0x7fff00000000ull + id;
    thr[*t] = f;
    count("threads");
    return 0;
}
struct ThreadExit {};
static int thrJoin(u64 t, int* code) {
    schedPoint();
    auto it = thr.find(t);
    if (it == thr.end() || it->second->joined) violate("crash:bad-join", "join of a thread that does not exist");
    Fiber* f = it->second; f->joined = true;
    while (f->state != F_DONE) { f->joiners.push_back(cur); block("join"); }
    if (code) *code = f->exitCode;
    return 0;
}
} // namespace sim
using namespace sim;

// ================================================================ interposed C library
extern "C" {
// ---- memory
static bool mallocFails() {
    if (!cur || ((cur->noFail & 1) && !(cur->depth && (oomNodes >> (cur->node & 63) & 1)))) return false;
    u64 prop = (!replaying && T.mallocPpm && rngv[K_MALLOC].chance(T.mallocPpm)) ? 1 : 0;
    return decide(K_MALLOC, cur->id, cur->nalloc++, prop) != 0;
}
void* sim_malloc(size_t n) { if (mallocFails()) { errno = ENOMEM; return nullptr; } return alloc(n, false); }
void* sim_calloc(size_t a, size_t b) { if (mallocFails()) { errno = ENOMEM; return nullptr; } return alloc(a * b, true); }
void* sim_realloc(void* p, size_t n) { if (mallocFails()) { errno = ENOMEM; return nullptr; } return reallocate(p, n); }
void* sim_reallocarray(void* p, size_t a, size_t b) { return sim_realloc(p, a * b); }
void* sim_aligned_alloc(size_t a, size_t n) { (void)a; return sim_malloc(n); }
int   sim_posix_memalign(void** p, size_t a, size_t n) { (void)a; void* q = sim_malloc(n); if (!q) return ENOMEM; *p = q; return 0; }
void  sim_free(void* p) { release(p); }
char* sim_strdup(const char* s);
size_t sim_strlen(const char* s) { size_t n = 0; while (true) { checkFast(s + n, 1, false); if (!s[n]) return n; n++; } }
size_t sim_strnlen(const char* s, size_t m) { size_t n = 0; while (n < m) { checkFast(s + n, 1, false); if (!s[n]) return n; n++; } return n; }
char* sim_strdup(const char* s) { size_t n = sim_strlen(s); char* p = (char*)sim_malloc(n + 1); if (p) memcpy(p, s, n + 1); return p; }
char* sim_strndup(const char* s, size_t m) { size_t n = sim_strnlen(s, m); char* p = (char*)sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
char* sim_strcpy(char* d, const char* s) { size_t n = sim_strlen(s); checkFast(d, n + 1, true); return (char*)memmove(d, s, n + 1); }
char* sim_strncpy(char* d, const char* s, size_t m) { size_t n = sim_strnlen(s, m); checkFast(d, m, true); memmove(d, s, n); memset(d + n, 0, m - n); return d; }
int   sim_strcmp(const char* a, const char* b) { sim_strlen(a); sim_strlen(b); return strcmp(a, b); }
static void overlap(const void* d, const void* s, size_t n) { if (d != s && n && (const char*)d < (const char*)s + n && (const char*)s < (const char*)d + n) violate("memory:overlapping-copy", "memcpy of %zu bytes between areas that overlap", n); }
void* sim_memcpy(void* d, const void* s, size_t n) { if (cur) overlap(d, s, n); checkFast(s, n, false); checkFast(d, n, true); return memmove(d, s, n); }
void* sim_memmove(void* d, const void* s, size_t n) { checkFast(s, n, false); checkFast(d, n, true); return memmove(d, s, n); }
void* sim_memset(void* d, int c, size_t n) { checkFast(d, n, true); return memset(d, c, n); }
int   sim_memcmp(const void* a, const void* b, size_t n) { checkFast(a, n, false); checkFast(b, n, false); return memcmp(a, b, n); }
// ---- output
int sim_printf(const char* f, ...) { if (verbose) { va_list ap; va_start(ap, f); char b[400]; vsnprintf(b, sizeof b, f, ap); va_end(ap); size_t n = strlen(b); if (n && b[n-1] == '\n') b[n-1] = 0; logf("lib: %s", b); } return 0; }
int sim_fprintf(FILE*, const char* f, ...) { (void)f; return 0; }
int sim_vprintf(const char*, va_list) { return 0; }
int sim_vfprintf(FILE*, const char*, va_list) { return 0; }
int sim_puts(const char* s) { logf("lib: %s", s); return 0; }
int sim_putchar(int c) { return c; }
int sim_fputs(const char*, FILE*) { return 0; }
int sim_fputc(int c, FILE*) { return c; }
int sim_fflush(FILE*) { return 0; }
void sim_perror(const char*) {}
void sim___assert_fail(const char* e, const char* file, unsigned line, const char*) { violate("crash:assert", "assertion failed: %s (%s:%u)", e, file, line); }
void sim_abort() { violate("crash:abort", "abort() called"); }
void sim_exit(int c) { violate("crash:exit", "exit(%d) called by the library", c); }
// ---- C11 threads
int sim_mtx_init(mtx_t* m, int type) { mxInit(m, type & mtx_recursive); return thrd_success; }
void sim_mtx_destroy(mtx_t* m) { mxDestroy(m); }
int sim_mtx_lock(mtx_t* m) { return mxLock(m) ? thrd_error : thrd_success; }
int sim_mtx_trylock(mtx_t* m) { return mxTry(m) ? thrd_busy : thrd_success; }
int sim_mtx_timedlock(mtx_t* m, const struct timespec* ts) { return mxLock(m, absNs(ts)) ? thrd_timedout : thrd_success; }
int sim_mtx_unlock(mtx_t* m) { mxUnlock(m); return thrd_success; }
int sim_cnd_init(cnd_t* c) { check(c, sizeof *c, true, nullptr); cvs[(uintptr_t)c] = Cv(); return thrd_success; }
void sim_cnd_destroy(cnd_t* c) { check(c, sizeof *c, true, nullptr); cvs.erase((uintptr_t)c); }
int sim_cnd_wait(cnd_t* c, mtx_t* m) { cvWait(c, m); return thrd_success; }
int sim_cnd_timedwait(cnd_t* c, mtx_t* m, const struct timespec* ts) { return cvWait(c, m, absNs(ts)) ? thrd_timedout : thrd_success; }
int sim_cnd_signal(cnd_t* c) { cvSignal(c, false); return thrd_success; }
int sim_cnd_broadcast(cnd_t* c) { cvSignal(c, true); return thrd_success; }
int sim_thrd_create(thrd_t* t, thrd_start_t fn, void* arg) { return thrCreate((u64*)t, [fn, arg](Fiber* f) { f->exitCode = fn(arg); }) ? thrd_error : thrd_success; }
int sim_thrd_join(thrd_t t, int* c) { thrJoin((u64)t, c); return thrd_success; }
int sim_thrd_detach(thrd_t) { return thrd_success; }
thrd_t sim_thrd_current() { return (thrd_t)(0x7fff00000000ull + cur->id); }
int sim_thrd_equal(thrd_t a, thrd_t b) { return a == b; }
void sim_thrd_yield() { schedPoint(); yield(); }
int sim_thrd_sleep(const struct timespec* d, struct timespec*) { sleepFor(absNs(d)); return 0; }
void sim_call_once(once_flag* f, void (*fn)()) { if (!*(int*)f) { *(int*)f = 1; fn(); } }
int sim_tss_create(tss_t* k, tss_dtor_t) { *k = tssSeq++; return thrd_success; }
void* sim_tss_get(tss_t k) { auto it = tss.find(((u64)cur->id << 32) | k); return it == tss.end() ? nullptr : (void*)it->second; }
int sim_tss_set(tss_t k, void* v) { tss[((u64)cur->id << 32) | k] = (u64)v; return thrd_success; }
void sim_tss_delete(tss_t) {}
int sim_pthread_key_create(pthread_key_t* k, void (*)(void*)) { *k = tssSeq++; return 0; }
int sim_pthread_key_delete(pthread_key_t) { return 0; }
void* sim_pthread_getspecific(pthread_key_t k) { return sim_tss_get(k); }
int sim_pthread_setspecific(pthread_key_t k, const void* v) { return sim_tss_set(k, (void*)v); }
// thread-local variables of the library belong to the simulated thread
struct EmuTls { size_t size, align; void* id; void* templ; };
void* sim___emutls_get_address(EmuTls* o) { static std::map<std::pair<u32, void*>, void*> m; void*& p = m[{cur->id, (void*)o}]; if (!p) { p = calloc(1, o->size); if (o->templ) memcpy(p, o->templ, o->size); } return p; }
// ---- pthreads
int sim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { int k = 0; if (a) pthread_mutexattr_gettype(a, &k); mxInit(m, k == PTHREAD_MUTEX_RECURSIVE); return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t* m) { mxDestroy(m); return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t* m) { return mxLock(m); }
int sim_pthread_mutex_trylock(pthread_mutex_t* m) { return mxTry(m); }
int sim_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { return mxLock(m, absNs(ts)); }
int sim_pthread_mutex_unlock(pthread_mutex_t* m) { return mxUnlock(m); }
int sim_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { check(c, sizeof *c, true, nullptr); cvs[(uintptr_t)c] = Cv(); return 0; }
int sim_pthread_cond_destroy(pthread_cond_t* c) { check(c, sizeof *c, true, nullptr); cvs.erase((uintptr_t)c); return 0; }
int sim_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cvWait(c, m); }
int sim_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return cvWait(c, m, absNs(ts)); }
int sim_pthread_cond_signal(pthread_cond_t* c) { cvSignal(c, false); return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t* c) { cvSignal(c, true); return 0; }
int sim_pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) { return thrCreate((u64*)t, [fn, arg](Fiber* f) { f->exitCode = (int)(intptr_t)fn(arg); }); }
int sim_pthread_join(pthread_t t, void** r) { int c = 0; thrJoin((u64)t, &c); if (r) *r = (void*)(intptr_t)c; return 0; }
int sim_pthread_detach(pthread_t) { return 0; }
pthread_t sim_pthread_self() { return (pthread_t)(0x7fff00000000ull + cur->id); }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sim_pthread_once(pthread_once_t* o, void (*fn)()) { if (!*(int*)o) { *(int*)o = 1; fn(); } return 0; }
int sim_pthread_sigmask(int, const sigset_t*, sigset_t*) { return 0; }
int sim_sched_yield() { schedPoint(); yield(); return 0; }
static int rwl(pthread_rwlock_t* l, bool w, bool tr) {
    check(l, sizeof *l, true, nullptr); schedPoint(); Rw* x = &rws[(uintptr_t)l];
    while (w ? (x->readers || x->writer) : (x->writer != nullptr)) { if (tr) return EBUSY; waitOn(x->q, "rwlock"); check(l, sizeof *l, true, nullptr); x = &rws[(uintptr_t)l]; }
    if (w) x->writer = cur; else x->readers++; return 0; }
int sim_pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { check(l, sizeof *l, true, nullptr); rws[(uintptr_t)l] = Rw(); return 0; }
int sim_pthread_rwlock_destroy(pthread_rwlock_t* l) { check(l, sizeof *l, true, nullptr); rws.erase((uintptr_t)l); return 0; }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rwl(l, false, false); }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t* l) { return rwl(l, true, false); }
int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return rwl(l, false, true); }
int sim_pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return rwl(l, true, true); }
int sim_pthread_rwlock_unlock(pthread_rwlock_t* l) { check(l, sizeof *l, true, nullptr); Rw& x = rws[(uintptr_t)l]; if (x.writer) x.writer = nullptr; else if (x.readers) x.readers--; wakeAll(x.q); schedPoint(); return 0; }
int sim_pthread_spin_init(pthread_spinlock_t* l, int) { mxInit((void*)l, false); return 0; }
int sim_sem_init(sem_t* s, int, unsigned v) { check(s, sizeof *s, true, nullptr); sems[(uintptr_t)s] = Sem(); sems[(uintptr_t)s].v = v; return 0; }
int sim_sem_destroy(sem_t* s) { sems.erase((uintptr_t)s); return 0; }
int sim_sem_wait(sem_t* s) { schedPoint(); while (sems[(uintptr_t)s].v <= 0) waitOn(sems[(uintptr_t)s].q, "semaphore"); sems[(uintptr_t)s].v--; return 0; }
int sim_sem_trywait(sem_t* s) { schedPoint(); if (sems[(uintptr_t)s].v <= 0) { errno = EAGAIN; return -1; } sems[(uintptr_t)s].v--; return 0; }
int sim_sem_post(sem_t* s) { sems[(uintptr_t)s].v++; wakeAll(sems[(uintptr_t)s].q); schedPoint(); return 0; }
// ---- time
static void nowTs(struct timespec* ts) { schedPoint(); ts->tv_sec = now / 1000000000ull; ts->tv_nsec = now % 1000000000ull; }
int sim_clock_gettime(clockid_t, struct timespec* ts) { nowTs(ts); return 0; }
int sim_gettimeofday(struct timeval* tv, void*) { struct timespec ts; nowTs(&ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
int sim_timespec_get(struct timespec* ts, int b) { nowTs(ts); return b; }
time_t sim_time(time_t* t) { schedPoint(); time_t v = now / 1000000000ull; if (t) *t = v; return v; }
int sim_nanosleep(const struct timespec* d, struct timespec*) { sleepFor(absNs(d)); return 0; }
int sim_usleep(unsigned us) { sleepFor(us * 1000ull); return 0; }
unsigned sim_sleep(unsigned s) { sleepFor(s * 1000000000ull); return 0; }
int sim_rand() { return (int)(rngMisc.next() & 0x7fffffff); }
int sim_getpid() { return cur ? 100 + cur->node : 1; }

// ================================================================ compiler callbacks
#define PC __builtin_return_address(0)
#define ACC(n, w) do { if (__builtin_expect(!!cur, 1)) { checkFast(p, n, w); step(PC); checkFast(p, n, w); } } while (0)
#define RW(N) \
 void __tsan_read##N(void* p) { ACC(N, false); } void __tsan_write##N(void* p) { ACC(N, true); } \
 void __tsan_unaligned_read##N(void* p) { ACC(N, false); } void __tsan_unaligned_write##N(void* p) { ACC(N, true); } \
 void __tsan_read_write##N(void* p) { ACC(N, true); } void __tsan_unaligned_read_write##N(void* p) { ACC(N, true); } \
 void __tsan_volatile_read##N(void* p) { ACC(N, false); } void __tsan_volatile_write##N(void* p) { ACC(N, true); } \
 void __tsan_unaligned_volatile_read##N(void* p) { ACC(N, false); } void __tsan_unaligned_volatile_write##N(void* p) { ACC(N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void __tsan_init() {}
void __tsan_func_entry(void* pc) { if (cur) { if (cur->depth < 64) cur->pcs[cur->depth] = PC; cur->depth++; (void)pc; } }
void __tsan_func_exit() { if (cur && cur->depth > 0) cur->depth--; }
void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
static void* tsanCopy(void* d, const void* s, size_t n, void* pc) { if (cur) { checkFast(s, n, false); checkFast(d, n, true); step(pc); checkFast(s, n, false); checkFast(d, n, true); } return memmove(d, s, n); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (cur) overlap(d, s, n); return tsanCopy(d, s, n, PC); }
void* __tsan_memmove(void* d, const void* s, size_t n) { return tsanCopy(d, s, n, PC); }
void* __tsan_memset(void* d, int c, size_t n) { if (cur) { checkFast(d, n, true); step(PC); checkFast(d, n, true); } return memset(d, c, n); }
#define ATOM(B, TY) \
 TY __tsan_atomic##B##_load(const volatile TY* p, int) { ACC_A(p, false); return *p; } \
 void __tsan_atomic##B##_store(volatile TY* p, TY v, int) { ACC_A(p, true); *p = v; } \
 TY __tsan_atomic##B##_exchange(volatile TY* p, TY v, int) { ACC_A(p, true); TY o = *p; *p = v; return o; } \
 TY __tsan_atomic##B##_fetch_add(volatile TY* p, TY v, int) { ACC_A(p, true); TY o = *p; *p = o + v; return o; } \
 TY __tsan_atomic##B##_fetch_sub(volatile TY* p, TY v, int) { ACC_A(p, true); TY o = *p; *p = o - v; return o; } \
 TY __tsan_atomic##B##_fetch_and(volatile TY* p, TY v, int) { ACC_A(p, true); TY o = *p; *p = o & v; return o; } \
 TY __tsan_atomic##B##_fetch_or(volatile TY* p, TY v, int) { ACC_A(p, true); TY o = *p; *p = o | v; return o; } \
 TY __tsan_atomic##B##_fetch_xor(volatile TY* p, TY v, int) { ACC_A(p, true); TY o = *p; *p = o ^ v; return o; } \
 TY __tsan_atomic##B##_fetch_nand(volatile TY* p, TY v, int) { ACC_A(p, true); TY o = *p; *p = ~(o & v); return o; } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile TY* p, TY* e, TY v, int, int) { ACC_A(p, true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
 int __tsan_atomic##B##_compare_exchange_weak(volatile TY* p, TY* e, TY v, int, int) { ACC_A(p, true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
 TY __tsan_atomic##B##_compare_exchange_val(volatile TY* p, TY e, TY v, int, int) { ACC_A(p, true); TY o = *p; if (o == e) *p = v; return o; }
#define ACC_A(p, w) do { if (cur) { checkFast((const void*)p, sizeof *p, w); step(PC); checkFast((const void*)p, sizeof *p, w); } } while (0)
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
