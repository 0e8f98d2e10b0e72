// Plan generator: seed -> workload, configuration and fault rates for one property.
#include "plan.h"
#include <algorithm>
#include <cstring>
namespace sim {
enum { G_ECHO = 1, G_PUT = 2, G_POST = 3, G_LATER = 4, G_FAN = 5, G_MANY = 6, G_ALL = 9, G_TICK = 11 };
struct Gen {
    Plan p; Rng r; int tier; bool regActs = false; int nextNode = 1, nextId = 1; u32 maxmsg = 2048; bool smallCap = false; int fnMask = 0x27E; u64 svcMask = 15; u32 maxDelay = 300; bool acts = true; u32 lenCap = ~0u; u32 deferMax = 60; bool plain = false;
    Gen(const std::string& prop, u64 seed, int t) : r(mix(seed, 0x6e6e + prop[1] * 256 + prop[2])), tier(t) { p.prop = prop; p.seed = mix(seed, (u64)prop[1] * 10 + prop[2]); }
    bool ch(int pct) { return (int)r.below(100) < pct; }
    u64 pick(std::initializer_list<u64> l) { return *(l.begin() + r.below(l.size())); }
    Actor& add(int kind, int node = -1, int parent = -1) { Actor a; a.id = nextId++; a.kind = kind; a.node = node >= 0 ? node : nextNode++; a.parent = parent; a.start = ch(60) ? 0 : r.logu(1, 2000); p.actors.push_back(a); return p.actors.back(); }
    static void op(Actor& a, int code, u64 x = 0, u64 y = 0, u64 z = 0, u64 w = 0, u64 v = 0) { Op o; o.code = code; o.a[0] = x; o.a[1] = y; o.a[2] = z; o.a[3] = w; o.a[4] = v; a.ops.push_back(o); }
    // ---- environment
    void tune(int netFaults, int sched = 85) { // chance in percent that a family is active
        Tuning& t = p.t; t.maxSteps = 40000000; t.maxTime = 60ull * 1000000000ull;
        if (ch(sched)) {
            t.policy = (int)pick({0, 1, 1, 2, 3});
            switch (r.below(5)) { case 0: t.preemptMean = r.logu(20, 300); break; case 1: t.preemptMean = r.logu(100, 4000); break; case 2: t.siteDensity = r.logu(16, 600); break; case 3: t.preemptMean = r.logu(500, 20000); t.siteDensity = r.logu(64, 1000); break; default: break; }
            if (ch(60)) t.syncPpm = r.logu(5000, 500000);
            if (ch(50)) { t.delayPpm = r.logu(5000, 300000); t.delayMax = r.logu(5000, 2000000); }
            if (ch(30)) t.spurPpm = r.logu(10000, 400000);
            if (ch(50)) t.wakePpm = 500000;
            if (ch(50)) t.epollPpm = r.logu(50000, 800000);
        }
        if (ch(netFaults)) {
            if (ch(60)) { t.latPpm = r.logu(10000, 700000); t.latMax = r.logu(2000, 1000000); }
            if (ch(60)) t.segPpm = r.logu(5000, 700000);
            if (ch(40)) t.intrPpm = r.logu(5000, 300000);
            if (ch(40)) t.shortPpm = r.logu(5000, 500000);
            if (ch(30)) p.n.lat = r.logu(100, 200000);
        }
    }
    void conf(int small = 25) {
        p.cfg["workers"] = pick({0, 0, 1, 2, 2, 3, 4, 8});
        maxmsg = (u32)pick({256, 512, 1024, 2048, 2048, 4096, 8192}); p.cfg["maxmsg"] = maxmsg;
        p.cfg["mode"] = ch(25) ? r.range(1, 2) : 0; if (p.cfg["mode"]) p.cfg["batch"] = pick({1, 2, 8, 32});
        p.cfg["links"] = pick({1, 1, 2, 2, 3}); p.cfg["shortaddr"] = ch(20);
        if (ch(20)) p.cfg["usersend"] = 1; if (ch(20)) p.cfg["rbuf"] = pick({1, 600, 5000, 200000});
        if (ch(small)) { smallCap = true; p.n.cap = r.logu(16, 3000); }
        else if (ch(2)) p.cfg["maxmsg"] = maxmsg = (u32)r.range(65600, 140000); // lengths that need more than 16 bits
    }
    int slink() { u64 l = p.cfg["links"]; int a[2], n = 0; if (l & 1) a[n++] = 0; if (l & 2) a[n++] = 1; return n ? a[r.below(n)] : 0; }
    u32 len() { u32 m = std::min(maxmsg, lenCap); switch (r.below(8)) { case 0: return 0; case 1: return maxmsg <= lenCap ? maxmsg : lenCap; case 2: return (u32)r.below(m + 1); case 3: return (u32)r.below(m / 2 + 1); default: return (u32)r.below(std::min<u32>(m, 120)); } }
    u64 act() { return !acts ? 0 : regActs && ch(25) ? (u64)ACT_REG : ch(82) ? 0 : pick({ACT_BCAST, ACT_TARGET, ACT_ANSWER, ACT_BCAST_AFTER}); }
    u64 delay() { return ch(70) ? 0 : r.logu(1, maxDelay); }
    u64 svcfn(bool raw = false) { // a function that answers
        for (;;) { int s = (int)r.below(4); if (ch(50)) s = 0; if (!(svcMask >> s & 1)) continue; if (s) return (u64)s * 16 + 1; int f = (int)pick({G_ECHO, G_ECHO, G_PUT, G_LATER, G_FAN, G_MANY, G_ALL}); if (!(fnMask >> f & 1)) { f = G_ECHO; } if (raw && (f == G_PUT || f == G_MANY || f == G_ALL)) f = G_ECHO; return (u64)f; } }
    u64 strange() { return 256 + pick({2, 31, 33, 62, 64, 253, 252, 3, 127, 128, 95, 96, 223, r.below(255)}); }
    u64 subOf() { return ch(12) ? 255 : ch(12) ? strange() : (u64)svc(); }
    int svc() { for (;;) { int s = (int)r.below(4); if (svcMask >> s & 1) return s; } }
    u64 a4(u64 sf) { u64 cnt = sf == G_FAN ? r.range(1, 8) : sf == G_MANY ? r.range(1, 5) : sf == G_LATER ? r.logu(1, deferMax) : 0; return act() | delay() << 8 | cnt << 40; }
    void call(Actor& a, int slot) { u64 sf = svcfn(); op(a, O_CALL, slot, sf, len(), len(), a4(sf)); }
    void awaitOps(Actor& a, u32 mask, bool pump) {
        if (!mask) return;
        int one = __builtin_ctz(mask);
        switch (r.below(pump ? 8 : 10)) {
        case 0: case 1: case 2: op(a, O_AWAIT, mask, 1 | (pump && ch(60) ? 2 : 0) | (ch(20) ? 4 : 0)); break;
        case 3: case 4: op(a, O_AWAIT, mask, (pump && ch(60) ? 2 : 0)); break;
        case 5: op(a, O_AWAIT, 1u << one, 1 | 8 | (pump && ch(60) ? 2 : 0)); break;
        case 6: op(a, O_WAITCTX, one); break;
        case 7: op(a, O_POLLCTX, one); break;
        case 8: op(a, O_PUMPBLK, r.range(1, 4)); break;
        default: op(a, O_PUMPNB, r.range(1, 10)); break;
        }
    }
    // a mixture of calls and ways of waiting for them
    void mix_(Actor& a, int n, bool pump = false, int subPct = 0, int postPct = 15, int maxOut = 10) {
        u32 used = 0;
        for (int k = 0; k < n; k++) {
            int d = (int)r.below(100);
            if (d < subPct) { op(a, ch(50) ? O_SUB : O_UNSUB, subOf()); continue; }
            if (d < subPct + postPct) { op(a, O_POST, svc(), len(), act() | delay() << 8); continue; }
            if (d == 93 && !pump && ch(30)) { op(a, ch(50) ? O_UNREGP : O_REGP, svc()); continue; }
            if (d == 95 && ch(30)) { op(a, O_DUMMY, r.below(256), r.range(1, 40), r.range(1, 3)); continue; }
            if (d > 96) { op(a, O_SLEEP, r.logu(1, 500)); continue; }
            if (d > 93) { op(a, O_COLLECT, used); continue; }
            if (smallCap) { int s = (int)r.below(4); call(a, s); used |= 1u << s; op(a, O_AWAIT, 1u << s, 1 | (pump && ch(50) ? 2 : 0)); used &= ~(1u << s); continue; }
            if (__builtin_popcount(used) < maxOut && ch(60)) { int s; do s = (int)r.below(12); while (used >> s & 1); call(a, s); used |= 1u << s; }
            else { u32 m = 0; for (int s = 0; s < 12; s++) if ((used >> s & 1) && ch(50)) m |= 1u << s; if (!m) m = used; awaitOps(a, m, pump); if (ch(50)) { op(a, O_AWAIT, m, 1); used &= ~m; } }
        }
        if (used && ch(50)) op(a, O_AWAIT, used, 1);
    }
    // many calls outstanding at once
    void burst(Actor& a, int n = 0) {
        if (smallCap) { mix_(a, 6); return; }
        if (!n) n = (int)r.range(12, 30); u32 mask = 0;
        for (int s = 0; s < n; s++) { u64 sf = svcfn(); if (sf == G_FAN || sf == G_MANY) sf = G_ECHO; op(a, O_CALL, s, sf, len() % 700, len() % 400, a4(sf)); mask |= 1u << s; }
        switch (r.below(4)) {
        case 0: for (int k = 0; k < 3; k++) op(a, O_AWAIT, mask, 0); break;
        case 1: for (int s = n; s-- > 0;) if (ch(60)) op(a, O_WAITCTX, s); break;
        case 2: op(a, O_AWAIT, mask & (u32)r.next(), 1); break; default: break; }
        op(a, O_AWAIT, mask, 1);
    }
    // many connections at once: the tables of the server grow and shrink
    int deep(int n) { return tier && n ? n * (int)pick({1, 1, 2, 4}) : n; } // thorough tier: longer histories
    void crowd(int n = 0) {
        if (!n) n = (int)r.range(13, 40);
        for (int k = 0; k < n && nextId < 70; k++) { Actor& a = add(A_RAW, 38); if (ch(50)) a.start = r.logu(1, 3000); op(a, R_CONN, slink()); int m = (int)r.range(1, 3); for (int z = 0; z < m; z++) { if (ch(20)) op(a, ch(50) ? R_SUB : R_UNSUB, subOf()); u64 keep = lenCap; lenCap = 120; rcall(a); lenCap = (u32)keep; if (ch(50)) op(a, R_DRAIN); if (ch(30)) op(a, R_SLEEP, r.logu(1, 3000)); } op(a, R_DRAIN); if (ch(60)) op(a, R_SLEEP, r.range(500, 4000)); if (ch(40)) op(a, ch(80) ? R_CLOSE : R_RST); }
    }
    // control requests in great number
    void toggles(Actor& a, int n) { bool rw = a.kind == A_RAW; for (int k = 0; k < n; k++) op(a, rw ? (ch(50) ? R_SUB : R_UNSUB) : (ch(50) ? O_SUB : O_UNSUB), subOf()); }
    Actor& client(int n, int threads = 0, bool pump = false, int subPct = 0, int postPct = 15, int link = -1) { n = deep(n);
        size_t ix = p.actors.size(); add(A_CLIENT); int id = p.actors[ix].id, node = p.actors[ix].node;
        op(p.actors[ix], O_CONNECT, link >= 0 ? link : slink());
        int mo = threads ? 5 : 10; mix_(p.actors[ix], n, pump, threads ? 0 : subPct, postPct, mo);
        if (pump) add(A_PUMP, node, id);
        for (int t = 0; t < threads; t++) { Actor& x = add(A_THREAD, node, id); mix_(x, n, pump, 0, postPct, mo); }
        return p.actors[ix];
    }
    // threads whose calls are answered only by the handlers of what another thread of the same client calls meanwhile
    void depend(bool pump = false) {
        size_t ix = p.actors.size(); add(A_CLIENT); int id = p.actors[ix].id, node = p.actors[ix].node; op(p.actors[ix], O_CONNECT, slink()); if (ch(50)) mix_(p.actors[ix], (int)r.range(1, 5), pump, 0, 15, 4); op(p.actors[ix], O_RESCUE);
        if (pump) add(A_PUMP, node, id); int threads = (int)r.range(1, 3);
        for (int t = 0; t < threads; t++) { Actor& x = add(A_THREAD, node, id); int m = (int)r.range(1, 6); u32 used = 0; for (int k = 0; k < m; k++) { op(x, O_CALL, k, G_LATER, len() % 500, 4, 0xFFFFFFull << 40 | delay() << 8); used |= 1u << k; if (smallCap || ch(50)) { awaitOps(x, used, pump); op(x, O_AWAIT, used, 1); used = 0; } } if (used) op(x, O_AWAIT, used, 1); }
    }
    u64 firstId() { return ch(70) ? 0 : pick({2, 254, 65530, 0xfffe, 0x7ffffffc, 0x80000000ull, 0xfffffffcull, r.next() & 0x7fffffff}); }
    void rcall(Actor& a, u64 id = 0, bool later = false) { u64 sf = later ? (u64)G_LATER : svcfn(true); op(a, R_CALL, sf, len(), std::min<u32>(len(), 4000), a4(sf), (ch(30) ? r.range(2, 6) : 1) << 32 | id); }
    Actor& raw(int n, int link = -1) { n = deep(n); Actor& a = add(A_RAW); op(a, R_CONN, link >= 0 ? link : slink(), firstId());
        int out = 0; for (int k = 0; k < n; k++) { int d = (int)r.below(10); if (d < 5 && out < 6) { rcall(a); out++; if (smallCap) { op(a, R_DRAIN); out = 0; } } else if (d < 6) op(a, R_CALL, G_POST, len(), 0, 0, 1ull << 32); else if (d < 7) op(a, R_SLEEP, r.logu(1, 300)); else if (d == 7) { op(a, ch(50) ? R_SUB : R_UNSUB, subOf()); } else { op(a, R_DRAIN); out = 0; } }
        op(a, R_DRAIN); return a; }
    // an application thread of the server that sends events
    Actor& app(int n, bool answer = false, int gap = 200) { n = deep(n); Actor& a = add(A_APP, 0); for (int k = 0; k < n; k++) { int d = (int)r.below(10); if (answer && d < 5) op(a, S_ANSWER, r.range(1, 3), r.next() & 0xffff); else if (d < 6) op(a, S_BCAST, svc(), len() % 700, plain || ch(60) ? 0 : r.range(1, 2)); else if (d < 8) op(a, S_TARGET, r.range(1, (u64)std::max(1, nextId - 1)), svc(), len() % 700); if (ch(70)) op(a, S_SLEEP, r.logu(1, gap)); } return a; }
    void stalled() { Actor& a = add(A_RAW); op(a, R_CONN, slink()); op(a, R_SLEEP, r.range(1000, 30000)); op(a, R_CLOSE); }
    // an actor that does damage to itself
    void breaker() {
        if (ch(50)) { Actor& a = add(A_RAW);
            int reps = (int)r.range(1, 4);
            for (int k = 0; k < reps; k++) { op(a, R_CONN, slink()); if (ch(30)) op(a, R_SLEEP, r.logu(1, 200)); int n = (int)r.below(5); for (int q = 0; q < n; q++) { rcall(a); if (smallCap) op(a, R_DRAIN); } if (ch(25)) op(a, R_CALL, G_POST, len(), 0, 0, 1ull << 32); if (ch(30)) op(a, R_DRAIN); if (smallCap && ch(20)) { rcall(a); op(a, ch(50) ? R_CLOSE : R_RST); continue; }
                switch (r.below(5)) { case 0: op(a, R_CUT, r.below(2), len(), r.next() & 0xffff, r.below(4)); if (ch(50)) op(a, R_SLEEP, r.logu(1, 300)); op(a, ch(50) ? R_CLOSE : R_RST); break; case 1: op(a, R_RST); break; case 2: op(a, R_CUT, r.below(2), len(), r.below(12), 0); op(a, R_CLOSE); break; case 3: if (k == reps - 1) { op(a, O_KILL); break; } /* fallthrough */ default: op(a, R_CLOSE); }
                if (ch(40)) op(a, R_SLEEP, r.logu(1, 500)); } }
        else { size_t ix = p.actors.size(); bool pump = ch(30); add(A_CLIENT); int id = p.actors[ix].id, node = p.actors[ix].node; op(p.actors[ix], O_CONNECT, slink()); mix_(p.actors[ix], (int)r.range(1, 8), pump); 
            bool nem = ch(50); if (!nem) { if (!smallCap) for (int k = (int)r.below(4); k > 0; k--) call(p.actors[ix], 12 + k); switch (r.below(4)) { case 0: op(p.actors[ix], O_CLOSE, 2); break; case 1: op(p.actors[ix], O_CLOSE, 1); break; default: op(p.actors[ix], O_KILL); } }
            if (pump) add(A_PUMP, node, id); else if (ch(30)) { Actor& t = add(A_THREAD, node, id); mix_(t, (int)r.range(1, 6)); }
            if (nem) { Actor& x = add(A_NEM, 39); op(x, N_SLEEP, r.logu(1, 4000)); op(x, ch(50) ? N_KILL : N_RESET, (u64)id, r.below(2)); } }
    }
    void witness(int n = 1) { for (int k = 0; k < n; k++) client((int)r.range(4, 16), ch(25) ? 1 : 0, false, 5); }
};
static void vast(Gen& g) { if (g.smallCap || !g.ch(3)) return; g.p.cfg["workers"] = g.r.range(6, 16); g.maxmsg = (u32)g.r.range(30000, 100000); g.p.cfg["maxmsg"] = g.maxmsg; } // the arena reaches its largest size
// many clients that do not read for a while: every worker is stuck with a response
static void jam(Gen& g, int rounds = 0) {
    g.smallCap = true; g.p.n.cap = g.r.logu(16, 400); g.p.cfg["workers"] = g.r.range(9, 16); g.p.cfg["maxmsg"] = g.maxmsg = (u32)g.pick({256, 512, 1024, 2048}); g.acts = false;
    int n = (int)g.r.range(10, 18);
    for (int k = 0; k < n; k++) { Actor& a = g.add(A_RAW, 38); if (g.ch(70)) a.start = 0;
        for (int q = 0; q < std::max(1, rounds); q++) { bool dry = rounds && q == 2; int z = dry ? 1 : (int)g.r.range(1, 3);
            while (z-- > 0) { Gen::op(a, R_CONN, g.slink()); if (!rounds || dry) Gen::op(a, R_SLEEP, 1500); Gen::op(a, R_CALL, g.pick({G_ECHO, G_ECHO, 17, 33}), g.r.below(20), dry || g.ch(80) ? g.maxmsg : g.len(), g.delay() << 8, 1ull << 32); if (dry) Gen::op(a, R_SLEEP, 600); if (dry && !k) Gen::op(a, O_MEM, 1); if (!rounds || dry) Gen::op(a, R_SLEEP, g.r.range(2000, 8000)); if (!dry && g.ch(80)) Gen::op(a, R_DRAIN); Gen::op(a, g.ch(85) ? R_CLOSE : R_RST); }
            if (rounds) Gen::op(a, O_ROUND, (u64)q + 1 + (q > 2));
            if (dry) { if (!k) Gen::op(a, O_MEM, 0); Gen::op(a, O_ROUND, 4); } } }
    if (!rounds && g.ch(50)) g.witness();
}
static void namedPkt(Gen& g, int n, bool later = false);
// the server is short of memory for a while and has to be as good as before afterwards
static void scarce(Gen& g) {
    g.p.t.mallocPpm = g.pick({200000, 500000, 900000, 900000}); g.p.cfg["regmask"] = 15; g.p.cfg["betaFns"] = 3;
    if (g.ch(35)) { g.p.cfg["tight"] = 1; jam(g, 4); return; }
    g.smallCap = false; g.p.n.cap = 262144; g.acts = false; g.p.cfg["workers"] = g.pick({0, 2, 2, 2, 3}); int n = g.ch(35) ? (int)g.r.range(14, 22) : (int)g.r.range(1, 5), posts = n > 5 ? 0 : g.ch(70) ? (int)g.r.range(40, 110) : 4; bool flood = g.ch(35); if (flood) { n = (int)g.r.range(3, 5); posts = 110; g.p.cfg["workers"] = 2; g.p.cfg["maxmsg"] = g.maxmsg = 256; g.p.t.mallocPpm = g.pick({900000, 970000}); }
    for (int k = 0; k < n; k++) { Actor& a = g.add(A_RAW, 38); a.start = 0; bool persist = g.ch(20); if (persist) Gen::op(a, R_CONN, g.slink());
        int rd = 1; for (int q = 1; q <= 6; q++) { bool dry = flood ? q > 1 && q < 6 : q == 3;
            if (dry) { if (!k) Gen::op(a, O_MEM, 1); Gen::op(a, O_ROUND, rd++); }
            if (!persist) Gen::op(a, R_CONN, g.slink());
            int m = dry && posts ? (int)g.r.range(posts / 2, posts) : (int)g.r.range(1, 6);
            if (dry && posts > 4 && (flood ? !k : g.ch(80))) for (int e = 0; e < (int)g.p.cfg["workers"]; e++) Gen::op(a, R_CALL, G_POST, 0, 0, (flood ? g.r.range(800, 1500) : g.r.range(150, 1000)) << 8, 1ull << 32);
            for (int e = 0; e < m; e++) { if (dry ? g.ch(flood ? 99 : posts > 4 ? 92 : 50) : g.ch(40)) Gen::op(a, R_CALL, g.ch(25) ? 50 : G_POST, dry && g.ch(flood ? 95 : 70) ? g.maxmsg - g.r.below(flood ? 60 : 200) : g.len(), 0, (dry ? g.r.range(1, 12) : g.delay()) << 8, 1ull << 32); else if (dry && g.ch(30)) Gen::op(a, g.ch(60) ? R_SUB : R_UNSUB, g.subOf()); else if (dry && g.ch(30)) Gen::op(a, R_BAD, g.pick({2, 3, 5}), g.r.next() & 0xffff, g.len() % 100); else { Gen::op(a, R_CALL, g.pick({G_ECHO, G_FAN, G_ECHO, 17}), g.len(), std::min<u32>(g.len(), 2000), 2ull << 40, 1ull << 32); if (!dry) Gen::op(a, R_DRAIN); } if (!dry && g.ch(30)) Gen::op(a, R_DRAIN); }
            if (dry) Gen::op(a, R_SLEEP, g.r.range(500, 20000)); else { Gen::op(a, R_DRAIN); if (g.ch(50)) Gen::op(a, R_SLEEP, g.r.logu(1, 3000)); }
            if (!persist || dry) Gen::op(a, g.ch(80) ? R_CLOSE : R_RST);
            Gen::op(a, O_ROUND, rd++);
            if (dry) { if (!k) Gen::op(a, O_MEM, 0); Gen::op(a, O_ROUND, rd++); }
            if (dry && persist) { Gen::op(a, R_SLEEP, 10); Gen::op(a, R_CONN, g.slink()); } } }
    if (g.ch(25)) { g.p.cfg["links"] |= 8; g.p.n.dgramQueue = 4000; namedPkt(g, (int)g.r.range(1, 3)); }
    if (g.ch(30)) { g.p.cfg["links"] |= 8; g.p.n.dgramQueue = 4000; Actor& a = g.add(A_RAW); a.start = 0; int rd = 1; // a packet client that subscribes while there is no memory
        for (int q = 1; q <= 6; q++) { bool dry = flood ? q > 1 && q < 6 : q == 3; if (dry) Gen::op(a, O_ROUND, rd++); Gen::op(a, R_CONN, 3, g.firstId(), g.r.range(1, 90)); for (int e = (int)g.r.range(1, 4); e > 0; e--) { Gen::op(a, g.ch(65) ? R_SUB : R_UNSUB, g.ch(20) ? 255 : (u64)g.svc()); if (g.ch(40)) Gen::op(a, R_SLEEP, g.r.logu(1, 500)); } Gen::op(a, R_CLOSE); Gen::op(a, O_ROUND, rd++); if (dry) Gen::op(a, O_ROUND, rd++); } }
}
// client processes that are short of memory: what fails is reported and can be repeated
static void poor(Gen& g) {
    g.plain = true; g.acts = false;
    g.smallCap = false; g.p.n.cap = 262144; g.p.t.mallocPpm = g.pick({50000, 200000, 500000, 800000}); g.fnMask = 1 << G_ECHO | 1 << G_LATER | 1 << G_FAN; g.p.cfg["regmask"] = 15; g.p.cfg["betaFns"] = 3; int n = (int)g.r.range(1, 3);
    for (int k = 0; k < n; k++) { size_t ix = g.p.actors.size(); g.add(A_CLIENT); int id = g.p.actors[ix].id, node = g.p.actors[ix].node; bool pump = g.ch(25); Actor& a = g.p.actors[ix]; int reps = (int)g.r.range(1, 3);
        for (int q = 0; q < reps; q++) { Gen::op(a, O_CONNECT, g.slink()); if (g.ch(40)) g.mix_(a, 4, pump, 5, 15, 5); Gen::op(a, O_MEM, 1, 1); if (g.ch(60)) g.burst(a, (int)g.r.range(5, 30)); else g.mix_(a, (int)g.r.range(5, 20), pump, 5, 15, 10); if (g.ch(70)) Gen::op(a, O_MEM, 0, 1); if (g.ch(50)) g.burst(a, 14); Gen::op(a, O_AWAIT, ~0u >> 1, 1); Gen::op(a, O_MEM, 0, 1); Gen::op(a, O_CLOSE, g.r.below(3)); if (pump) break; }
        if (pump) g.add(A_PUMP, node, id); else if (g.ch(30) && reps == 1) { Actor& t = g.add(A_THREAD, node, id); g.mix_(t, (int)g.r.range(3, 12)); } }
    if (g.ch(50)) g.app((int)g.r.range(2, 10), true);
}
// the same few steps again and again: nothing may pile up, however little it is
static void steady(Gen& g) {
    g.smallCap = false; g.p.n.cap = 262144; g.p.cfg["workers"] = g.r.below(2); g.p.cfg["maxmsg"] = g.maxmsg = (u32)g.pick({256, 512, 1024}); g.p.cfg["steady"] = 1; g.p.cfg["links"] = g.pick({1, 2}); g.acts = false; g.p.cfg["regmask"] = 1 | g.r.below(16); g.p.cfg["betaFns"] = g.r.range(0, 3);
    if (g.ch(20)) { // every response may come twice
        g.p.cfg["links"] = 5; g.p.cfg["regmask"] = 15; g.p.cfg["betaFns"] = 3; g.p.cfg["rbuf"] = 1; g.p.n.dgramQueue = 4000; g.p.n.dgramFaults = true; g.p.t.dropPpm = 0; g.p.t.dupPpm = g.r.logu(100000, 700000); Actor& a = g.add(A_CLIENT); Gen::op(a, O_CONNECT, 2); int m = (int)g.r.range(4, 8), rounds = (int)g.r.range(5, 8);
        for (int q = 1; q <= rounds; q++) { for (int z = 0; z < 4; z++) { for (int e = 0; e < m; e++) Gen::op(a, O_CALL, (u64)e, G_ECHO, (u64)e * 9, (u64)e * 7, 0); Gen::op(a, O_SLEEP, g.r.range(100, 2000)); Gen::op(a, O_PUMPNB, (u64)m * 2 + 2); for (int e = 0; e < m; e++) Gen::op(a, O_POLLCTX, (u64)e, 20000); Gen::op(a, O_PUMPNB, 10); } Gen::op(a, O_ROUND, (u64)q); }
        return; }
    bool rw = g.ch(50), persist = g.ch(50); Actor& a = g.add(rw ? A_RAW : A_CLIENT); int lk = g.slink(), m = (int)g.r.range(15, 60), kind = (int)g.r.below(4); std::vector<Op> body;
    { Actor t; for (int e = 0; e < m; e++) {
        int d = kind == 3 ? (int)g.r.below(3) : kind;
        if (rw) switch (d) { case 0: Gen::op(t, R_BAD, g.pick({2, 3, 5}), g.r.next() & 0xffff, g.r.below(40)); Gen::op(t, R_DRAIN); break; case 1: g.rcall(t); Gen::op(t, R_DRAIN); break; default: Gen::op(t, R_SUB, g.subOf()); Gen::op(t, R_UNSUB, g.ch(50) ? 255 : (u64)g.svc()); }
        else switch (d) { case 0: g.call(t, 0); Gen::op(t, O_AWAIT, 1, g.r.below(2)); Gen::op(t, O_AWAIT, 1, 1); break; case 1: { for (int q = 0; q < 3; q++) g.call(t, q); Gen::op(t, O_WAITCTX, 0); Gen::op(t, O_AWAIT, 7, 0); Gen::op(t, O_AWAIT, 7, 1); break; } default: Gen::op(t, O_SUB, g.subOf()); Gen::op(t, O_UNSUB, g.ch(50) ? 255 : (u64)g.svc()); }
        if (!persist && g.ch(25)) { if (!rw && g.ch(50)) g.call(t, 9); Gen::op(t, rw ? R_CLOSE : O_CLOSE, g.r.below(2)); Gen::op(t, rw ? R_CONN : O_CONNECT, lk); } }
      body = t.ops; }
    if (persist) Gen::op(a, rw ? R_CONN : O_CONNECT, lk);
    int rounds = (int)g.r.range(5, 9); for (int q = 1; q <= rounds; q++) { if (!persist) Gen::op(a, rw ? R_CONN : O_CONNECT, lk); for (auto& o : body) a.ops.push_back(o); if (!persist) Gen::op(a, rw ? R_CLOSE : O_CLOSE, g.r.below(2)); Gen::op(a, O_ROUND, (u64)q); }
}
// more failures of one kind than a server with workers has receive buffers: each of them must give its buffer back
static void attrition(Gen& g) {
    g.tune(15, 40); g.smallCap = false; g.p.n.cap = 262144; int w = (int)g.pick({2, 2, 3}); g.p.cfg["workers"] = (u64)w; g.p.cfg["maxmsg"] = g.maxmsg = (u32)g.pick({256, 256, 512}); g.acts = false; g.lenCap = 60; g.p.cfg["regmask"] = 15; g.p.cfg["betaFns"] = 3; g.p.cfg.erase("cmaxmsg");
    bool pk = g.ch(15); if (pk) { g.p.cfg["links"] |= 8; g.p.n.dgramQueue = 4000; }
    Actor& a = g.add(A_RAW); a.start = 0; u64 lk = g.slink(); int n = w * 32 + (int)g.r.range(5, 50); u64 k1 = g.r.below(8), k2 = g.ch(60) ? k1 : g.r.below(8), v = g.r.next();
    bool open = false; u64 bk = g.pick({0, 2, 3, 5, 5});
    for (int q = 0; q < n; q++) {
        u64 kind = g.ch(50) ? k1 : k2; if (pk) kind = 8; if (g.ch(30)) v = g.r.next();
        if (!open && kind != 8) { Gen::op(a, R_CONN, lk); open = true; }
        switch (kind) {
        case 0: Gen::op(a, R_BAD, 0, v % 11, 0); break;
        case 1: Gen::op(a, R_BAD, 1, g.pick({0, 1, 600, 100000, 0x7fffffff}), v % 300); break;
        case 2: Gen::op(a, R_CUT, v & 1, g.len(), v % 11, v >> 8 & 3); break;
        case 3: Gen::op(a, R_CUT, v & 1, g.len(), 11 + v % 12, v >> 8 & 3); break;
        case 4: Gen::op(a, R_BAD, bk ? bk : g.pick({2, 3, 5}), v & 0xffff, g.r.below(40)); if (g.ch(50)) { Gen::op(a, R_DRAIN); continue; } break;
        case 5: g.rcall(a); if (g.ch(50)) { Gen::op(a, R_DRAIN); continue; } break;
        case 6: Gen::op(a, R_BAD, 6, v % 512, 0); Gen::op(a, R_DRAIN); break;
        case 7: if (g.ch(60)) { Gen::op(a, g.ch(50) ? R_SUB : R_UNSUB, g.subOf()); continue; } break;
        default: Gen::op(a, R_DGRAM, 3, v % 8, v >> 8 & 0xffff); if (g.ch(20)) Gen::op(a, R_SLEEP, g.r.logu(1, 200)); continue; }
        Gen::op(a, g.ch(80) ? R_CLOSE : R_RST); open = false;
    }
    if (open) Gen::op(a, R_CLOSE); for (int z = 0; z < 3; z++) { Gen::op(a, R_CONN, lk); g.rcall(a); Gen::op(a, R_DRAIN); Gen::op(a, R_CLOSE); }
    if (g.ch(50)) g.witness();
}
static void extras(Gen& g, int pct) { // rarer shapes of load that any server has to cope with
    if (!g.ch(pct)) return;
    switch (g.r.below(3)) {
    case 0: if (!g.smallCap) g.crowd(); break;
    case 1: { size_t ix = g.p.actors.size(); g.add(A_CLIENT); Gen::op(g.p.actors[ix], O_CONNECT, g.slink()); for (int k = (int)g.r.range(1, 2); k > 0; k--) g.burst(g.p.actors[ix]); break; }
    default: { bool rw = g.ch(50); size_t ix = g.p.actors.size(); g.add(rw ? A_RAW : A_CLIENT); Gen::op(g.p.actors[ix], rw ? R_CONN : O_CONNECT, g.slink()); g.toggles(g.p.actors[ix], (int)g.r.range(20, 90)); } }
}
// a call that stays open while the message ids of the client run a long way ahead
static void marathon(Gen& g) {
    size_t ix = g.p.actors.size(); g.add(A_CLIENT); Actor& a = g.p.actors[ix]; Gen::op(a, O_CONNECT, g.slink()); u32 keep = g.lenCap; g.lenCap = 100; if (g.ch(50)) g.mix_(a, (int)g.r.range(1, 6)); u32 held = 0;
    for (int k = (int)g.r.range(1, 2); k > 0; k--) { int h = 20 + k; Gen::op(a, O_CALL, (u64)h, G_LATER, g.len(), g.len(), g.r.range(2000, 60000) << 40); held |= 1u << h; u64 w = g.pick({256, 256, 512, 65536}); Gen::op(a, O_BURN, w - 1 - g.r.below(4)); int m = g.smallCap ? 1 : (int)g.r.range(1, 6); u32 used = 0; for (int q = 0; q < m; q++) { u64 sf = g.svcfn(); if (g.ch(60)) sf = g.ch(50) ? G_ECHO : G_LATER; Gen::op(a, O_CALL, (u64)q, sf, g.len(), g.len(), g.a4(sf)); used |= 1u << q; } switch (g.r.below(4)) { case 0: Gen::op(a, O_AWAIT, used | held, 0); break; case 1: Gen::op(a, O_WAITCTX, 0); break; case 2: Gen::op(a, O_WAITCTX, (u64)h); break; default: break; } Gen::op(a, O_AWAIT, used, 1); if (g.smallCap) { Gen::op(a, O_AWAIT, held, 1); held = 0; } }
    if (held) Gen::op(a, O_AWAIT, held, 1); g.lenCap = keep;
}
static void c01(Gen& g) { g.tune(50); g.conf(20); g.p.cfg["stale"] = g.ch(30); g.p.cfg["small"] = g.ch(25); int n = (int)g.r.range(1, 4); for (int k = 0; k < n; k++) g.client((int)g.r.range(3, g.tier ? 60 : 30), g.ch(40) ? (int)g.r.range(1, 3) : 0, g.ch(15), 5); if (g.ch(40)) g.raw((int)g.r.range(3, 15)); if (g.ch(30)) g.app((int)g.r.range(1, 8)); }
static void c02(Gen& g) { g.tune(40, 95); g.conf(10); g.p.cfg["stale"] = g.ch(30); g.maxDelay = 2000; g.deferMax = 300; if (g.ch(30)) { g.p.cfg["regmask"] = 1 | g.r.below(16); g.p.cfg["betaFns"] = g.r.range(0, 3); } if (!g.smallCap && g.ch(20)) g.p.cfg["nested"] = g.pick({5, 30, 80}); int n = (int)g.r.range(1, 2); for (int k = 0; k < n; k++) g.client((int)g.r.range(3, 25), (int)g.r.below(4), g.ch(60), 0, 8); if (g.ch(50)) g.app((int)g.r.range(1, 12)); if (g.ch(20)) g.depend(g.ch(50)); }
static void c03(Gen& g) {
    g.tune(30); if (g.ch(4)) { g.conf(0); jam(g); return; } g.conf(15); g.p.cfg["workers"] = g.pick({0, 1, 1, 2, 2, 3, 4}); g.maxmsg = (u32)g.pick({256, 512, 1024, 2048}); g.p.cfg["maxmsg"] = g.maxmsg; g.maxDelay = 3000; g.acts = g.ch(20); vast(g);
    bool burst = g.ch(60); int n = (int)g.r.range(2, 6);
    for (int k = 0; k < n; k++) {
        if (g.ch(30)) { Actor& a = g.add(A_RAW); Gen::op(a, R_CONN, g.slink()); int m = (int)g.r.range(5, burst ? 60 : 20); int out = 0; for (int q = 0; q < m; q++) { if (g.ch(60)) Gen::op(a, R_CALL, G_POST, g.len(), 0, g.delay() << 8, 1ull << 32); else if (g.smallCap) { g.rcall(a); Gen::op(a, R_DRAIN); } else { u64 b = g.len() % 200; Gen::op(a, R_CALL, g.pick({G_ECHO, G_ECHO, G_LATER}), g.len(), b, g.delay() << 8, 1ull << 32); if (++out > 20) { Gen::op(a, R_DRAIN); out = 0; } } } Gen::op(a, R_DRAIN); continue; }
        size_t ix = g.p.actors.size(); g.add(A_CLIENT); int id = g.p.actors[ix].id, node = g.p.actors[ix].node; (void)id; (void)node; Actor& a = g.p.actors[ix]; Gen::op(a, O_CONNECT, g.slink());
        int m = (int)g.r.range(5, burst ? 60 : 20); u32 used = 0;
        for (int q = 0; q < m; q++) { if (g.ch(55)) Gen::op(a, O_POST, g.svc(), g.len(), g.delay() << 8); else if (g.smallCap) { g.call(a, 0); Gen::op(a, O_AWAIT, 1, 1); } else { int s = (int)g.r.below(20); if (used >> s & 1) { Gen::op(a, O_AWAIT, used, 1); used = 0; } u64 sf = g.ch(70) ? (u64)g.svc() * 16 + 1 : (u64)G_LATER; Gen::op(a, O_CALL, s, sf, g.len(), g.len() % 300, g.delay() << 8 | (sf == G_LATER ? g.r.logu(1, 60) << 40 : 0)); used |= 1u << s; } }
        Gen::op(a, O_AWAIT, ~0u >> 1, 1);
    }
    if (g.ch(25)) { // the same over packet links: more than the server has buffers for, from peers that do not wait
        g.p.n.dgramQueue = 4000; int lk = g.ch(50) ? 2 : 3; g.p.cfg["links"] |= 1 << lk; bool full = g.ch(60); if (full) { g.p.cfg["workers"] = g.r.range(2, 3); g.p.cfg["maxmsg"] = g.maxmsg = 256; }
        for (int k = (int)g.r.range(1, 2); k > 0; k--) { Actor& a = g.add(A_CLIENT); Gen::op(a, O_CONNECT, lk); int m = full ? (int)g.r.range(60, 120) : (int)g.r.range(5, 40); for (int q = 0; q < m; q++) Gen::op(a, O_POST, g.svc(), full && g.ch(70) ? g.maxmsg - g.r.below(60) : g.len(), (full && q < 3 ? g.r.range(300, 3000) : g.delay() % 200) << 8); g.call(a, 0); Gen::op(a, O_AWAIT, 1, 1); } }
    if (g.ch(20)) g.app(5);
}
static void c04(Gen& g) {
    g.tune(30, 60); g.conf(15); int sort = (int)g.r.below(100); if (sort < 8) { g.p.cfg["maxmsg"] = g.maxmsg = (u32)g.pick({256, 512, 1024}); scarce(g); return; } if (sort < 15) { steady(g); return; } if (sort < 21) { poor(g); return; } if (sort < 23) { jam(g); return; } if (sort < 27) { attrition(g); return; } g.p.cfg["workers"] = g.pick({0, 1, 2, 2, 3}); g.maxmsg = (u32)g.pick({256, 512, 1024, 2048}); g.p.cfg["maxmsg"] = g.maxmsg; g.p.cfg["betaFns"] = !g.smallCap && g.ch(30) ? 1 : 3; if (!g.smallCap && g.ch(25)) { g.p.cfg["regmask"] = 1 | g.r.below(16); }
    if (g.ch(25)) g.p.cfg["links"] |= g.pick({4, 8, 12});
    int kind = (int)g.r.below(6), rounds = (int)g.r.range(3, 5), n = (int)g.r.range(1, 3); bool pk = g.p.cfg["links"] & 12;
    if (kind == 5) { n = (int)g.r.range(13, 30); for (int k = 0; k < n; k++) { Actor& a = g.add(A_RAW, 38); a.start = 0; bool persist = g.ch(20); if (persist) Gen::op(a, R_CONN, g.slink()); for (int q = 1; q <= rounds; q++) { if (!persist) Gen::op(a, R_CONN, g.slink()); g.rcall(a); Gen::op(a, R_DRAIN); if (g.ch(50)) Gen::op(a, R_SLEEP, g.r.logu(1, 3000)); if (!persist) Gen::op(a, g.ch(80) ? R_CLOSE : R_RST); Gen::op(a, O_ROUND, (u64)q); } } n = 0; }
    for (int k = 0; k < n; k++) {
        bool rw = g.ch(35); bool persist = g.ch(40); size_t ix = g.p.actors.size(); g.add(rw ? A_RAW : A_CLIENT);
        int lk = pk && !rw && g.ch(60) ? ((g.p.cfg["links"] & 4) && (!(g.p.cfg["links"] & 8) || g.ch(50)) ? 2 : 3) : g.slink();
        if (persist) Gen::op(g.p.actors[ix], rw ? R_CONN : O_CONNECT, lk);
        for (int q = 1; q <= rounds; q++) { Actor& a = g.p.actors[ix]; int reps = persist ? 1 : (int)g.r.range(1, 3);
            for (int z = 0; z < reps; z++) {
                if (!persist) Gen::op(a, rw ? R_CONN : O_CONNECT, lk);
                if (rw && kind == 3) g.toggles(a, (int)g.r.range(15, 60));
                if (rw) { int m = (int)g.r.range(1, 12); for (int e = 0; e < m; e++) { if (g.ch(30)) { u64 bk = g.smallCap ? g.pick({2, 3, 5}) : g.pick({2, 3, 5, 6}); Gen::op(a, R_BAD, bk, bk == 6 && g.ch(50) ? g.r.range(500, 514) % 512 : g.r.next() & 0xffff, g.len() % 100); } else g.rcall(a); Gen::op(a, R_DRAIN); } if (!persist) { if (g.ch(25)) Gen::op(a, R_CUT, g.r.below(2), g.len(), g.r.below(4000), 0); if (g.ch(20)) Gen::op(a, R_BAD, g.r.below(2), g.r.below(300), 20); if (g.ch(30)) g.rcall(a); Gen::op(a, g.ch(70) ? R_CLOSE : R_RST); } }
                else { if (kind == 0) { int m = (int)g.r.range(10, 50); for (int e = 0; e < m; e++) { g.call(a, 0); Gen::op(a, O_AWAIT, 1, 1); } } else if (kind == 3 && lk < 2) g.toggles(a, (int)g.r.range(15, 60)); else if (kind == 4 && lk < 2) g.burst(a); else g.mix_(a, (int)g.r.range(3, 20), false, lk > 1 ? 0 : 8, lk > 1 ? 0 : 15, lk > 1 ? 2 : 10); if (lk > 1 && g.ch(60)) { Gen::op(a, O_SUB, 0); g.call(a, 1); Gen::op(a, O_AWAIT, 2, 1); Gen::op(a, O_UNSUB, 255); } if (persist) Gen::op(a, O_AWAIT, ~0u >> 1, 1); else Gen::op(a, O_CLOSE, g.r.below(3)); }
            }
            Gen::op(a, O_ROUND, (u64)q); }
    }
    if (g.ch(30)) g.app((int)g.r.range(1, 6));
}
static void c05(Gen& g) {
    g.tune(40); g.conf(15); g.p.cfg["cbcast"] = !g.smallCap && g.ch(25); if (g.ch(25)) g.p.cfg["hello"] = g.r.range(1, 2); if (!g.smallCap && g.ch(20)) g.p.cfg["nested"] = g.pick({5, 30, 80}); if (g.ch(35)) g.p.cfg["links"] |= g.pick({4, 8, 12}); bool pk = g.p.cfg["links"] & 12; int n = (int)g.r.range(1, 4);
    for (int k = 0; k < n; k++) { if (pk && g.ch(50)) { size_t ix = g.p.actors.size(); g.add(A_CLIENT); Actor& a = g.p.actors[ix]; Gen::op(a, O_CONNECT, (g.p.cfg["links"] & 4) && (!(g.p.cfg["links"] & 8) || g.ch(50)) ? 2 : 3); int m = (int)g.r.range(2, 10); for (int q = 0; q < m; q++) { int d = (int)g.r.below(4); if (d < 2) Gen::op(a, d ? O_SUB : O_UNSUB, g.ch(10) ? 255 : g.svc()); else { g.call(a, 0); Gen::op(a, O_AWAIT, 1, 1); } if (g.ch(40)) Gen::op(a, O_SLEEP, g.r.logu(1, 500)); } continue; }
        if (g.ch(30)) g.raw((int)g.r.range(3, 15)); else g.client((int)g.r.range(3, 18), g.ch(20) ? 1 : 0, g.ch(25), 35, 10); }
    int m = (int)g.r.range(1, 3); for (int k = 0; k < m; k++) g.app((int)g.r.range(3, 20), false, (int)g.pick({10, 100, 400}));
    if (g.ch(15)) g.stalled(); if (g.ch(15)) g.breaker();
}
static void c06(Gen& g) {
    g.tune(100); g.conf(55); Tuning& t = g.p.t;
    if (g.ch(70)) t.segPpm = g.r.logu(100000, 900000); if (g.ch(60)) { t.latPpm = g.r.logu(100000, 900000); t.latMax = g.r.logu(2000, 300000); } if (g.ch(55)) t.intrPpm = g.r.logu(20000, 500000); if (g.ch(55)) t.shortPpm = g.r.logu(20000, 700000);
    int n = (int)g.r.range(1, 3); for (int k = 0; k < n; k++) { if (g.ch(30)) g.raw((int)g.r.range(3, 12)); else g.client((int)g.r.range(3, 16), g.ch(50) ? (int)g.r.range(1, 3) : 0, g.ch(15), 5, 20); }
    int m = (int)g.r.below(3); for (int k = 0; k < m; k++) g.app((int)g.r.range(2, 10), true);
}
static void c07(Gen& g) { if (g.ch(2)) { g.conf(0); attrition(g); return; } g.tune(40); g.conf(20); g.p.cfg["crashDrop"] = g.ch(40); g.deferMax = 200; g.witness((int)g.r.range(1, 2)); int n = (int)g.r.range(1, 4); for (int k = 0; k < n; k++) g.breaker(); if (g.ch(40)) g.app((int)g.r.range(2, 10), true); if (g.ch(10)) g.stalled(); }
static void c08(Gen& g) {
    g.tune(20); g.conf(0); g.p.cfg["workers"] = g.pick({0, 1, 2, 4}); g.lenCap = 200; g.deferMax = 200;
    int n = (int)g.r.range(2, 5);
    for (int k = 0; k < n; k++) { Actor& a = g.add(A_RAW); int reps = (int)g.r.range(1, 5);
        for (int q = 0; q < reps; q++) { Gen::op(a, R_CONN, g.slink()); int m = (int)g.r.range(1, 3); for (int z = 0; z < m; z++) { if (g.ch(70)) g.rcall(a, (u64)(z + 1), g.ch(60)); else if (g.ch(50)) Gen::op(a, R_BAD, g.pick({2, 3}), g.r.next() & 0xffff, 4); if (g.ch(30)) Gen::op(a, R_SLEEP, g.r.logu(1, 100)); } if (g.ch(55)) { Gen::op(a, g.ch(80) ? R_CLOSE : R_RST); if (g.ch(30)) Gen::op(a, R_SLEEP, g.r.logu(1, 300)); } else { Gen::op(a, R_DRAIN); Gen::op(a, R_CLOSE); } }
    }
    if (g.ch(50)) { size_t ix = g.p.actors.size(); g.add(A_CLIENT); for (int q = 0; q < 4; q++) { Gen::op(g.p.actors[ix], O_CONNECT, g.slink()); g.mix_(g.p.actors[ix], (int)g.r.range(1, 6)); if (g.ch(60)) g.call(g.p.actors[ix], 13); Gen::op(g.p.actors[ix], O_CLOSE, g.r.below(3)); } }
    if (g.ch(50)) g.app((int)g.r.range(3, 12), true);
}
static void c09(Gen& g) {
    g.tune(30, 92); g.conf(10); g.maxDelay = 1000; g.p.cfg["workers"] = g.pick({0, 1, 2, 3, 4, 8}); g.p.cfg["mode"] = g.ch(40) ? g.r.range(1, 2) : 0; if (g.p.cfg["mode"]) g.p.cfg["batch"] = g.pick({1, 2, 8, 32}); if (g.ch(20)) g.p.cfg["links"] |= g.pick({4, 8});
    int n = (int)g.r.below(4); for (int k = 0; k < n; k++) { if (g.ch(35)) g.raw((int)g.r.range(1, 10)); else g.client((int)g.r.range(1, 14), g.ch(30) ? 1 : 0, g.ch(20), 5); }
    bool inHandler = n && g.ch(35);
    if (inHandler) { // a request whose handler asks for the shutdown
        std::vector<std::pair<size_t, size_t>> c; for (size_t i = 0; i < g.p.actors.size(); i++) for (size_t o = 0; o < g.p.actors[i].ops.size(); o++) if (g.p.actors[i].ops[o].code == O_CALL || g.p.actors[i].ops[o].code == R_CALL || g.p.actors[i].ops[o].code == O_POST) c.push_back({i, o});
        if (!c.empty()) { auto& o = g.p.actors[c[g.r.below(c.size())].first]; std::vector<size_t> w; for (size_t q = 0; q < o.ops.size(); q++) if (o.ops[q].code == O_CALL || o.ops[q].code == R_CALL || o.ops[q].code == O_POST) w.push_back(q); Op& x = o.ops[w[g.r.below(w.size())]]; int ix = x.code == O_CALL ? 4 : x.code == R_CALL ? 3 : 2; x.a[ix] = (x.a[ix] & ~255ull) | ACT_SHUT; } }
    else if (g.ch(75)) { Actor& a = g.add(A_APP, 0); a.start = 0; if (g.ch(85)) Gen::op(a, S_SLEEP, g.ch(50) ? g.r.logu(1, 200) : g.r.logu(50, 4000)); Gen::op(a, S_SHUT); }
    if (g.ch(40)) g.app((int)g.r.range(1, 8), true); if (g.ch(25)) g.breaker(); if (g.ch(15)) g.stalled();
}
static void c10(Gen& g) {
    g.tune(45, 92); g.conf(15); g.maxDelay = 1500; g.deferMax = 300; g.p.cfg["crashDrop"] = g.ch(50); g.p.cfg["tryBroken"] = g.ch(40);
    int n = (int)g.r.range(1, 3); std::vector<int> ids; for (int k = 0; k < n; k++) { Actor& a = g.client((int)g.r.range(3, 16), (int)g.r.below(3), g.ch(45), 5); ids.push_back(a.id); }
    int how = (int)g.r.below(10);
    Actor& x = g.add(how < 3 ? A_APP : A_NEM, how < 3 ? 0 : 39); x.start = 0; u64 w = g.ch(40) ? g.r.logu(1, 150) : g.r.logu(20, 5000);
    if (how < 3) { Gen::op(x, S_SLEEP, w); Gen::op(x, S_SHUT); }
    else if (how < 7) { Gen::op(x, N_SLEEP, w); Gen::op(x, N_KILLSERVER); }
    else for (int id : ids) { Gen::op(x, N_SLEEP, w); Gen::op(x, N_RESET, (u64)id, g.r.below(2)); }
    if (g.ch(40)) g.app((int)g.r.range(1, 10));
}
static void pktClient(Gen& g, int link, int n, bool lossy) {
    size_t ix = g.p.actors.size(); g.add(A_CLIENT); Actor& a = g.p.actors[ix]; Gen::op(a, O_CONNECT, link);
    for (int k = 0; k < n; k++) { int d = (int)g.r.below(10); if (d < 1) Gen::op(a, O_SUB, g.svc()); else if (d < 2) Gen::op(a, O_UNSUB, g.ch(20) ? 255 : g.svc()); else if (d < 4) Gen::op(a, O_POST, g.svc(), g.len(), g.delay() << 8); else if (d < 5) Gen::op(a, O_SLEEP, g.r.logu(1, 300)); else { int m = (int)g.r.range(1, 3); for (int q = 0; q < m; q++) g.call(a, q); if (lossy) for (int q = 0; q < m; q++) Gen::op(a, O_POLLCTX, q, g.r.logu(500, 5000)); else if (g.ch(60)) Gen::op(a, O_AWAIT, (1u << m) - 1, 1); else for (int q = 0; q < m; q++) { if (g.ch(50)) Gen::op(a, O_WAITCTX, q); else Gen::op(a, O_POLLCTX, q); } } }
}
static void namedPkt(Gen& g, int n, bool later) { // raw packet clients with names of every length
    for (int k = 0; k < n; k++) { Actor& a = g.add(A_RAW); u64 nl = g.ch(50) ? g.r.below(20) : g.r.range(20, 100); int m = (int)g.r.range(1, 8); Gen::op(a, R_CONN, 3, g.firstId(), nl);
        for (int q = 0; q < m; q++) { int d = (int)g.r.below(6); if (d < 2) Gen::op(a, R_SUB, g.svc()); else if (d < 3) Gen::op(a, R_UNSUB, g.ch(40) ? 255 : (u64)g.svc()); else { u32 keep = g.lenCap; if (later && g.ch(60)) g.lenCap = 12; g.rcall(a, 0, later && g.ch(70)); g.lenCap = keep; if (g.ch(60)) Gen::op(a, R_DRAIN); } if (g.ch(30)) Gen::op(a, R_SLEEP, g.r.logu(1, 500)); }
        Gen::op(a, R_DRAIN); if (g.ch(50)) Gen::op(a, R_UNSUB, 255); if (g.ch(30)) Gen::op(a, R_CLOSE); }
}
static void c11(Gen& g) {
    g.tune(40, 70); g.conf(0); g.smallCap = false; g.p.cfg["links"] = g.pick({4, 4, 8, 8, 12, 5, 9, 6, 15}); u64 l = g.p.cfg["links"]; g.p.n.dgramQueue = g.pick({64, 64, 200, 8});
    bool lossy = (l & 4) && g.ch(45); if (lossy) { g.p.n.dgramFaults = true; g.p.t.dropPpm = g.r.logu(10000, 300000); g.p.t.dupPpm = g.r.logu(10000, 300000); }
    if ((l & 4) && !lossy) g.p.n.dgramQueue = 4000; // nothing may be lost
    if (g.p.n.dgramQueue < 64) { g.lenCap = 500; }
    if (g.ch(25)) g.p.cfg["sendFail"] = g.r.logu(10000, 400000);
    int n = (int)g.r.range(1, 4); for (int k = 0; k < n; k++) { int lk = (l & 4) && (!(l & 8) || g.ch(50)) ? 2 : 3; pktClient(g, lk, (int)g.r.range(2, 14), lk == 2 && lossy); }
    if ((l & 8) && g.ch(45)) namedPkt(g, (int)g.r.range(1, 3));
    if (l & 3) { if (g.ch(80)) g.client((int)g.r.range(3, 10), 0, false, 10); if (g.ch(30)) g.raw((int)g.r.range(2, 8)); }
    int m = (int)g.r.below(3); for (int k = 0; k < m; k++) { Actor& a = g.add(A_RAW); int z = (int)g.r.range(1, 8); for (int q = 0; q < z; q++) { u64 dk = g.r.below(8); Gen::op(a, R_DGRAM, (l & 4) && (!(l & 8) || g.ch(50)) ? 2 : 3, dk, dk == 7 && g.ch(50) ? g.r.range(500, 514) % 512 : g.r.next() & 0xffff); if (g.ch(40)) Gen::op(a, R_SLEEP, g.r.logu(1, 200)); } }
    if (g.ch(55)) g.app((int)g.r.range(2, 12));
}
static void c12(Gen& g) {
    if (g.ch(6)) { g.conf(0); attrition(g); return; } g.tune(40); g.conf(15); vast(g); if (g.ch(6) && g.maxmsg > 512) { g.p.cfg["cmaxmsg"] = g.r.range(256, g.maxmsg); g.raw((int)g.r.range(4, 12)); } g.witness((int)g.r.range(1, 2)); int n = (int)g.r.range(1, 3);
    for (int k = 0; k < n; k++) { Actor& a = g.add(A_RAW); int reps = (int)g.r.range(1, 5);
        for (int q = 0; q < reps; q++) { Gen::op(a, R_CONN, g.slink()); int m = (int)g.r.below(3); for (int z = 0; z < m; z++) { if (g.ch(40)) Gen::op(a, R_CALL, g.pick({G_ECHO, G_POST}), g.maxmsg, g.ch(50) ? g.maxmsg : 4, 0, (g.ch(40) ? g.r.range(2, 5) : 1) << 32); else g.rcall(a); Gen::op(a, R_DRAIN); }
            switch (g.r.below(7)) { case 0: Gen::op(a, R_BAD, 0, g.r.below(11), 0); break; case 1: Gen::op(a, R_BAD, 1, g.pick({0, 1, 2, 11, 512, 513, 600, 1000, 100000, 0x7fffffff, 0x80000000ull}), g.r.below(3000)); break; case 2: Gen::op(a, R_CUT, g.r.below(2), g.len(), g.ch(50) ? g.r.below(12) : (g.r.next() & 0xffff), g.r.below(4)); break; case 3: Gen::op(a, R_BAD, 4, g.pick({2, 3, 4, 7, 0x80, 0xff, 6}), g.len() % 100); break; default: for (int z = (int)g.r.range(1, 4); z > 0; z--) { u64 bk = g.pick({2, 3, 5, 6, 6}); Gen::op(a, R_BAD, bk, bk == 6 && g.ch(50) ? g.r.range(500, 514) % 512 : g.r.next() & 0xffff, g.len()); if (g.ch(50) || g.smallCap) Gen::op(a, R_DRAIN); } }
            if (g.ch(50)) Gen::op(a, R_SLEEP, g.r.logu(1, 300)); Gen::op(a, g.ch(80) ? R_CLOSE : R_RST); if (g.ch(30)) Gen::op(a, R_SLEEP, g.r.logu(1, 300)); } }
    if (g.ch(30)) g.app((int)g.r.range(1, 6));
}
static void c13(Gen& g) {
    g.tune(35); g.conf(5); g.deferMax = 400; int n = (int)g.r.range(1, 4);
    for (int k = 0; k < n; k++) {
        if (g.ch(40)) { Actor& a = g.add(A_RAW); Gen::op(a, R_CONN, g.slink()); int m = (int)g.r.range(2, 14), out = 0; for (int q = 0; q < m; q++) { g.rcall(a, 0, g.ch(70)); if (++out > 5 || g.smallCap) { Gen::op(a, R_DRAIN); out = 0; } } if (g.ch(35)) { Gen::op(a, g.ch(70) ? R_CLOSE : R_RST); if (g.ch(70)) { Gen::op(a, R_CONN, g.slink()); g.rcall(a, 0, true); Gen::op(a, R_DRAIN); } } continue; }
        size_t ix = g.p.actors.size(); g.client((int)g.r.range(0, 4), g.ch(30) ? 1 : 0, g.ch(20)); Actor& a = g.p.actors[ix]; int m = (int)g.r.range(2, 12); u32 used = 0;
        for (int q = 0; q < m; q++) { int s = 14 + q; u64 d = g.ch(70) ? (u64)G_LATER : g.svcfn(); Gen::op(a, O_CALL, s, d, g.len(), g.len(), g.a4(d)); if (g.smallCap) Gen::op(a, O_AWAIT, 1u << s, 1); else used |= 1u << s; if (g.ch(25)) Gen::op(a, O_AWAIT, used, g.r.below(2)); if (__builtin_popcount(used) > 8) { Gen::op(a, O_AWAIT, used, 1); used = 0; } }
        if (g.ch(60)) Gen::op(a, O_AWAIT, used, 1); else if (g.ch(40)) Gen::op(a, O_CLOSE, 2);
    }
    if (g.ch(20)) g.depend(g.ch(30));
    int m = (int)g.r.range(0, 3); for (int k = 0; k < m; k++) g.app((int)g.r.range(3, 15), true);
    if (g.ch(30)) { int l = g.ch(50) ? 2 : 3; g.p.cfg["links"] |= 1 << l; if (l == 2) g.p.n.dgramQueue = 4000; if (g.ch(50)) g.lenCap = 12; g.fnMask = 1 << G_LATER | 1 << G_ECHO; g.svcMask = 1; for (int k = (int)g.r.range(1, 2); k > 0; k--) pktClient(g, l, (int)g.r.range(2, 10), false); }
    if (g.ch(20)) { g.p.cfg["links"] |= 8; namedPkt(g, (int)g.r.range(1, 2), true); }
}
static void c14(Gen& g) {
    g.tune(30); g.conf(0); g.smallCap = false; g.regActs = g.ch(50); g.p.cfg["cbreg"] = g.ch(30); g.p.cfg["regmask"] = 1 | g.r.below(16); g.p.cfg["betaFns"] = g.r.range(0, 3); int n = (int)g.r.range(1, 3);
    if (g.ch(20)) g.p.cfg["links"] |= g.pick({4, 8});
    for (int k = 0; k < n; k++) { if (g.ch(35)) { Actor& a = g.add(A_RAW); Gen::op(a, R_CONN, g.slink()); int m = (int)g.r.range(3, 15); for (int q = 0; q < m; q++) { if (g.ch(50)) Gen::op(a, R_BAD, g.pick({2, 2, 3, 5}), g.r.next() & 0xffff, g.len()); else g.rcall(a); if (g.ch(50)) Gen::op(a, R_DRAIN); } Gen::op(a, R_DRAIN); }
        else g.client((int)g.r.range(4, 25), g.ch(30) ? (int)g.r.range(1, 2) : 0, g.ch(20), 4, 15); }
    if (g.p.cfg["links"] & 12) pktClient(g, g.p.cfg["links"] & 4 ? 2 : 3, (int)g.r.range(2, 8), false);
    int m = (int)g.r.below(4); for (int k = 0; k < m; k++) { Actor& a = g.add(A_APP, 0); int z = (int)g.r.range(2, 14); for (int q = 0; q < z; q++) { Gen::op(a, (int)g.pick({S_REG, S_REG, S_UNREG, S_UNREG, S_DUPREG}), g.r.below(4)); if (g.ch(15)) Gen::op(a, S_DUMMY, g.r.below(256), g.r.range(1, 60), g.r.range(1, 4)); if (g.ch(60)) Gen::op(a, S_SLEEP, g.r.logu(1, 300)); } }
    if (g.ch(20)) g.app(4);
}
static void c15(Gen& g) {
    g.tune(35); g.conf(10); g.p.cfg["cbcast"] = !g.smallCap && g.ch(25); if (g.ch(35)) g.p.cfg["hello"] = g.r.range(1, 2); g.p.cfg["crashDrop"] = g.ch(40); if (g.ch(35)) g.p.cfg["links"] |= g.pick({4, 8, 12}); bool pk = g.p.cfg["links"] & 12; int n = (int)g.r.range(1, 5);
    for (int k = 0; k < n; k++) {
        if (pk && g.ch(45)) { size_t ix = g.p.actors.size(); g.add(A_CLIENT); Actor& a = g.p.actors[ix]; Gen::op(a, O_CONNECT, (g.p.cfg["links"] & 4) && (!(g.p.cfg["links"] & 8) || g.ch(50)) ? 2 : 3); int m = (int)g.r.range(2, 10); for (int q = 0; q < m; q++) { int d = (int)g.r.below(4); if (d < 3) Gen::op(a, d ? O_SUB : O_UNSUB, g.ch(30) ? 255 : g.svc()); else { g.call(a, 0); Gen::op(a, O_AWAIT, 1, 1); } } continue; }
        bool rw = g.ch(55); Actor& a = g.add(rw ? A_RAW : A_CLIENT); int reps = (int)g.r.range(1, 6);
        for (int q = 0; q < reps; q++) { Gen::op(a, rw ? R_CONN : O_CONNECT, g.slink()); if (g.ch(30)) Gen::op(a, rw ? R_SLEEP : O_SLEEP, g.r.logu(1, 200));
            if (rw) { int m = (int)g.r.below(4); for (int z = 0; z < m; z++) { g.rcall(a); if (g.smallCap || g.ch(50)) Gen::op(a, R_DRAIN); } if (g.ch(30)) Gen::op(a, R_CALL, G_POST, g.len(), 0, 0, 1ull << 32); if (g.ch(15)) Gen::op(a, R_CUT, 0, g.len(), g.r.below(200), 0); Gen::op(a, g.ch(75) ? R_CLOSE : R_RST); }
            else { g.mix_(a, (int)g.r.below(6)); Gen::op(a, O_CLOSE, g.r.below(3)); } }
        if (g.ch(15)) { Gen::op(a, rw ? R_CONN : O_CONNECT, g.slink()); Gen::op(a, O_KILL); }
    }
    if ((g.p.cfg["links"] & 8) && g.ch(40)) namedPkt(g, (int)g.r.range(1, 3));
    if (g.ch(30)) g.breaker(); if (g.ch(30)) g.app((int)g.r.range(1, 6));
}
static void c16(Gen& g) {
    g.tune(50); g.conf(25); g.p.cfg["workers"] = g.pick({0, 0, 0, 1, 2, 4}); int n = (int)g.r.range(1, 4);
    for (int k = 0; k < n; k++) { if (g.ch(50)) { Actor& a = g.add(A_RAW); Gen::op(a, R_CONN, g.slink()); int m = (int)g.r.range(4, 30), out = 0; for (int q = 0; q < m; q++) { if (g.ch(30)) Gen::op(a, R_CALL, G_POST, g.len(), 0, g.act() | g.delay() << 8, 1ull << 32); else if (g.ch(25)) { Gen::op(a, R_CALL, G_FAN, 0, 0, g.r.range(1, 8) << 40 | g.act(), (g.ch(30) ? 2ull : 1ull) << 32); out++; } else { g.rcall(a); out++; } if (out > 7 || (g.smallCap && out)) { Gen::op(a, R_DRAIN); out = 0; } } Gen::op(a, R_DRAIN); }
        else g.client((int)g.r.range(4, 30), 0, g.ch(20), 5, 30); }
    int m = (int)g.r.below(3); for (int k = 0; k < m; k++) g.app((int)g.r.range(3, 15), g.ch(40), (int)g.pick({5, 50, 300}));
}
static void c17(Gen& g) {
    g.tune(45); g.conf(15); g.regActs = g.ch(10); g.p.cfg["cbreg"] = g.ch(10); g.p.cfg["cbcast"] = !g.smallCap && g.ch(15); g.p.cfg["mode"] = g.ch(65) ? g.pick({1, 1, 2}) : 0; if (g.p.cfg["mode"]) g.p.cfg["batch"] = g.pick({1, 1, 2, 4, 32}); u64 l = g.r.range(1, 15); if (!(l & 3)) l |= g.pick({1, 2}); g.p.cfg["links"] = l; g.p.cfg["extraLink"] = g.ch(15); g.p.cfg["workers"] = g.pick({0, 1, 2, 3, 5, 8, 16}); if (g.ch(20)) g.p.cfg["hello"] = 2;
    int n = (int)g.r.range(1, 4); for (int k = 0; k < n; k++) { if ((l & 12) && g.ch(35)) pktClient(g, (l & 4) && (!(l & 8) || g.ch(50)) ? 2 : 3, (int)g.r.range(2, 8), false); else if (g.ch(25)) g.raw((int)g.r.range(2, 12)); else g.client((int)g.r.range(3, 16), g.ch(30) ? 1 : 0, g.ch(20), 8); }
    if (g.ch(40)) g.app((int)g.r.range(2, 10), true); if (g.ch(30)) g.breaker();
}
static void c18(Gen& g) {
    g.tune(15, 60); g.conf(5); if (g.ch(12)) { poor(g); return; } if (g.ch(40)) g.p.cfg["links"] |= g.pick({4, 8, 12}); g.p.cfg["extraLink"] = g.ch(25);
    int kind = (int)g.r.below(3);
    if (kind != 1) g.p.cfg["setupFaults"] = g.r.range(1, 6);
    if (g.ch(75)) g.p.t.mallocPpm = g.r.logu(10000, 400000); if (g.ch(75) || !g.p.t.mallocPpm) g.p.t.sysfailPpm = g.r.logu(10000, 400000);
    if (g.ch(35)) { g.p.cfg["acceptFaults"] = 1; if (!g.p.t.sysfailPpm) g.p.t.sysfailPpm = 100000; }
    int n = (int)g.r.range(1, 3); bool pk = g.p.cfg["links"] & 12;
    for (int k = 0; k < n; k++) { size_t ix = g.p.actors.size(); int lk = pk && g.ch(40) ? ((g.p.cfg["links"] & 4) && (!(g.p.cfg["links"] & 8) || g.ch(50)) ? 2 : 3) : g.slink(); int reps = (int)g.r.range(1, 3); g.add(A_CLIENT); Actor& a = g.p.actors[ix]; for (int q = 0; q < reps; q++) { Gen::op(a, O_CONNECT, lk, 0, kind == 0 ? 0 : g.r.range(1, 6)); int m = (int)g.r.range(1, 5); for (int z = 0; z < m; z++) { g.call(a, 0); Gen::op(a, O_AWAIT, 1, 1); } Gen::op(a, O_CLOSE, g.r.below(2)); } }
}
static void c21(Gen& g) { // the configured workers work at the same time, and the main thread beside them
    g.tune(35, 60); g.conf(0); int W = (int)g.pick({2, 2, 3, 4, 5, 8, 16}); g.p.cfg["workers"] = (u64)W; g.lenCap = 300; g.acts = false; g.maxDelay = 300;
    int n = (int)g.r.range(1, 4); std::vector<size_t> ix; for (int k = 0; k < n; k++) { ix.push_back(g.p.actors.size()); Actor& a = g.add(A_CLIENT); a.start = 0; Gen::op(a, O_CONNECT, g.slink()); if (g.ch(60)) { Gen::op(a, O_SUB, g.ch(30) ? 255 : (u64)g.svc()); Gen::op(a, O_SYNC); } }
    bool app = g.ch(60), news = g.ch(60); size_t ai = 0, ni = 0; if (app) { ai = g.p.actors.size(); g.add(A_APP, 0).start = 0; } if (news) { ni = g.p.actors.size(); g.add(A_CLIENT).start = 0; }
    auto gate = [&](Actor& a, int slot, u64 q) { u64 sf = g.svcfn(); Gen::op(a, O_CALL, slot, sf, g.len(), g.len(), (g.a4(sf) >> 40 << 40) | ACT_GATE | q << 8); };
    int phases = g.deep((int)g.r.range(1, 5));
    for (int q = 1; q <= phases; q++) {
        for (size_t i : ix) Gen::op(g.p.actors[i], O_ROUND, q); if (app) Gen::op(g.p.actors[ai], O_ROUND, q); if (news) Gen::op(g.p.actors[ni], O_ROUND, q);
        std::vector<int> used(n, 0); bool held = g.ch(60);
        if (!held) { for (int k = 0; k < W; k++) { int c = (int)g.r.below((u64)n); gate(g.p.actors[ix[c]], used[c]++, q); } for (int c = 0; c < n; c++) if (used[c]) g.awaitOps(g.p.actors[ix[c]], (1u << used[c]) - 1, false); }
        else {
            int b = g.ch(35) ? W : (int)g.r.range(1, W - 1); bool many = b < W; for (int k = 0; k < b; k++) { int c = (int)g.r.below((u64)n); gate(g.p.actors[ix[c]], used[c]++, q); }
            for (int c = 0; c < n; c++) { Actor& a = g.p.actors[ix[c]]; Gen::op(a, O_GATE, q, 0);
                if (many && g.ch(70)) { int m = std::min(W * (int)g.r.range(1, 2), 30 - used[c]); for (int k = 0; k < m; k++) { if (g.ch(15)) Gen::op(a, O_POST, g.svc(), g.len(), g.delay() << 8); else g.call(a, used[c]++); } } }
            if (app) { Actor& a = g.p.actors[ai]; Gen::op(a, O_GATE, q, 0); int m = (int)g.r.range(1, 3); for (int k = 0; k < m; k++) if (g.ch(40)) Gen::op(a, S_DUMMY, g.r.below(256), g.r.range(1, 20), g.r.range(1, 2)); else Gen::op(a, S_BCAST, g.svc(), g.r.below(100), 0); Gen::op(a, O_GATE, q, 5); }
            if (news) { Actor& a = g.p.actors[ni]; Gen::op(a, O_GATE, q, 0); Gen::op(a, O_CONNECT, g.slink()); Gen::op(a, O_GATE, q, 3); if (g.ch(70)) Gen::op(a, O_CLOSE, g.r.below(3)); }
            for (int c = 0; c < n; c++) { Actor& a = g.p.actors[ix[c]]; if (app) { Gen::op(a, O_GATE, q, 4); Gen::op(a, O_GATE, q, 6); } if (many && c == 0) Gen::op(a, O_GATE, q, 2); }
            Gen::op(g.p.actors[ix[0]], O_GATE, q, 1); }
        for (int c = 0; c < n; c++) if (used[c]) Gen::op(g.p.actors[ix[c]], O_AWAIT, used[c] >= 32 ? ~0u : (1u << used[c]) - 1, 1);
        if (g.ch(30)) for (size_t i : ix) { g.mix_(g.p.actors[i], (int)g.r.range(1, 6)); Gen::op(g.p.actors[i], O_AWAIT, 0x7fffffff, 1); }
    }
}
static void c22(Gen& g) { // several servers (and clients) in one process
    switch (g.r.below(7)) { case 0: c05(g); break; case 1: case 5: c11(g); break; case 2: c13(g); break; case 3: c17(g); break; default: c01(g); }
    if (g.p.n.cap < 65536) g.p.n.cap = 262144;
    g.p.cfg["others"] = g.pick({1, 1, 2, 3}); g.p.cfg["otherRounds"] = g.r.range(1, 4); g.p.cfg["otherSeed"] = g.r.below(1000000); g.p.cfg["otherAfter"] = g.ch(30); g.p.cfg["otherSync"] = g.ch(50);
}
Plan generate(const std::string& prop, u64 seed, int tier) {
    Gen g(prop, seed, tier);
    struct { const char* n; void (*f)(Gen&); } t[] = { {"C01", c01}, {"C02", c02}, {"C03", c03}, {"C04", c04}, {"C05", c05}, {"C06", c06}, {"C07", c07}, {"C08", c08}, {"C09", c09}, {"C10", c10}, {"C11", c11}, {"C12", c12}, {"C13", c13}, {"C14", c14}, {"C15", c15}, {"C16", c16}, {"C17", c17}, {"C18", c18}, {"C21", c21}, {"C22", c22} };
    for (auto& x : t) if (prop == x.n) x.f(g);
    static const char* ex = "C01 C02 C03 C05 C07 C08 C12 C14 C15 C16 C17"; if (strstr(ex, prop.c_str())) extras(g, prop == "C01" || prop == "C17" || prop == "C15" || prop == "C05" ? 12 : 7);
    static const char* mar = "C01 C02 C13 C16"; if (strstr(mar, prop.c_str()) && g.ch(2)) marathon(g);
    if ((g.p.cfg["links"] & 12) && !g.p.cfg.count("sendFail") && g.ch(10)) g.p.cfg["sendFail"] = g.r.logu(10000, 400000);
    if (g.p.cfg["mode"] && !g.p.cfg["extraLink"] && g.ch(prop == "C17" || prop == "C18" ? 30 : 8)) { g.p.cfg["lateMask"] = g.r.range(1, 15); g.p.cfg["lateAt"] = g.r.logu(1, 40); }
    if (strstr("C04 C07 C11 C15", prop.c_str()) && !g.p.cfg["hello"] && !g.p.cfg["cbcast"] && g.ch(4)) g.p.cfg["nocb"] = g.r.range(1, 3); // an application that did not ask to be told about clients
    if (prop != "C14" && !g.regActs && !g.p.cfg["cbreg"] && g.ch(30)) { // functions without arguments, where what is registered does not change
        bool reg = false; for (auto& a : g.p.actors) for (auto& o : a.ops) reg |= o.code == S_REG || o.code == S_UNREG;
        int share = (int)g.pick({5, 20, 60}); if (!reg) for (auto& a : g.p.actors) for (auto& o : a.ops) { if (o.code == O_CALL && o.a[1] == G_ECHO && !(o.a[4] & 255) && g.ch(share)) o.a[1] = G_TICK; else if (o.code == R_CALL && o.a[0] == G_ECHO && !(o.a[3] & 255) && g.ch(share)) o.a[0] = G_TICK; } }
    if (!g.p.cfg.count("small") && g.ch(15)) g.p.cfg["small"] = 1;
    if (g.ch(8)) g.p.cfg["fdbase"] = g.pick({1, 2, 3, 251, 252, 253, 1021, 65533, 1048573}); // how many files the processes had open before
    if (g.ch(8)) g.p.cfg["cfdbase"] = g.pick({1, 2, 3, 251, 252, 253, 1021, 65533, 1048573});
    return g.p;
}
}
