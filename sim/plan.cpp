#include "plan.h"
#include <sstream>
#include <cstring>
namespace sim {
const char* opName[OP_N] = { "none", "connect", "call", "post", "await", "collect", "waitctx", "pollctx", "pumpnb", "pumpblk", "sub", "unsub", "sync", "sleep", "close", "kill", "round", "reg", "unreg", "dummy", "mem", "gate", "rescue", "burn",
    "r-conn", "r-call", "r-cut", "r-bad", "r-read", "r-sub", "r-unsub", "r-sync", "r-close", "r-rst", "r-sleep", "r-drain", "r-dgram",
    "s-bcast", "s-target", "s-reg", "s-unreg", "s-dupreg", "s-shut", "s-dummy", "s-answer", "s-sleep", "n-kill", "n-reset", "n-killserver", "n-sleep" };
const char* kindNameA[A_N] = { "client", "thread", "pump", "raw", "app", "responder", "nemesis" };
#define TF(X) X(preemptMean) X(siteDensity) X(syncPpm) X(delayPpm) X(delayMax) X(spurPpm) X(latPpm) X(latMax) X(segPpm) X(intrPpm) X(shortPpm) X(epollPpm) X(mallocPpm) X(sysfailPpm) X(dropPpm) X(dupPpm) X(wakePpm) X(maxSteps) X(maxTime)
std::string planText(const Plan& p) {
    std::ostringstream o;
    o << "prop " << p.prop << "\nseed " << p.seed << "\ntune policy=" << p.t.policy;
#define W(f) o << " " #f "=" << p.t.f;
    TF(W)
    o << "\nnet cap=" << p.n.cap << " lat=" << p.n.lat << " dgramQueue=" << p.n.dgramQueue << " dgramFaults=" << p.n.dgramFaults << "\ncfg";
    for (auto& kv : p.cfg) o << " " << kv.first << "=" << kv.second;
    o << "\n";
    for (auto& a : p.actors) {
        o << "actor " << a.id << " " << kindNameA[a.kind] << " node=" << a.node << " start=" << a.start << " parent=" << a.parent << "\n";
        for (auto& op : a.ops) { o << "  op " << opName[op.code]; int n = 5; while (n > 0 && !op.a[n - 1]) n--; for (int i = 0; i < n; i++) o << " " << op.a[i]; o << "\n"; }
    }
    return o.str();
}
static bool kv(const std::string& w, std::string& k, u64& v) { size_t e = w.find('='); if (e == std::string::npos) return false; k = w.substr(0, e); v = (u64)strtoll(w.c_str() + e + 1, nullptr, 10); return true; }
bool planParse(const std::string& text, Plan& p, std::vector<Dec>* dec) {
    std::istringstream in(text); std::string line;
    while (std::getline(in, line)) {
        std::istringstream l(line); std::string w; if (!(l >> w) || w[0] == '#') continue;
        std::string k; u64 v;
        if (w == "prop") l >> p.prop;
        else if (w == "seed") l >> p.seed;
        else if (w == "tune") { while (l >> w) if (kv(w, k, v)) { if (k == "policy") p.t.policy = (int)v;
#define R(f) else if (k == #f) p.t.f = v;
            TF(R) } }
        else if (w == "net") { while (l >> w) if (kv(w, k, v)) { if (k == "cap") p.n.cap = v; else if (k == "lat") p.n.lat = v; else if (k == "dgramQueue") p.n.dgramQueue = v; else if (k == "dgramFaults") p.n.dgramFaults = v != 0; } }
        else if (w == "cfg") { while (l >> w) if (kv(w, k, v)) p.cfg[k] = v; }
        else if (w == "actor") { Actor a; l >> a.id >> w; for (int i = 0; i < A_N; i++) if (w == kindNameA[i]) a.kind = i; while (l >> w) if (kv(w, k, v)) { if (k == "node") a.node = (int)v; else if (k == "start") a.start = v; else if (k == "parent") a.parent = (int)(long long)v; } p.actors.push_back(a); }
        else if (w == "op") { Op o; memset(&o, 0, sizeof o); l >> w; for (int i = 0; i < OP_N; i++) if (w == opName[i]) o.code = i; for (int i = 0; i < 5; i++) if (!(l >> o.a[i])) break; if (p.actors.empty()) return false; p.actors.back().ops.push_back(o); }
        else if (w == "dec") { if (dec) { std::string kn; u64 src, n; if (l >> kn >> src >> n >> v) for (int i = 1; i < K_N; i++) if (kn == kindName[i]) dec->push_back({deckey(i, src, n), v}); } }
        else if (w == "end") break;
    }
    return !p.prop.empty();
}
}
