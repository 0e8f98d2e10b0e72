// simrun: runs plans, one forked process per simulated run; records, replays and minimises failures.
#include "plan.h"
#include "shared.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <set>
#include <algorithm>
#include <chrono>
namespace sim {
Shared* shm;
void finishRun() {
    Shared* s = shm; s->finished = 1; s->hash = traceHash; s->ncount = traceCount; s->sched = schedHash; s->steps = steps; s->simtime = now;
    memcpy(s->fired, fired, sizeof fired);
    s->ncounters = 0; for (auto& kv : counters) if (s->ncounters < 120) { snprintf(s->counters[s->ncounters].name, 40, "%s", kv.first.c_str()); s->counters[s->ncounters++].v = kv.second; }
    if (!replaying) { size_t n = declog.size(), m = sizeof s->dec / sizeof s->dec[0]; s->decOverflow = n > m; if (n > m) n = m; s->ndec = (u32)n; memcpy((void*)s->dec, declog.data(), n * sizeof(Dec)); }
}
}
using namespace sim;
static void onCpu(int) { if (cur) violate("hang:cpu", "the run used up its processor time budget without a memory access or system call the simulator sees (%s#%u)", cur->name, cur->id); _exit(5); }
static double wall() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// executes one plan in a child; result in shm. returns false when the child died in an unexplained way
static bool execPlan(const Plan& p, const std::vector<Dec>* dec, bool verb) {
    memset((void*)shm, 0, offsetof(Shared, dec));
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        installHandlers(); verbose = verb;
        signal(SIGVTALRM, onCpu); struct itimerval it{}; it.it_value.tv_sec = verb ? 600 : 20; setitimer(ITIMER_VIRTUAL, &it, nullptr);
        begin(p.seed, p.t, dec); runWorld(p); finishRun(); _exit(0);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0) {}
    if (!shm->finished) { snprintf(shm->cls, sizeof shm->cls, "simulator:died"); snprintf(shm->msg, sizeof shm->msg, "run process ended with status %x", st); shm->violated = 2; return false; }
    return true;
}
static std::string slurp(const char* f) { std::ifstream in(f); std::stringstream s; s << in.rdbuf(); return s.str(); }
static std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32 || (unsigned char)c > 126) o += '?'; else o += c; } return o; }
static void decText(std::ostream& o, const Dec* d, size_t n) { for (size_t i = 0; i < n; i++) o << "dec " << kindName[d[i].key >> 58] << " " << ((d[i].key >> 36) & 0x3FFFFF) << " " << (d[i].key & 0xFFFFFFFFFull) << " " << d[i].v << "\n"; }
static void writeReplay(const char* f, const Plan& p, const std::vector<Dec>& dec, const std::string& cls, const std::string& msg, u64 hash) {
    std::ofstream o(f); char h[32]; snprintf(h, sizeof h, "%016llx", (unsigned long long)hash);
    o << "# class " << cls << "\n# message " << jesc(msg) << "\n# hash " << h << "\n" << planText(p); decText(o, dec.data(), dec.size()); o << "end\n";
}
static void pcsJson(std::ostream& o) { o << "\"pcs\":["; for (int i = 0; i < shm->npcs; i++) o << (i ? "," : "") << shm->pcs[i]; o << "],\"pcs2\":["; for (int i = 0; i < shm->npcs2; i++) o << (i ? "," : "") << shm->pcs2[i]; o << "]"; }

static int cmdBatch(int argc, char** argv) { // prop first count stride tier wall maxviol statsfile
    std::string prop = argv[2]; u64 first = strtoull(argv[3], 0, 10), cnt = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10); int tier = atoi(argv[6]); double lim = atof(argv[7]); int maxv = atoi(argv[8]);
    (void)argc;
    double t0 = wall(); u64 runs = 0, st = 0, simt = 0, tf[K_N] = {0}, died = 0, quiet = 0; std::map<std::string, u64> tot, reach; std::set<u64> sched, traces; int nv = 0; std::ostringstream viol; u64 maxst = 0;
    for (u64 k = 0; k < cnt; k++) {
        if (lim > 0 && wall() - t0 > lim) break;
        u64 seed = first + k * stride; Plan p = generate(prop, seed, tier);
        bool ok = execPlan(p, nullptr, false); runs++; if (!ok) died++;
        st += shm->steps; simt += shm->simtime; maxst = std::max(maxst, (u64)shm->steps); traces.insert(shm->hash); bool any = false;
        for (int i = 1; i < K_N; i++) { tf[i] += shm->fired[i]; if (shm->fired[i]) any = true; }
        if (!any) quiet++;
        bool work = false; for (u32 i = 0; i < shm->ncounters; i++) if (shm->counters[i].v && (!strcmp(shm->counters[i].name, "handled") || strstr(shm->counters[i].name, "failed"))) work = true;
        if (any && work) sched.insert(shm->sched);
        for (u32 i = 0; i < shm->ncounters; i++) { tot[shm->counters[i].name] += shm->counters[i].v; if (shm->counters[i].v) reach[shm->counters[i].name]++; }
        if (shm->violated) { viol << (nv ? ",\n" : "") << "{\"seed\":" << seed << ",\"class\":\"" << jesc(shm->cls) << "\",\"message\":\"" << jesc(shm->msg) << "\",\"hash\":\"" << std::hex << shm->hash << std::dec << "\","; pcsJson(viol); viol << "}"; if (++nv >= maxv) break; }
    }
    std::ofstream o(argv[9]); o << "{\"runs\":" << runs << ",\"died\":" << died << ",\"steps\":" << st << ",\"maxsteps\":" << maxst << ",\"simtime\":" << simt << ",\"wall\":" << wall() - t0 << ",\"quiet\":" << quiet << ",\"fired\":{";
    bool c = false; for (int i = 1; i < K_N; i++) { o << (c ? "," : "") << "\"" << kindName[i] << "\":" << tf[i]; c = true; }
    o << "},\"counters\":{"; c = false; for (auto& kv : tot) { o << (c ? "," : "") << "\"" << kv.first << "\":[" << kv.second << "," << reach[kv.first] << "]"; c = true; }
    o << "},\"sched\":["; c = false; for (u64 h : sched) { o << (c ? "," : "") << h; c = true; }
    o << "],\"sites\":["; c = false; if (siteSeen) for (u64 i = 0; i < siteBytes; i++) if (siteSeen[i]) { o << (c ? "," : "") << i + 0x400000; c = true; }
    o << "],\"traces\":" << traces.size() << ",\"violations\":[" << viol.str() << "]}\n";
    return 0;
}
static void report() { printf("%s class=%s hash=%016llx steps=%llu simtime_us=%llu ndec=%u\n", shm->violated ? "VIOLATED" : "held", shm->violated ? shm->cls : "-", (unsigned long long)shm->hash, (unsigned long long)shm->steps, (unsigned long long)shm->simtime / 1000, shm->ndec); if (shm->violated) { printf("message: %s\npcs:", shm->msg); for (int i = 0; i < shm->npcs; i++) printf(" %llx", (unsigned long long)shm->pcs[i]); for (int i = 0; i < shm->npcs2; i++) printf(" leak@%llx", (unsigned long long)shm->pcs2[i]); printf("\n"); } }
static int cmdRec(int argc, char** argv) { // prop seed tier out [-v]
    Plan p = generate(argv[2], strtoull(argv[3], 0, 10), atoi(argv[4])); bool v = argc > 6;
    execPlan(p, nullptr, v); report();
    if (strcmp(argv[5], "-")) writeReplay(argv[5], p, std::vector<Dec>(shm->dec, shm->dec + shm->ndec), shm->cls, shm->msg, shm->hash);
    return shm->violated ? 1 : 0;
}
static int cmdReplay(int argc, char** argv) {
    Plan p; std::vector<Dec> dec; if (!planParse(slurp(argv[2]), p, &dec)) { fprintf(stderr, "bad replay file\n"); return 2; }
    execPlan(p, &dec, argc > 3); report(); return shm->violated ? 1 : 0;
}
// ---- minimisation
static std::string wantCls; static u64 tries; static double deadline;
static bool fails(const Plan& p, const std::vector<Dec>& d) { tries++; execPlan(p, &d, false); return shm->violated == 1 && wantCls == shm->cls; }
template <class T, class F> static void ddmin(std::vector<T>& v, F test) {
    size_t chunk = v.size(); 
    while (chunk >= 1 && wall() < deadline) {
        bool any = false;
        for (size_t i = 0; i < v.size() && wall() < deadline;) { std::vector<T> w(v.begin(), v.begin() + i); size_t e = std::min(v.size(), i + chunk); w.insert(w.end(), v.begin() + e, v.end()); if (test(w)) { v = w; any = true; } else i = e; }
        if (chunk == 1 && !any) break;
        chunk = chunk == 1 ? 1 : chunk / 2;
    }
}
static int cmdMin(int argc, char** argv) { // in out seconds
    Plan p; std::vector<Dec> dec; if (!planParse(slurp(argv[2]), p, &dec)) return 2;
    deadline = wall() + (argc > 4 ? atof(argv[4]) : 30);
    execPlan(p, &dec, false); if (shm->violated != 1) { printf("not reproducible\n"); return 3; } wantCls = shm->cls;
    double end = deadline; size_t n0 = dec.size(), o0 = 0; for (auto& a : p.actors) o0 += a.ops.size();
    for (int pass = 0; pass < 3 && wall() < end; pass++) {
        size_t before = dec.size(); for (auto& a : p.actors) before += a.ops.size();
        deadline = wall() + (end - wall()) * 0.45;
        bool ops = wantCls.compare(0, 5, "hang:") && wantCls != "leak:growth"; // those classes depend on the shape of the workload: only decisions are removed
        if (ops) { std::vector<Actor> a = p.actors; ddmin(a, [&](const std::vector<Actor>& w) { Plan q = p; q.actors = w; return fails(q, dec); }); p.actors = a; }
        if (ops) for (size_t k = 0; k < p.actors.size(); k++) { std::vector<Op> o = p.actors[k].ops; ddmin(o, [&](const std::vector<Op>& w) { Plan q = p; q.actors[k].ops = w; return fails(q, dec); }); p.actors[k].ops = o; }
        deadline = end; ddmin(dec, [&](const std::vector<Dec>& w) { return fails(p, w); });
        size_t after = dec.size(); for (auto& a : p.actors) after += a.ops.size();
        if (after == before) break;
    }
    fails(p, dec); size_t o1 = 0; for (auto& a : p.actors) o1 += a.ops.size();
    std::string cls = shm->cls, msg = shm->msg; u64 h = shm->hash; bool ok = shm->violated == 1 && cls == wantCls;
    if (!ok) return 3;
    writeReplay(argv[3], p, dec, cls, msg, h);
    printf("{\"ops\":[%zu,%zu],\"decisions\":[%zu,%zu],\"tries\":%llu,\"hash\":\"%016llx\"}\n", o0, o1, n0, dec.size(), (unsigned long long)tries, (unsigned long long)h);
    return 0;
}
int main(int argc, char** argv) {
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_PERS")) { if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_PERS", "1", 1); execv("/proc/self/exe", argv); } }
    shm = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    siteSeen = (unsigned char*)mmap(nullptr, siteBytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (siteSeen == MAP_FAILED) siteSeen = nullptr;
    setup();
    std::string c = argc > 1 ? argv[1] : "";
    if (c == "batch" && argc > 9) return cmdBatch(argc, argv);
    if (c == "plan" && argc > 4) { fputs(planText(generate(argv[2], strtoull(argv[3], 0, 10), atoi(argv[4]))).c_str(), stdout); return 0; }
    if (c == "rec" && argc > 5) return cmdRec(argc, argv);
    if (c == "replay" && argc > 2) return cmdReplay(argc, argv);
    if (c == "min" && argc > 3) return cmdMin(argc, argv);
    fprintf(stderr, "usage: simrun batch|plan|rec|replay|min ...\n"); return 2;
}
