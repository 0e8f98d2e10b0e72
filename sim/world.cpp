// The simulated deployment: one server process, client processes, raw peers, and the oracles.
#include "plan.h"
#include "wl.h"
#include "shared.h"
#include <sys/epoll.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <set>
#include <cstring>
#include <cstdio>
#include <cerrno>
#include <algorithm>
#include <unistd.h>

namespace sim {
const int svcId[4] = { 1, 32, 63, 254 };
enum { FN_ECHO = 1, FN_PUT = 2, FN_POST = 3, FN_LATER = 4, FN_FAN = 5, FN_MANY = 6, FN_ALL = 9, FN_TICK = 11 };
static const u64 US = 1000, MS = 1000000;

static const Plan* P; static u64 cfgv(const char* k, u64 d = 0) { return P->get(k, d); }
static u64 seqno; // global order of harness events
static u32 maxmsg;

// ------------------------------------------------------------------ registry
struct Inc; struct Call; struct Ev;
struct Call { u32 uid; int svc, fn; Inc* inc = nullptr; u32 msgid = 0, len = 0, rlen = 0; int act = 0; u64 delay = 0; u32 cnt = 0;
    bool sending = false, sent = false, partial = false, lenient = false, errExpected = false, packet = false, noreply = false, gap = false;
    u64 startSeq = 0, doneSeq = 0, order = 0; int handled = 0, arrivals = 0; bool answered = false, answeredOk = false; int got = 0;
    u32 sendFiber = 0; u64 sendIdx = 0; bool deferred = false; std::vector<Ev*> evs; std::string wantArgs, wantRes; };
struct Ev { u32 uid; int svc; int kind; bool all; u32 src; u32 seq; u32 len; bool done = false; u64 startSeq = 0, endSeq = 0; u64 sendIdx = 0; int handle = -1;
    std::map<int, std::pair<int, u32>> snap; std::set<int> must, mustNot, may, got; std::string want; };
struct Slot { gracht_message_context ctx; Call* call = nullptr; bool known = false; };
struct Inc { int id, actor, node, link; bool stream = true, raw = false; gracht_client_t* cl = nullptr; Conn* conn = nullptr; int fd = -1;
    bool connected = false, leaving = false, closed = false, killed = false, broken = false, faulted = false, lossy = false, poisoned = false, subUnsure = false, multiRx = false, multiTx = false, oom = false;
    bool stopPump = false, pumpAlive = false; gracht_conn_t handle = -1;
    int sub[4]; u32 ver[4]; u64 nextOrder = 0, lastHandled = 0, barrierStart = ~0ull; std::map<u32, u64> lastEv; std::map<u32, u64> lastIdx; std::map<u32, Call*> rawCalls; u32 nextId = 1; int outstanding = 0; u64 regMask = 15, regNow = 15; void* sendBuf = nullptr; u64 nEv = 0; int nest = 0, nestLeft = 12; std::string rx, path; std::vector<Call*> ticks; };
struct ConnInfo { int announced = 0, retired = 0; int handle = -1; Inc* inc = nullptr; Ev* hello = nullptr; };
static std::map<u32, Call*> calls; static std::map<u32, Ev*> evs; static std::vector<Inc*> incs; static std::map<Conn*, ConnInfo> cinfo;
static std::map<int, Conn*> handleConn; static std::map<int, int> pktHandles;
static std::map<u32, u64> fiberIdx;   // sends per server fiber
static u64 nHandled, nEvGot, nResults, nErrors, nDeferredAnswered, pktAnnounceCount;
struct RegEv { u64 seq; int state; }; static std::vector<RegEv> regHist[4]; // 0 off 1 on 2 changing

// ------------------------------------------------------------------ server state
static gracht_server_t* server; static bool serverUp, serverDone, serverDead, stopping, stopReq, worldDone, allDone; static int inApp, inHandler; static int serverRet; static WaitQ evq_, upQ;
static int epfd = -1, appfd = -1; static u64 stopSeq, stopTime; static u32 evSeqNo, evUid; static int finite;
struct Deferred { gracht_message* m; std::string snap; Call* c; u64 due; };
static std::vector<Deferred> deferredQ;
static bool acceptFaults, oomOn, oomEver;

static std::string pat(u32 uid, u32 salt, size_t n) { Rng r(mix(uid, salt)); std::string s(n, 0); for (size_t i = 0; i < n; i += 8) { u64 v = r.next(); memcpy(&s[i], &v, std::min<size_t>(8, n - i)); } return s; }
static std::string txt(u32 uid, u32 salt, size_t n) { std::string s = pat(uid, salt, n); for (auto& c : s) c = 'a' + (unsigned char)c % 26; return s; }
struct Rec { wl_record r; std::string text, blob; std::vector<wl_item> items; };
static void mkRec(Rec& x, u32 uid, u32 salt, size_t size) {
    x.text = txt(uid, salt * 8 + 1, size / 4); x.blob = pat(uid, salt * 8 + 2, size / 4); x.items.resize(size / 3 / 12);
    Rng r(mix(uid, salt * 8 + 3)); for (auto& it : x.items) { it.a = (u32)r.next(); it.b = (int64_t)r.next(); }
    x.r.uid = uid; x.r.text = &x.text[0]; x.r.blob_count = (u32)x.blob.size(); x.r.blob = (uint8_t*)&x.blob[0]; x.r.items_count = (u32)x.items.size(); x.r.items = x.items.data(); x.r.flag = (uint8_t)(r.next() & 1);
}
static std::string canon(const wl_record* r) {
    std::string s((const char*)&r->uid, 4); s += r->text ? r->text : ""; s += '\0'; s.append((const char*)&r->blob_count, 4);
    if (r->blob_count) { check(r->blob, r->blob_count, false, nullptr); s.append((const char*)r->blob, r->blob_count); }
    s.append((const char*)&r->items_count, 4); for (u32 i = 0; i < r->items_count && i < 100000; i++) { check(&r->items[i], sizeof(wl_item), false, nullptr); s.append((const char*)&r->items[i].a, 4); s.append((const char*)&r->items[i].b, 8); }
    s += (char)r->flag; return s;
}
static void freeRec(wl_record* r) { sim_free(r->text); sim_free(r->blob); sim_free(r->items); }

static u64 lowNodes; // client processes that were short of memory at some time: generated code drops events it has no memory for
static bool relaxed(Inc* i) { // the transport could not take everything the server sent
    if (i->oom || (lowNodes >> (i->node & 63) & 1)) return true;
    if (i->conn) return i->conn->full[1] > 0 || i->conn->reset;
    return i->lossy || (i->fd >= 0 && dgramLost(i->node, i->fd) > 0);
}
static bool brokenOK(Inc* i) { return stopping || i->oom || serverDead || i->faulted || i->poisoned || i->killed || (i->conn && (i->conn->full[1] > 0 || i->conn->reset)) || (acceptFaults && (!i->conn || !cinfo[i->conn].announced)); }
static bool couldBe(int svc, u64 a, u64 b, int state) {
    auto& h = regHist[svc]; int st = 0;
    for (size_t i = 0; i < h.size(); i++) { if (h[i].seq <= a) { st = h[i].state; continue; } if (h[i].seq > b) break; if (h[i].state == state || h[i].state == 2) return true; }
    // state that was in force at `a`
    return st == state || st == 2;
}
static const char* fnName(int svc, int fn) { static char b[8][24]; static int k; k = (k + 1) & 7; const char* a[] = {"?", "echo", "put", "post", "later", "fan", "many", "?", "?", "all", "?", "tick"}; snprintf(b[k], 24, "%d.%s", svcId[svc], svc ? (fn == 1 ? "echo" : "post") : a[fn < 12 ? fn : 0]); return b[k]; }

// ------------------------------------------------------------------ events
static std::string expectAll(u32 uid, u32 salt, u32 size, int ev) { std::string b(20000, 0); b.resize(wlx_expected(uid, salt, size, ev, &b[0], (u32)b.size())); return b; }
static Ev* newEv(int svc, int kind, bool all, u32 len) {
    Ev* e = new Ev(); e->uid = 0xE0000000u | ++evUid; if (kind == 2) e->want = expectAll(e->uid, 9, len, 1); e->svc = svc; e->kind = kind; e->all = all; e->src = cur->id; e->seq = ++evSeqNo; e->len = len; evs[e->uid] = e;
    return e;
}
static bool online(Inc* i) { if (i->closed || i->killed) return false; if (!i->stream) return i->connected; return i->conn && cinfo[i->conn].announced && !cinfo[i->conn].retired; }
static bool known(Inc* i) { return i->stream || (pktHandles.count((int)i->handle) && pktHandles[(int)i->handle]); } // packet clients exist for the server while they are subscribed
static void evCheckNot(Ev* e, Inc* i) {
    if (e->mustNot.count(i->id) && e->got.count(i->id)) violate("event:not-subscribed", "event %x of protocol %d was delivered to client %d, which is not subscribed", e->uid, svcId[e->svc], i->actor);
}
static void evStart(Ev* e, Inc* target) {
    e->startSeq = ++seqno; e->sendIdx = ++fiberIdx[cur->id];
    if (e->all) for (Inc* i : incs) { if (i->closed || i->killed) continue; if (online(i)) e->snap[i->id] = {i->sub[e->svc], i->ver[e->svc]}; }
    else if (target) { e->may.insert(target->id); if (online(target) && known(target)) e->snap[target->id] = {1, 0}; }
}
static void evEnd(Ev* e) {
    e->done = true; e->endSeq = ++seqno;
    for (auto& kv : e->snap) { Inc* i = incs[kv.first];
        if (!online(i) || i->leaving) continue;
        if (!e->all) { if (known(i)) e->must.insert(i->id); continue; }
        if (i->ver[e->svc] != kv.second.second) continue;
        if (kv.second.first == 1) e->must.insert(i->id); else if (kv.second.first == 0) { e->mustNot.insert(i->id); evCheckNot(e, i); }
    }
}
static void evDelivered(Inc* i, int svc, int kind, u32 uid, u32 src, u32 seq, const std::string& data, bool haveMeta) {
    nEvGot++; i->nEv++;
    auto it = evs.find(uid);
    if (it == evs.end()) violate("event:corrupt", "client %d received an event with unknown identity %x (protocol %d, %zu bytes)", i->actor, uid, svcId[svc], data.size());
    Ev* e = it->second; trace(0xE7, uid);
    logf("event %x received by client %d", uid, i->actor);
    if (e->svc != svc || e->kind != kind) violate("event:corrupt", "event %x arrived as another event (protocol %d)", uid, svcId[svc]);
    std::string want; if (kind == 0) want = pat(uid, 9, e->len); else if (kind == 2) want = e->want; else { Rec r; mkRec(r, uid, 9, e->len); want = canon(&r.r); }
    if (data != want) violate("event:corrupt", "event %x arrived with different contents (%zu bytes, sent %zu)", uid, data.size(), want.size());
    if (haveMeta && (src != e->src || seq != e->seq)) violate("event:corrupt", "event %x arrived with different values", uid);
    if (!e->all && !e->may.count(i->id) && !(i->conn && i->conn->acceptFd == e->handle)) violate("event:wrong-target", "event %x targeted at another client was delivered to client %d", uid, i->actor);
    if (e->got.count(i->id) && (i->stream || !i->lossy)) violate("event:duplicate", "event %x was delivered twice to client %d", uid, i->actor);
    e->got.insert(i->id);
    if (e->done) evCheckNot(e, i);
    if (i->cl && !i->multiRx && !(i->regNow >> e->svc & 1)) violate("event:unregistered", "client %d received event %x of protocol %d after unregistering the protocol", i->actor, e->uid, svcId[e->svc]);
    if (!i->multiRx && i->stream) { u64& l = i->lastEv[e->src]; if (e->seq <= l) violate("order:events", "client %d received event number %u of server thread %u after number %llu", i->actor, e->seq, e->src, (unsigned long long)l); l = e->seq; }
}
static void checkMust(Inc* i) { // everything sent before the final barrier has to be here
    if (relaxed(i) || i->broken) return;
    if (i->conn && cinfo[i->conn].hello && !cinfo[i->conn].hello->got.count(i->id) && (!i->cl || (i->regMask & 1))) violate("notify:unusable", "the event that the connect callback sent to client %d never arrived", i->actor);
    for (auto& kv : evs) { Ev* e = kv.second; if (!e->done || e->endSeq >= i->barrierStart || !e->must.count(i->id)) continue;
        if (i->cl && !(i->regMask >> e->svc & 1)) continue;
        if (!e->got.count(i->id)) violate("event:lost", "event %x (%s, protocol %d, %u bytes) sent while client %d was connected and subscribed never arrived", e->uid, e->all ? "broadcast" : "targeted", svcId[e->svc], e->len, i->actor); }
}
static int sendEvent(Ev* e, Inc* target, gracht_conn_t handle) {
    if (!e->all) e->handle = (int)handle;
    evStart(e, target);
    int r;
    logf("sending event %x (%s) protocol %d len %u", e->uid, e->all ? "all" : "single", svcId[e->svc], e->len);
    if (e->kind == 2) r = wlx_event(server, e->all, handle, e->uid, 9, e->len);
    else if (e->kind == 1) { Rec x; mkRec(x, e->uid, 9, e->len); r = e->all ? wl_alpha_event_rec_all(server, &x.r) : wl_alpha_event_rec_single(server, handle, &x.r); }
    else { std::string d = pat(e->uid, 9, e->len); const uint8_t* p = (const uint8_t*)d.data(); u32 n = (u32)d.size();
        switch (e->svc * 2 + (e->all ? 1 : 0)) {
        case 0: r = wl_alpha_event_note_single(server, handle, e->uid, e->src, e->seq, p, n); break; case 1: r = wl_alpha_event_note_all(server, e->uid, e->src, e->seq, p, n); break;
        case 2: r = wl_beta_event_note_single(server, handle, e->uid, e->src, e->seq, p, n); break; case 3: r = wl_beta_event_note_all(server, e->uid, e->src, e->seq, p, n); break;
        case 4: r = wl_gamma_event_note_single(server, handle, e->uid, e->src, e->seq, p, n); break; case 5: r = wl_gamma_event_note_all(server, e->uid, e->src, e->seq, p, n); break;
        case 6: r = wl_delta_event_note_single(server, handle, e->uid, e->src, e->seq, p, n); break; default: r = wl_delta_event_note_all(server, e->uid, e->src, e->seq, p, n); break; } }
    int er = errno; evEnd(e);
    trace(0xE6, e->uid); errno = er; return r;
}
static u32 allLen(u32 len) { u32 m = (std::min<u32>(maxmsg, 12000) - 300) / 2; return len > m ? m : len; }
static u32 evLenFor(u32 len) { u32 m = maxmsg - 11 - 16 - 24; return len > m ? m : len; }

// ------------------------------------------------------------------ server side
static bool appEnter() { if (!serverUp || stopping || serverDone || serverDead) return false; inApp++; return true; }
static void appLeave() { inApp--; wakeAll(evq_); }
static void requestStop(bool fromHandler) {
    (void)fromHandler;
    if (stopReq || serverDead) return;
    stopReq = stopping = true; logf("shutdown requested");
    while (inApp) waitOn(evq_, "stop: application threads");
    stopSeq = ++seqno; stopTime = now; count("shutdown-requests");
    gracht_server_request_shutdown(server); wakeAll(evq_);
}
static void respondNow(gracht_message* m, Call* c) {
    if (c->noreply) return;
    c->sendFiber = cur->id; c->sendIdx = ++fiberIdx[cur->id]; c->answered = true; int r = -1;
    if (c->svc == 0) switch (c->fn) {
        case FN_ECHO: { std::string d = pat(c->uid, 2, c->rlen); r = wl_alpha_echo_response(m, c->uid, (uint8_t*)d.data(), (u32)d.size()); break; }
        case FN_LATER: { std::string d = pat(c->uid, 2, c->rlen); r = wl_alpha_later_response(m, c->uid, (uint8_t*)d.data(), (u32)d.size()); break; }
        case FN_PUT: { Rec x; mkRec(x, c->uid, 2, c->rlen); std::string n = txt(c->uid, 3, c->rlen / 8); r = wl_alpha_put_response(m, &x.r, &n[0]); break; }
        case FN_FAN: r = wl_alpha_fan_response(m, c->uid); break;
        case FN_TICK: r = wl_alpha_tick_response(m, c->uid, mix(c->uid, 0x71)); break;
        case FN_ALL: r = wlx_respond(m, c->uid, 2, c->rlen); break;
        case FN_MANY: { std::vector<Rec> x(c->cnt); std::vector<wl_record> v; for (u32 i = 0; i < c->cnt; i++) { mkRec(x[i], c->uid + (i << 12), 20 + i, c->rlen / c->cnt); v.push_back(x[i].r); } if (!v.empty()) v[0].uid = c->uid; r = wl_alpha_many_response(m, v.data(), (u32)v.size()); break; }
        default: return; }
    else { std::string d = pat(c->uid, 2, c->rlen); uint8_t* p = (uint8_t*)d.data(); u32 n = (u32)d.size(); r = c->svc == 1 ? wl_beta_echo_response(m, c->uid, p, n) : c->svc == 2 ? wl_gamma_echo_response(m, c->uid, p, n) : wl_delta_echo_response(m, c->uid, p, n); }
    c->answeredOk = r == 0;
    logf("response to %x: %d", c->uid, r);
}
static void answerDeferred(size_t k) {
    Deferred d = deferredQ[k]; deferredQ.erase(deferredQ.begin() + k);
    if (memcmp(d.m, d.snap.data(), d.snap.size())) violate("defer:copy-changed", "the deferred copy of call %x changed before it was answered", d.c->uid);
    respondNow(d.m, d.c); nDeferredAnswered++;
    sim_free(d.m);
}
// a handler was entered
static Call* enterHandler(gracht_message* m, int svc, int fn, u32 uid, const std::string& got, u32 cnt) {
    ++seqno; inHandler++; nHandled++; progressAt = steps;
    trace(0xA7, uid);
    logf("handler %s uid %x (%zu bytes) client %d", fnName(svc, fn), uid, got.size(), (int)m->client);
    if (serverDone) violate("shutdown:handler-after", "a handler ran after the server had been shut down");
    auto it = calls.find(uid);
    if (it == calls.end()) violate("call:phantom", "handler %s ran for a request nobody made (identity %x, %zu bytes)", fnName(svc, fn), uid, got.size());
    Call* c = it->second; Inc* i = c->inc;
    if (c->partial) violate("call:incomplete-handled", "handler %s ran for a request that was never completely sent", fnName(svc, fn));
    if (c->svc != svc || c->fn != fn) violate("call:wrong-handler", "request %s ran handler %s", fnName(c->svc, c->fn), fnName(svc, fn));
    std::string want;
    if (fn == FN_PUT && svc == 0) { Rec r; mkRec(r, uid, 1, c->len); want = canon(&r.r) + txt(uid, 4, c->len / 8); }
    else if (fn == FN_MANY && svc == 0) { for (u32 k = 0; k < c->cnt; k++) { Rec r; mkRec(r, uid + (k << 12), 10 + k, c->len / c->cnt); if (!k) r.r.uid = uid; want += canon(&r.r); } }
    else if ((fn == FN_FAN || fn == FN_TICK) && svc == 0) want = "";
    else if (fn == FN_ALL && svc == 0) want = c->wantArgs;
    else want = pat(uid, 1, c->len);
    if (want != got || cnt != c->cnt) violate("call:wrong-arguments", "handler %s received other arguments than were passed (%zu bytes, sent %zu, count %u/%u)", fnName(svc, fn), got.size(), want.size(), cnt, c->cnt);
    c->handled++;
    if (!c->packet && c->handled > 1) violate("call:handled-twice", "request %x ran its handler %d times", uid, c->handled);
    if (c->packet && c->handled > c->arrivals) violate("call:handled-twice", "request %x arrived in %d datagrams but ran its handler %d times", uid, c->arrivals, c->handled);
    if (c->errExpected || !couldBe(svc, c->startSeq, seqno, 1)) violate("call:unregistered-handled", "handler %s ran although that function is not registered", fnName(svc, fn));
    if (i && i->stream && i->conn) {
        ConnInfo& ci = cinfo[i->conn];
        if (cfgv("nocb")) { if ((int)m->client != i->conn->acceptFd) violate("call:wrong-client", "request of client %d (connection %d) was handled as coming from connection %d", i->actor, i->conn->acceptFd, (int)m->client); i->handle = m->client; }
        else if (!ci.announced) violate("notify:late-connect", "a request of client %d was handled before the connect callback ran", i->actor);
        if (!cfgv("nocb") && ci.handle != (int)m->client) { auto h = handleConn.find((int)m->client); if (h == handleConn.end() || h->second != i->conn) violate("call:wrong-client", "request of client %d (connection %d) was handled as coming from connection %d", i->actor, ci.handle, (int)m->client); }
        if (ci.retired && cfgv("workers") <= 1) violate("notify:early-disconnect", "a request of client %d was handled after its disconnect callback", i->actor);
        if (cfgv("workers") <= 1 && !i->multiTx) { if (c->order < i->lastHandled) violate("order:requests", "request number %llu of client %d was handled after number %llu", (unsigned long long)c->order, i->actor, (unsigned long long)i->lastHandled); i->lastHandled = c->order; }
    } else if (i && !i->stream) i->handle = m->client;
    return c;
}
// handlers that block until others run (ACT_GATE): the configured workers must be there for it
struct Gate { int need = 0, in = 0, sent = 0; u64 first = 0, lastAt = 0, full = 0; bool clean = false, held = false, open = false, app = false; };
static std::map<u64, Gate> gates;
static bool callSettled(Call*);
static const u64 GATE_T = 400 * MS;
static bool gateOnly(Gate& g, u64 k) { // since the server was idle nothing but this gate's requests has been sent
    for (auto& kv : calls) if (kv.second->startSeq >= g.first && !(kv.second->act == ACT_GATE && kv.second->delay / US == k)) return false;
    return g.clean;
}
static void gateBegin(Call* c) { Gate& g = gates[c->delay / US]; if (g.first) return; g.first = seqno + 1; g.clean = !inHandler; for (auto& kv : calls) { Call* o = kv.second; if (o != c && o->startSeq && ((o->sending && !o->sent && !o->lenient) || !callSettled(o))) g.clean = false; } }
static void gateSent(Call* c) { Gate& g = gates[c->delay / US]; g.sent++; g.lastAt = now; }
static void gateHandler(Call* c) {
    u64 k = c->delay / US; Gate& g = gates[k]; int W = (int)cfgv("workers"); if (W < 2) return;
    if (++g.in >= g.need) { g.full = ++seqno; if (!g.held) { g.open = true; count("gates"); } wakeAll(evq_); }
    u64 t0 = now;
    while (!g.open && !stopping && !serverDone) {
        sleepFor(MS);
        if (now > t0 + 20 * GATE_T) { g.open = true; count("gates-given-up"); return; } // a request of the group was never made
        if (g.in < g.need && g.need <= W && g.sent >= g.need && g.lastAt && now > g.lastAt + GATE_T) { if (!gateOnly(g, k)) { g.open = true; return; }
            violate("workers:unused", "%d requests were sent to an idle server with %d workers, but only %d of them are being handled while those handlers block", g.need, W, g.in); }
    }
}
static void gateOp(u64 k, int kind) {
    Gate& g = gates[k]; int W = (int)cfgv("workers"); if (W < 2) return;
    u64 t0 = now; auto late = [&]() { return now > t0 + GATE_T || stopping || serverDead || g.open; };
    switch (kind) {
    case 0: while (g.in < g.need && !stopping && !serverDead && !g.open && now < t0 + 3 * GATE_T) sleepFor(MS); break;
    case 1: g.open = true; count("gates-held"); break;
    case 5: g.app = true; wakeAll(evq_); break;
    case 6: if (!g.full) break; while (!g.app && !late()) sleepFor(MS); if (!g.app && !stopping && !serverDead && !g.open) violate("workers:main-blocked", "what an application thread calls does not return while %d of %d workers are blocked", g.need, W); count("calls-beside-blocked-workers"); break;
    case 2: { if (!g.full || g.need >= W) break; bool clean = true; int n = 0, done; for (auto& kv : calls) if (kv.second->startSeq && kv.second->startSeq < g.full && kv.second->startSeq >= g.first && !(kv.second->act == ACT_GATE && kv.second->delay / US == k)) clean = false; if (!clean || !g.clean) break;
        for (;;) { n = done = 0; for (auto& kv : calls) if (kv.second->startSeq > g.full && kv.second->sent) { n++; if (kv.second->handled) done++; } if (done >= n / W || late()) break; sleepFor(MS); }
        if (done < n / W && !stopping && !serverDead && !g.open) violate("workers:unused", "%d of %d workers are blocked, and of %d requests sent since only %d have been handled", g.need, W, n, done);
        count("requests-beside-blocked-workers", n); break; }
    case 3: { bool all; if (!g.full) break; do { all = true; for (Inc* i : incs) if (i->connected && i->stream && !i->closed && !i->killed && i->conn && !(cfgv("nocb") ? i->conn->accepted : cinfo[i->conn].announced > 0)) all = false; if (!all) sleepFor(MS); } while (!all && !late());
        if (!all && !stopping && !serverDead && !g.open) violate("workers:main-blocked", "a client that connected while %d of %d workers are blocked is not taken in", g.need, W); count("connects-beside-blocked-workers"); break; }
    }
}
static bool releaseAll; // at the end even those deferred calls are answered that wait for another call
struct RegBusy { int n = 0, kind = 0, wins = 0; }; static RegBusy regBusy[4];
static gracht_protocol_t* svcProto(int s); static gracht_protocol_t* regProto(int s); static void regNote(int s, int st);
static void regOp(int code, int s) { // by an application thread, a handler or a callback
    RegBusy& B = regBusy[s];
    if (code == S_REG) { // several threads may register one protocol at once: exactly one of them succeeds
        if (B.n && B.kind != 1) return; int st = regHist[s].back().state; bool dup = st == 1 && !B.n;
        if (!B.n) { B.kind = dup ? 2 : 1; B.wins = 0; if (!dup) regNote(s, 2); }
        B.n++; errno = 0; int k = gracht_server_register_protocol(server, regProto(s)); int e = errno; B.n--; count("registrations");
        if (k && stopReq) return;
        if (k && e != EEXIST) violate("register:refused", "registering protocol %d failed (errno %d)", svcId[s], e);
        if (dup) { if (k == 0) violate("register:duplicate", "registering protocol %d a second time was not refused", svcId[s]); return; }
        if (k == 0) B.wins++;
        if (!B.n) { if (B.wins > 1) violate("register:duplicate", "registering protocol %d succeeded %d times", svcId[s], B.wins); if (!B.wins) { if (stopReq) return; violate("register:refused", "registering protocol %d was refused", svcId[s]); } regNote(s, 1); }
        return; }
    if (code == S_UNREG) { if (s == 0 || B.n || regHist[s].back().state != 1) return; B.kind = 2; B.n++; regNote(s, 2); gracht_server_unregister_protocol(server, svcProto(s)); if (!stopReq) regNote(s, 0); B.n--; count("unregistrations"); return; }
    if (B.n || regHist[s].back().state != 1) return;
    B.kind = 2; B.n++; static gracht_protocol_t dup[4]; static gracht_protocol_function_t none[1]; dup[s] = *svcProto(s); dup[s].name = (char*)"impostor"; dup[s].num_functions = 0; dup[s].functions = none; errno = 0; int k = gracht_server_register_protocol(server, &dup[s]); int e = errno; B.n--;
    if (k && stopReq) return;
    if (k == 0 || e != EEXIST) violate("register:duplicate", "registering the id %d of a registered protocol was not refused (%d, errno %d)", svcId[s], k, e); count("duplicate-registrations");
}
static void regAct(u64 x) { if (stopReq || stopping) return; static const int c[] = {S_REG, S_REG, S_UNREG, S_UNREG, S_DUPREG}; count("registrations-in-handlers"); regOp(c[x % 5], (int)(x / 5 % 4)); }
static void callbackActs(int id) { // what applications do in their callbacks
    if (stopReq || stopping) return; u64 x = mix((u64)id, seqno);
    if (cfgv("cbreg") && x % 3 == 0) regAct(x >> 8);
    if (cfgv("cbcast") && (x >> 32) % 3 == 0) { count("broadcasts-in-callbacks"); sendEvent(newEv((int)(x >> 40 & 1), 0, true, (u32)(x >> 44 & 63)), nullptr, 0); }
}
static void handlerBody(gracht_message* m, Call* c) {
    Inc* i = c->inc;
    if (c->act == ACT_GATE) gateHandler(c);
    else if (c->delay) { sleepFor(c->delay); }
    switch (c->act) {
    case ACT_BCAST: sendEvent(newEv(c->svc, 0, true, evLenFor(c->cnt && c->fn != FN_MANY ? 8 : (c->len & 127))), nullptr, 0); break;
    case ACT_TARGET: { Ev* e = newEv(c->svc, c->svc == 0 && (c->uid & 1), false, evLenFor(c->len & 255)); sendEvent(e, i, m->client); break; }
    case ACT_SHUT: requestStop(true); if (c->uid & 1) { static gracht_protocol_function_t none[1]; static gracht_protocol_t late; late.id = 77; late.name = (char*)"late"; late.num_functions = 0; late.functions = none; if (gracht_server_register_protocol(server, &late) == 0) gracht_server_unregister_protocol(server, &late); count("calls-after-shutdown-request"); } break;
    case ACT_REG: regAct(c->uid ^ c->uid >> 7); break;
    case ACT_ANSWER: if (!deferredQ.empty()) { size_t k = c->uid % deferredQ.size(); answerDeferred(k); } break;
    }
    if (c->svc == 0 && c->fn == FN_FAN) for (u32 k = 0; k < c->cnt; k++) { Ev* e = newEv(0, 0, false, evLenFor((c->uid * 7 + k * 13) % 90)); c->evs.push_back(e); sendEvent(e, i, m->client); }
    bool post = c->svc == 0 ? c->fn == FN_POST : c->fn == 2;
    if (c->svc == 0 && c->fn == FN_LATER) {
        size_t n = GRACHT_MESSAGE_DEFERRABLE_SIZE(m);
        if (n > maxmsg + 1024) violate("defer:size", "the deferrable size of a %u byte call is reported as %zu", c->len, n);
        gracht_message* d = (gracht_message*)alloc(n, false);
        gracht_server_defer_message(m, d);
        Deferred q; q.m = d; q.snap.assign((char*)d, n); q.c = c; q.due = c->cnt == 0xFFFFFF ? releaseAll ? now : ~0ull : now + (u64)(c->cnt ? c->cnt : 1) * US * 10; c->deferred = true; deferredQ.push_back(q);
    } else if (!post) respondNow(m, c);
    if (c->act == ACT_BCAST_AFTER) sendEvent(newEv(c->svc, 0, true, evLenFor(c->len & 63)), nullptr, 0);
    inHandler--; ++seqno; wakeAll(evq_);
}
static void stdHandler(gracht_message* m, int svc, int fn, u32 uid, const uint8_t* d, u32 n, u32 cnt) {
    if (n) check(d, n, false, nullptr);
    auto it = calls.find(uid); u32 c = cnt; if (it != calls.end() && !(svc == 0 && fn == FN_FAN)) c = it->second->cnt;
    Call* k = enterHandler(m, svc, fn, uid, std::string((const char*)d, n), c); handlerBody(m, k);
}
static void nested(Inc* i, u32 uid);
} // namespace
using namespace sim;
extern "C" {
#define SMALL(S, K) \
 void wl_##S##_echo_invocation(gracht_message* m, const uint32_t uid, const uint8_t* d, const uint32_t n) { stdHandler(m, K, 1, uid, d, n, 0); }
#define SMALLPOST(S, K) \
 void wl_##S##_post_invocation(gracht_message* m, const uint32_t uid, const uint8_t* d, const uint32_t n) { stdHandler(m, K, 2, uid, d, n, 0); }
SMALL(beta, 1) SMALL(gamma, 2) SMALL(delta, 3) SMALLPOST(beta, 1) SMALLPOST(gamma, 2)
void wl_delta_post_invocation(gracht_message* m, const uint32_t uid, const uint8_t* d, const uint32_t n, const uint8_t* d2, const uint32_t n2) { if (n) check(d, n, false, nullptr); if (n2) check(d2, n2, false, nullptr); std::string s((const char*)d, n); s.append((const char*)d2, n2); stdHandler(m, 3, 2, uid, n2 ? (const uint8_t*)s.data() : d, (u32)s.size(), 0); }
void wl_alpha_echo_invocation(gracht_message* m, const uint32_t uid, const uint8_t* d, const uint32_t n) { stdHandler(m, 0, FN_ECHO, uid, d, n, 0); }
void wl_alpha_post_invocation(gracht_message* m, const uint32_t uid, const uint8_t* d, const uint32_t n) { stdHandler(m, 0, FN_POST, uid, d, n, 0); }
void wl_alpha_later_invocation(gracht_message* m, const uint32_t uid, const uint8_t* d, const uint32_t n) { stdHandler(m, 0, FN_LATER, uid, d, n, 0); }
void wl_alpha_fan_invocation(gracht_message* m, const uint32_t uid, const uint32_t count) { stdHandler(m, 0, FN_FAN, uid, nullptr, 0, count); }
void wl_alpha_tick_invocation(gracht_message* m) {
    Call* c = nullptr; Inc* who = nullptr; bool strange = false;
    for (Inc* i : incs) { if (i->poisoned || i->raw) strange = true; if (i->stream ? !i->conn || i->conn->acceptFd != (int)m->client || i->conn->closed[1] : (int)i->handle != (int)m->client) continue; for (Call* t : i->ticks) if (!t->handled) { c = t; who = i; break; } if (c) break; }
    if (!c) { if (!strange) violate("call:phantom", "handler 1.tick ran for a request nobody made"); return; }
    (void)who; stdHandler(m, 0, FN_TICK, c->uid, nullptr, 0, 0); }
void wl_alpha_put_invocation(gracht_message* m, const wl_record* r, const char* note) { u32 uid = r->uid; auto it = calls.find(uid); Call* c = enterHandler(m, 0, FN_PUT, uid, canon(r) + note, it == calls.end() ? 0 : it->second->cnt); handlerBody(m, c); }
void wl_alpha_many_invocation(gracht_message* m, const wl_record* r, const uint32_t n) { std::string s; for (u32 i = 0; i < n && i < 4096; i++) s += canon(&r[i]); Call* c = enterHandler(m, 0, FN_MANY, n ? r[0].uid : 0, s, n); handlerBody(m, c); }
void wlx_handler(gracht_message* m, uint32_t uid, const char* p, uint32_t n) { auto it = calls.find(uid); Call* c = enterHandler(m, 0, FN_ALL, uid, std::string(p, std::min<u32>(n, 20000)), it == calls.end() ? 0 : it->second->cnt); handlerBody(m, c); }
static Inc* incOf(gracht_client_t* cl) { for (size_t k = incs.size(); k--;) if (incs[k]->cl == cl && !incs[k]->closed) return incs[k]; violate("client:unknown", "event callback for an unknown client"); }
#define NOTE(S, K) void wl_##S##_event_note_invocation(gracht_client_t* cl, const uint32_t uid, const uint32_t src, const uint32_t seq, const uint8_t* d, const uint32_t n) { if (n) check(d, n, false, nullptr); Inc* i = incOf(cl); evDelivered(i, K, 0, uid, src, seq, std::string((const char*)d, n), true); if (cfgv("nested")) { std::string keep((const char*)d, n); nested(i, uid); if (n && memcmp(d, keep.data(), n)) violate("event:corrupt", "the arguments of event %x changed while its handler ran", uid); } }
NOTE(alpha, 0) NOTE(beta, 1) NOTE(gamma, 2) NOTE(delta, 3)
void wlx_event_got(gracht_client_t* cl, uint32_t uid, const char* p, uint32_t n) { evDelivered(incOf(cl), 0, 2, uid, 0, 0, std::string(p, std::min<u32>(n, 20000)), false); }
void wl_alpha_event_rec_invocation(gracht_client_t* cl, const wl_record* r) { evDelivered(incOf(cl), 0, 1, r->uid, 0, 0, canon(r), false); }
}
namespace sim {
static void onUnjudged(gracht_conn_t h) { ++seqno; trace(0xC2, h); }
static void onConnected(gracht_conn_t h) {
    ++seqno; trace(0xC0, h); logf("connected callback %d", (int)h);
    if (serverDone) violate("notify:after-shutdown", "connect callback after the server had been shut down");
    Conn* best = nullptr;
    for (Conn* c : conns) if (c->accepted && c->nodes[1] == 0 && !c->closed[1] && !cinfo[c].announced && (!best || c->acceptFd == (int)h)) { if (!best || best->acceptFd != (int)h) best = c; }
    if (best && best->acceptFd != (int)h) best = nullptr;
    if (!best) { // a packet client
        if (!(cfgv("links") & 12)) violate("notify:phantom-connect", "connect callback for %d, where no client has connected", (int)h);
        if (handleConn.count(h)) violate("notify:double-connect", "connect callback for %d, which is announced already", (int)h);
        if (pktHandles[h]) violate("notify:double-connect", "packet client %d was announced twice", (int)h);
        pktHandles[h] = 1; pktAnnounceCount++; return;
    }
    if (handleConn.count(h)) violate("notify:double-connect", "connect callback for connection %d, which is announced already", (int)h);
    ConnInfo& ci = cinfo[best]; ci.announced++; ci.handle = h; handleConn[h] = best;
    if (ci.inc) { ci.inc->handle = h; for (int s = 0; s < 4; s++) ci.inc->ver[s]++; }
    wakeAll(evq_);
    if (cfgv("hello") && (cfgv("hello") > 1 || best->id & 1)) { // the application greets the client it was just told about
        Ev* e = newEv((int)(best->id % 3 == 0), 0, false, (u32)(best->id % 40)); count("greetings"); errno = 0; int r = sendEvent(e, ci.inc, h);
        if (r && errno == ENOENT) violate("notify:unusable", "an event sent from the connect callback to the client it announces was refused: no such client");
        if (e->svc == 0 && !r) ci.hello = e; }
    callbackActs(best->id);
}
static void onDisconnected(gracht_conn_t h) {
    ++seqno; trace(0xC1, h); logf("disconnected callback %d", (int)h);
    if (serverDone) violate("notify:after-shutdown", "disconnect callback after the server had been shut down");
    auto it = handleConn.find(h);
    if (it == handleConn.end()) {
        if (pktHandles.count(h) && pktHandles[h]) { pktHandles[h] = 0; return; }
        violate("notify:phantom-disconnect", "disconnect callback for %d, which is not an announced client", (int)h);
    }
    Conn* c = it->second; ConnInfo& ci = cinfo[c]; ci.retired++; handleConn.erase(it);
    Inc* i = ci.inc;
    if (i && !i->leaving && !i->killed && !i->closed && !brokenOK(i)) violate("client:dropped", "the server disconnected client %d although its connection is healthy", i->actor);
    if (i) for (int s = 0; s < 4; s++) i->ver[s]++;
    wakeAll(evq_);
    callbackActs((int)h + 1000);
}

static socklen_t linkAddr(int link, struct sockaddr_storage* st, bool shortLen = false) {
    memset(st, 0, sizeof *st);
    if (link == 0 || link == 3) { struct sockaddr_un* u = (struct sockaddr_un*)st; u->sun_family = AF_UNIX; strcpy(u->sun_path, link == 0 ? "/sim/stream" : "/sim/dgram"); return shortLen ? (socklen_t)(offsetof(struct sockaddr_un, sun_path) + strlen(u->sun_path) + 1) : (socklen_t)sizeof(struct sockaddr_un); }
    struct sockaddr_in* s = (struct sockaddr_in*)st; s->sin_family = AF_INET; s->sin_addr.s_addr = htonl(0x7f000001); s->sin_port = htons(link == 1 ? 5001 : 5002); return sizeof *s;
}
static bool linkStream(int l) { return l < 2; }
static bool linkUp[4]; // a link can be added while others are being served
static void waitLink(int l) { while (!linkUp[l] && !stopping && !stopReq && !serverDone && !serverDead) sleepFor(50 * US); }
static int mkLink(int link, bool listen, struct gracht_link_socket** out) {
    struct sockaddr_storage st; socklen_t n = linkAddr(link, &st, cfgv("shortaddr"));
    if (gracht_link_socket_create(out)) return -1;
    gracht_link_socket_set_type(*out, linkStream(link) ? gracht_link_stream_based : gracht_link_packet_based);
    gracht_link_socket_set_listen(*out, listen ? 1 : 0);
    gracht_link_socket_set_domain(*out, link == 0 || link == 3 ? AF_UNIX : AF_INET);
    gracht_link_socket_set_address(*out, &st, n);
    return 0;
}
static gracht_protocol_t* svcProto(int s) { gracht_protocol_t* p[] = { &wl_alpha_server_protocol, &wl_beta_server_protocol, &wl_gamma_server_protocol, &wl_delta_server_protocol }; return p[s]; }
static gracht_protocol_t betaSub; static gracht_protocol_function_t betaFns[4];
static gracht_protocol_t* regProto(int s) {
    if (s == 1 && cfgv("betaFns", 3) != 3) { if (!betaSub.functions) { betaSub = wl_beta_server_protocol; betaSub.functions = betaFns; betaSub.num_functions = 0; for (int k = 0; k < wl_beta_server_protocol.num_functions; k++) if (cfgv("betaFns") >> k & 1) betaFns[betaSub.num_functions++] = wl_beta_server_protocol.functions[k]; } return &betaSub; }
    return svcProto(s);
}
static bool fnOffered(int svc, int fn) { if (svc == 1) return cfgv("betaFns", 3) >> (fn - 1) & 1; return true; }
static void regNote(int s, int st) { regHist[s].push_back({++seqno, st}); }

struct FailScope { int old; FailScope(int bits) { old = cur->noFail; cur->noFail = bits; } ~FailScope() { cur->noFail = old; } };
static bool injecting() { return fired[K_MALLOC] + fired[K_SYSFAIL]; }
static void checkUndone(const char* what, HeapStat h0, int fds0, HeapStat h1, int fds1) {
    if (h1.live != h0.live) violate("setup:leak", "%s failed and left %lld memory blocks behind (%s)", what, (long long)(h1.live - h0.live), heapLeaks(cur->node).c_str());
    if (fds1 != fds0) violate("setup:fd-leak", "%s failed and left %d descriptors behind (%s)", what, fds1 - fds0, describeFds(cur->node).c_str());
}
static bool failedNow(u64 f0) { return fired[K_MALLOC] + fired[K_SYSFAIL] != f0; }
#define FSUM (fired[K_MALLOC] + fired[K_SYSFAIL])

static void serverMain() {
    gracht_server_configuration_t c;
    gracht_server_configuration_init(&c);
    gracht_server_configuration_set_num_workers(&c, (int)cfgv("workers"));
    if (cfgv("maxmsg")) gracht_server_configuration_set_max_msg_size(&c, (int)cfgv("maxmsg"));
    c.callbacks.clientConnected = onConnected; c.callbacks.clientDisconnected = onDisconnected;
    if (u64 nc = cfgv("nocb")) { c.callbacks.clientConnected = nc & 1 ? nullptr : onUnjudged; c.callbacks.clientDisconnected = nc & 2 ? nullptr : onUnjudged; count("runs-without-callbacks"); }
    if (cfgv("mode") == 1) { epfd = sim_epoll_create1(0); appfd = appFd(0); struct epoll_event e; e.events = EPOLLIN; e.data.fd = appfd; sim_epoll_ctl(epfd, EPOLL_CTL_ADD, appfd, &e); gracht_server_configuration_set_aio_descriptor(&c, epfd); }
    u64 attempts = cfgv("setupFaults");
    for (u64 k = 0;; k++) {
        bool inj = k < attempts; u64 f0 = FSUM; HeapStat h0 = heapOf(0); int d0 = openFds(0); int r;
        server = (gracht_server_t*)0x5a5a;
        { FailScope fs(inj ? 0 : 3); r = gracht_server_create(&c, &server); }
        if (r == 0) {
            if (inj && failedNow(f0)) { count("create-tolerated-failure"); }
            break;
        }
        if (!failedNow(f0)) violate("setup:refused", "creating a server failed although nothing went wrong");
        count("server-create-failed");
        // the threads that had been started must end
        for (int w = 0; w < 200; w++) { bool any = false; for (Fiber* f : fibers) if (f->node == 0 && f->id >= 2000 && f->state != F_DONE && f->state != F_DEAD) any = true; if (!any) break; sleepFor(50 * US); if (w == 199) violate("setup:thread-leak", "a failed server creation left worker threads behind"); }
        checkUndone("creating a server", h0, d0, heapOf(0), openFds(0));
    }
    auto addLink = [&](int l, bool late) {
        struct gracht_link_socket* link = nullptr;
        for (u64 k = 0;; k++) { bool inj = k < attempts; u64 f0 = FSUM; HeapStat h0 = heapOf(0); int r; { FailScope fs(inj ? 0 : 3); r = mkLink(l, true, &link); } if (!r) break; if (!failedNow(f0)) violate("setup:refused", "creating a link failed although nothing went wrong"); checkUndone("creating a link", h0, 0, heapOf(0), 0); }
        for (u64 k = 0;; k++) {
            bool inj = k < attempts; u64 f0 = FSUM; HeapStat h0 = heapOf(0); int d0 = openFds(0); int r;
            { FailScope fs(inj ? 0 : 3); r = gracht_server_add_link(server, (struct gracht_link*)link); }
            if (r && late && stopReq) { sim_free(link); return; }
            if (!r) { if (inj && failedNow(f0)) violate("setup:unreported", "adding a link reported success although an operating-system call it depends on failed"); break; }
            if (!failedNow(f0)) violate("setup:refused", "adding a link failed although nothing went wrong (errno %s)", strerrorname_np(errno));
            count("add-link-failed");
            checkUndone("adding a link", h0, d0, heapOf(0), openFds(0));
            sim_unlink(l == 0 ? "/sim/stream" : "/sim/dgram"); // as any application does before it binds a path again
        }
        linkUp[l] = true;
    };
    u64 late = cfgv("lateMask") & cfgv("links", 1), lateAt = cfgv("lateAt", 1); if (!cfgv("mode")) late = 0;
    for (int l = 0; l < 4; l++) if ((cfgv("links", 1) & ~late) >> l & 1) addLink(l, false);
    if (cfgv("extraLink")) { // one that cannot be bound: address in use
        struct gracht_link_socket* link = nullptr; mkLink(cfgv("links") & 2 ? 1 : 0, true, &link); HeapStat h0 = heapOf(0); int d0 = openFds(0);
        if (!gracht_server_add_link(server, (struct gracht_link*)link)) violate("setup:unreported", "adding a link whose address is in use reported success");
        checkUndone("adding a link whose address is in use", h0, d0, heapOf(0), openFds(0)); sim_free(link); count("address-in-use");
    }
    for (int s = 0; s < 4; s++) { regHist[s].push_back({0, 0}); if (cfgv("regmask", 15) >> s & 1) { if (gracht_server_register_protocol(server, regProto(s))) violate("register:refused", "registering protocol %d was refused", svcId[s]); regNote(s, 1); } }
    int set = epfd; if (cfgv("mode") == 2) { set = (int)gracht_server_get_aio_handle(server); if (!fdOpen(0, set)) violate("server:aio-handle", "the event set handle of the server is not open"); }
    serverUp = true; wakeAll(upQ);
    if (cfgv("acceptFaults")) { acceptFaults = true; cur->noFail = 1; }
    if (!cfgv("mode")) serverRet = gracht_server_main_loop(server);
    else {
        struct epoll_event ev[32]; bool done = false; int batch = (int)cfgv("batch", 32);
        while (!done) {
            int n = sim_epoll_wait(set, ev, batch, late || !(linkUp[0] || linkUp[1] || linkUp[2] || linkUp[3]) ? 1 : -1);
            if (late && (lateAt-- == 0 || n <= 0)) { int l = __builtin_ctzll(late); late &= late - 1; lateAt = cfgv("lateAt", 1); attempts = 0; addLink(l, true); count("late-links"); }
            if (n <= 0 && stopReq) { int r = gracht_server_handle_event(server, -1, 0); if (r == -1 && errno == EPIPE) done = true; }
            for (int i = 0; i < n && !done; i++) {
                if (ev[i].data.fd == appfd) { count("app-event"); continue; }
                errno = 0; int r = gracht_server_handle_event(server, ev[i].data.fd, ev[i].events);
                if (r == -1 && errno == EPIPE) done = true;
            }
        }
    }
    cur->noFail = 3;
    logf("server has returned");
    if (!stopReq) violate("server:stopped", "the server's loop returned although nobody had requested a shutdown");
    if (inHandler) violate("shutdown:handler-running", "the server was torn down while a handler was still running");
    serverDone = true; ++seqno; wakeAll(evq_);
    for (auto& d : deferredQ) sim_free(d.m); deferredQ.clear();
    for (Fiber* f : fibers) if (f->node == 0 && f->id >= 2000 && f->state != F_DONE && f->state != F_DEAD) violate("shutdown:thread-leak", "worker thread %u is still alive after shutdown", f->id);
    HeapStat h = heapOf(0); if (h.live) violate("leak:server", "%llu memory blocks (%llu bytes) of the server were not released by shutdown: %s", (unsigned long long)h.live, (unsigned long long)h.liveBytes, heapLeaks(0).c_str());
    int own = 0; if (epfd >= 0) { own = 2; if (!fdOpen(0, epfd) || !fdOpen(0, appfd)) violate("foreign-fd:closed", "shutdown closed a descriptor that belongs to the application"); }
    if (openFds(0) != own) violate("leak:descriptor", "descriptors left open by the server after shutdown: %s", describeFds(0).c_str());
    if (badClose[0]) violate("foreign-fd:close", "the server closed a descriptor it does not own");
    for (Conn* c : conns) if (c->nodes[1] == 0 && c->accepted && !c->closed[1]) violate("shutdown:connection-left", "a client connection is still open after shutdown");
}

// ------------------------------------------------------------------ calls, client side
static u32 splitAt(Call* c) { return c->uid % (c->len + 1); } // delta.post has two arrays
// a request without arguments carries nothing to know it by: it is the oldest one of its client, on a server that handles them in order
static bool tickable(Inc* i) {
    if (cfgv("workers") > 1 || net.dgramFaults) return false;
    if (!i->stream || i->multiTx) for (Call* t : i->ticks) if (!t->handled) return false; // packets, and calls of several threads, may overtake each other
    if (i->stream) return i->conn;
    if (i->handle == -1 || net.dgramQueue < 4000) return false;
    for (Inc* k : incs) if (k != i && !k->stream && k->handle == i->handle) return false;
    return true;
}
static Call* newCall(Inc* i, int svc, int fn, u32 len, u32 rlen, u64 a4, u32 uid) {
    if (!i->raw && cfgv("cmaxmsg") && cfgv("cmaxmsg") < maxmsg) { len = std::min<u32>(len, (u32)cfgv("cmaxmsg") / 2); if (fn == FN_ALL || fn == FN_MANY || fn == FN_PUT) { if (!svc) fn = FN_ECHO; } }
    std::string wa, wr; if (svc == 0 && fn == FN_ALL) { len = allLen(len); rlen = allLen(rlen); wa = expectAll(uid, 1, len, 0); wr = expectAll(uid, 2, rlen, 0); }
    if (svc == 0 && fn == FN_TICK && !tickable(i)) fn = FN_ECHO;
    Call* c = new Call(); c->uid = uid; c->svc = svc; c->fn = fn; c->inc = i; c->act = (int)(a4 & 255); c->delay = (a4 >> 8 & 0xFFFFFFFF) * US; c->cnt = (u32)(a4 >> 40);
    u32 m = maxmsg - 19; bool recs = svc == 0 && (fn == FN_PUT || fn == FN_MANY);
    if (svc == 0 && fn == FN_MANY) { if (!c->cnt) c->cnt = 1; if (c->cnt > 6) c->cnt = 6; m = maxmsg - 40 - 18 * 6; }
    else if (recs) m = maxmsg - 80;
    else if (svc == 0 && fn == FN_FAN) { if (c->cnt > 12) c->cnt = 12; len = rlen = 0; }
    else if (svc == 0 && fn == FN_TICK) { len = rlen = 0; c->cnt = 0; i->ticks.push_back(c); if (!i->stream) c->arrivals = 1; count("calls-without-arguments"); }
    if (svc == 3 && fn == 2) m -= 4;
    c->len = std::min(len, m); c->rlen = std::min(rlen, m);
    c->packet = !i->stream; if (c->packet && cfgv("links") & 8 && i->link == 3) {}
    c->errExpected = !fnOffered(svc, fn); c->wantArgs = wa; c->wantRes = wr;
    calls[uid] = c; return c;
}
struct Act_; // actor runtime
struct Run { const Actor* a; Inc* inc = nullptr; Run* parent = nullptr; Slot slots[32]; u32 seq = 0; Fiber* f = nullptr; bool done = false; int nth = 0; };
static std::vector<Run*> runs;
static u32 nextUid(Run* r) { return (u32)(r->a->id & 0xFFF) << 20 | ++r->seq; }
static bool svcByte(int id) { return id == 1 || id == 32 || id == 63 || id == 254 || id == 255; }
static u32 subscribeFrame(Inc* i, int aid, int svcByte) {
    gracht_buffer_t b; if (gracht_client_get_buffer(i->cl, &b)) return 1;
    memset(b.data, 0, 8); b.data[8] = 0; b.data[9] = (char)aid; b.data[10] = MESSAGE_FLAG_ASYNC; b.data[11] = (char)svcByte; b.index = 12;
    gracht_message_context ctx; return gracht_client_invoke(i->cl, &ctx, &b) != 0;
}
static void noteBroken(Run* r, const char* what, int e) {
    Inc* i = r->inc;
    if (!brokenOK(i)) violate("client:error", "%s failed on client %d although its connection is healthy (errno %s)", what, i->actor, strerrorname_np(e) ? strerrorname_np(e) : "?");
    if (!i->broken) { i->broken = true; count("connections-lost"); logf("connection of client %d is lost", i->actor); }
}
static bool again(Inc* i) { if (cur->refused) { cur->refused = false; sleepFor(20 * US); return true; } if (errno != ENOMEM || !(lowNodes >> i->node & 1) || stopping || serverDead) return false; count("client-short-of-memory"); sleepFor(20 * US); return true; }
static int cWait(Inc* i, gracht_message_context* c, unsigned f) { int st; do { errno = 0; st = gracht_client_wait_message(i->cl, c, f); } while (st && again(i)); return st; }
static int issueOnce(Run* r, Slot& s, Call* c, bool first);
static int issue(Run* r, Slot& s, Call* c) { for (bool first = true;; first = false) { errno = 0; cur->refused = false; int st = issueOnce(r, s, c, first); if (st != 1) return st; } }
static int issueOnce(Run* r, Slot& s, Call* c, bool first) {
    Inc* i = r->inc; gracht_client_t* cl = i->cl; if (first) { c->startSeq = ++seqno; c->order = ++i->nextOrder; } c->sending = true; s.call = c; s.known = false; s.ctx.message_id = 0;
    std::string d; const uint8_t* p; u32 n; int st = -1;
    logf("call %s uid %x len %u rlen %u", fnName(c->svc, c->fn), c->uid, c->len, c->rlen); trace(0xCA, c->uid);
    if (c->svc == 0 && c->fn == FN_PUT) { Rec x; mkRec(x, c->uid, 1, c->len); std::string note = txt(c->uid, 4, c->len / 8); st = wl_alpha_put(cl, &s.ctx, &x.r, note.c_str()); }
    else if (c->svc == 0 && c->fn == FN_MANY) { std::vector<Rec> x(c->cnt); std::vector<wl_record> v; for (u32 k = 0; k < c->cnt; k++) { mkRec(x[k], c->uid + (k << 12), 10 + k, c->len / c->cnt); v.push_back(x[k].r); } v[0].uid = c->uid; st = wl_alpha_many(cl, &s.ctx, v.data(), c->cnt); }
    else if (c->svc == 0 && c->fn == FN_ALL) st = wlx_call(cl, &s.ctx, c->uid, 1, c->len);
    else if (c->svc == 0 && c->fn == FN_FAN) st = wl_alpha_fan(cl, &s.ctx, c->uid, c->cnt);
    else if (c->svc == 0 && c->fn == FN_TICK) st = wl_alpha_tick(cl, &s.ctx);
    else { d = pat(c->uid, 1, c->len); p = (const uint8_t*)d.data(); n = (u32)d.size();
        bool post = c->svc == 0 ? c->fn == FN_POST : c->fn == 2;
        switch (c->svc) {
        case 0: st = post ? wl_alpha_post(cl, &s.ctx, c->uid, p, n) : c->fn == FN_LATER ? wl_alpha_later(cl, &s.ctx, c->uid, p, n) : wl_alpha_echo(cl, &s.ctx, c->uid, p, n); break;
        case 1: st = post ? wl_beta_post(cl, &s.ctx, c->uid, p, n) : wl_beta_echo(cl, &s.ctx, c->uid, p, n); break;
        case 2: st = post ? wl_gamma_post(cl, &s.ctx, c->uid, p, n) : wl_gamma_echo(cl, &s.ctx, c->uid, p, n); break;
        default: st = post ? wl_delta_post(cl, &s.ctx, c->uid, p, splitAt(c), p + splitAt(c), n - splitAt(c)) : wl_delta_echo(cl, &s.ctx, c->uid, p, n); break; } }
    c->msgid = s.ctx.message_id;
    if (st && cur->refused && s.ctx.message_id && !(c->svc == 0 ? c->fn == FN_POST : c->fn == 2)) { // what was not sent cannot be waited for
        int w; do { errno = 0; w = gracht_client_wait_message(cl, &s.ctx, GRACHT_MESSAGE_BLOCK); } while (w && errno == ENOMEM && !(cur->refused = false) && again(i));
        if (w == 0) violate("wait:early", "waiting for call %x, which could not be sent, succeeded", c->uid); cur->refused = true; }
    if (st && again(i)) return 1; // it was not sent, so it may be tried again
    if (st) { int e = errno; s.call = nullptr; c->lenient = true; noteBroken(r, "invoking a function", e); return -1; }
    c->sent = true; ++seqno;
    return 0;
}
// 0: not available yet, 1: result, 2: error, 3: gone
static int fetch(Run* r, Slot& s) {
    Inc* i = r->inc; Call* c = s.call; gracht_client_t* cl = i->cl; u32 ru = 0xFFFFFFFFu; int st; errno = 0; bool ok = false; std::string got, want; bool small = cfgv("small") && mix(c->uid, 0x5a) % 3 == 0; // the caller has room for a part of the result only
    if (c->svc == 0 && c->fn == FN_PUT) {
        wl_record x; memset(&x, 0, sizeof x); x.uid = ru; std::vector<char> note(maxmsg + 16, 0x5a); u32 room = small ? 1 + (u32)(mix(c->uid, 0x5c) % (c->rlen / 8 + 2)) : (u32)note.size(); st = wl_alpha_put_result(cl, &s.ctx, &x, note.data(), room);
        if (st >= 0 && x.uid != ru) { ok = true; ru = x.uid; got = canon(&x) + note.data(); Rec w; mkRec(w, c->uid, 2, c->rlen); want = canon(&w.r) + txt(c->uid, 3, c->rlen / 8).substr(0, room - 1); for (u32 k = room; k < note.size(); k++) if (note[k] != 0x5a) violate("call:wrong-result", "more of a string was copied than the caller had room for"); freeRec(&x); }
    } else if (c->svc == 0 && c->fn == FN_MANY) {
        u32 room = small ? 1 + (u32)(mix(c->uid, 0x5d) % c->cnt) : c->cnt; std::vector<wl_record> v(c->cnt); memset(v.data(), 0, v.size() * sizeof(wl_record)); for (auto& x : v) x.uid = ru; st = wl_alpha_many_result(cl, &s.ctx, v.data(), room);
        if (st >= 0 && v[0].uid != ru) { ok = true; ru = v[0].uid; for (u32 k = 0; k < c->cnt; k++) { if (k >= room) { if (v[k].uid != 0xFFFFFFFFu || v[k].text) violate("call:wrong-result", "more elements were read than the caller had room for"); continue; } if (v[k].text) got += canon(&v[k]); freeRec(&v[k]); Rec w; mkRec(w, c->uid + (k << 12), 20 + k, c->rlen / c->cnt); if (!k) w.r.uid = c->uid; want += canon(&w.r); } }
    } else if (c->svc == 0 && c->fn == FN_ALL) {
        std::string b(20000, 0), w(20000, 0); u32 n = 0, wn = 0; st = wlx_result(cl, &s.ctx, c->uid, 2, c->rlen, small, &ru, &b[0], (u32)b.size(), &n, &w[0], &wn);
        if (st >= 0 && ru != 0xFFFFFFFFu) { ok = true; b.resize(std::min<u32>(n, 20000)); got = b; w.resize(std::min<u32>(wn, 20000)); want = small ? w : c->wantRes; }
    } else if (c->svc == 0 && c->fn == FN_FAN) { st = wl_alpha_fan_result(cl, &s.ctx, &ru); if (st >= 0 && ru != 0xFFFFFFFFu) ok = true; }
    else if (c->svc == 0 && c->fn == FN_TICK) { u64 v = 0; st = wl_alpha_tick_result(cl, &s.ctx, &ru, &v);
        if (st >= 0 && ru != 0xFFFFFFFFu) { ok = true; if (v != mix(ru, 0x71)) got = "?"; } }
    else {
        std::vector<uint8_t> b(c->rlen + 64, 0xEE); u32 cap = c->rlen + 32, seen = c->rlen; if (small) cap = seen = (u32)(mix(c->uid, 0x5b) % (c->rlen + 1));
        st = c->svc == 0 ? (c->fn == FN_LATER ? wl_alpha_later_result(cl, &s.ctx, &ru, b.data(), cap) : wl_alpha_echo_result(cl, &s.ctx, &ru, b.data(), cap))
            : c->svc == 1 ? wl_beta_echo_result(cl, &s.ctx, &ru, b.data(), cap) : c->svc == 2 ? wl_gamma_echo_result(cl, &s.ctx, &ru, b.data(), cap) : wl_delta_echo_result(cl, &s.ctx, &ru, b.data(), cap);
        if (st >= 0 && ru != 0xFFFFFFFFu) { ok = true; got.assign((char*)b.data(), seen); want = pat(c->uid, 2, c->rlen).substr(0, seen); for (u32 k = seen; k < b.size(); k++) if (b[k] != 0xEE) violate("call:wrong-result", "the result of %s is longer than what the handler responded with", fnName(c->svc, c->fn)); }
    }
    if (ok) {
        if (ru != c->uid || got != want) violate("call:wrong-result", "call %x (%s) of client %d read the result of %x (%zu bytes, expected %zu)", c->uid, fnName(c->svc, c->fn), i->actor, ru, got.size(), want.size());
        if (!c->answered) violate("call:phantom-result", "call %x completed although the server never responded to it", c->uid);
        c->got = 1; c->doneSeq = ++seqno; nResults++; progressAt = steps; trace(0xCB, c->uid); s.call = nullptr;
        logf("result of %x", c->uid);
        if (cfgv("stale") && (c->uid & 1) && c->fn == FN_ECHO && !brokenOK(i)) { // a result can be collected once; afterwards the call is unknown
            std::vector<uint8_t> b(c->rlen + 64, 0xEE); u32 r2 = 0xFFFFFFFFu, cap = c->rlen + 32; errno = 0;
            int k = c->svc == 0 ? wl_alpha_echo_result(cl, &s.ctx, &r2, b.data(), cap) : c->svc == 1 ? wl_beta_echo_result(cl, &s.ctx, &r2, b.data(), cap) : c->svc == 2 ? wl_gamma_echo_result(cl, &s.ctx, &r2, b.data(), cap) : wl_delta_echo_result(cl, &s.ctx, &r2, b.data(), cap);
            if (k >= 0 || r2 != 0xFFFFFFFFu) violate("call:collected-twice", "the result of call %x was read a second time (%d)", c->uid, k);
            if (gracht_client_wait_message(cl, &s.ctx, GRACHT_MESSAGE_BLOCK) == 0) violate("call:collected-twice", "waiting for the already collected call %x succeeded", c->uid);
            count("stale-contexts"); }
        if (c->fn == FN_FAN && c->svc == 0 && (i->regMask & 1) && !i->multiRx && i->stream && !relaxed(i)) for (Ev* e : c->evs) if (!e->got.count(i->id)) violate("order:event-after-response", "the response of call %x is available but event %x, which the handler sent before it, has not arrived", c->uid, e->uid);
        return 1;
    }
    if (st >= 0) return 0;
    if (errno == ENOENT) { s.call = nullptr; if (!brokenOK(i)) violate("call:lost-result", "the call %x of client %d, never collected, is unknown to the client", c->uid, i->actor); return 3; }
    bool allowed = c->errExpected || couldBe(c->svc, c->startSeq, seqno, 0) || brokenOK(i);
    if (!allowed) violate("call:spurious-error", "call %x (%s) of client %d completed with an error although the function is registered", c->uid, fnName(c->svc, c->fn), i->actor);
    c->got = 2; c->doneSeq = ++seqno; nErrors++; s.call = nullptr; trace(0xCC, c->uid); logf("error result of %x", c->uid);
    return 2;
}
static void afterBreak(Run* r, u32 mask) { // results that had arrived must still be readable
    Inc* i = r->inc;
    for (int k = 0; k < 32; k++) if ((mask >> k & 1) && r->slots[k].call) {
        Slot& s = r->slots[k]; Call* c = s.call; bool must = s.known || (c->answeredOk && i->stream && !i->poisoned && i->conn && !i->conn->d[0].rst && !i->conn->reset && !c->errExpected); int st = fetch(r, s);
        if (must && st != 1) violate("client:result-lost", "the response to call %x had been delivered in order before the connection ended, but the client cannot read it", c->uid);
        if (st == 0) { s.call = nullptr; c->lenient = true; }
    }
}
static void doAwait(Run* r, u32 mask, u32 flags) {
    Inc* i = r->inc; gracht_message_context* v[32]; int idx[32], n = 0;
    for (int k = 0; k < 32; k++) if ((mask >> k & 1) && r->slots[k].call && !r->slots[k].call->noreply) { v[n] = &r->slots[k].ctx; idx[n++] = k; }
    if (!n) return;
    if ((flags & 2) && (!i->pumpAlive || i->stopPump)) flags &= ~2u;
    unsigned f = (flags & 1 ? GRACHT_AWAIT_ALL : GRACHT_AWAIT_ANY) | (flags & 2 ? GRACHT_AWAIT_ASYNC : 0);
    logf("await %d calls flags %u", n, f);
    int st; do { errno = 0; st = n == 1 && (flags & 8) ? gracht_client_await(i->cl, v[0], f) : gracht_client_await_multiple(i->cl, v, n, f); } while (st && again(i));
    logf("await returned %d", st);
    if (st) { noteBroken(r, "awaiting a call", errno); afterBreak(r, mask); return; }
    ++seqno;
    if ((flags & 1) && (flags & 4)) { for (int k = 0; k < n; k++) r->slots[idx[k]].known = true; return; }
    int done = 0; for (int k = 0; k < n; k++) if (fetch(r, r->slots[idx[k]])) done++;
    if ((flags & 1) ? done < n : done < 1) violate((flags & 1) ? "await:early-all" : "await:early-any", "awaiting %s of %d calls returned success with %d results available (client %d)", flags & 1 ? "all" : "any", n, done, i->actor);
}
static void finishSlots(Run* r, u32 mask) {
    for (int guard = 0; guard < 64; guard++) {
        u32 m = 0; for (int k = 0; k < 32; k++) if ((mask >> k & 1) && r->slots[k].call) m |= 1u << k;
        if (!m || !r->inc || r->inc->closed) return;
        if (r->inc->lossy) { for (int k = 0; k < 32; k++) if (m >> k & 1) { r->slots[k].call->lenient = true; r->slots[k].call = nullptr; } return; }
        u32 kn = 0; for (int k = 0; k < 32; k++) if ((m >> k & 1) && r->slots[k].known) kn |= 1u << k;
        if (kn) { for (int k = 0; k < 32; k++) if ((kn >> k & 1) && r->slots[k].call) { if (fetch(r, r->slots[k]) == 0) violate("await:early-all", "a call that an await reported as completed has no result"); } continue; }
        doAwait(r, m, 1);
    }
}
static void pollCtx(Run* r, int k, u64 limitUs) {
    Inc* i = r->inc; Slot& s = r->slots[k]; if (!s.call) return; u64 t0 = now; u64 backoff = 5 * US;
    while (true) {
        errno = 0; cur->noBlock = true; int st = cWait(i, &s.ctx, 0); int e = errno; cur->noBlock = false;
        if (st == 0) { int f = fetch(r, s); if (!f && !i->lossy) violate("wait:early", "waiting for call %x returned success before its result was available", s.call->uid); if (f) return; }
        else if (e != EAGAIN && e != EBUSY && e != EWOULDBLOCK && e != EINTR) { if (i->lossy && e != EPIPE && e != ENODATA) {} else { noteBroken(r, "polling for a call", e); afterBreak(r, 1u << k); return; } }
        if (limitUs && now - t0 > limitUs * US) { if (i->lossy) { if (fetch(r, s) == 0) { s.call->lenient = true; s.call = nullptr; count("packet-call-timeout"); } } return; }
        sleepFor(backoff); if (backoff < 200 * US) backoff *= 2;
    }
}
static void barrier(Run* r) {
    Inc* i = r->inc; if (!i || i->broken || i->lossy || i->closed) return;
    Slot& s = r->slots[31]; if (s.call) finishSlots(r, 1u << 31);
    if (i->broken) return;
    Call* c = newCall(i, 0, FN_ECHO, 8, 8, 0, nextUid(r));
    if (issue(r, s, c)) return;
    doAwait(r, 1u << 31, 1);
}
static void nested(Inc* i, u32 uid) { // an event handler that makes a call of its own and waits for it
    if (i->nest || i->nestLeft <= 0 || !i->connected || i->broken || i->leaving || i->stopPump || i->lossy || i->killed || stopping || serverDead) return;
    if (mix(uid, (u64)i->actor) % 100 >= cfgv("nested")) return;
    Run* r = nullptr; for (Run* x : runs) if (x->a->id == i->actor) r = x; if (!r || r->inc != i) return;
    i->nest++; i->nestLeft--; bool nb = cur->noBlock; cur->noBlock = false; count("nested-calls"); Slot s; int er = errno;
    Call* c = newCall(i, 0, FN_ECHO, uid % 50, uid % 70, 0, nextUid(r));
    if (!issue(r, s, c)) { int st; do { errno = 0; st = gracht_client_await(i->cl, &s.ctx, GRACHT_AWAIT_ALL); } while (st && again(i)); if (st) { noteBroken(r, "awaiting a call", errno); s.call = nullptr; c->lenient = true; } else if (fetch(r, s) == 0) violate("await:early-all", "awaiting a call from an event handler returned success before its result was available (client %d)", i->actor); }
    cur->noBlock = nb; i->nest--; errno = er;
}
static void pktNotify(Inc* i, bool on, int svc) { // a later call was answered, so the request has been carried out
    if (i->stream || stopping || serverDead || cfgv("nocb")) return;
    bool any = false; for (int s = 0; s < 4; s++) any |= i->sub[s] == 1;
    if (any && !known(i)) violate(on ? "notify:missing-connect" : "notify:early-disconnect", "packet client %d is subscribed but %s", i->actor, on ? "was not announced" : "was retired");
    if (!on && svc == 255 && known(i)) violate("notify:missing-disconnect", "packet client %d unsubscribed from everything but was not retired", i->actor);
}
static void subState(Inc* i, int svc, int st) { i->sub[svc] = st; i->ver[svc]++; ++seqno; }
static bool certain(Inc* i) { return i->stream || (!i->lossy && !i->subUnsure); }
static void doSub(Run* r, int svc, bool on) {
    Inc* i = r->inc; gracht_message_context ctx; int st;
    for (int s = 0; s < 4; s++) if (s == svc || svc == 255) subState(i, s, 2);
    i->nextOrder++;
    logf("%s %d", on ? "subscribe" : "unsubscribe", svc);
    do { errno = 0; cur->refused = false;
    if (svc == 255) st = (int)subscribeFrame(i, on ? 0 : 1, 0xFF);
    else switch (svc) { case 0: st = on ? wl_alpha_subscribe(i->cl, &ctx) : wl_alpha_unsubscribe(i->cl, &ctx); break; case 1: st = on ? wl_beta_subscribe(i->cl, &ctx) : wl_beta_unsubscribe(i->cl, &ctx); break; case 2: st = on ? wl_gamma_subscribe(i->cl, &ctx) : wl_gamma_unsubscribe(i->cl, &ctx); break; default: st = on ? wl_delta_subscribe(i->cl, &ctx) : wl_delta_unsubscribe(i->cl, &ctx); }
    } while (st && cur->refused && again(i));
    if (st) { noteBroken(r, "subscribing", errno); return; }
    if (!certain(i)) return;
    barrier(r);
    if (i->broken) return;
    for (int s = 0; s < 4; s++) if (s == svc || svc == 255) subState(i, s, on ? 1 : 0);
    pktNotify(i, on, svc);
}
static Inc* newInc(Run* r, int link) {
    Inc* i = new Inc(); i->id = (int)incs.size(); i->actor = r->a->id; i->node = r->a->node; i->link = link; i->stream = linkStream(link); i->lossy = link == 2 && P->n.dgramFaults; i->subUnsure = link == 2 && (P->t.latPpm || P->n.lat);
    for (int s = 0; s < 4; s++) { i->sub[s] = i->stream ? 1 : 0; i->ver[s] = 1; }
    i->oom = oomOn;
    for (Run* x : runs) if (x->parent == r) { i->multiRx = true; if (x->a->kind == A_THREAD || cfgv("nested")) i->multiTx = true; }
    incs.push_back(i); return i;
}
static gracht_protocol_t* cproto(int s) { gracht_protocol_t* p[] = { &wl_alpha_client_protocol, &wl_beta_client_protocol, &wl_gamma_client_protocol, &wl_delta_client_protocol }; return p[s]; }
static bool doConnect(Run* r, int link, u64 regMask, u64 faults) {
    if (!(cfgv("links", 1) >> link & 1)) { for (link = 0; link < 4; link++) if (cfgv("links", 1) >> link & 1) break; }
    Inc* i = newInc(r, link); int node = r->a->node;
    if (cfgv("links") & 8 && link == 3) {}
    struct gracht_link_socket* lk = nullptr; gracht_client_configuration_t cc;
    HeapStat base = heapOf(node); int base_d = openFds(node);
    for (u64 k = 0;; k++) { u64 f0 = FSUM; HeapStat h0 = heapOf(node); int st; { FailScope fs(k < faults ? 0 : 3); st = mkLink(link, false, &lk); } if (!st) break; if (!failedNow(f0)) violate("setup:refused", "creating a link failed although nothing went wrong"); checkUndone("creating a link", h0, 0, heapOf(node), 0); }
    gracht_client_configuration_init(&cc); gracht_client_configuration_set_link(&cc, (struct gracht_link*)lk);
    if (cfgv("cmaxmsg", cfgv("maxmsg"))) gracht_client_configuration_set_max_msg_size(&cc, (int)cfgv("cmaxmsg", cfgv("maxmsg")));
    if (cfgv("rbuf")) gracht_client_configuration_set_recv_buffer(&cc, nullptr, (int)cfgv("rbuf"));
    if (cfgv("usersend") && !faults) { size_t n = cfgv("cmaxmsg", cfgv("maxmsg")) ? cfgv("cmaxmsg", cfgv("maxmsg")) : 2048; i->sendBuf = sim_malloc(n); memset(i->sendBuf, 0x77, n); gracht_client_configuration_set_send_buffer(&cc, i->sendBuf); }
    for (u64 k = 0;; k++) { u64 f0 = FSUM; HeapStat h0 = heapOf(node); int d0 = openFds(node); int st; { FailScope fs(k < faults ? 0 : 3); st = gracht_client_create(&cc, &i->cl); } if (!st) { break; } if (!failedNow(f0)) violate("setup:refused", "creating a client failed although nothing went wrong"); i->cl = nullptr; count("client-create-failed"); checkUndone("creating a client", h0, d0, heapOf(node), openFds(node)); }
    if (faults && (r->a->id & 1) && faults > 2) { // a client that never connects gives back everything as well
        count("never-connected"); gracht_client_shutdown(i->cl); i->cl = nullptr; checkUndone("shutting down a client that never connected", base, base_d, heapOf(node), openFds(node));
        if (mkLink(link, false, &lk)) violate("setup:refused", "creating a link failed"); gracht_client_configuration_set_link(&cc, (struct gracht_link*)lk); if (gracht_client_create(&cc, &i->cl)) violate("setup:refused", "creating a client failed although nothing went wrong"); }
    i->regMask = i->regNow = regMask; if (cfgv("cmaxmsg") && cfgv("cmaxmsg") < maxmsg) i->poisoned = true;
    for (int s = 0; s < 4; s++) if (regMask >> s & 1) gracht_client_register_protocol(i->cl, cproto(s));
    bool early = cfgv("tryConnectDown") && !serverUp; (void)early;
    for (u64 k = 0;; k++) {
        if (link == 2) waitLink(2);
        u64 f0 = FSUM; HeapStat h0 = heapOf(node); int d0 = openFds(node); int st; bool up = linkUp[link] || stopReq;
        { FailScope fs(k < faults ? 0 : 3); st = gracht_client_connect(i->cl); }
        if (!st) break;
        int e = errno;
        checkUndone("connecting a client", h0, d0, heapOf(node), openFds(node));
        if (failedNow(f0)) { count("connect-failed"); continue; }
        if (!up && !stopping && !serverDead) { count("connect-before-listen"); if (e != ECONNREFUSED && e != ENOENT && e != EINTR) violate("setup:refused", "connecting to a link that is not there yet failed with errno %s", strerrorname_np(e)); if (k > 3) waitLink(link); else sleepFor(100 * US); continue; }
        if (e == EINTR) { if (k < 1000) continue; }
        if (stopping || serverDead) { i->broken = i->leaving = i->closed = true; gracht_client_shutdown(i->cl); sim_free(i->sendBuf); HeapStat h = heapOf(node); if (h.live != base.live || openFds(node) != base_d) violate("leak:client", "shutting down a client that could not connect left resources behind (%s%s)", heapLeaks(node).c_str(), describeFds(node).c_str()); return false; }
        violate("setup:refused", "connecting a client failed although nothing went wrong (errno %s)", strerrorname_np(e));
    }
    if (i->stream && gracht_client_connect(i->cl) == 0) violate("setup:double-connect", "connecting a connected client succeeded");
    i->fd = gracht_client_iod(i->cl); Stream* s = streamOf(node, i->fd); i->conn = s ? s->c : nullptr;
    if (i->stream && !i->conn) violate("setup:bad-descriptor", "the descriptor of a connected client is not its connection");
    if (i->conn) { cinfo[i->conn].inc = i; if (cinfo[i->conn].announced) i->handle = cinfo[i->conn].handle; }
    i->connected = true; ++seqno; r->inc = i; logf("client %d connected", i->actor); wakeAll(evq_);
    return true;
}
static void doClose(Run* r, int how) { // 0: everything collected and a final barrier, 1: no barrier, 2: leave calls outstanding
    Inc* i = r->inc; if (!i || i->closed) return;
    for (Run* x : runs) if (x->parent == r && x->a->kind == A_THREAD) while (!x->done) waitOn(evq_, "close: threads");
    if (how < 2) finishSlots(r, ~0u);
    i->stopPump = true;
    if (i->pumpAlive) { // a message ends the pump's blocking wait; nobody else listens
        i->multiRx = true; Slot& s = r->slots[31]; if (s.call) finishSlots(r, 1u << 31);
        for (int k = 0; i->pumpAlive && !i->broken && k < 50; k++) {
            if (s.call) { s.call->lenient = true; s.call = nullptr; }
            if (issue(r, s, newCall(i, 0, FN_ECHO, 8, 8, 0, nextUid(r)))) break;
            if (!i->lossy) break;
            for (int q = 0; q < 40 && i->pumpAlive; q++) sleepFor(100 * US);
        }
        while (i->pumpAlive) waitOn(evq_, "close: pump");
        if (how < 2) finishSlots(r, 1u << 31);
    }
    if (how == 0 && !i->broken && !i->lossy) { i->barrierStart = ++seqno; barrier(r); if (!i->broken && i->subUnsure) { sleepFor(P->t.latMax + P->n.lat + MS); for (int q = 0; q < 5000; q++) { errno = 0; if (cWait(i, nullptr, 0) && errno != EINTR) break; } } if (!i->broken) checkMust(i); }
    for (int k = 0; k < 32; k++) if (r->slots[k].call) { r->slots[k].call->noreply = false; r->slots[k].call = nullptr; }
    i->leaving = true; ++seqno; logf("client %d shuts down", i->actor);
    gracht_client_shutdown(i->cl); i->closed = true; ++seqno; sim_free(i->sendBuf);
    bool shared = false; for (Inc* o : incs) if (o != i && o->node == i->node && o->connected && !o->closed) shared = true;
    if (!shared) { HeapStat h = heapOf(i->node); if (h.live) violate("leak:client", "%llu memory blocks (%llu bytes) of client %d were not released by its shutdown: %s", (unsigned long long)h.live, (unsigned long long)h.liveBytes, i->actor, heapLeaks(i->node).c_str());
        if (openFds(i->node)) violate("leak:descriptor", "descriptors left open by client %d after its shutdown: %s", i->actor, describeFds(i->node).c_str()); }
    if (badClose[i->node]) violate("foreign-fd:close", "client %d closed a descriptor it does not own", i->actor);
    count("client-shutdowns");
}

// ------------------------------------------------------------------ rounds (resource conservation)
struct Round { int need = 0, here = 0; bool measured = false; }; static std::map<u64, Round> rounds; static std::map<u64, u64> roundHeap, roundFds; static std::map<int, std::map<u64, u64>> nodeHeap;
static bool callSettled(Call*);
static bool idle() { if (!deferredQ.empty() || inHandler) return false; for (auto& kv : calls) { Call* c = kv.second; if (!callSettled(c)) return false; } for (Conn* c : conns) if (c->nodes[1] == 0 && (c->accepted || !c->closed[0]) && c->closed[0] && !c->closed[1]) return false; return true; }
static void doRound(Run*, u64 k) {
    Round& R = rounds[k]; R.here++;
    if (R.here < R.need) { while (!rounds[k].measured) waitOn(evq_, "round"); return; }
    if (oomOn) { rounds[k].measured = true; wakeAll(evq_); return; }
    for (Inc* i : incs) if (i->oom) { sleepFor(200 * MS); break; }
    for (int w = 0; w < 2000 && !idle(); w++) sleepFor(100 * US);
    if (!idle()) { std::string why = "a connection is not closed"; if (!deferredQ.empty() || inHandler) why = "a handler is running"; for (auto& kv : calls) if (!callSettled(kv.second)) { char b[120]; snprintf(b, sizeof b, "request %x of client %d was sent but its handler never ran", kv.first, kv.second->inc->actor); why = b; }
        violate("hang:not-idle", "the server does not return to idle: %s", why.c_str()); }
    sleepFor(5 * MS);
    HeapStat h = heapOf(0); roundHeap[k] = h.liveBytes; roundFds[k] = (u64)openFds(0); count("rounds");
    u64 slack = (cfgv("workers") + 8) * (maxmsg + 512 + 64) + 16384; if (cfgv("steady")) slack = 3 * (maxmsg + 512 + 64) + 1024; if (cfgv("tight")) slack = cfgv("workers") * (maxmsg + 512 + 64) + 6144;
    u64 ref = ~0ull; for (auto& kv : roundHeap) if (kv.first >= 2 && kv.first < k) { ref = kv.second; break; }
    if (k > 2 && ref != ~0ull && h.liveBytes > ref + slack) violate("leak:growth", "idle memory of the server grew from %llu to %llu bytes between rounds 2 and %llu", (unsigned long long)ref, (unsigned long long)h.liveBytes, (unsigned long long)k);
    for (Inc* i : incs) if (i->cl && i->connected && !i->closed && !i->killed && i->node < 38) {
        u64 b = heapOf(i->node).liveBytes; auto& h = nodeHeap[i->node]; h[k] = b; u64 r0 = ~0ull; for (auto& kv : h) if (kv.first >= 2 && kv.first < k) { r0 = kv.second; break; }
        if (r0 != ~0ull && b > r0 + 2 * (maxmsg + 64) + (cfgv("steady") ? 512 : 8192)) violate("leak:growth", "idle memory of client %d grew from %llu to %llu bytes between rounds 2 and %llu", i->actor, (unsigned long long)r0, (unsigned long long)b, (unsigned long long)k); }
    int open = 0; for (Conn* c : conns) if (c->nodes[1] == 0 && c->accepted && !c->closed[1] && !c->closed[0]) open++;
    int links = 0; for (int l = 0; l < 4; l++) links += cfgv("links", 1) >> l & 1;
    int expect = open + links + (cfgv("mode") == 1 ? 2 : 1);
    if (openFds(0) != expect) violate("leak:descriptor", "the idle server holds %d descriptors, expected %d (%s)", openFds(0), expect, describeFds(0).c_str());
    rounds[k].measured = true; wakeAll(evq_);
}

// ------------------------------------------------------------------ raw peers
static std::string frame(u32 id, int sid, int aid, int flags, const std::string& body, long lenOverride = -1) {
    std::string f(11, 0); u32 len = lenOverride >= 0 ? (u32)lenOverride : (u32)(11 + body.size()); memcpy(&f[0], &id, 4); memcpy(&f[4], &len, 4); f[8] = (char)sid; f[9] = (char)aid; f[10] = (char)flags; return f + body;
}
static std::string le(u32 v) { return std::string((char*)&v, 4); }
static std::string callFrame(Call* c, u32 id, int flags) {
    if (c->svc == 3 && c->fn == 2) { std::string d = pat(c->uid, 1, c->len); u32 k = splitAt(c); return frame(id, svcId[3], 2, flags, le(c->uid) + le(k) + d.substr(0, k) + le(c->len - k) + d.substr(k)); }
    std::string b;
    if (c->svc == 0 && c->fn == FN_TICK) b = ""; else if (c->svc == 0 && c->fn == FN_FAN) b = le(c->uid) + le(c->cnt); else b = le(c->uid) + le(c->len) + pat(c->uid, 1, c->len);
    return frame(id, svcId[c->svc], c->fn, flags, b);
}
static bool rawSend(Inc* i, const std::string& f, int pieces) {
    if (!i->stream) { ssize_t w = sim_send(i->fd, f.data(), f.size(), MSG_NOSIGNAL); if (w != (ssize_t)f.size()) { if (!brokenOK(i)) violate("client:dropped", "a datagram of raw client %d could not be sent (errno %s)", i->actor, strerrorname_np(errno)); i->broken = true; return false; } return true; }
    size_t o = 0; Rng g(mix(f.size(), i->nextId));
    while (o < f.size()) { size_t n = pieces > 1 ? std::max<size_t>(1, f.size() / pieces) : f.size() - o; if (n > f.size() - o) n = f.size() - o;
        ssize_t w = sim_send(i->fd, f.data() + o, n, MSG_NOSIGNAL); if (w <= 0) { if (!brokenOK(i)) violate("client:dropped", "the server closed the connection of raw client %d although it did nothing wrong", i->actor); i->broken = true; return false; }
        o += (size_t)w; if (pieces > 1 && o < f.size()) sleepFor(g.range(1, 60) * US); }
    return true;
}
static bool rawFull(Inc* i, char* p, size_t n) { size_t o = 0;
    if (!i->stream) {
        if (i->rx.empty()) { std::string b(maxmsg + 2048, 0); for (u64 w = 0;; w++) { errno = 0; ssize_t r = sim_recv(i->fd, &b[0], b.size(), MSG_DONTWAIT); if (r >= 0) { b.resize((size_t)r); i->rx = b; if (r >= 8) { u32 len; memcpy(&len, &b[4], 4); if (len != (u32)r) violate("stream:corrupt", "raw packet client %d received a datagram of %zd bytes whose header says %u", i->actor, r, len); } break; } if (errno != EAGAIN && errno != EINTR) { if (!brokenOK(i)) violate("client:dropped", "raw packet client %d cannot receive (errno %s)", i->actor, strerrorname_np(errno)); i->broken = true; return false; } if (stopping || serverDead || (i->oom && w > 150)) { i->broken = true; return false; } sleepFor(std::min<u64>(20 * US << std::min<u64>(w, 8), 2 * MS)); } }
        if (i->rx.size() < n) violate("stream:corrupt", "raw packet client %d received a datagram that is too short", i->actor);
        memcpy(p, i->rx.data(), n); i->rx.erase(0, n); return true;
    }
    while (o < n) { ssize_t r = sim_recv(i->fd, p + o, n - o, 0); if (r <= 0) { if (!brokenOK(i)) violate("client:dropped", "the server closed the connection of raw client %d although it did nothing wrong", i->actor); i->broken = true; return false; } o += (size_t)r; } return true; }
static void orderIdx(Inc* i, u32 fiber, u64 idx, const char* what) { u64& l = i->lastIdx[fiber]; if (idx <= l) violate("order:sends", "client %d received a %s out of the order in which server thread %u sent it", i->actor, what, fiber); l = idx; }
static bool rawFrame(Inc* i) { // reads and judges one frame
    char h[11]; if (!rawFull(i, h, 11)) return false;
    u32 id, len; memcpy(&id, h, 4); memcpy(&len, h + 4, 4); int sid = (uint8_t)h[8], aid = (uint8_t)h[9], fl = h[10] & 3;
    if (len < 11 || len > maxmsg + 512) violate("stream:corrupt", "raw client %d received a frame header that no server message has (length %u)", i->actor, len);
    std::string b(len - 11, 0); if (len > 11 && !rawFull(i, &b[0], len - 11)) return false;
    auto u = [&](size_t o) { u32 v = 0; if (o + 4 <= b.size()) memcpy(&v, &b[o], 4); return v; };
    logf("raw client %d got frame id %u sid %d aid %d flags %d len %u", i->actor, id, sid, aid, fl, len);
    if (fl == MESSAGE_FLAG_RESPONSE || (fl == MESSAGE_FLAG_EVENT && sid == 0)) {
        bool err = fl == MESSAGE_FLAG_EVENT; u32 mid = err ? u(0) : id;
        if (err && (aid != 2 || b.size() != 8)) violate("stream:corrupt", "raw client %d received an unknown control event", i->actor);
        auto it = i->rawCalls.find(mid); if (it == i->rawCalls.end()) violate("response:unexpected", "raw client %d received a %s for message %u, which it did not send or which is answered already", i->actor, err ? "error" : "response", mid);
        Call* c = it->second; i->rawCalls.erase(it);
        if (!c->noreply || err) i->outstanding -= c->noreply ? 0 : 1;
        if (err) { if (!(c->errExpected || c->lenient || couldBe(c->svc, c->startSeq, seqno, 0))) violate("call:spurious-error", "call %x of raw client %d completed with an error although the function is registered", c->uid, i->actor); c->got = 2; nErrors++; return true; }
        if (c->noreply) violate("response:unexpected", "raw client %d received a response to a message that has none", i->actor);
        u64 tk = mix(c->uid, 0x71); std::string want = c->svc == 0 && c->fn == FN_TICK ? le(c->uid) + std::string((char*)&tk, 8) : c->svc == 0 && c->fn == FN_FAN ? le(c->uid) : le(c->uid) + le(c->rlen) + pat(c->uid, 2, c->rlen);
        if (b != want) violate("call:wrong-result", "raw client %d received the response %x for its call %x (%zu bytes, expected %zu)", i->actor, u(0), c->uid, b.size(), want.size());
        if (!c->answered) violate("call:phantom-result", "call %x was answered although its handler did not respond", c->uid);
        orderIdx(i, c->sendFiber, c->sendIdx, "response"); c->got = 1; nResults++; progressAt = steps; return true;
    }
    if (fl != MESSAGE_FLAG_EVENT) violate("stream:corrupt", "raw client %d received a frame of type %d", i->actor, fl);
    int svc = -1; for (int s = 0; s < 4; s++) if (svcId[s] == sid) svc = s;
    int kind = svc == 0 && aid == 8 ? 1 : svc == 0 && aid == 10 ? 2 : 0;
    if (svc < 0 || (kind == 0 && aid != (svc == 0 ? 7 : 3))) violate("stream:corrupt", "raw client %d received an event of protocol %d, number %d", i->actor, sid, aid);
    u32 uid = u(0); auto e = evs.find(uid); if (e != evs.end()) orderIdx(i, e->second->src, e->second->sendIdx, "event");
    if (kind == 2) evDelivered(i, svc, 2, uid, 0, 0, e == evs.end() ? "" : e->second->want, false);
    else if (kind) { Rec r; u32 l = e == evs.end() ? 0 : e->second->len; mkRec(r, uid, 9, l); std::string w = le(uid) + le((u32)r.text.size()) + r.text + std::string(1, 0) + le((u32)r.blob.size()) + r.blob + le((u32)r.items.size()); for (auto& x : r.items) { w += le(x.a); w.append((char*)&x.b, 8); } w += (char)r.r.flag;
        if (w != b) violate("event:corrupt", "event %x arrived with different contents at raw client %d", uid, i->actor); evDelivered(i, svc, 1, uid, 0, 0, canon(&r.r), false); }
    else { if (b.size() != 16 + (size_t)u(12)) violate("event:corrupt", "event %x arrived with %zu bytes, its length field says %u", uid, b.size(), u(12)); evDelivered(i, svc, 0, uid, u(4), u(8), b.substr(16), true); }
    return true;
}
static Call* rawCall(Run* r, int svc, int fn, u32 len, u32 rlen, u64 a4, u32 id, int pieces, int flags = -1) {
    Inc* i = r->inc; Call* c = newCall(i, svc, fn, len, rlen, a4, nextUid(r)); bool post = svc == 0 ? fn == FN_POST : fn == 2; c->noreply = post;
    if (!id || i->rawCalls.count(id)) { while (i->rawCalls.count(i->nextId)) i->nextId++; id = i->nextId++; }
    c->msgid = id; i->rawCalls[id] = c; c->startSeq = ++seqno; c->order = ++i->nextOrder; c->sending = true; if (!post) i->outstanding++;
    logf("raw call %s uid %x id %u", fnName(svc, fn), c->uid, id); trace(0xCD, c->uid);
    if (rawSend(i, callFrame(c, id, flags >= 0 ? flags : post ? MESSAGE_FLAG_ASYNC : MESSAGE_FLAG_SYNC), pieces)) c->sent = true; else c->lenient = true;
    ++seqno; return c;
}
static void rawSync(Run* r) { Inc* i = r->inc; if (i->broken || i->poisoned || i->oom) return; Call* c = rawCall(r, 0, FN_ECHO, 4, 4, 0, 0, 1); while (!c->got && !i->broken) if (!rawFrame(i)) break; }
static void rawClose(Run* r, bool rst) {
    Inc* i = r->inc; if (!i || i->closed) return; i->leaving = true; ++seqno;
    if (rst) { i->faulted = true; if (i->conn) resetConn(i->conn, false); count("client-resets"); }
    logf("raw client %d closes", i->actor);
    sim_close(i->fd); i->closed = true; ++seqno; if (!i->path.empty()) sim_unlink(i->path.c_str());
    for (auto& kv : i->rawCalls) kv.second->noreply = kv.second->noreply; // calls still outstanding may be handled, nobody reads the answer
}
static int rawSocket(int link) { return sim_socket(link == 0 || link == 3 ? AF_UNIX : AF_INET, linkStream(link) ? SOCK_STREAM : SOCK_DGRAM, 0); }
static bool rawConnect(Run* r, int link, u32 firstId, u64 nameLen) {
    if (link == 3 && (cfgv("links", 1) & 8)) { // a packet client with a name of its own
        waitLink(3);
        Inc* i = newInc(r, 3); i->raw = true; i->fd = rawSocket(3); if (firstId) i->nextId = firstId; struct sockaddr_storage st; memset(&st, 0, sizeof st); struct sockaddr_un* u = (struct sockaddr_un*)&st; u->sun_family = AF_UNIX;
        std::string nm = "/sim/client-"; nm.resize(std::max<size_t>(nm.size(), std::min<u64>(nameLen, 100)), '_'); nm += (char)('A' + r->a->id % 26); nm += (char)('a' + r->nth++ % 26); if (r->a->id >= 26) nm += (char)('0' + r->a->id / 26); if (nameLen & 1) std::swap(nm[nm.size() - 1], nm[nm.size() - 2]); i->path = nm;
        memcpy(u->sun_path, nm.data(), nm.size()); if (sim_bind(i->fd, (struct sockaddr*)&st, (socklen_t)(offsetof(struct sockaddr_un, sun_path) + nm.size() + 1))) violate("setup:refused", "a raw packet client could not bind %s", nm.c_str());
        socklen_t n = linkAddr(3, &st); if (sim_connect(i->fd, (struct sockaddr*)&st, n)) { sim_close(i->fd); i->closed = true; if (stopping || serverDead) return false; violate("setup:refused", "a raw packet client could not connect"); }
        i->connected = true; r->inc = i; ++seqno; count("named-packet-clients"); return true;
    }
    if (!(cfgv("links", 1) >> link & 1) || !linkStream(link)) { for (link = 0; link < 2; link++) if (cfgv("links", 1) >> link & 1) break; if (link == 2) return false; }
    waitLink(link); Inc* i = newInc(r, link); i->raw = true; i->fd = rawSocket(link); if (firstId) i->nextId = firstId; struct sockaddr_storage st; socklen_t n = linkAddr(link, &st);
    if (sim_connect(i->fd, (struct sockaddr*)&st, n)) { sim_close(i->fd); i->closed = true; if (stopping || serverDead) return false; violate("setup:refused", "a raw client could not connect"); }
    i->conn = streamOf(i->node, i->fd)->c; cinfo[i->conn].inc = i; if (cinfo[i->conn].announced) i->handle = cinfo[i->conn].handle; i->connected = true; r->inc = i; ++seqno; return true;
}
static void rawDgram(Run* r, int link, int kind, u64 val) {
    if (!(cfgv("links", 1) >> link & 1) || linkStream(link)) { for (link = 2; link < 4; link++) if (cfgv("links", 1) >> link & 1) break; if (link == 4) return; }
    int fd = rawSocket(link); struct sockaddr_storage st; socklen_t n = linkAddr(link, &st); if (link == 3) { sa_family_t f = AF_UNIX; sim_bind(fd, (struct sockaddr*)&f, sizeof f); }
    Inc* i = newInc(r, link); i->raw = true; i->closed = true; i->lossy = true;
    std::string d; Call* c = newCall(i, 0, FN_POST, (u32)(val % 300), 0, 0, nextUid(r)); c->packet = true; c->lenient = true; c->startSeq = ++seqno; std::string body = le(c->uid) + le(c->len) + pat(c->uid, 1, c->len);
    switch (kind) {
    case 0: c->partial = true; d = frame(1, 1, FN_POST, 1, body).substr(0, val % 11); break;               // shorter than a header
    case 1: c->partial = true; d = frame(1, 1, FN_POST, 1, body, (long)(11 + body.size() + 1 + val % 5000)); break;   // claims more than there is
    case 2: c->partial = true; d = frame(1, 1, FN_POST, 1, body, (long)(val % 11)); break;              // claims less than a header
    case 3: c->partial = true; { std::string big = body + std::string(maxmsg + 600, 'x'); d = frame(1, 1, FN_POST, 1, big); } break; // larger than the maximum
    case 4: c->partial = true; d = frame(1, 99, 1, 0, std::string(val % 64, 'y')); break;                 // unknown protocol
    case 5: c->partial = true; d = frame(1, 1, FN_POST, 1, body); d.resize(11 + (d.size() - 11) / 2); if (d.size() == 11 + body.size()) d.pop_back(); break; // truncated
    case 7: c->gap = true; c->len = maxmsg + 1 + (u32)(val % 512) - 19; body = le(c->uid) + le(c->len) + pat(c->uid, 1, c->len); d = frame(1, 1, FN_POST, 1, body); break; // larger than configured, but not than the receive buffer
    default: d = frame(1, 1, FN_POST, 1, body); break;
    }
    sim_sendto(fd, d.data(), d.size(), 0, (struct sockaddr*)&st, n); count("raw-datagrams"); sim_close(fd);
}

// ------------------------------------------------------------------ actors
static void memory(bool low) { // the server runs short of memory, or no longer does
    oomOn = low; oomEver = true; if (low) oomNodes |= 1; else oomNodes &= ~1ull; for (Inc* i : incs) if (!i->closed) i->oom = true; for (auto& kv : calls) if (!kv.second->handled) kv.second->inc->oom = true; if (low) count("memory-shortages"); ++seqno;
}
static gracht_protocol_t dummies[256]; static gracht_protocol_function_t dummyFn[1];
static gracht_protocol_t* dummy(int id) { if (id == 0 || id == 1 || id == 32 || id == 63 || id == 254 || id == 255) return nullptr; gracht_protocol_t& d = dummies[id]; d.id = (uint8_t)id; d.name = (char*)"dummy"; d.num_functions = 0; d.functions = dummyFn; return &d; }
static Run* runOf(int actor) { for (Run* r : runs) if (r->a->id == actor) return r; return nullptr; }
static void strangeSub(Run* r, int id, bool on) { Inc* i = r->inc; if (!i->stream || svcByte(id)) return; i->nextOrder++; if (subscribeFrame(i, on ? 0 : 1, id)) noteBroken(r, "subscribing", errno); count("strange-subscriptions"); }
static void clientOp(Run* r, const Op& o) {
    Inc* i = r->inc; bool live = i && i->connected && !i->closed && !i->killed;
    switch (o.code) {
    case O_CONNECT: if (live || r->parent) return; doConnect(r, (int)o.a[0], o.a[1] ? o.a[1] : 15, o.a[2]); return;
    case O_SLEEP: sleepFor(o.a[0] * US); return;
    case O_KILL: if (i) i->killed = i->leaving = i->faulted = true; for (Run* x : runs) if (x->a->node == r->a->node) { if (!x->done) { x->done = true; if (x->a->kind != A_PUMP) finite--; } } ++seqno; count("client-crashes"); logf("crash"); wakeAll(evq_); killNode(r->a->node); return;
    case O_ROUND: doRound(r, o.a[0]); return;
    case O_GATE: if (o.a[1] != 4) { gateOp(o.a[0], (int)o.a[1]); return; } break;
    case O_MEM: if (o.a[1]) { if (o.a[0]) { oomNodes |= 1ull << r->a->node; lowNodes |= 1ull << r->a->node; count("client-memory-shortages"); } else oomNodes &= ~(1ull << r->a->node); } else memory(o.a[0]); return;
    }
    if (!live) return;
    switch (o.code) {
    case O_RESCUE: { Slot* s = nullptr; int k = 0; for (; k < 31; k++) if (!r->slots[k].call) { s = &r->slots[k]; break; } if (!s || r->parent) break;
        for (u64 nap = 20 * US; !i->broken && !stopping && !serverDead; nap = std::min<u64>(nap * 2, 2 * MS)) { bool busy = false; for (Run* x : runs) if (x->parent == r && x->a->kind == A_THREAD && !x->done) busy = true; if (!busy) break;
            Call* c = newCall(i, 0, FN_ECHO, 4, 4, ACT_ANSWER, nextUid(r)); if (issue(r, *s, c)) break; doAwait(r, 1u << k, 1); count("rescuing-calls"); sleepFor(nap); }
        break; }
    case O_GATE: { Gate& g = gates[o.a[0]]; if (i->broken || !g.full || i->multiRx || cfgv("workers") < 2) break; u64 t0 = now, upTo = seqno; auto due = [&]() { for (auto& kv : evs) if (kv.second->startSeq > g.full && kv.second->startSeq <= upTo && kv.second->done && kv.second->must.count(i->id) && (i->regMask >> kv.second->svc & 1) && !kv.second->got.count(i->id)) return true; return false; };
        while (due() && now < t0 + GATE_T && !stopping && !serverDead && !i->broken && !g.open) { errno = 0; cur->noBlock = true; cWait(i, nullptr, 0); cur->noBlock = false; sleepFor(200 * US); }
        if (due() && !stopping && !serverDead && !i->broken && !g.open) violate("workers:main-blocked", "an event sent while %d of %d workers are blocked does not arrive", g.need, (int)cfgv("workers")); count("events-beside-blocked-workers"); break; }
    case O_BURN: if (i->broken) break; for (u64 k = 0; k < o.a[0]; k++) { errno = 0; if (wl_alpha_echo(i->cl, nullptr, 0, nullptr, 0) == 0) { violate("client:error", "a call without a context was accepted"); break; } if (!(k & 255)) progressAt = steps; } count("ids-used-up", o.a[0]); break;
    case O_DUMMY: for (u64 q = 0; q < o.a[2]; q++) { for (u64 k = 0; k < o.a[1]; k++) { gracht_protocol_t* d = dummy((int)(o.a[0] + k) & 255); if (d && gracht_client_register_protocol(i->cl, d) && errno != EEXIST && !(errno == ENOMEM && (lowNodes >> (i->node & 63) & 1))) violate("client:error", "registering protocol %d with client %d failed", d->id, i->actor); } for (u64 k = 0; k < o.a[1]; k++) { gracht_protocol_t* d = dummy((int)(o.a[0] + k) & 255); if (d) gracht_client_unregister_protocol(i->cl, d); } } count("dummy-protocols"); break;
    case O_CALL: { Slot& s = r->slots[o.a[0] % 31]; if (s.call || (i->broken && !cfgv("tryBroken"))) return; int svc = (int)(o.a[1] >> 4) & 3, fn = (int)(o.a[1] & 15); if (svc == 0 && fn == FN_ALL && maxmsg < 512) fn = FN_ECHO; if (fn < 1 || (fn > 6 && fn != FN_ALL && fn != FN_TICK) || (svc && fn > 2)) return; Call* c = newCall(i, svc, fn, (u32)o.a[2], (u32)o.a[3], o.a[4], nextUid(r)); if (c->act == ACT_GATE) gateBegin(c); if (!issue(r, s, c) && c->act == ACT_GATE) gateSent(c); break; }
    case O_POST: { if (i->broken) return; int svc = (int)o.a[0] & 3; Call* c = newCall(i, svc, svc ? 2 : FN_POST, (u32)o.a[1], 0, o.a[2], nextUid(r)); Slot s; issue(r, s, c); break; }
    case O_AWAIT: doAwait(r, (u32)o.a[0], (u32)o.a[1]); break;
    case O_COLLECT: for (int k = 0; k < 31; k++) if ((o.a[0] >> k & 1) && r->slots[k].call) { bool kn = r->slots[k].known; if (fetch(r, r->slots[k]) == 0 && kn) violate("await:early-all", "a call that an await reported as completed has no result"); } break;
    case O_WAITCTX: { Slot& s = r->slots[o.a[0] % 31]; if (!s.call) break; int st = cWait(i, &s.ctx, GRACHT_MESSAGE_BLOCK); if (st) { noteBroken(r, "waiting for a call", errno); afterBreak(r, 1u << (o.a[0] % 31)); } else if (fetch(r, s) == 0) violate("wait:early", "waiting for call %x returned success before its result was available", s.call->uid); break; }
    case O_POLLCTX: pollCtx(r, (int)(o.a[0] % 31), o.a[1]); break;
    case O_PUMPNB: for (u64 k = 0; k < o.a[0] && !i->broken; k++) { errno = 0; cur->noBlock = true; int st = cWait(i, nullptr, 0); int e = errno; cur->noBlock = false; if (st && e != EAGAIN && e != EBUSY && e != EINTR && e != EWOULDBLOCK && i->stream) { noteBroken(r, "polling for messages", e); break; } sleepFor(3 * US); } break;
    case O_PUMPBLK: { for (u64 k = 0; k < o.a[0] && !i->broken && !i->multiRx && i->stream; k++) { int out = 0; for (int q = 0; q < 31; q++) if (r->slots[q].call && !r->slots[q].known) { if (fetch(r, r->slots[q]) == 0) out++; } if (!out) break; int st = cWait(i, nullptr, GRACHT_MESSAGE_BLOCK); if (st) { noteBroken(r, "waiting for messages", errno); afterBreak(r, ~0u); } } break; }
    case O_SUB: if (i->broken || i->multiTx) break; if (o.a[0] > 255) { strangeSub(r, (int)o.a[0] & 255, true); break; } doSub(r, o.a[0] == 255 ? 255 : (int)o.a[0] & 3, true); break;
    case O_UNSUB: if (i->broken || i->multiTx) break; if (o.a[0] > 255) { strangeSub(r, (int)o.a[0] & 255, false); break; } doSub(r, o.a[0] == 255 ? 255 : (int)o.a[0] & 3, false); break;
    case O_SYNC: barrier(r); break;
    case O_REGP: { int s = (int)o.a[0] & 3; int er; do { errno = 0; er = gracht_client_register_protocol(i->cl, cproto(s)); } while (er && again(i)); if (er && errno != EEXIST) violate("client:error", "registering protocol %d with client %d failed", svcId[s], i->actor); i->regNow |= 1ull << s; count("client-registrations"); break; }
    case O_UNREGP: { int s = (int)o.a[0] & 3; i->regMask &= ~(1ull << s); gracht_client_unregister_protocol(i->cl, cproto(s)); i->regNow &= ~(1ull << s); count("client-unregistrations"); break; }
    case O_CLOSE: if (r->parent) return; doClose(r, (int)o.a[0]); break;
    }
}
static void rawOp(Run* r, const Op& o) {
    Inc* i = r->inc; bool live = i && i->connected && !i->closed && !i->killed;
    switch (o.code) {
    case R_CONN: if (!live) rawConnect(r, (int)o.a[0], (u32)o.a[1], o.a[2]); return;
    case O_MEM: memory(o.a[0]); return;
    case R_SLEEP: sleepFor(o.a[0] * US); return;
    case R_DGRAM: if (o.a[0] < 4 && cfgv("links", 1) >> o.a[0] & 1) waitLink((int)o.a[0]); rawDgram(r, (int)o.a[0], (int)o.a[1], o.a[2]); return;
    case O_KILL: clientOp(r, o); return;
    case O_ROUND: doRound(r, o.a[0]); return;
    }
    if (!live) return;
    if (o.code == R_CLOSE) { rawClose(r, false); return; }
    if (o.code == R_RST) { rawClose(r, true); return; }
    if (i->broken || i->poisoned) return;
    switch (o.code) {
    case R_CALL: { int svc = (int)(o.a[0] >> 4) & 3, fn = (int)(o.a[0] & 15); if (svc == 0 && (fn == FN_PUT || fn == FN_MANY || fn < 1 || (fn > 6 && fn != FN_TICK))) fn = FN_ECHO; if (svc && fn != 1 && fn != 2) fn = 1; rawCall(r, svc, fn, (u32)o.a[1], (u32)o.a[2], o.a[3], (u32)o.a[4], (int)(o.a[4] >> 32)); break; }
    case R_CUT: { Call* c = newCall(i, 0, (int)(o.a[0] & 1) ? FN_ECHO : FN_POST, (u32)o.a[1], 0, 0, nextUid(r)); c->partial = true; c->startSeq = ++seqno; std::string f = callFrame(c, 77, c->fn == FN_ECHO ? 0 : 1); size_t n = o.a[2] % f.size(); i->poisoned = true; count("cut-frames"); if (n) rawSend(i, f.substr(0, n), 1 + (int)(o.a[3] & 3)); break; }
    case R_BAD: {
        u32 id = i->nextId++; count("malformed-frames");
        if (o.a[0] == 0) { i->poisoned = true; rawSend(i, frame(id, 1, FN_ECHO, 0, "", (long)(o.a[1] % 11)), 1); }
        else if (o.a[0] == 1) { i->poisoned = true; u32 big = o.a[1] ? maxmsg + 512 + (u32)o.a[1] : 0xFFFFFFFFu; Call* c = newCall(i, 0, FN_POST, 16, 0, 0, nextUid(r)); c->partial = true; c->startSeq = ++seqno; std::string f = frame(id, 1, FN_ECHO, 0, "", (long)big); f += callFrame(c, 5, 1); f += std::string(o.a[2], 'z'); rawSend(i, f, 1); }
        else if (o.a[0] == 4) { int fl = (int)(o.a[1] & 0xFF); Call* c = rawCall(r, 0, FN_ECHO, (u32)o.a[2], 4, 0, 0, 1, fl); c->lenient = true; i->outstanding--; i->poisoned = true; }
        else if (o.a[0] == 6) { i->poisoned = true; bool post = o.a[1] & 1; Call* c = newCall(i, 0, post ? FN_POST : FN_ECHO, 0, 4, 0, nextUid(r)); c->len = maxmsg + 1 + (u32)(o.a[1] >> 1) % 512 - 19; c->lenient = c->gap = true; c->noreply = post; c->startSeq = ++seqno; c->order = ++i->nextOrder; i->rawCalls[id] = c; count("gap-frames"); rawSend(i, callFrame(c, id, post ? 1 : 0), 1 + (int)(o.a[2] & 3)); }
        else { // unknown protocol / function / control function
            Call* c = new Call(); c->uid = nextUid(r); c->svc = 0; c->fn = FN_ECHO; c->inc = i; c->errExpected = true; c->lenient = true; c->startSeq = ++seqno; calls[c->uid] = c; while (i->rawCalls.count(id)) id = i->nextId++; i->rawCalls[id] = c; c->msgid = id; i->outstanding++; i->nextOrder++;
            int sid = o.a[0] == 2 ? (int)(o.a[1] % 250) + 2 : o.a[0] == 3 ? 1 : 0; if (o.a[0] == 2) while (sid == 32 || sid == 63 || sid == 254 || sid == 0 || sid == 1) sid = sid == 254 ? 200 : sid + 1;
            int aid = o.a[0] == 3 ? 12 + (int)(o.a[1] % 240) : o.a[0] == 2 ? (int)(o.a[1] >> 8 & 255) : 3 + (int)(o.a[1] % 250);
            u32 n = (u32)std::min<u64>(o.a[2], maxmsg - 11); rawSend(i, frame(id, sid, aid, 0, std::string(n, 'q')), 1); }
        break; }
    case R_READ: for (u64 k = 0; k < o.a[0] && i->outstanding > 0 && !i->broken && !i->oom; k++) if (!rawFrame(i)) break; break;
    case R_DRAIN: while (i->outstanding > 0 && !i->broken && !i->oom) if (!rawFrame(i)) break; break;
    case R_SYNC: rawSync(r); break;
    case R_SUB: case R_UNSUB: { int svc = (int)o.a[0]; bool on = o.code == R_SUB; if (svc > 255) { svc &= 255; if (!i->stream || svcByte(svc)) break; i->nextOrder++; rawSend(i, frame(i->nextId++, 0, on ? 0 : 1, 1, std::string(1, (char)svc)), 1); count("strange-subscriptions"); break; } if (svc != 255) svc &= 3; for (int s = 0; s < 4; s++) if (s == svc || svc == 255) subState(i, s, 2); i->nextOrder++; if (!rawSend(i, frame(i->nextId++, 0, on ? 0 : 1, 1, std::string(1, (char)(svc == 255 ? 255 : svcId[svc]))), 1)) break; rawSync(r); if (!i->broken && !i->oom) { for (int s = 0; s < 4; s++) if (s == svc || svc == 255) subState(i, s, on ? 1 : 0); pktNotify(i, on, svc); } break; }
    }
}
static void appOp(Run* r, const Op& o) {
    switch (o.code) {
    case S_SLEEP: case N_SLEEP: sleepFor(o.a[0] * US); return;
    case O_GATE: gateOp(o.a[0], (int)o.a[1]); return;
    case O_ROUND: doRound(r, o.a[0]); return;
    case N_KILL: { Run* x = runOf((int)o.a[0]); if (!x || x->done || nodeDead(x->a->node) || x->a->node == 0) return; Inc* i = x->inc; if (i) i->killed = i->leaving = i->faulted = true; for (Inc* q : incs) if (q->node == x->a->node) q->killed = q->leaving = q->faulted = true; for (Run* y : runs) if (y->a->node == x->a->node && !y->done) { y->done = true; if (y->a->kind != A_PUMP) finite--; } count("client-crashes"); logf("crash of node %d", x->a->node); ++seqno; killNode(x->a->node); wakeAll(evq_); return; }
    case N_RESET: { Run* x = runOf((int)o.a[0]); if (!x || !x->inc || !x->inc->conn || x->inc->closed) return; x->inc->faulted = true; ++seqno; logf("reset of connection of client %d", x->a->id); resetConn(x->inc->conn, o.a[1]); wakeAll(evq_); return; }
    case N_KILLSERVER: if (serverDone || serverDead) return; serverDead = true; stopping = true; ++seqno; count("server-crashes"); logf("server crash"); for (Run* y : runs) if (y->a->node == 0 && !y->done) { y->done = true; finite--; } inHandler = 0; inApp = 0; killNode(0); wakeAll(evq_); return;
    }
    if (o.code == S_SHUT) { if (serverUp && !serverDone && !serverDead) requestStop(false); return; }
    if (!appEnter()) return;
    switch (o.code) {
    case S_BCAST: { int svc = (int)o.a[0] & 3, kind = svc == 0 ? (int)o.a[2] % 3 : 0; if (kind == 2 && maxmsg < 512) kind = 1; sendEvent(newEv(svc, kind, true, kind == 2 ? allLen((u32)o.a[1]) : evLenFor((u32)o.a[1])), nullptr, 0); break; }
    case S_TARGET: { Run* x = runOf((int)o.a[0]); if (!x || !x->inc || !online(x->inc) || x->inc->handle == -1) break; if (!x->inc->stream && !pktHandles[x->inc->handle]) break; sendEvent(newEv((int)o.a[1] & 3, 0, false, evLenFor((u32)o.a[2])), x->inc, x->inc->handle); break; }
    case S_REG: case S_UNREG: case S_DUPREG: regOp(o.code, (int)o.a[0] & 3); break;
    case S_DUMMY: for (u64 q = 0; q < o.a[2]; q++) { for (u64 k = 0; k < o.a[1]; k++) { gracht_protocol_t* d = dummy((int)(o.a[0] + k) & 255); if (d && gracht_server_register_protocol(server, d) && errno != EEXIST) violate("register:refused", "registering protocol %d failed (errno %d)", d->id, errno); } for (u64 k = 0; k < o.a[1]; k++) { gracht_protocol_t* d = dummy((int)(o.a[0] + k) & 255); if (d) gracht_server_unregister_protocol(server, d); } } count("dummy-protocols"); break;
    case S_ANSWER: for (u64 k = 0; k < o.a[0] && !deferredQ.empty(); k++) answerDeferred(o.a[1] % deferredQ.size()); break;
    }
    appLeave();
    (void)r;
}
static void actorMain(Run* r) {
    cur->harness = r->a->kind == A_RAW || r->a->kind == A_NEM;
    while (!serverUp) waitOn(upQ, "server start");
    if (r->a->start) sleepFor(r->a->start * US);
    if (r->a->kind == A_PUMP) {
        while (!(r->parent->inc && r->parent->inc->connected) && !r->parent->done) waitOn(evq_, "pump: connection");
        Inc* i = r->parent->inc; if (!i || i->closed || i->leaving || i->stopPump) { r->done = true; return; }
        r->inc = i; i->pumpAlive = true;
        while (!i->stopPump) { int st = cWait(i, nullptr, GRACHT_MESSAGE_BLOCK); if (st) { noteBroken(r, "waiting for messages", errno); break; } }
        i->pumpAlive = false; r->done = true; ++seqno; wakeAll(evq_); return;
    }
    if (r->a->kind == A_THREAD) {
        while (!(r->parent->inc && r->parent->inc->connected) && !r->parent->done) waitOn(evq_, "thread: connection");
        Inc* i = r->parent->inc; if (i && !i->leaving && !i->closed && !i->stopPump) { r->inc = i; for (auto& o : r->a->ops) { clientOp(r, o); progressAt = steps; } finishSlots(r, ~0u); }
    } else if (r->a->kind == A_CLIENT) { for (auto& o : r->a->ops) { clientOp(r, o); progressAt = steps; } if (r->inc && !r->inc->closed) doClose(r, 0); }
    else if (r->a->kind == A_RAW) { for (auto& o : r->a->ops) { rawOp(r, o); progressAt = steps; } if (r->inc && !r->inc->closed) { Inc* i = r->inc; if (!i->broken && !i->poisoned && !i->oom) { while (i->outstanding > 0 && !i->broken) if (!rawFrame(i)) break; if (!i->broken) { i->barrierStart = ++seqno; rawSync(r); if (!i->broken) checkMust(i); } } rawClose(r, false); } }
    else for (auto& o : r->a->ops) { appOp(r, o); progressAt = steps; }
    r->done = true; finite--; ++seqno; wakeAll(evq_);
}

// ------------------------------------------------------------------ orchestration
static bool callSettled(Call* c) {
    if (!c->sent || c->lenient || c->partial || c->inc->oom) return true;
    if (c->packet) return true;
    Inc* i = c->inc;
    if (c->errExpected || (couldBe(c->svc, c->startSeq, seqno, 0) && !c->handled)) return true;
    if (c->handled) return true;
    if (i->faulted || i->killed || i->poisoned || !i->conn || i->conn->reset || i->conn->d[1].rst || i->conn->full[1] || (acceptFaults && !cinfo[i->conn].announced)) return true;
    return false;
}
// A party that only ever writes and a server that answers it on blocking sockets: both wait for the other to read. By design, as long as nobody on that side is reading.
static bool mutualSend() {
    for (Fiber* f : fibers) if (f->node == 0 && f->state == F_BLOCKED && f->sendDst) for (Fiber* g : fibers) if (g->node != 0 && g->state == F_BLOCKED && g->sendDst == f->sendFrom && g->sendFrom == f->sendDst) {
        bool pump = false; for (Run* r : runs) if (r->a->kind == A_PUMP && r->a->node == g->node && !r->done) pump = true;
        if (!pump) return true; }
    return false;
}
static bool settled(std::string* why) {
    for (auto& kv : calls) if (!callSettled(kv.second)) { if (why) { char b[200]; snprintf(b, sizeof b, "request %x (%s) of client %d was sent completely but its handler never ran", kv.first, fnName(kv.second->svc, kv.second->fn), kv.second->inc->actor); *why = b; } return false; }
    for (auto& kv : calls) if (kv.second->packet && !kv.second->inc->oom && !kv.second->partial && !kv.second->gap && kv.second->handled < kv.second->arrivals && couldBe(kv.second->svc, kv.second->startSeq, seqno, 1) && !couldBe(kv.second->svc, kv.second->startSeq, seqno, 0) && !kv.second->errExpected) { if (why) { char b[200]; snprintf(b, sizeof b, "request %x arrived in %d datagrams but ran its handler %d times", kv.first, kv.second->arrivals, kv.second->handled); *why = b; } return false; }
    if (!deferredQ.empty() || inHandler) { if (why) *why = "a handler or a deferred call does not finish"; return false; }
    for (Conn* c : conns) { if (c->nodes[0] >= 34 && c->nodes[0] < 37) continue; if (c->nodes[1] != 0 && !c->accepted) { if (c->closed[0]) { if (acceptFaults) continue; if (why) *why = "a connection request was never accepted"; return false; } continue; }
        if (c->nodes[1] == 0) { ConnInfo& ci = cinfo[c]; if (cfgv("nocb")) { if ((c->closed[0] || c->d[1].rst) && !c->closed[1]) { if (why) *why = "the connection of a client that left was not closed"; return false; } continue; } if (!ci.announced) { if ((acceptFaults || oomEver) && c->closed[1]) continue; if (why) *why = "the connect callback never ran for a client that connected"; return false; }
            if ((c->closed[0] || c->d[1].rst) && !ci.retired) { if (why) *why = "the disconnect callback never ran for a client that left"; return false; }
            if (ci.retired && !c->closed[1]) { if (why) *why = "the connection of a client that left was not closed"; return false; } } }
    return true;
}

// ------------------------------------------------------------------ other servers of the same process
// Library-wide state is shared by everything in a run, so these are further instances of one process; a node of their own keeps their books apart.
struct Other { gracht_server_t* srv = nullptr; int up = 0, down = 0, gone = 0, connects = 0, disconnects = 0, want = 0, handled = 0; u64 seen = 0; u32 mx = 0; int workers = 0; bool inet = false, pkt = false; std::set<gracht_conn_t> known; };
static Other others[3]; static int othersLive;
static socklen_t otherAddr(int k, bool pkt, struct sockaddr_storage* st) {
    memset(st, 0, sizeof *st); char b[40];
    if (others[k].inet) { struct sockaddr_in* a = (struct sockaddr_in*)st; a->sin_family = AF_INET; a->sin_addr.s_addr = htonl(0x7f000001); a->sin_port = htons((uint16_t)(6000 + 2 * k + pkt)); return sizeof *a; }
    snprintf(b, sizeof b, "/sim/other%d%s", k, pkt ? "d" : ""); struct sockaddr_un* u = (struct sockaddr_un*)st; u->sun_family = AF_UNIX; strcpy(u->sun_path, b); return sizeof *u;
}
static u32 otherAnswer(int k, u32 v) { return (u32)mix(v, 0x77 + k); }
static int otherOf(gracht_message* m) { for (int k = 0; k < 3; k++) if (others[k].up > others[k].down && m->server == others[k].srv) return k; violate("instance:wrong-server", "a handler of one server was given a message of another server (or of none)"); return 0; }
static u32 otherArg(gracht_buffer_t* b) { u32 v; memcpy(&v, b->data + b->index, 4); return v; }
static void otherSend(int k, gracht_message* m, int aid, int flags, u32 v, u32 pad, bool all) {
    gracht_buffer_t b; if (gracht_server_get_buffer(others[k].srv, &b)) { violate("instance:refused", "server %d had no buffer for a response", k); return; }
    memset(b.data, 0, 8); b.data[8] = 77; b.data[9] = (char)aid; b.data[10] = (char)flags; memcpy(b.data + 11, &v, 4); for (u32 n = 0; n < pad; n++) b.data[15 + n] = (char)mix(v, n); b.index = 15 + pad;
    int r = all ? gracht_server_broadcast_event(others[k].srv, &b, 0) : gracht_server_respond(m, &b);
    if (r) violate("instance:refused", "server %d could not %s (errno %s)", k, all ? "broadcast an event" : "respond to a healthy client", strerrorname_np(errno));
}
static void otherEnter(int k, u32 v) { Other& o = others[k]; progressAt = steps; o.handled++; if (o.want && (v >> 28) != (u32)k + 1) violate("instance:wrong-server", "a request sent to server %d was handled by server %d", (int)(v >> 28) - 1, k); }
template<int K> static void otherEcho(gracht_message* m, gracht_buffer_t* b) { int k = otherOf(m); if (k != K) violate("instance:wrong-handler", "server %d ran the handler registered with server %d", k, K); u32 v = otherArg(b), pad; b->index += 4; pad = otherArg(b); otherEnter(k, v); if (v & 1) sleepFor((1 + v / 2 % 40) * US); otherSend(k, m, 1, MESSAGE_FLAG_RESPONSE, otherAnswer(k, v), pad, false); }
template<int K> static void otherShout(gracht_message* m, gracht_buffer_t* b) { int k = otherOf(m); if (k != K) violate("instance:wrong-handler", "server %d ran the handler registered with server %d", k, K); u32 v = otherArg(b); otherEnter(k, v); otherSend(k, m, 7, MESSAGE_FLAG_EVENT, otherAnswer(k, v) ^ 5, 8, true); otherSend(k, m, 2, MESSAGE_FLAG_RESPONSE, otherAnswer(k, v), 0, false); }
template<int K> static void otherStop(gracht_message* m, gracht_buffer_t* b) { int k = otherOf(m); u32 v = otherArg(b); otherEnter(k, v); otherSend(k, m, 3, MESSAGE_FLAG_RESPONSE, otherAnswer(k, v), 0, false); gracht_server_request_shutdown(others[k].srv); }
template<int K> static void otherConnected(gracht_conn_t c) { others[K].connects++; if (!others[K].known.insert(c).second) violate("instance:notify", "server %d announced the same client twice", K); }
template<int K> static void otherGone(gracht_conn_t c) { others[K].disconnects++; if (!others[K].known.erase(c)) violate("instance:notify", "server %d announced that a client left which it had not announced before", K); }
static gracht_protocol_function_t otherFns[3][3] = { { {1, (void*)otherEcho<0>}, {2, (void*)otherShout<0>}, {3, (void*)otherStop<0>} }, { {1, (void*)otherEcho<1>}, {2, (void*)otherShout<1>}, {3, (void*)otherStop<1>} }, { {1, (void*)otherEcho<2>}, {2, (void*)otherShout<2>}, {3, (void*)otherStop<2>} } };
static gracht_protocol_t otherProto[3] = { {77, (char*)"other0", 3, otherFns[0]}, {77, (char*)"other1", 3, otherFns[1]}, {77, (char*)"other2", 3, otherFns[2]} };
static int otherRounds() { return (int)cfgv("otherRounds", 1); }
static void otherServer(int k) {
    Other& o = others[k]; Rng g(mix(cfgv("otherSeed"), 0x0e0 + k)); int node = cur->node;
    for (int round = 0; round < otherRounds(); round++) {
        while (o.gone < round) waitOn(evq_, "other server: its last clients");
        sleepFor((round ? g.range(1, 300) : g.logu(1, 3000)) * US);
        o.workers = (int)std::vector<int>{0, 0, 1, 2, 3}[g.below(5)]; o.mx = (u32)std::vector<int>{128, 256, 700, 2048, 5000}[g.below(5)]; o.inet = k & 1; o.pkt = !net.dgramFaults && net.dgramQueue >= 4000 && g.below(4); o.connects = o.disconnects = 0; o.known.clear(); o.want = 1;
        gracht_server_configuration_t c; gracht_server_configuration_init(&c); gracht_server_configuration_set_num_workers(&c, o.workers); gracht_server_configuration_set_max_msg_size(&c, (int)o.mx);
        void (*on[3])(gracht_conn_t) = { otherConnected<0>, otherConnected<1>, otherConnected<2> }; void (*off[3])(gracht_conn_t) = { otherGone<0>, otherGone<1>, otherGone<2> };
        c.callbacks.clientConnected = on[k]; c.callbacks.clientDisconnected = off[k];
        if (gracht_server_create(&c, &o.srv)) { violate("instance:refused", "creating server %d failed although nothing went wrong", k); return; }
        for (int pkt = 0; pkt <= (o.pkt ? 1 : 0); pkt++) {
            struct gracht_link_socket* link; struct sockaddr_storage st; socklen_t n = otherAddr(k, pkt, &st); if (gracht_link_socket_create(&link)) violate("instance:refused", "creating a link failed");
            gracht_link_socket_set_type(link, pkt ? gracht_link_packet_based : gracht_link_stream_based); gracht_link_socket_set_listen(link, 1); gracht_link_socket_set_domain(link, o.inet ? AF_INET : AF_UNIX); gracht_link_socket_set_address(link, &st, n);
            if (!o.inet) sim_unlink(((struct sockaddr_un*)&st)->sun_path);
            if (gracht_server_add_link(o.srv, (struct gracht_link*)link)) violate("instance:refused", "adding a link to server %d failed although nothing went wrong (errno %s)", k, strerrorname_np(errno));
        }
        if (gracht_server_register_protocol(o.srv, &otherProto[k])) violate("instance:refused", "registering a protocol with server %d failed (errno %s)", k, strerrorname_np(errno));
        o.up++; count("other-servers"); wakeAll(evq_); logf("other server %d is up (%d workers, %u bytes)", k, o.workers, o.mx);
        int r = gracht_server_main_loop(o.srv); o.down++; wakeAll(evq_); progressAt = steps;
        logf("other server %d is down", k);
        if (r) violate("instance:loop", "the main loop of server %d ended with an error", k);
        if (o.want) violate("instance:stopped", "server %d stopped although nobody had asked it to", k);
        for (Fiber* f : fibers) if (f->node == node && f->id >= 2000 && f->state != F_DONE && f->state != F_DEAD) violate("shutdown:thread-leak", "a worker thread of server %d is still alive after shutdown", k);
        HeapStat h = heapOf(node); if (h.live) violate("leak:server", "%llu memory blocks of server %d were not released by shutdown: %s", (unsigned long long)h.live, k, heapLeaks(node).c_str());
        if (openFds(node)) violate("leak:descriptor", "descriptors left open by server %d after shutdown: %s", k, describeFds(node).c_str());
        if (badClose[node]) violate("foreign-fd:close", "server %d closed a descriptor it does not own", k);
    }
}
static bool otherRead(int k, int fd, bool pkt, std::string& f) {
    std::string b(16384, 0); size_t n = 0, want = 11;
    while (n < want) { ssize_t r = sim_recv(fd, &b[n], pkt ? b.size() : want - n, 0); if (r < 0 && errno == EINTR) continue; if (r <= 0) { violate("instance:dropped", "server %d closed the connection of a client that did nothing wrong", k); return false; } n += (size_t)r;
        if (pkt || n == 11) { u32 len; memcpy(&len, &b[4], 4); if (n < 11 || len < 11 || len > 6000 || (pkt && len != n)) { violate("instance:corrupt", "a client of server %d received a frame that has no valid header", k); return false; } want = len; } }
    f = b.substr(0, n); return true;
}
static void otherClient(int k) {
    Other& o = others[k]; Rng g(mix(cfgv("otherSeed"), 0x0c0 + k)); u32 id = 1, uid = 0; struct sockaddr_storage st; socklen_t n;
    for (int round = 0; round < otherRounds(); round++) {
        while (o.up <= round) waitOn(evq_, "client of another server: its start");
        if (!round && cfgv("otherSync")) for (int j = 0; j < (int)cfgv("others"); j++) while (j < 3 && !others[j].up) waitOn(evq_, "client of another server: the start of all");
        int ns = (int)g.range(1, 3), nops = (int)g.range(2, 14); std::vector<int> fd; std::vector<char> pk, sub; int streams = 0, subs = 0, left = 0;
        for (int q = 0; q < ns; q++) { bool pkt = o.pkt && g.below(2); n = otherAddr(k, pkt, &st); int s = sim_socket(o.inet ? AF_INET : AF_UNIX, pkt ? SOCK_DGRAM : SOCK_STREAM, 0);
            if (pkt && !o.inet) { struct sockaddr_storage me; memset(&me, 0, sizeof me); struct sockaddr_un* u = (struct sockaddr_un*)&me; u->sun_family = AF_UNIX; snprintf(u->sun_path, 60, "/sim/oc%d-%d-%d", k, round, q); sim_bind(s, (struct sockaddr*)&me, sizeof *u); }
            if (sim_connect(s, (struct sockaddr*)&st, n)) { violate("instance:refused", "a client could not connect to server %d", k); return; } fd.push_back(s); pk.push_back(pkt); sub.push_back(pkt && g.below(3)); streams += !pkt; subs += sub.back(); }
        auto ask = [&](int q, int aid, u32 pad) -> u32 { u32 v = (u32)(k + 1) << 28 | (++uid & 0xFFFFFF); std::string body = le(v) + le(pad); if (aid == 1) body += std::string(pad, 'p'); std::string f = frame(id, 77, aid, 0, body); size_t off = 0;
            while (off < f.size()) { ssize_t w = sim_send(fd[q], f.data() + off, f.size() - off, MSG_NOSIGNAL); if (w < 0 && errno == EINTR) continue; if (w <= 0) { violate("instance:dropped", "server %d closed the connection of a client that did nothing wrong", k); break; } off += (size_t)w; } return v; };
        auto answer = [&](int q, int aid, u32 v, u32 pad) { std::string f; if (!otherRead(k, fd[q], pk[q], f)) return; progressAt = steps; u32 rid, got = 0; memcpy(&rid, &f[0], 4); if (f.size() >= 15) memcpy(&got, &f[11], 4);
            bool ok = rid == id && (unsigned char)f[8] == 77 && f[9] == aid && (f[10] & 3) == MESSAGE_FLAG_RESPONSE && f.size() == 15 + pad && got == otherAnswer(k, v); for (u32 z = 0; ok && z < pad; z++) ok = f[15 + z] == (char)mix(got, z);
            if (!ok) violate("instance:wrong-result", "a client of server %d received something else than the response to its request", k); };
        auto control = [&](int q, int aid, u32 svc) { std::string f = frame(++id, 0, aid, 1, std::string(1, (char)svc)); while (sim_send(fd[q], f.data(), f.size(), MSG_NOSIGNAL) < 0) if (errno != EINTR) { violate("instance:dropped", "server %d took no packet from its client", k); break; } };
        auto told = [&]() { for (int t = 0; t < 400 && (o.connects < streams + subs || o.disconnects < left); t++) sleepFor(t < 100 ? 20 * US : MS);
            if (o.connects != streams + subs) violate("instance:notify", "server %d announced %d clients, %d have connected or subscribed", k, o.connects, streams + subs); if (o.disconnects != left) violate("instance:notify", "server %d announced that %d clients left, %d did", k, o.disconnects, left); };
        for (int q = 0; q < ns; q++) if (sub[q]) control(q, 0, g.below(2) ? 77 : 255);
        // a stream client is one of the server's only after it was accepted
        for (int q = 0; q < ns; q++) { id++; u32 v = ask(q, 1, 0); answer(q, 1, v, 0); }
        told();
        for (int z = 0; z < nops; z++) {
            int q = (int)g.below((u64)ns), kind = (int)g.below(13); id++;
            if (kind < 7) { u32 pad = g.below(4) ? (u32)g.below(60) : (u32)g.below(o.mx - 19 + 1); u32 v = ask(q, 1, pad); answer(q, 1, v, pad); }
            else if (kind < 9) { while (q < ns && sub[q]) q++; if (q == ns) continue; u32 v = ask(q, 2, 0); for (int y = 0; y < ns; y++) if (!pk[y] || sub[y]) { std::string f; if (!otherRead(k, fd[y], pk[y], f)) return; u32 got = 0; if (f.size() == 23) memcpy(&got, &f[11], 4); if ((unsigned char)f[8] != 77 || f[9] != 7 || (f[10] & 3) != MESSAGE_FLAG_EVENT || f.size() != 23 || got != (otherAnswer(k, v) ^ 5)) violate("instance:wrong-event", "a client of server %d received something else than the event broadcast to it", k); } answer(q, 2, v, 0); }
            else if (kind >= 10) { std::vector<u32> v, pad; for (int y = 0; y < ns; y++) { pad.push_back((u32)g.below(60)); v.push_back(ask(y, 1, pad.back())); } for (int y = 0; y < ns; y++) answer(y, 1, v[(size_t)y], pad[(size_t)y]); }
            else { ask(q, 40, 0); std::string f; if (!otherRead(k, fd[q], pk[q], f)) return; u32 got = 0; if (f.size() >= 15) memcpy(&got, &f[11], 4); if (f[8] != 0 || f[9] != 2 || f.size() != 19 || got != id) violate("instance:wrong-result", "a client of server %d did not receive the error for its unknown function", k); }
            if (g.below(4) == 0) sleepFor(g.range(1, 200) * US);
        }
        for (int q = 0; q < ns; q++) if (sub[q] && g.below(2)) { control(q, 1, 255); left++; }
        told();
        int q = (int)g.below((u64)ns); id++; o.want = 0; u32 v = ask(q, 3, 0); answer(q, 3, v, 0); n = otherAddr(k, false, &st);
        for (int t = 0; o.down <= round; t++) { int s = sim_socket(o.inet ? AF_INET : AF_UNIX, SOCK_STREAM, 0); sim_connect(s, (struct sockaddr*)&st, n); sleepFor(20 * US); sim_close(s); sleepFor(t < 20 ? 50 * US : MS); if (t > 3000) violate("hang:shutdown", "server %d does not stop", k); }
        for (int s : fd) sim_close(s);
        o.gone++; wakeAll(evq_);
    }
}
static void kicker() {
    cur->harness = true;
    while (!stopReq && !worldDone) { waitOn(evq_, "kicker"); }
    for (int k = 0; stopReq && !serverDone && !serverDead; k++) {
        int link = -1; for (int l = 0; l < 4; l++) if (linkUp[l]) { link = l; break; }
        if (link < 0) { sleepFor(50 * US); continue; } // every link is still to be added: the application's own loop notices the request
        struct sockaddr_storage st; socklen_t n = linkAddr(link, &st); int fd = rawSocket(link);
        if (linkStream(link)) { sim_connect(fd, (struct sockaddr*)&st, n); sleepFor(20 * US); sim_close(fd); }
        else { std::string d = frame(1, 99, 1, 1, ""); sim_sendto(fd, d.data(), d.size(), 0, (struct sockaddr*)&st, n); sim_close(fd); }
        sleepFor(k < 20 ? 50 * US : MS);
        if (k > 3000) violate("hang:shutdown", "the server does not stop: its loop has not returned %llu ms of events after the shutdown request", (unsigned long long)((now - stopTime) / MS));
    }
}
static void responder() {
    while (!serverDone && !serverDead) {
        if (stopping) { waitOn(evq_, "responder"); continue; }
        size_t k = 0; for (; k < deferredQ.size(); k++) if (deferredQ[k].due <= now) break;
        if (k < deferredQ.size()) { if (appEnter()) { answerDeferred(k); appLeave(); } continue; }
        bool waits = true; for (auto& d : deferredQ) if (d.due != ~0ull) waits = false;
        if (waits) waitOn(evq_, "responder"); else sleepFor(10 * US);
        if (worldDone) return;
    }
}
static void orchestrate() {
    while (!serverUp) waitOn(upQ, "orchestrator: server start");
    while (finite > 0 || (othersLive && !cfgv("otherAfter"))) waitOn(evq_, "orchestrator");
    logf("all actors are done");
    releaseAll = true; for (auto& d : deferredQ) if (d.due == ~0ull) d.due = now; wakeAll(evq_);
    if (!stopReq && !serverDead) {
        std::string why; bool ok = false;
        for (int k = 0; k < 600; k++) { if (settled(nullptr)) { ok = true; break; } sleepFor(k < 100 ? 50 * US : 2 * MS); if (stopReq) { ok = true; break; } }
        if (!ok) { settled(&why); violate(why.find("callback") != std::string::npos ? "notify:missing" : why.find("handler never") != std::string::npos || why.find("datagrams") != std::string::npos ? "call:lost" : "hang:not-settled", "%s", why.c_str()); }
        for (auto& kv : calls) { Call* c = kv.second; (void)c; }
        for (auto& kv : cinfo) if (kv.second.announced > 1 || kv.second.retired > 1) violate("notify:double", "connect and disconnect callbacks ran %d and %d times for one connection", kv.second.announced, kv.second.retired);
        if (!stopReq) requestStop(false);
    }
    while (!serverDone && !serverDead) waitOn(evq_, "orchestrator: server end");
    while (othersLive) waitOn(evq_, "orchestrator: end of the other servers");
    sleepFor(MS);
    worldDone = true; wakeAll(evq_); allDone = true;
}
void runWorld(const Plan& p) {
    P = &p; maxmsg = (u32)p.get("maxmsg", 2048); if (!maxmsg) maxmsg = 2048;
    net = p.n; net.sendFail = p.get("sendFail"); setNodeCrashDrop(p.get("crashDrop"));
    if (p.get("fdbase")) fdBase(0, (int)p.get("fdbase") - 1);
    if (p.get("others")) for (int n = 1; n < 38; n++) fdBase(n, 1100000 + 5000 * n); // one process: no two descriptors have the same number
    else if (p.get("cfdbase")) for (int n = 1; n < 38; n++) fdBase(n, (int)p.get("cfdbase") - 1);
    onSigpipe = [](int node) { violate("crash:sigpipe", "%s process was killed by SIGPIPE", node == 0 ? "the server" : "a client"); };
    onDgram = [](int node, const std::string& d) {
        if (node != 0 || d.size() < 19) return; u32 len; memcpy(&len, &d[4], 4); if (len != d.size() || len > maxmsg + 512) return;
        int svc = -1; for (int s = 0; s < 4; s++) if (svcId[s] == (uint8_t)d[8]) svc = s; if (svc < 0) return;
        u32 uid; memcpy(&uid, &d[svc == 0 && d[9] == FN_MANY ? 15 : 11], 4); auto it = calls.find(uid); if (it != calls.end() && (len <= maxmsg || it->second->gap)) it->second->arrivals++; };
    for (auto& a : p.actors) { Run* r = new Run(); r->a = &a; runs.push_back(r); if (a.kind != A_PUMP) finite++; for (auto& o : a.ops) { if (o.code == O_ROUND) rounds[o.a[0]].need++; if (o.code == O_GATE && o.a[1] == 1) gates[o.a[0]].held = true; if (o.code == O_CALL && (o.a[4] & 255) == ACT_GATE) gates[o.a[4] >> 8 & 0xFFFFFFFF].need++; } }
    for (Run* r : runs) if (r->a->parent >= 0) r->parent = runOf(r->a->parent);
    for (Run* r : runs) if ((r->a->kind == A_PUMP || r->a->kind == A_THREAD) && !r->parent) { r->done = true; if (r->a->kind != A_PUMP) finite--; }
    spawn(0, 1, "server-main", serverMain);
    spawn(40, 5, "orchestrator", orchestrate)->harness = true;
    spawn(41, 6, "kicker", kicker);
    spawn(0, 10, "responder", responder);
    othersLive = 2 * (int)std::min<u64>(3, cfgv("others")); for (int k = 0; k < othersLive / 2; k++) { spawn(30 + k, 12 + (u32)k, "other-server", [k]() { otherServer(k); othersLive--; wakeAll(evq_); }); spawn(34 + k, 15 + (u32)k, "other-client", [k]() { otherClient(k); othersLive--; wakeAll(evq_); })->harness = true; }
    for (Run* r : runs) if (!r->done) r->f = spawn(r->a->node, (r->a->kind == A_APP || r->a->kind == A_RESP ? 20 : 100) + (u32)r->a->id, kindNameA[r->a->kind], [r]() { actorMain(r); });
    int st = runUntil([]() { return allDone; });
    if (st == 4) { count("runs-too-long"); shm->status = 0; return; }
    if (st && mutualSend()) { count("mutual-send-stalls"); shm->status = 0; return; }
    shm->status = st;
    if (st) {
        std::string b = describeBlocked(); if (b.size() > 1100) b.resize(1100);
        violate(st == 1 ? "hang:stuck" : st == 2 ? "hang:livelock" : "hang:time", "%s: %s", st == 1 ? "nothing can run any more" : st == 2 ? "no progress within the step budget" : "no progress within the simulated time budget", b.c_str());
    }
    count("handled", nHandled); count("results", nResults); count("error-results", nErrors); count("events-delivered", nEvGot); count("deferred-answered", nDeferredAnswered); count("clients", incs.size());
}
}
