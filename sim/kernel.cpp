#include "kernel.h"
#include <sys/epoll.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <sys/uio.h>
#include <poll.h>
#include <fcntl.h>
#include <csignal>
#include <cerrno>
#include <cstring>
#include <cstdio>
#include <unistd.h>
#include <algorithm>

namespace sim {
NetConfig net; std::vector<Conn*> conns; std::function<void(int)> onSigpipe; std::function<void(int, const std::string&)> onDgram; u64 badClose[64];
struct Listener : File { int domain = 0; bool bound = false, listening = false; Addr addr; int backlog = 0; std::deque<Conn*> pending; WaitQ cq; };
struct Packet { std::string data; std::string from; };
struct Dgram : File { int domain = 0; bool bound = false; Addr addr; std::string raw; std::string peerRaw; bool hasPeer = false; std::deque<Packet> rx; u64 nsent = 0, lost = 0; int soError = 0; WaitQ wq; };
struct Epoll : File { struct Item { int fd; File* f; u32 ev; epoll_data_t data; bool armed; }; std::vector<Item> items; size_t rot = 0; };
struct Evfd : File { u64 v = 0; };
struct NodeK { std::map<int, File*> fds; int base = 3; int sigpipe = 0; u64 ephemeral = 40000, autobind = 0; };
static NodeK nodes[64];
static std::map<std::string, File*> streamAddrs, dgramAddrs; static std::map<std::string, int> paths; // unix paths that exist
static u64 fileSeq; static u64 accSeq; static bool crashDrop;

void kernelReset() { net = NetConfig(); }
void setNodeCrashDrop(bool d) { crashDrop = d; }
void fdBase(int node, int b) { nodes[node].base = b; }
static int newFd(int node, File* f) { int fd = nodes[node].base; while (nodes[node].fds.count(fd)) fd++; nodes[node].fds[fd] = f; return fd; }
static File* get(int fd) { auto& m = nodes[cur->node].fds; auto it = m.find(fd); return it == m.end() ? nullptr : it->second; }
Stream* streamOf(int node, int fd) { auto& m = nodes[node].fds; auto it = m.find(fd); return it == m.end() || it->second->type != 2 ? nullptr : (Stream*)it->second; }
int openFds(int node) { return (int)nodes[node].fds.size(); }
bool fdOpen(int node, int fd) { return nodes[node].fds.count(fd) != 0; }
std::string describeFds(int node) { std::string s; for (auto& kv : nodes[node].fds) { char b[40]; snprintf(b, sizeof b, "%d:%s ", kv.first, kv.second->type == 1 ? "listener" : kv.second->type == 2 ? "stream" : kv.second->type == 3 ? "dgram" : kv.second->type == 4 ? "epoll" : "app"); s += b; } return s; }
int appFd(int node) { Evfd* e = new Evfd(); e->type = 5; e->node = node; return newFd(node, e); }

u64 dgramLost(int node, int fd) { auto& m = nodes[node].fds; auto it = m.find(fd); return it == m.end() || it->second->type != 3 ? 0 : ((Dgram*)it->second)->lost; }
static void notify(File* f) { wakeAll(f->q); for (Epoll* e : f->eps) wakeAll(e->q); }
static void notifySide(Conn* c, int s) { if (c->end[s]) notify(c->end[s]); }

// ---- addresses
static std::string rawAddr(const struct sockaddr* a, socklen_t n) {
    check(a, n, false, nullptr);
    if (n < sizeof(sa_family_t)) return "";
    if (a->sa_family == AF_UNIX) {
        const char* p = (const char*)a + 2; size_t m = n - 2;
        if (m == 0) return std::string((const char*)a, 2);
        if (p[0] == 0) return std::string((const char*)a, n); // abstract
        size_t l = strnlen(p, m);
        return std::string((const char*)a, 2) + std::string(p, l) + std::string(1, '\0');
    }
    if (a->sa_family == AF_INET6) { struct sockaddr_in6 x; memset(&x, 0, sizeof x); memcpy(&x, a, std::min<size_t>(n, sizeof x)); return std::string((char*)&x, sizeof x); }
    struct sockaddr_in x; memset(&x, 0, sizeof x); memcpy(&x, a, std::min<size_t>(n, sizeof x)); memset(x.sin_zero, 0, 8);
    return std::string((char*)&x, sizeof x);
}
static bool isUnixPath(const std::string& r) { return r.size() > 2 && *(const sa_family_t*)r.data() == AF_UNIX && r[2] != 0; }
static void giveAddr(const std::string& raw, struct sockaddr* a, socklen_t* n) {
    if (!a || !n) return;
    socklen_t m = std::min<socklen_t>(*n, raw.size());
    check(a, m, true, nullptr);
    memcpy(a, raw.data(), m); *n = (socklen_t)raw.size();
}

// ---- stream plumbing
static void deliver(Conn* c, int s, std::string data) { // towards side s
    Dir& d = c->d[s];
    d.inflight -= data.size();
    if (c->closed[s] || c->reset) { notifySide(c, 1 - s); wakeAll(d.wq); return; }
    if (d.head > 65536) { d.buf.erase(0, d.head); d.head = 0; }
    d.buf.append(data);
    notifySide(c, s);
}
static void doRst(Conn* c, int s) { Dir& d = c->d[s]; if (c->closed[s]) return; d.rst = true; notifySide(c, s); wakeAll(c->d[1 - s].wq); }
static void schedule(Conn* c, int s, u64 extra, std::function<void()> f) {
    Dir& d = c->d[s];
    u64 t = now + c->lat + extra; if (t < d.lastT) t = d.lastT; d.lastT = t;
    // earlier pieces can be due already without having been delivered: never overtake them
    if (t <= now && !d.pending) f(); else { d.pending++; at(t, [c, s, f]() { c->d[s].pending--; f(); }); }
}
static u64 propLat() { return (!replaying && T.latPpm && rngv[K_LAT].chance(T.latPpm)) ? rngv[K_LAT].logu(100, T.latMax) : 0; }
static void transmit(Conn* c, int s, const char* p, size_t n) { // towards side s
    Dir& d = c->d[s]; d.total += n;
    while (n) {
        u64 src = (c->id * 2 + s) & 0x3FFFFF; u64 k = d.nseg++;
        u64 prop = 0;
        if (!replaying && n > 1 && T.segPpm && rngv[K_SEG].chance(T.segPpm)) prop = rngv[K_SEG].below(3) == 0 ? rngv[K_SEG].range(1, std::min<size_t>(n - 1, 12)) : rngv[K_SEG].range(1, n - 1);
        u64 cut = decide(K_SEG, src, k, prop);
        size_t m = cut && cut < n ? cut : n;
        u64 lat = decide(K_LAT, src, k, propLat());
        d.inflight += m;
        std::string piece(p, m);
        schedule(c, s, lat, [c, s, piece]() { deliver(c, s, piece); });
        p += m; n -= m;
    }
}
static void sendFin(Conn* c, int s) { schedule(c, s, 0, [c, s]() { if (!c->closed[s] && !c->reset) { c->d[s].fin = true; notifySide(c, s); wakeAll(c->d[1 - s].wq); } }); }
static void closeStream(Stream* st) {
    Conn* c = st->c; int s = st->side;
    if (c->closed[s]) return;
    c->closed[s] = true; c->end[s] = nullptr;
    bool unread = c->d[s].avail() || c->d[s].inflight;
    if (!c->closed[1 - s]) {
        if (unread && !c->d[s].rst) schedule(c, 1 - s, 0, [c, s]() { doRst(c, 1 - s); });
        else if (!c->shutWr[s]) sendFin(c, 1 - s);
    }
    wakeAll(c->d[s].wq);           // senders towards us
    if (c->unixStyle) notifySide(c, 1 - s);
}
void resetConn(Conn* c, bool dropInflight) {
    if (c->reset) return;
    count("connection-resets");
    if (dropInflight) c->reset = true; // pieces in flight are discarded on arrival
    for (int s = 0; s < 2; s++) doRst(c, s);
}
static void finalise(File* f) {
    if (f->finalised) return;
    f->finalised = true;
    for (Epoll* e : f->eps) for (size_t i = 0; i < e->items.size();) { if (e->items[i].f == f) e->items.erase(e->items.begin() + i); else i++; }
    if (f->type == 2) closeStream((Stream*)f);
    else if (f->type == 1) {
        Listener* l = (Listener*)f;
        if (l->bound && streamAddrs[l->addr.s] == l) streamAddrs.erase(l->addr.s);
        for (Conn* c : l->pending) { c->closed[1] = true; doRst(c, 0); }
        l->pending.clear(); wakeAll(l->cq);
    } else if (f->type == 3) { Dgram* d = (Dgram*)f; if (d->bound && dgramAddrs[d->addr.s] == d) dgramAddrs.erase(d->addr.s); wakeAll(d->wq); }
    else if (f->type == 4) { Epoll* e = (Epoll*)f; for (auto& it : e->items) { auto& v = it.f->eps; v.erase(std::remove(v.begin(), v.end(), e), v.end()); } e->items.clear(); }
}
struct Op { File* f; Op(File* x) : f(x) { f->ops++; } ~Op() { if (--f->ops == 0 && f->fdRefs == 0) finalise(f); } };
void kernelNodeGone(int node, bool) {
    auto m = nodes[node].fds; nodes[node].fds.clear();
    for (auto& kv : m) {
        File* f = kv.second; f->fdRefs = 0;
        if (f->type == 2 && crashDrop) { Stream* s = (Stream*)f; Conn* c = s->c; int peer = 1 - s->side; c->closed[s->side] = true; c->end[s->side] = nullptr; c->reset = true; f->finalised = true; doRst(c, peer); wakeAll(c->d[s->side].wq); continue; }
        finalise(f);
    }
}
static int sysFail2(int err) {
    if (!cur || (cur->noFail & 2)) return 0;
    u64 prop = (!replaying && T.sysfailPpm && rngv[K_SYSFAIL].chance(T.sysfailPpm)) ? err : 0;
    return (int)decide(K_SYSFAIL, cur->id, cur->nsys++, prop);
}
static bool interrupted() { // about to block: does a signal arrive?
    if (!cur || cur->harness) return false;
    u64 prop = (!replaying && T.intrPpm && rngv[K_INTR].chance(T.intrPpm)) ? 1 : 0;
    bool r = decide(K_INTR, cur->id, cur->nsys++, prop) != 0;
    if (r) { now += 200; count("eintr"); }
    return r;
}
static void enter() { schedPoint(); syscallCost(200); }
static ssize_t ret(const char* name, int fd, ssize_t r) { int e = errno; trace(0x5C, ((u64)(u32)fd << 32) ^ (u64)r ^ (r < 0 ? (u64)e << 16 : 0)); if (verbose) logf("%s(%d) = %zd%s%s", name, fd, r, r < 0 ? " " : "", r < 0 ? strerrorname_np(e) : ""); errno = e; return r; }
static ssize_t fail(const char* name, int fd, int e) { errno = e; return ret(name, fd, -1); }

static u32 mask(File* f) {
    u32 m = 0;
    if (f->type == 1) { Listener* l = (Listener*)f; if (!l->pending.empty()) m |= EPOLLIN; }
    else if (f->type == 2) {
        Stream* s = (Stream*)f; Conn* c = s->c; Dir& d = c->d[s->side];
        bool peerGone = c->unixStyle && c->closed[1 - s->side] && !d.inflight;
        if (d.avail() || d.fin || d.rst || c->readShut(s->side)) m |= EPOLLIN;
        if (d.fin || d.rst || c->readShut(s->side)) m |= EPOLLRDHUP;
        if (d.rst || (d.fin && c->shutWr[s->side]) || (peerGone && d.fin)) m |= EPOLLHUP;
        if (d.rst && !d.rstSeen) m |= EPOLLERR;
        Dir& o = c->d[1 - s->side]; if (o.avail() + o.inflight < c->cap) m |= EPOLLOUT;
    } else if (f->type == 3) { Dgram* d = (Dgram*)f; if (!d->rx.empty()) m |= EPOLLIN; if (d->soError) m |= EPOLLERR | EPOLLIN; m |= EPOLLOUT; }
    else if (f->type == 5) { Evfd* e = (Evfd*)f; if (e->v) m |= EPOLLIN; m |= EPOLLOUT; }
    return m;
}
} // namespace
using namespace sim;

extern "C" {
int sim_socket(int domain, int type, int) {
    enter(); int e = sysFail2(EMFILE); if (e) return (int)fail("socket", -1, e);
    int t = type & 0xf; File* f;
    if (t == SOCK_STREAM) { Listener* l = new Listener(); l->type = 1; l->domain = domain; f = l; }
    else if (t == SOCK_DGRAM) { Dgram* d = new Dgram(); d->type = 3; d->domain = domain; f = d; }
    else return (int)fail("socket", -1, EPROTONOSUPPORT);
    f->node = cur->node; f->nonblock = type & SOCK_NONBLOCK; f->id = (u64)cur->id * 256 + (cur->nsock++ & 255);
    return (int)ret("socket", -1, newFd(cur->node, f));
}
int sim_bind(int fd, const struct sockaddr* a, socklen_t n) {
    enter(); File* f = get(fd); if (!f) return (int)fail("bind", fd, EBADF);
    int e = sysFail2(EADDRINUSE); if (e) return (int)fail("bind", fd, e);
    std::string r = rawAddr(a, n);
    auto& tab = f->type == 3 ? dgramAddrs : streamAddrs;
    if (r.size() == 2 && a->sa_family == AF_UNIX) { char b[12]; snprintf(b, sizeof b, "%05x", (unsigned)(nodes[cur->node].autobind++ + 0x1000 * (cur->node + 1)) & 0xfffff); r += std::string(1, '\0') + b; }
    else if (isUnixPath(r)) { if (paths.count(r)) return (int)fail("bind", fd, EADDRINUSE); paths[r] = 1; }
    else if (a->sa_family == AF_INET && ((const struct sockaddr_in*)a)->sin_port == 0) { struct sockaddr_in x; memcpy(&x, r.data(), sizeof x); x.sin_port = htons((unsigned short)(nodes[cur->node].ephemeral++ + 100 * cur->node)); r = std::string((char*)&x, sizeof x); }
    else if (tab.count(r)) return (int)fail("bind", fd, EADDRINUSE);
    if (f->type == 1) { ((Listener*)f)->bound = true; ((Listener*)f)->addr.s = r; }
    else if (f->type == 3) { ((Dgram*)f)->bound = true; ((Dgram*)f)->addr.s = r; ((Dgram*)f)->raw = r; }
    else return (int)fail("bind", fd, EINVAL);
    tab[r] = f;
    return (int)ret("bind", fd, 0);
}
int sim_listen(int fd, int backlog) {
    enter(); File* f = get(fd); if (!f || f->type != 1) return (int)fail("listen", fd, EBADF);
    int e = sysFail2(EADDRINUSE); if (e) return (int)fail("listen", fd, e);
    Listener* l = (Listener*)f; l->listening = true; l->backlog = backlog < 0 ? 0 : backlog; return (int)ret("listen", fd, 0);
}
int sim_accept4(int fd, struct sockaddr* a, socklen_t* n, int flags) {
    enter(); File* f = get(fd); if (!f) return (int)fail("accept", fd, EBADF); if (f->type != 1) return (int)fail("accept", fd, EINVAL);
    Op op(f); Listener* l = (Listener*)f;
    int e = sysFail2(ECONNABORTED); if (e) return (int)fail("accept", fd, e);
    while (l->pending.empty()) {
        if (f->nonblock) return (int)fail("accept", fd, EAGAIN);
        if (interrupted()) return (int)fail("accept", fd, EINTR);
        waitOn(l->q, "accept");
    }
    Conn* c = l->pending.front(); l->pending.pop_front(); wakeAll(l->cq);
    Stream* s = new Stream(); s->type = 2; s->node = cur->node; s->c = c; s->side = 1; s->nonblock = flags & SOCK_NONBLOCK; c->end[1] = s; c->accepted = true; c->nodes[1] = cur->node;
    int nfd = newFd(cur->node, s); c->acceptFd = nfd; c->acceptSeq = ++accSeq;
    if (a && n) { struct sockaddr_in x; memset(&x, 0, sizeof x); x.sin_family = c->unixStyle ? AF_UNIX : AF_INET; giveAddr(std::string((char*)&x, c->unixStyle ? 2 : sizeof x), a, n); }
    count("accepts");
    return (int)ret("accept", fd, nfd);
}
int sim_accept(int fd, struct sockaddr* a, socklen_t* n) { return sim_accept4(fd, a, n, 0); }
int sim_connect(int fd, const struct sockaddr* a, socklen_t n) {
    enter(); File* f = get(fd); if (!f) return (int)fail("connect", fd, EBADF);
    int e = sysFail2(ECONNREFUSED); if (e) return (int)fail("connect", fd, e);
    std::string r = rawAddr(a, n);
    if (f->type == 3) {
        Dgram* d = (Dgram*)f;
        if (d->domain == AF_UNIX && !dgramAddrs.count(r)) return (int)fail("connect", fd, paths.count(r) ? ECONNREFUSED : ENOENT);
        d->peerRaw = r; d->hasPeer = true;
        if (d->domain != AF_UNIX && !d->bound) { struct sockaddr_in x; memset(&x, 0, sizeof x); x.sin_family = AF_INET; x.sin_port = htons((unsigned short)(nodes[cur->node].ephemeral++ + 100 * cur->node)); x.sin_addr.s_addr = htonl(0x7f000001); d->raw = std::string((char*)&x, sizeof x); d->addr.s = d->raw; d->bound = true; dgramAddrs[d->raw] = d; }
        return (int)ret("connect", fd, 0);
    }
    if (f->type != 1) return (int)fail("connect", fd, EISCONN);
    Op op(f);
    bool ux = ((Listener*)f)->domain == AF_UNIX;
    if (!ux && net.lat) sleepFor(2 * net.lat);
    while (true) {
        auto it = streamAddrs.find(r);
        Listener* l = it == streamAddrs.end() ? nullptr : (Listener*)it->second;
        if (!l || !l->listening) return (int)fail("connect", fd, ux && !paths.count(r) ? ENOENT : ECONNREFUSED);
        if ((int)l->pending.size() <= l->backlog) {
            Conn* c = new Conn(); c->id = ((u64)cur->id * 64 + (cur->nconn++ & 63)); c->unixStyle = ux; c->cap = net.cap; c->lat = ux ? 0 : net.lat; c->nodes[0] = cur->node;
            Stream* s = new Stream(); s->type = 2; s->node = cur->node; s->c = c; s->side = 0; s->nonblock = f->nonblock; c->end[0] = s;
            nodes[cur->node].fds[fd] = s; f->fdRefs = 0; // replaces the unconnected socket
            for (Epoll* ep : f->eps) for (auto& item : ep->items) if (item.f == f) { item.f = s; s->eps.push_back(ep); }
            f->eps.clear();
            conns.push_back(c); l->pending.push_back(c); notify(l);
            return (int)ret("connect", fd, 0);
        }
        count("connect-backlog-wait");
        waitOn(l->cq, "connect");
    }
}
static ssize_t sendStream(Stream* s, int fd, const char* p, size_t n, int flags) {
    Conn* c = s->c; int side = s->side; Op op(s);
    bool nb = (flags & MSG_DONTWAIT) || s->nonblock; size_t done = 0;
    while (true) {
        Dir& mine = c->d[side]; Dir& out = c->d[1 - side];
        if (mine.rst && !mine.rstSeen && !done) { mine.rstSeen = true; return fail("send", fd, ECONNRESET); }
        bool broken = mine.rst || c->shutWr[side] || c->reset || (c->closed[1 - side] && c->unixStyle);
        if (broken) {
            if (done) return ret("send", fd, (ssize_t)done);
            if (!(flags & MSG_NOSIGNAL) && nodes[cur->node].sigpipe == 0 && onSigpipe) onSigpipe(cur->node);
            count("epipe");
            return fail("send", fd, EPIPE);
        }
        if (c->closed[1 - side]) { // data to a closed peer: accepted, answered by a reset
            schedule(c, side, 0, [c, side]() { doRst(c, side); });
            return ret("send", fd, (ssize_t)n);
        }
        size_t used = out.avail() + out.inflight, space = used < c->cap ? c->cap - used : 0;
        size_t m = std::min(space, n - done);
        if (nb && m > 1 && (!replaying ? (T.shortPpm && rngv[K_SHORT].chance(T.shortPpm)) : true)) {
            u64 v = decide(K_SHORT, cur->id, cur->nshort, replaying ? 0 : rngv[K_SHORT].range(1, m - 1)); if (v && v < m) m = v;
        }
        if (nb) cur->nshort++;
        if (m) { transmit(c, 1 - side, p + done, m); done += m; }
        if (done == n) return ret("send", fd, (ssize_t)n);
        if (nb) {
            if (used + done >= c->cap || space < n) c->full[side]++;
            if (!done) { c->eagain[side]++; count("send-eagain"); return fail("send", fd, EAGAIN); }
            c->partial[side]++; count("send-partial"); return ret("send", fd, (ssize_t)done);
        }
        if (interrupted()) { if (done) { count("send-partial-signal"); return ret("send", fd, (ssize_t)done); } return fail("send", fd, EINTR); }
        count("send-blocked");
        cur->sendFrom = &c->d[side]; cur->sendDst = &out; waitOn(out.wq, "send"); cur->sendFrom = cur->sendDst = nullptr;
    }
}
static ssize_t recvStream(Stream* s, int fd, char* p, size_t n, int flags) {
    Conn* c = s->c; int side = s->side; Op op(s);
    bool nb = (flags & MSG_DONTWAIT) || s->nonblock; size_t done = 0;
    check(p, n, true, nullptr);
    if (!n) return ret("recv", fd, 0);
    while (true) {
        Dir& d = c->d[side];
        size_t m = std::min(d.avail(), n - done);
        if (m) {
            check(p, n, true, nullptr);
            memcpy(p + done, d.buf.data() + d.head, m);
            if (!(flags & MSG_PEEK)) { d.head += m; if (d.head == d.buf.size()) { d.buf.clear(); d.head = 0; } wakeAll(d.wq); }
            done += m;
        }
        if (done == n || (done && (!(flags & MSG_WAITALL) || nb || (flags & MSG_PEEK)))) { if (done < n) count("short-read"); return ret("recv", fd, (ssize_t)done); }
        if (d.rst) { if (done) return ret("recv", fd, (ssize_t)done); if (!d.rstSeen) { d.rstSeen = true; return fail("recv", fd, ECONNRESET); } return ret("recv", fd, 0); }
        if (d.fin || c->readShut(side)) { if (done) count("eof-mid-read"); return ret("recv", fd, (ssize_t)done); }
        if (nb) return fail("recv", fd, EAGAIN);
        if (interrupted()) { if (done) { count("recv-partial-signal"); return ret("recv", fd, (ssize_t)done); } return fail("recv", fd, EINTR); }
        waitOn(s->q, "recv");
    }
}
static ssize_t sendDgram(Dgram* d, int fd, const char* p, size_t n, int flags, const std::string& to) {
    Op op(d);
    bool ux = d->domain == AF_UNIX;
    if (d->soError) { int e = d->soError; d->soError = 0; return fail("sendto", fd, e); }
    std::string data(p, n), from = d->raw; u64 k = d->nsent++;
    if (net.sendFail && !cur->harness && (cur->node < 30 || cur->node > 36) && (cur->node || (!ux && net.dgramFaults && T.dropPpm))) { // no buffers, no route
        u64 prop = !replaying && rngv[K_SYSFAIL].chance(net.sendFail) ? ENOBUFS : 0; int e = (int)decide(K_SYSFAIL, cur->id, cur->nsys++, prop);
        if (e) { auto it = dgramAddrs.find(to); if (it != dgramAddrs.end()) ((Dgram*)it->second)->lost++; count("datagram-refused"); cur->refused = true; return fail("sendto", fd, e); } }
    if (!ux && !d->bound) { struct sockaddr_in x; memset(&x, 0, sizeof x); x.sin_family = AF_INET; x.sin_port = htons((unsigned short)(nodes[cur->node].ephemeral++ + 100 * cur->node)); x.sin_addr.s_addr = htonl(0x7f000001); d->raw = std::string((char*)&x, sizeof x); d->addr.s = d->raw; d->bound = true; dgramAddrs[d->raw] = d; from = d->raw; }
    if (ux) {
        while (true) {
            auto it = dgramAddrs.find(to); if (it == dgramAddrs.end()) return fail("sendto", fd, paths.count(to) ? ECONNREFUSED : ENOENT);
            Dgram* t = (Dgram*)it->second;
            if (t->hasPeer && t->peerRaw != from) return fail("sendto", fd, EPERM);
            if (t->rx.size() < net.dgramQueue) { t->rx.push_back({data, from}); if (onDgram) onDgram(t->node, data); notify(t); return ret("sendto", fd, (ssize_t)n); }
            if ((flags & MSG_DONTWAIT) || d->nonblock) { t->lost++; return fail("sendto", fd, EAGAIN); }
            if (interrupted()) return fail("sendto", fd, EINTR);
            cur->sendFrom = d; cur->sendDst = t; waitOn(t->wq, "sendto"); cur->sendFrom = cur->sendDst = nullptr;
        }
    }
    u64 src = d->id & 0x3FFFFF; u64 prop = 0;
    if (!replaying && net.dgramFaults) { if (rngv[K_DGRAM].chance(T.dropPpm)) prop = 1; else if (rngv[K_DGRAM].chance(T.dupPpm)) prop = 2; }
    u64 v = decide(K_DGRAM, src, k, prop);
    if (v == 1) { auto it = dgramAddrs.find(to); if (it != dgramAddrs.end()) ((Dgram*)it->second)->lost++; count("datagram-lost"); return ret("sendto", fd, (ssize_t)n); }
    for (int copy = 0; copy < (v == 2 ? 2 : 1); copy++) {
        if (copy) count("datagram-duplicated");
        u64 lat = decide(K_LAT, src, k * 2 + copy, propLat());
        auto f = [data, from, to]() { auto it = dgramAddrs.find(to); if (it == dgramAddrs.end()) return; Dgram* t = (Dgram*)it->second; if (t->hasPeer && t->peerRaw != from) return; if (t->rx.size() >= net.dgramQueue) { t->lost++; count("datagram-overflow"); return; } t->rx.push_back({data, from}); if (onDgram) onDgram(t->node, data); notify(t); };
        u64 tt = net.lat + lat; if (tt) at(now + tt, f); else f();
    }
    return ret("sendto", fd, (ssize_t)n);
}
static ssize_t recvDgram(Dgram* d, int fd, char* p, size_t n, int flags, struct sockaddr* a, socklen_t* al) {
    Op op(d); check(p, n, true, nullptr);
    while (d->rx.empty()) {
        if (d->soError) { int e = d->soError; d->soError = 0; return fail("recvfrom", fd, e); }
        if ((flags & MSG_DONTWAIT) || d->nonblock) return fail("recvfrom", fd, EAGAIN);
        if (interrupted()) return fail("recvfrom", fd, EINTR);
        waitOn(d->q, "recvfrom");
    }
    check(p, n, true, nullptr);
    Packet& pk = d->rx.front(); size_t m = std::min(n, pk.data.size()); memcpy(p, pk.data.data(), m);
    size_t full = pk.data.size();
    if (m < full) count("datagram-truncated");
    giveAddr(pk.from, a, al);
    if (!(flags & MSG_PEEK)) { d->rx.pop_front(); wakeAll(d->wq); }
    return ret("recvfrom", fd, (ssize_t)((flags & MSG_TRUNC) ? full : m));
}
ssize_t sim_sendto(int fd, const void* p, size_t n, int flags, const struct sockaddr* a, socklen_t al) {
    enter(); File* f = get(fd); if (!f) return fail("send", fd, EBADF);
    check(p, n, false, nullptr);
    if (f->type == 2) return sendStream((Stream*)f, fd, (const char*)p, n, flags);
    if (f->type == 3) { Dgram* d = (Dgram*)f; if (a) { if (al < sizeof(sa_family_t)) return fail("sendto", fd, EINVAL); return sendDgram(d, fd, (const char*)p, n, flags, rawAddr(a, al)); } if (!d->hasPeer) return fail("send", fd, d->domain == AF_UNIX ? ENOTCONN : EDESTADDRREQ); return sendDgram(d, fd, (const char*)p, n, flags, d->peerRaw); }
    if (f->type == 5) return fail("send", fd, ENOTSOCK);
    if (!(flags & MSG_NOSIGNAL) && nodes[cur->node].sigpipe == 0 && onSigpipe) onSigpipe(cur->node);
    return fail("send", fd, f->type == 1 ? EPIPE : ENOTSOCK);
}
ssize_t sim_send(int fd, const void* p, size_t n, int flags) { return sim_sendto(fd, p, n, flags, nullptr, 0); }
ssize_t sim_recvfrom(int fd, void* p, size_t n, int flags, struct sockaddr* a, socklen_t* al) {
    enter(); File* f = get(fd); if (!f) return fail("recv", fd, EBADF);
    if (f->type == 2) { if (al) *al = 0; return recvStream((Stream*)f, fd, (char*)p, n, flags); }
    if (f->type == 3) return recvDgram((Dgram*)f, fd, (char*)p, n, flags, a, al);
    return fail("recv", fd, f->type == 1 ? ENOTCONN : ENOTSOCK);
}
ssize_t sim_recv(int fd, void* p, size_t n, int flags) { return sim_recvfrom(fd, p, n, flags, nullptr, nullptr); }
ssize_t sim_read(int fd, void* p, size_t n) {
    File* f = cur ? get(fd) : nullptr;
    if (f && f->type == 5) { enter(); Op op(f); Evfd* e = (Evfd*)f; while (!e->v) { if (e->nonblock) return fail("read", fd, EAGAIN); waitOn(e->q, "read"); } *(u64*)p = e->v; e->v = 0; return ret("read", fd, 8); }
    return sim_recv(fd, p, n, 0);
}
ssize_t sim_write(int fd, const void* p, size_t n) {
    File* f = cur ? get(fd) : nullptr;
    if (f && f->type == 5) { enter(); ((Evfd*)f)->v += *(const u64*)p; notify(f); return ret("write", fd, 8); }
    return sim_send(fd, p, n, 0);
}
ssize_t sim_sendmsg(int fd, const struct msghdr* m, int flags) { std::string b; for (size_t i = 0; i < m->msg_iovlen; i++) { check(m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, false, nullptr); b.append((char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); } return sim_sendto(fd, b.data(), b.size(), flags, (struct sockaddr*)m->msg_name, m->msg_namelen); }
ssize_t sim_writev(int fd, const struct iovec* v, int n) { struct msghdr m; memset(&m, 0, sizeof m); m.msg_iov = (struct iovec*)v; m.msg_iovlen = n; return sim_sendmsg(fd, &m, 0); }
ssize_t sim_recvmsg(int fd, struct msghdr* m, int flags) {
    size_t tot = 0; for (size_t i = 0; i < m->msg_iovlen; i++) tot += m->msg_iov[i].iov_len;
    std::string b(tot, 0); socklen_t al = m->msg_namelen; ssize_t r = sim_recvfrom(fd, &b[0], tot, flags, (struct sockaddr*)m->msg_name, m->msg_name ? &al : nullptr);
    if (r >= 0) { m->msg_namelen = m->msg_name ? al : 0; m->msg_flags = 0; m->msg_controllen = 0; size_t o = 0; for (size_t i = 0; i < m->msg_iovlen && o < (size_t)r; i++) { size_t k = std::min<size_t>(m->msg_iov[i].iov_len, r - o); check(m->msg_iov[i].iov_base, k, true, nullptr); memcpy(m->msg_iov[i].iov_base, b.data() + o, k); o += k; } }
    return r;
}
ssize_t sim_readv(int fd, const struct iovec* v, int n) { struct msghdr m; memset(&m, 0, sizeof m); m.msg_iov = (struct iovec*)v; m.msg_iovlen = n; return sim_recvmsg(fd, &m, 0); }
int sim_close(int fd) {
    enter(); auto& m = nodes[cur->node].fds; auto it = m.find(fd);
    if (it == m.end()) { count("close-bad-fd"); badClose[cur->node]++; return (int)fail("close", fd, EBADF); }
    File* f = it->second; m.erase(it); f->fdRefs = 0;
    for (Epoll* e : f->eps) for (size_t i = 0; i < e->items.size();) { if (e->items[i].f == f && e->items[i].fd == fd) e->items.erase(e->items.begin() + i); else i++; }
    if (!f->ops) finalise(f);
    return (int)ret("close", fd, 0);
}
int sim_shutdown(int fd, int how) {
    enter(); File* f = get(fd); if (!f) return (int)fail("shutdown", fd, EBADF); if (f->type != 2) return (int)fail("shutdown", fd, ENOTCONN);
    Stream* s = (Stream*)f; Conn* c = s->c;
    if (how != SHUT_WR) { c->shutRd[s->side] = true; notify(f); }
    if (how != SHUT_RD && !c->shutWr[s->side]) { c->shutWr[s->side] = true; sendFin(c, 1 - s->side); wakeAll(c->d[1 - s->side].wq); notify(f); }
    return (int)ret("shutdown", fd, 0);
}
int sim_unlink(const char* p) { std::string r = std::string("\1\0", 2) + p + std::string(1, '\0'); return paths.erase(r) ? 0 : (errno = ENOENT, -1); }
int sim_epoll_create1(int) { enter(); int e = sysFail2(EMFILE); if (e) return (int)fail("epoll_create", -1, e); Epoll* ep = new Epoll(); ep->type = 4; ep->node = cur->node; return (int)ret("epoll_create", -1, newFd(cur->node, ep)); }
int sim_epoll_create(int) { return sim_epoll_create1(0); }
int sim_epoll_ctl(int efd, int op, int fd, struct epoll_event* ev) {
    enter(); File* e = get(efd); File* f = get(fd);
    if (!e || !f) return (int)fail("epoll_ctl", fd, EBADF); if (e->type != 4) return (int)fail("epoll_ctl", fd, EINVAL);
    Epoll* ep = (Epoll*)e; size_t i; for (i = 0; i < ep->items.size(); i++) if (ep->items[i].fd == fd && ep->items[i].f == f) break;
    if (op == EPOLL_CTL_ADD) {
        int x = sysFail2(ENOSPC); if (x) return (int)fail("epoll_ctl", fd, x);
        if (i < ep->items.size()) return (int)fail("epoll_ctl", fd, EEXIST); ep->items.push_back({fd, f, ev->events, ev->data, true}); f->eps.push_back(ep); }
    else if (i == ep->items.size()) return (int)fail("epoll_ctl", fd, ENOENT);
    else if (op == EPOLL_CTL_MOD) { ep->items[i].ev = ev->events; ep->items[i].data = ev->data; ep->items[i].armed = true; }
    else { ep->items.erase(ep->items.begin() + i); auto& v = f->eps; auto it = std::find(v.begin(), v.end(), ep); if (it != v.end()) v.erase(it); }
    wakeAll(ep->q);
    return (int)ret("epoll_ctl", fd, 0);
}
int sim_epoll_wait(int efd, struct epoll_event* out, int max, int timeout) {
    enter(); File* e = get(efd); if (!e) return (int)fail("epoll_wait", efd, EBADF); if (e->type != 4) return (int)fail("epoll_wait", efd, EINVAL);
    Epoll* ep = (Epoll*)e; Op op(ep); u64 dl = timeout < 0 ? 0 : now + (u64)timeout * 1000000ull;
    check(out, sizeof(*out) * max, true, nullptr);
    while (true) {
        std::vector<size_t> rdy;
        for (size_t i = 0; i < ep->items.size(); i++) { auto& it = ep->items[i]; if (it.armed && (mask(it.f) & (it.ev | EPOLLERR | EPOLLHUP))) rdy.push_back(i); }
        if (!rdy.empty()) {
            u64 prop = 0;
            if (!replaying && rdy.size() > 1 && T.epollPpm && rngv[K_EPOLL].chance(T.epollPpm)) prop = rngv[K_EPOLL].below(rdy.size());
            u64 rot = decide(K_EPOLL, cur->id, cur->nepoll, prop);
            prop = 0; if (!replaying && rdy.size() > 1 && T.epollPpm && rngv[K_EVENTS].chance(T.epollPpm)) prop = rngv[K_EVENTS].range(1, rdy.size());
            u64 lim = decide(K_EVENTS, cur->id, cur->nepoll++, prop);
            if (lim && (int)lim < max) max = (int)lim;
            size_t start = (ep->rot + rot) % rdy.size(); int n = 0;
            // fairness: the kernel's ready list rotates
            for (size_t k = 0; k < rdy.size() && n < max; k++) { auto& it = ep->items[rdy[(start + k) % rdy.size()]]; out[n].events = mask(it.f) & (it.ev | EPOLLERR | EPOLLHUP); out[n].data = it.data; if (it.ev & (EPOLLONESHOT | EPOLLET)) { if (it.ev & EPOLLONESHOT) it.armed = false; } n++; }
            ep->rot = n < (int)rdy.size() ? start + n : 0;
            if (n > 1) count("epoll-multi");
            return (int)ret("epoll_wait", efd, n);
        }
        if (timeout == 0 || (dl && now >= dl)) return (int)ret("epoll_wait", efd, 0);
        if (interrupted()) return (int)fail("epoll_wait", efd, EINTR);
        if (dl) { ep->q.push_back(cur); blockUntil(dl, "epoll_wait"); for (size_t i = 0; i < ep->q.size(); i++) if (ep->q[i] == cur) { ep->q.erase(ep->q.begin() + i); break; } }
        else waitOn(ep->q, "epoll_wait");
    }
}
int sim_epoll_pwait(int e, struct epoll_event* o, int m, int t, const sigset_t*) { return sim_epoll_wait(e, o, m, t); }
int sim_poll(struct pollfd* p, nfds_t n, int timeout) {
    enter(); u64 dl = timeout < 0 ? ~0ull : now + (u64)timeout * 1000000ull;
    while (true) {
        int k = 0;
        for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd < 0) continue; File* f = get(p[i].fd); if (!f) { p[i].revents = POLLNVAL; k++; continue; } u32 m = mask(f) & (p[i].events | EPOLLERR | EPOLLHUP); p[i].revents = (short)m; if (m) k++; }
        if (k || now >= dl) return (int)ret("poll", n ? p[0].fd : -1, k);
        if (interrupted()) return (int)fail("poll", -1, EINTR);
        // coarse: re-check periodically in simulated time and on wake-ups of the first descriptor
        u64 t = now + 20000; blockUntil(t < dl ? t : dl, "poll");
    }
}
int sim_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    enter(); File* f = get(fd); if (!f) return (int)fail("fcntl", fd, EBADF);
    if (cmd == F_GETFL) return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { f->nonblock = (arg & O_NONBLOCK) != 0; return 0; }
    return 0;
}
int sim_ioctl(int fd, unsigned long req, ...) {
    va_list ap; va_start(ap, req); int* arg = va_arg(ap, int*); va_end(ap);
    enter(); File* f = get(fd); if (!f) return (int)fail("ioctl", fd, EBADF);
    if (req == 0x5421) { f->nonblock = *arg != 0; return 0; }
    if (req == 0x541B) { *arg = f->type == 2 ? (int)((Stream*)f)->c->d[((Stream*)f)->side].avail() : f->type == 3 && !((Dgram*)f)->rx.empty() ? (int)((Dgram*)f)->rx.front().data.size() : 0; return 0; }
    return 0;
}
int sim_setsockopt(int fd, int, int, const void*, socklen_t) { enter(); return get(fd) ? 0 : (int)fail("setsockopt", fd, EBADF); }
int sim_getsockopt(int fd, int, int opt, void* v, socklen_t* l) { enter(); File* f = get(fd); if (!f) return (int)fail("getsockopt", fd, EBADF); if (v && l && *l >= 4) { *(int*)v = 0; if (opt == SO_ERROR && f->type == 2) { Stream* s = (Stream*)f; Dir& d = s->c->d[s->side]; if (d.rst && !d.rstSeen) { *(int*)v = ECONNRESET; d.rstSeen = true; } } if (opt == SO_TYPE) *(int*)v = f->type == 3 ? SOCK_DGRAM : SOCK_STREAM; } return 0; }
int sim_getsockname(int fd, struct sockaddr* a, socklen_t* l) { File* f = get(fd); if (!f) return (int)fail("getsockname", fd, EBADF); giveAddr(f->type == 3 ? ((Dgram*)f)->raw : f->type == 1 ? ((Listener*)f)->addr.s : std::string("\1\0", 2), a, l); return 0; }
int sim_getpeername(int fd, struct sockaddr* a, socklen_t* l) { File* f = get(fd); if (!f) return (int)fail("getpeername", fd, EBADF); giveAddr(f->type == 3 ? ((Dgram*)f)->peerRaw : std::string("\1\0", 2), a, l); return 0; }
int sim_eventfd(unsigned v, int flags) { enter(); Evfd* e = new Evfd(); e->type = 5; e->node = cur->node; e->v = v; e->nonblock = flags & O_NONBLOCK; return (int)ret("eventfd", -1, newFd(cur->node, e)); }
void (*sim_signal(int s, void (*h)(int)))(int) { if (s == SIGPIPE) nodes[cur->node].sigpipe = h == SIG_DFL ? 0 : 1; return SIG_DFL; }
int sim_sigaction(int s, const struct sigaction* a, struct sigaction*) { if (s == SIGPIPE && a) nodes[cur->node].sigpipe = a->sa_handler == SIG_DFL ? 0 : 1; return 0; }
}
