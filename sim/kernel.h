// Simulated operating system: descriptors, stream and datagram sockets, epoll.
#pragma once
#include "sim.h"
#include <sys/socket.h>
namespace sim {
struct Epoll;
struct File { // common part
    int type; // 1 listener/unconnected stream, 2 stream end, 3 datagram, 4 epoll, 5 eventfd/app descriptor
    int node; int fdRefs = 1, ops = 0; bool nonblock = false, finalised = false;
    WaitQ q; std::vector<Epoll*> eps;
    u64 id = 0;
    virtual ~File() {}
};
struct Dir { std::string buf; size_t head = 0; size_t inflight = 0, pending = 0; bool fin = false, rst = false, rstSeen = false; u64 lastT = 0, nseg = 0, total = 0; WaitQ wq; size_t avail() const { return buf.size() - head; } };
struct Conn { u64 id; Dir d[2]; bool closed[2] = {false, false}, shutWr[2] = {false, false}, shutRd[2] = {false, false}; bool unixStyle; size_t cap; u64 lat;
    u64 eagain[2] = {0, 0}, full[2] = {0, 0}, partial[2] = {0, 0}; bool reset = false; bool accepted = false; int acceptFd = -1; struct Stream* end[2] = {nullptr, nullptr}; int nodes[2] = {-1, -1}; u64 tag = 0; u64 acceptSeq = 0;
    bool svClosed = false;
    bool readShut(int s) const { return shutRd[s] && !(unixStyle && d[s].inflight); } // a local socket keeps what was sent before the shutdown
};
struct Stream : File { Conn* c = nullptr; int side = 0; };
struct NetConfig { size_t cap = 1 << 18; u64 lat = 0; size_t dgramQueue = 64; bool dgramFaults = false; u64 sendFail = 0; };
extern NetConfig net;
struct Addr { std::string s; bool operator<(const Addr& o) const { return s < o.s; } };

// harness access
Stream* streamOf(int node, int fd);
int openFds(int node);
std::string describeFds(int node);
int appFd(int node);                         // a descriptor that belongs to the application
bool fdOpen(int node, int fd);
void resetConn(Conn* c, bool dropInflight);   // connection torn down by the network
extern std::vector<Conn*> conns;
extern std::function<void(int node)> onSigpipe;
extern std::function<void(int node, const std::string& data)> onDgram; // a datagram entered a receive queue
extern u64 badClose[64];                     // close() of a descriptor that is not open, per node
u64 dgramLost(int node, int fd);             // datagrams that did not make it into this socket
void fdBase(int node, int base);
void setNodeCrashDrop(bool drop);
}
extern "C" {
int sim_socket(int, int, int); int sim_bind(int, const struct sockaddr*, socklen_t); int sim_listen(int, int);
int sim_accept(int, struct sockaddr*, socklen_t*); int sim_connect(int, const struct sockaddr*, socklen_t);
ssize_t sim_send(int, const void*, size_t, int); ssize_t sim_recv(int, void*, size_t, int);
ssize_t sim_sendto(int, const void*, size_t, int, const struct sockaddr*, socklen_t);
ssize_t sim_recvfrom(int, void*, size_t, int, struct sockaddr*, socklen_t*);
int sim_close(int); int sim_shutdown(int, int); int sim_unlink(const char*);
int sim_epoll_create1(int); int sim_epoll_ctl(int, int, int, struct epoll_event*); int sim_epoll_wait(int, struct epoll_event*, int, int);
void* sim_malloc(size_t); void sim_free(void*);
}
