// A plan is everything one simulated run is made of except the scheduler's decisions.
#pragma once
#include "sim.h"
#include "kernel.h"
#include <map>
#include <string>
#include <vector>
namespace sim {
enum OpCode {
    O_NONE,
    // library client (kinds A_CLIENT, A_THREAD)
    O_CONNECT,  // link
    O_CALL,     // slot, svc*16+fn, len, rlen, act | delayUs<<8 | count<<40
    O_POST,     // svc, len, act | delayUs<<8
    O_AWAIT,    // slot mask, flags (1 all, 2 async)
    O_COLLECT,  // slot mask
    O_WAITCTX,  // slot
    O_POLLCTX,  // slot, limit in us (0 = until done)
    O_PUMPNB,   // count
    O_PUMPBLK,  // count: blocking waits without context; only sound when something is outstanding
    O_SUB, O_UNSUB, // svc (UNSUB 255: everything)
    O_SYNC,
    O_SLEEP,    // us
    O_CLOSE,
    O_KILL,     // crash of this process
    O_ROUND,    // index
    O_REGP, O_UNREGP, // svc: client side registration
    O_DUMMY,    // first id, count, rounds: other protocols come and go
    O_MEM,      // 1: the server is short of memory, 0: no longer
    O_GATE,     // gate, kind (0 wait until all its handlers run, 1 open it, 2 other requests get on, 3 newcomers are announced, 4 events arrive, 5 the application thread is through, 6 wait for it)
    O_RESCUE,   // calls whose handlers answer deferred ones, until this client's other threads are done
    O_BURN,     // count: calls that cannot be made (no context), which use up message ids
    // raw client (A_RAW)
    R_CONN,     // link
    R_CALL,     // svc*16+fn, len, rlen, act|delay<<8, pieces<<32 | fixed message id
    R_CUT,      // svc*16+fn, len, bytes to send
    R_BAD,      // kind, value, len
    R_READ,     // frames to read
    R_SUB, R_UNSUB, // svc
    R_SYNC, R_CLOSE, R_RST, R_SLEEP, R_DRAIN, R_DGRAM,
    // application threads of the server process (A_APP)
    S_BCAST,    // svc, len, kind
    S_TARGET,   // actor, svc, len
    S_REG, S_UNREG, // svc
    S_DUPREG,   // svc
    S_SHUT,
    S_DUMMY,    // first id, count, rounds
    S_ANSWER,   // answer up to n deferred calls, order
    S_SLEEP,
    // nemesis (A_NEM)
    N_KILL,     // actor
    N_RESET,    // actor, drop in flight
    N_KILLSERVER, N_SLEEP,
    OP_N
};
extern const char* opName[OP_N];
enum ActorKind { A_CLIENT, A_THREAD, A_PUMP, A_RAW, A_APP, A_RESP, A_NEM, A_N };
extern const char* kindNameA[A_N];
enum Act { ACT_NONE, ACT_BCAST, ACT_TARGET, ACT_SHUT, ACT_ANSWER, ACT_BCAST_AFTER, ACT_NOREPLY, ACT_GATE, ACT_REG };
struct Op { int code; u64 a[5]; };
struct Actor { int id = 0, node = 0, kind = 0, parent = -1; u64 start = 0; std::vector<Op> ops; };
struct Plan {
    std::string prop; u64 seed = 0; Tuning t; NetConfig n; std::map<std::string, u64> cfg; std::vector<Actor> actors;
    u64 get(const std::string& k, u64 d = 0) const { auto it = cfg.find(k); return it == cfg.end() ? d : it->second; }
};
std::string planText(const Plan&);
bool planParse(const std::string&, Plan&, std::vector<Dec>* dec);
Plan generate(const std::string& prop, u64 seed, int tier);
void runWorld(const Plan& p);
extern const int svcId[4];
}
