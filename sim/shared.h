// Result area shared between the run (child process) and the batch runner (parent).
#pragma once
#include "sim.h"
namespace sim {
struct Shared {
    int finished, violated, maintained;
    int status; // of runUntil
    char cls[96]; char msg[1600];
    u64 hash, ncount, sched, steps, simtime;
    u64 fired[K_N];
    int npcs; u64 pcs[16];
    int npcs2; u64 pcs2[8];
    u32 ndec; u32 decOverflow;
    u32 ncounters; struct { char name[40]; u64 v; } counters[120];
    u64 states; // number of distinct state fingerprints
    char info[512];
    Dec dec[1 << 19];
};
extern Shared* shm;
void finishRun();
void installHandlers();
}
