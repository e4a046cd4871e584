// What the general scenarios draw and report.
#include "world.h"
using namespace sim;
namespace w {
namespace {
void weights(Cfg & c, int data, int attr, int make, int remove) {
    c.weight[WRITE] = 6 * data; c.weight[SCALAR] = 2 * data; c.weight[WCHUNK] = 2 * data; c.weight[RMCHUNK] = 2 * data;
    c.weight[WATTR] = 3 * attr; c.weight[RMATTR] = 2 * attr;
    c.weight[CGROUP] = make; c.weight[CDATA] = 2 * make;
    c.weight[REMOVE] = 2 * remove;
    c.weight[REOPEN] = 1;
}
void reads(Cfg & c, int n) {
    c.weight[READ] = 5 * n; c.weight[RCHUNK] = 3 * n; c.weight[RATTR] = 2 * n; c.weight[OPEN] = 2 * n; c.weight[LIST] = 3 * n;
}
}
// faults: what storage can do; disk: a file system, which can be full and lose a descriptor
void profile(Ctx & ctx, Cfg & c, const std::string & name, uint64_t faults, bool disk) {
    // everything at once: what the special-purpose scenarios report separately
    if(name == "everything") {
        weights(c, 2, 1, 1, 1); reads(c, 1);
        c.weight[BADATTR] = 2; c.weight[CEXIST] = 2; c.weight[RFILE] = 1;
        c.startGroups = 1; c.faultKinds = faults; c.pFault = 0.6; c.full = disk; c.crash = false;
        c.minOps = 3; c.maxOps = 10;
    }
    else if(name == "everything-crash") {
        weights(c, 2, 1, 1, 1); reads(c, 1);
        c.startGroups = 1; c.faultKinds = faults; c.pFault = 0.0; c.crash = true;
        c.minOps = 3; c.maxOps = 10;
    }
    // C01: fault-free histories, all formats, all interleavings
    else if(name == "data-model") {
        c.weight[WRITE] = 8; c.weight[SCALAR] = 3; c.weight[WCHUNK] = 2; c.weight[RMCHUNK] = 2; c.weight[READ] = 6; c.weight[RCHUNK] = 1; c.weight[REOPEN] = 1; c.weight[WATTR] = 1; c.weight[BADREQ] = 2;
        c.minOps = 3; c.maxOps = 10; c.complex = disk;
    }
    else if(name == "data-model-big") {
        c.weight[WRITE] = 8; c.weight[SCALAR] = 2; c.weight[READ] = 6; c.weight[WCHUNK] = 1; c.weight[REOPEN] = 1;
        c.minOps = 2; c.maxOps = 5; c.bigChunks = true; c.complex = disk;
    }
    else if(name == "data-model-huge") {
        c.weight[WRITE] = 8; c.weight[SCALAR] = 1; c.weight[READ] = 6; c.weight[WCHUNK] = 2; c.weight[RCHUNK] = 1;
        c.minOps = 1; c.maxOps = 3; c.hugeChunks = true;
        if(ctx.rng.chance(0.4)) c.fmtHi = 0;
    }
    // C03: calls that return although a fault fired
    else if(name == "acknowledged") {
        weights(c, 2, 1, 1, 1);
        c.startGroups = 1; c.faultKinds = faults; c.pFault = 1.0; c.full = disk; c.minOps = 3; c.maxOps = 10;
        c.bigChunks = ctx.rng.chance(0.15);
        c.all(0); c.report[S_ACK] = A_DATA | A_ATTR | A_META | A_EXIST | A_CREATE | A_REMOVE | A_LIST;
    }
    // C04: calls that throw
    else if(name == "failed-write") {
        weights(c, 3, 2, 1, 0);
        c.startGroups = 1; c.faultKinds = faults; c.pFault = 1.0; c.full = disk; c.minOps = 3; c.maxOps = 10;
        c.bigChunks = ctx.rng.chance(0.15);
        c.all(0); c.report[S_HARM] = A_DATA | A_ATTR | A_META | A_EXIST | A_LIST | A_RETRY;
    }
    // C05: kills; also kills during calls that meet faults
    else if(name == "crash") {
        weights(c, 3, 2, 1, 1);
        c.startGroups = 1; c.faultKinds = faults; c.pFault = 0.25; c.crash = true; c.minOps = 2; c.maxOps = 8;
        c.all(0); c.report[S_CRASH] = A_ALL;
    }
    // C06: faults in reading calls
    else if(name == "read-fault") {
        weights(c, 2, 1, 1, 0); reads(c, 3);
        c.startGroups = 1; c.faultKinds = faults & ~bit(F_ENOSPC); c.pFault = 1.0; c.minOps = 5; c.maxOps = 14;
        c.all(0); c.report[S_ACK] = A_READ; c.report[S_OK] = A_READ; c.report[S_HARM] = A_READ | A_RETRY;
    }
    // C12: progress
    else if(name == "progress") {
        weights(c, 2, 1, 1, 1); reads(c, 1);
        c.startGroups = 1; c.faultKinds = faults | bit(F_EAGAIN); c.pFault = 0.9; c.full = disk; c.minOps = 3; c.maxOps = 10; c.maxThreads = 6;
        c.bigChunks = ctx.rng.chance(0.1);
        c.all(0); c.report[S_HARM] = A_RETRY; c.report[S_OK] = A_SPUR;
    }
    // C13: attributes
    else if(name == "attributes") {
        weights(c, 1, 6, 1, 0); c.weight[RATTR] = 6; c.weight[BADATTR] = 4; c.weight[REOPEN] = 2;
        c.startGroups = 1; c.faultKinds = faults; c.pFault = 0.5; c.full = disk; c.minOps = 5; c.maxOps = 16;
        c.crash = ctx.rng.chance(0.3);
        c.all(A_ATTR | A_META); c.report[S_ILLEGAL] = A_ALL; c.report[S_OK] = A_ATTR | A_META | A_SPUR | A_DATA;
    }
    // C14: metadata
    else if(name == "metadata") {
        weights(c, 1, 4, 3, 0); c.weight[OPEN] = 4; c.weight[REOPEN] = 3; c.weight[BADATTR] = 2;
        c.startGroups = 1; c.faultKinds = faults; c.pFault = 0.5; c.full = disk; c.minOps = 4; c.maxOps = 12;
        c.crash = ctx.rng.chance(0.3);
        c.all(A_META); c.report[S_OK] = A_META | A_SPUR;
    }
    // C16: creation
    else if(name == "creation") {
        weights(c, 1, 1, 5, 1); c.weight[CEXIST] = 7; c.weight[BADMAKE] = 3; c.weight[RFILE] = 1;
        c.startGroups = 1; c.faultKinds = faults; c.pFault = 0.6; c.full = disk; c.minOps = 4; c.maxOps = 12;
        c.crash = ctx.rng.chance(0.3);
        c.all(A_CREATE | A_META); c.report[S_ILLEGAL] = A_ALL; c.report[S_OK] = A_CREATE | A_META | A_SPUR | A_LIST;
    }
    // C17: removal
    else if(name == "removal") {
        weights(c, 2, 1, 3, 4); c.weight[RFILE] = 1; c.weight[RMCHUNK] = 6;
        c.startGroups = 2; c.startData = 2; c.faultKinds = faults; c.pFault = 0.6; c.minOps = 4; c.maxOps = 12;
        c.crash = ctx.rng.chance(0.2);
        c.all(A_REMOVE | A_LIST | A_DATA); c.report[S_OK] = A_REMOVE | A_LIST | A_DATA | A_SPUR | A_EXIST; c.report[S_HARM] = A_REMOVE | A_DATA | A_LIST | A_RETRY;
    }
    // C18: listings
    else if(name == "listing") {
        weights(c, 1, 1, 5, 2); c.weight[LIST] = 14; c.weight[RFILE] = 1;
        c.startGroups = 2; c.faultKinds = faults; c.pFault = 0.6; c.minOps = 6; c.maxOps = 16;
        c.all(A_LIST); c.report[S_OK] = A_LIST | A_SPUR; c.report[S_HARM] = A_LIST | A_RETRY;
    }
    // C22: no memory, no threads
    else if(name == "no-memory") {
        weights(c, 2, 1, 1, 1); reads(c, 1);
        c.startGroups = 1; c.faultKinds = bit(F_ENOMEM) | bit(F_EAGAIN); c.pFault = 1.0; c.alloc = true; c.minOps = 3; c.maxOps = 10; c.maxThreads = 6;
        c.bigChunks = ctx.rng.chance(0.1);
    }
    else { fprintf(stderr, "no profile %s\n", name.c_str()); abort(); }
}
} // namespace w
