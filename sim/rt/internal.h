#pragma once
#include "sim.h"
#include <atomic>
#include <pthread.h>
#include <time.h>
namespace sim {
enum { T_READY = 0, T_BLOCKED = 1, T_DONE = 2 };
struct Thr {
    int id = 0, state = T_READY;
    std::atomic<int> go{0};
    const char * waitKind = "";
    const void * waitObj = nullptr;
    uint64_t deadline = 0;               // virtual ns, 0 = none
    bool timedOut = false;
    bool inCond = false;
    pthread_t pt{};
    void * (*fn)(void *) = nullptr;
    void * arg = nullptr;
    void * ret = nullptr;
    int nopre = 0, armed = 0, nofault = 0, noalloc = 0;
    uint64_t prio = 0;
    bool stallable = false;
};
extern __thread Thr * self __attribute__((tls_model("initial-exec")));
extern bool active;
extern Rng srng;                          // schedule / fault decisions
// runtime code: no preemption, no allocation faults
struct RT {
    Thr * t;
    RT() : t(self) { if(t) { ++t->nopre; ++t->nofault; } }
    ~RT() { if(t) { --t->nopre; --t->nofault; } }
};
// inside an interposed function: allocations are the simulator's own
struct NA {
    Thr * t;
    NA() : t(self) { if(t) ++t->noalloc; }
    ~NA() { if(t) --t->noalloc; }
};
void * realSym(const char * name);
void memEvent();
extern bool guardChecks;
void checkAccess(const void * p);        // of z5, while allocations are guarded
extern void * runCaller;         // where the run was started from: no part of it
void skipIoFault();
uint32_t decideIoFault(uint64_t mask, uint64_t & param, uint64_t paramMax, bool (*veto)() = nullptr);
inline bool managed() { return active && self != nullptr; }
[[noreturn]] void exitNow();
void msgAppend(const char *);
}
#define REAL(name) ([]() { static decltype(&::name) f = (decltype(&::name)) sim::realSym(#name); return f; }())
