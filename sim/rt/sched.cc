// Deterministic thread scheduler: real threads, exactly one of which runs at any time.
#include "internal.h"
#include <algorithm>
#include <deque>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>

namespace sim {

const char * const faultNames[F_COUNT] = {
    "none", "EIO", "ENOSPC", "EACCES", "EMFILE", "EINTR", "short-transfer", "close-error-with-loss",
    "allocation-failure", "thread-start-failure", "spurious-wakeup", "ESTALE",
    "net-timeout-before", "net-timeout-after-apply", "http-503", "http-403", "net-truncated-body",
    "net-reset", "partial-batch", "process-kill", "disk-full", "stalled-io"};

__thread Thr * self __attribute__((tls_model("initial-exec"))) = nullptr;
bool active = false;
Rng srng(1);
Rec * rec = nullptr;
Spec spec;
SchedPolicy policy;
FaultPolicy faultPolicy;
uint64_t faultsFired = 0;
int nprocs = 4;

static std::vector<Thr *> all;
static uint64_t gone = 0;                // finished threads of earlier scopes
static uint64_t point = 0;               // events in this scope
static uint64_t total = 0;               // events in this run (as of last slow path)
static uint64_t nextPoint = ~0ULL;
static uint64_t nextDraw = ~0ULL;        // next random memory preemption
static uint64_t lastSwitchPoint = 0;
static uint32_t curScope = 0;
static uint64_t scopeBase = 0;           // total events in earlier scopes
static uint64_t ioCount = 0;             // fault-eligible events in this scope
static uint64_t scopeFired = 0;
static uint64_t vclock = 0;              // slept time
static uint64_t LIMIT = 300000000ULL;
static const uint64_t STARVE = 3000000ULL;
static std::map<std::pair<uint32_t, uint64_t>, uint32_t> decMap;
static std::map<std::pair<uint32_t, uint64_t>, std::pair<uint32_t, uint64_t>> faultMap;
static std::vector<uint64_t> pctPoints;

uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9e3779b97f4a7c15ULL + b + 0x165667b19e3779f9ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
uint64_t hashBytes(const void * p, std::size_t n, uint64_t h) {
    const unsigned char * c = (const unsigned char *) p;
    for(std::size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
    return h;
}
void * realSym(const char * name) {
    void * p = dlsym(RTLD_NEXT, name);
    if(!p) { fprintf(stderr, "z5sim: no real symbol %s\n", name); _exit(97); }
    return p;
}

// ---- raw futex on our own words
static long rawSyscall(long n, long a, long b, long c, long d) {
    long r;
    register long r10 __asm__("r10") = d;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10) : "rcx", "r11", "memory");
    return r;
}
static void sleepOn(std::atomic<int> & w) {
    while(w.load(std::memory_order_acquire) == 0)
        rawSyscall(SYS_futex, (long) &w, FUTEX_WAIT_PRIVATE, 0, 0);
    w.store(0, std::memory_order_relaxed);
}
static void wake(std::atomic<int> & w) {
    w.store(1, std::memory_order_release);
    rawSyscall(SYS_futex, (long) &w, FUTEX_WAKE_PRIVATE, 1, 0);
}

void exitNow() { syscall(SYS_exit_group, 0); __builtin_unreachable(); }

uint64_t now() { return 1700000000000000000ULL + (scopeBase + point) * 100 + vclock; }

static void flushStats() {
    rec->points = scopeBase + point;
    rec->vtime = now() - 1700000000000000000ULL;
    rec->threads = gone + all.size();
    rec->hash = mix(rec->hash, rec->switchHash);
}
void fail(const char * cls, const std::string & msg) {
    RT rt;
    if(rec->status == ST_RUNNING) {
        snprintf(rec->cls, sizeof rec->cls, "%s", cls);
        snprintf(rec->msg, sizeof rec->msg, "%s", msg.c_str());
        flushStats();
        rec->hash = mix(rec->hash, hashBytes(msg.data(), msg.size()));
        rec->status = ST_VIOLATION;
    }
    exitNow();
}
void finishOk() {
    flushStats();
    if(rec->status == ST_RUNNING) rec->status = ST_OK;
    exitNow();
}
void note(uint64_t v) { rec->hash = mix(rec->hash, v); }
void noteStr(const std::string & s) { note(hashBytes(s.data(), s.size())); }
void probe(const char * name) {
    for(int i = 0; i < MAXPROBE; ++i) {
        if(rec->probeName[i][0] == 0) { snprintf(rec->probeName[i], 40, "%s", name); }
        if(strncmp(rec->probeName[i], name, 39) == 0) { ++rec->probeCount[i]; return; }
    }
}
void check(bool ok, const char * cls, const std::string & msg) {
    ++rec->oracleChecks;
    if(!ok) fail(cls, msg);
}

static void refreshNext() {
    uint64_t n = lastSwitchPoint + STARVE;
    if(LIMIT > scopeBase) n = std::min(n, LIMIT - scopeBase + 1); else n = point;
    if(spec.replay) {
        auto it = decMap.upper_bound({curScope, point});
        if(it != decMap.end() && it->first.first == curScope) n = std::min(n, it->first.second);
    } else {
        n = std::min(n, nextDraw);
    }
    nextPoint = n;
}
static void drawMem() {
    if(spec.replay || spec.noSched) { nextDraw = ~0ULL; return; }
    if(policy.kind == 1) {
        nextDraw = ~0ULL;
        for(uint64_t p : pctPoints) if(p > scopeBase + point) nextDraw = std::min(nextDraw, p - scopeBase);
        return;
    }
    if(!policy.memGap) { nextDraw = ~0ULL; return; }
    // geometric gap
    double u = srng.uniform();
    uint64_t g = 1 + uint64_t(-__builtin_log(1.0 - u * 0.999999) * double(policy.memGap));
    nextDraw = point + g;
}

int liveThreads() { int n = 0; for(auto t : all) if(t->state != T_DONE) ++n; return n; }
bool allThreadsDone() { return liveThreads() <= 1; }
void scope(uint32_t id) {
    RT rt;
    if(allThreadsDone() && self && self->id == 0) { gone += all.size() - 1; all.resize(1); }   // thread numbers start again
    scopeBase += point;
    point = 0; ioCount = 0; scopeFired = 0; vfs::scopeMutations = 0;
    curScope = id;
    lastSwitchPoint = 0;
    drawMem();
    refreshNext();
    note(id);
}
uint32_t currentScope() { return curScope; }
uint64_t firedInScope() { return scopeFired; }

static void record(uint32_t v) {
    if(rec->nDec < MAXDEC) { rec->dec[rec->nDec] = Decision{curScope, v, point}; rec->nDec = rec->nDec + 1; }
    else rec->decOverflow = 1;
}
static bool replayed(uint32_t & v) {
    auto it = decMap.find({curScope, point});
    if(it == decMap.end()) return false;
    v = it->second;
    record(v);
    return true;
}

NoPreempt::NoPreempt() { if(self) ++self->nopre; }
NoPreempt::~NoPreempt() { if(self) --self->nopre; }
NoFaults::NoFaults() { if(self) ++self->nofault; }
NoFaults::~NoFaults() { if(self) --self->nofault; }
Arm::Arm() { if(self) ++self->armed; }
Arm::~Arm() { if(self) --self->armed; }

static uint64_t stallLeft = 0, stallSince = 0; static int stallWaiters = 0;
static std::string describeThreads() {
    std::string s;
    for(auto t : all) {
        s += " T" + std::to_string(t->id) + "=";
        s += t->state == T_READY ? "ready" : t->state == T_DONE ? "done" : (std::string("blocked on ") + t->waitKind);
    }
    return s;
}

static void resume(Thr * me, Thr * nx) {
    if(nx == me) return;
    ++rec->switches;
    rec->switchHash = mix(rec->switchHash, (uint64_t(nx->id) << 48) ^ (uint64_t(me ? me->id : 99) << 40) ^ (scopeBase + point));
    lastSwitchPoint = point;
    refreshNext();
    wake(nx->go);
    if(me && me->state != T_DONE) sleepOn(me->go);
}

// choose who runs next. canContinue: the running thread may go on
static void consult(Thr * me, int cls, bool canContinue, bool preferOther) {
    ++point;
    if(scopeBase + point > LIMIT)
        fail("no-progress", "step bound exceeded: " + describeThreads());
    Thr * ready[256]; int n = 0;
    for(;;) {
        n = 0;
        uint64_t soonest = ~0ULL; bool timed = false;
        for(auto t : all) {
            if(t == me && !canContinue && t->state != T_READY) { if(t->deadline) { timed = true; soonest = std::min(soonest, t->deadline); } continue; }
            if(t->state == T_BLOCKED && t->deadline) {
                if(t->deadline <= now()) { t->timedOut = true; t->state = T_READY; t->deadline = 0; }
                else { timed = true; soonest = std::min(soonest, t->deadline); }
            }
            if(t->state == T_READY && n < 256) ready[n++] = t;
        }
        if(n) break;
        if(!timed) {
            fail("deadlock", "all threads are blocked:" + describeThreads());
        }
        if(stallWaiters && now() - stallSince > 60000000000ULL) fail("blocked-by-stalled-call", "while one call waits for storage nothing else goes on:" + describeThreads());
        vclock += soonest - now();       // jump the clock to the next timer
        if(me && me->state == T_BLOCKED && me->deadline && me->deadline <= now()) { me->timedOut = true; me->state = T_READY; me->deadline = 0; }
    }
    Thr * def = nullptr;
    if(canContinue && !preferOther) def = me;
    else {
        for(int i = 0; i < n; ++i) if(!me || ready[i]->id > me->id) { if(ready[i] != me) { def = ready[i]; break; } }
        if(!def) def = ready[0] != me || n == 1 ? ready[0] : ready[1];
        if(!canContinue && !preferOther) def = ready[0];
    }
    Thr * pick = def;
    bool starving = canContinue && n > 1 && point - lastSwitchPoint > STARVE;
    if(starving) {
        for(int i = 0; i < n; ++i) if(ready[i] == me) { pick = ready[(i + 1) % n]; break; }
    } else if(spec.replay) {
        uint32_t v;
        if(replayed(v) && v) { for(int i = 0; i < n; ++i) if(uint32_t(ready[i]->id + 1) == v) pick = ready[i]; }
    } else if(!spec.noSched && n > 1) {
        if(policy.kind == 1) {
            pick = ready[0];
            for(int i = 1; i < n; ++i) if(ready[i]->prio > pick->prio) pick = ready[i];
            if(preferOther && pick == me) pick = def;
        } else {
            double p = cls == 0 ? policy.pSync : cls == 1 ? policy.pIo : 1.0;
            if(!canContinue || preferOther) pick = ready[srng.below(n)];
            else if(srng.chance(p)) { do pick = ready[srng.below(n)]; while(pick == me); }
        }
        if(pick != def) record(uint32_t(pick->id + 1));
    }
    if(canContinue && pick != me) ++rec->preemptions;
    if(point - lastSwitchPoint > STARVE) lastSwitchPoint = point;
    resume(me, pick);
}

void yieldPoint(int cls) {
    Thr * me = self;
    if(!active || !me || me->nopre) return;
    ++me->nopre; ++me->nofault;
    consult(me, cls, true, false);
    --me->nopre; --me->nofault;
}

static void slowMem(Thr * me) {
    ++me->nopre; ++me->nofault;
    if(scopeBase + point > LIMIT) fail("no-progress", "step bound exceeded: " + describeThreads());
    bool due = point >= nextDraw;
    if(!spec.replay && policy.kind == 1 && due) {
        // PCT change point: lowest priority from now on
        me->prio = srng.below(1000);
        drawMem();
        --point; consult(me, 2, true, false);
    } else if(spec.replay || due || point - lastSwitchPoint > STARVE) {
        if(due) drawMem();
        --point; consult(me, 2, true, false);
    }
    refreshNext();
    if(nextPoint <= point) nextPoint = point + 1;
    --me->nopre; --me->nofault;
}
// called for every instrumented memory access
void memEvent() {
    Thr * me = self;
    if(!me || me->nopre || !active) return;
    if(__builtin_expect(++point >= nextPoint, 0)) slowMem(me);
}

uint64_t choose(uint64_t n) {
    if(!managed() || n <= 1) return 0;
    ++point;
    uint32_t v = 0;
    if(spec.replay) { replayed(v); if(v >= n) v = 0; }
    else if(!spec.noSched) { v = uint32_t(srng.below(n)); if(v) record(v); }
    return v;
}
static bool chooseRare(double p) {
    if(!managed()) return false;
    ++point;
    uint32_t v = 0;
    if(spec.replay) replayed(v);
    else if(!spec.noSched && srng.chance(p)) { v = 1; record(v); }
    return v != 0;
}

uint32_t decideFault(uint64_t mask, uint64_t & param, uint64_t paramMax) {
    Thr * me = self;
    if(!active || !me || !me->armed || me->nofault) return 0;
    return decideIoFault(mask, param, paramMax);
}
void skipIoFault() { ++ioCount; }
uint32_t decideIoFault(uint64_t mask, uint64_t & param, uint64_t paramMax, bool (*veto)()) {
    ++ioCount;
    param = 0;
    uint32_t kind = 0;
    if(spec.replay) {
        auto it = faultMap.find({curScope, ioCount});
        if(it == faultMap.end()) return 0;
        kind = it->second.first; param = it->second.second;
        if(!(mask >> kind & 1)) return 0;
        if(param > paramMax) param = paramMax;
    } else {
        if(spec.noFault) return 0;
        uint64_t m = mask & faultPolicy.kinds;
        if(!m || faultsFired >= uint64_t(faultPolicy.maxFaults) || ioCount < faultPolicy.minIo) return 0;
        if(!srng.chance(faultPolicy.rate)) return 0;
        int k = __builtin_popcountll(m), w = int(srng.below(k));
        for(uint32_t i = 0; i < F_COUNT; ++i) if(m >> i & 1) { if(w-- == 0) { kind = i; break; } }
        param = srng.below(paramMax + 1);
    }
    if(veto && veto()) return 0;
    ++faultsFired; ++scopeFired;
    ++rec->faults[kind];
    if(rec->nFault < MAXFAULT) { rec->fault[rec->nFault] = FaultRec{curScope, kind, ioCount, param}; rec->nFault = rec->nFault + 1; }
    note(mix(kind, ioCount));
    return kind;
}

void drawPolicy(Rng & r) {
    static const uint64_t gaps[] = {0, 0, 30, 100, 400, 2000, 10000};
    static const double ps[] = {0.0, 0.05, 0.2, 0.5};
    policy.kind = r.chance(0.25) ? 1 : 0;
    policy.memGap = gaps[r.below(7)];
    policy.pSync = ps[r.below(4)];
    policy.pIo = ps[r.below(4)];
    policy.changePoints = r.range(1, 5);
    static const uint64_t hz[] = {1000, 10000, 100000};
    policy.horizon = hz[r.below(3)];
    policy.pSpurious = r.chance(0.3) ? 0.1 : 0.0;
    static const int np[] = {1, 2, 3, 4, 8};
    nprocs = np[r.below(5)];
}

void begin() {
    vfs::reset();
    srng = Rng(mix(spec.seed, 0x5c4ed));
    decMap.clear(); faultMap.clear();
    for(auto & d : spec.dec) decMap[{d.scope, d.point}] = d.value;
    for(auto & f : spec.faults) faultMap[{f.scope, f.io}] = {f.kind, f.param};
    Thr * t = new Thr;
    t->id = 0; t->pt = pthread_self();
    t->prio = 1000 + srng.below(1000000);
    all.push_back(t);
    pctPoints.clear();
    if(policy.kind == 1 && !spec.replay)
        for(int i = 0; i < policy.changePoints; ++i) pctPoints.push_back(1 + srng.below(policy.horizon));
    self = t;
    point = 0;
    drawMem(); refreshNext();
    active = true;
}
void end() { active = false; }

// ------------------------------------------------------------------ blocking objects
struct Mutex { Thr * owner = nullptr; int count = 0; };
struct RW { Thr * writer = nullptr; int readers = 0; };
static std::unordered_map<const void *, Mutex> mutexes;
static std::unordered_map<const void *, RW> rwlocks;
static std::unordered_map<const void *, std::deque<Thr *>> conds;
static std::unordered_map<const void *, std::deque<Thr *>> futexes;

static void block(Thr * me, const char * kind, const void * obj, uint64_t deadline = 0) {
    me->state = T_BLOCKED; me->waitKind = kind; me->waitObj = obj; me->deadline = deadline; me->timedOut = false;
    ++me->nopre; ++me->nofault;
    consult(me, 0, false, false);
    --me->nopre; --me->nofault;
    me->deadline = 0;
}
static void unblockAll(const void * obj, const char * kind) {
    for(auto t : all) if(t->state == T_BLOCKED && t->waitObj == obj && !t->inCond && t->waitKind == kind) t->state = T_READY;
}
static const char K_MUTEX[] = "mutex", K_COND[] = "condition", K_FUTEX[] = "futex", K_JOIN[] = "join", K_ONCE[] = "once", K_RW[] = "rwlock", K_SLEEP[] = "sleep", K_SEM[] = "semaphore";

static uint64_t toDeadline(const struct timespec * ts, bool relative) {
    uint64_t v = uint64_t(ts->tv_sec) * 1000000000ULL + uint64_t(ts->tv_nsec);
    if(relative) v += now();
    return v ? v : 1;
}
static bool recursiveMutex(pthread_mutex_t * m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

static int lockMutex(Thr * me, pthread_mutex_t * m, uint64_t deadline, bool tryOnly) {
    for(;;) {
        Mutex & x = mutexes[m];
        if(!x.owner) { x.owner = me; x.count = 1; return 0; }
        if(x.owner == me && recursiveMutex(m)) { ++x.count; return 0; }
        if(tryOnly) return EBUSY;
        block(me, K_MUTEX, m, deadline);
        if(deadline && me->timedOut) { if(!mutexes[m].owner) continue; return ETIMEDOUT; }
    }
}
static void unlockMutex(pthread_mutex_t * m) {
    auto it = mutexes.find(m);
    if(it == mutexes.end()) return;
    if(--it->second.count > 0) return;
    mutexes.erase(it);
    unblockAll(m, K_MUTEX);
}

static const char K_STALL[] = "storage";
static bool stallOver = false;
void stallBegin(uint64_t n) { if(stallOver) return; stallLeft = n; if(self) self->stallable = true; }
bool stalling() { return stallWaiters > 0; }
void stallEnd() { stallLeft = 0; stallOver = true; unblockAll(&stallLeft, K_STALL); for(auto t : all) t->stallable = false; }
void stallPoint() {
    Thr * me = self;
    if(!me->stallable || !stallLeft || --stallLeft) return;
    ++rec->faults[F_STALL]; ++stallWaiters; stallSince = now();
    block(me, K_STALL, &stallLeft);
    --stallWaiters;
}
static void * trampoline(void * p) {
    Thr * t = (Thr *) p;
    sleepOn(t->go);
    self = t;
    t->ret = t->fn(t->arg);
    {
        ++t->nopre; ++t->nofault;
        t->state = T_DONE;
        unblockAll(t, K_JOIN);
        self = nullptr;
        consult(t, 0, false, false);
    }
    return t->ret;
}

} // namespace sim

using namespace sim;

extern "C" {

int pthread_create(pthread_t * th, const pthread_attr_t * attr, void * (*fn)(void *), void * arg) { NA na_;
    auto real = REAL(pthread_create);
    if(!managed()) return real(th, attr, fn, arg);
    Thr * me = self;
    uint64_t param;
    if(me->armed && !me->nofault) {
        uint32_t k = decideIoFault(bit(F_EAGAIN), param, 0);
        if(k) return EAGAIN;
    }
    {
        RT rt;
        Thr * t = new Thr;
        t->id = int(all.size());
        t->fn = fn; t->arg = arg;
        t->armed = me->armed; t->stallable = me->stallable;
        t->prio = spec.replay ? 0 : 1000 + srng.below(1000000);
        if(gone + all.size() > 6000 || liveThreads() > 200) fail("no-progress", "too many threads started");
        pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1 << 20);
        int r = real(th, attr ? attr : &a, trampoline, t);
        pthread_attr_destroy(&a);
        if(r) { delete t; return r; }
        t->pt = *th;
        all.push_back(t);
    }
    yieldPoint(0);
    return 0;
}

int pthread_join(pthread_t th, void ** ret) { NA na_;
    auto real = REAL(pthread_join);
    if(!managed()) return real(th, ret);
    Thr * t = nullptr;
    for(auto x : all) if(x->id && pthread_equal(x->pt, th) && x->state != T_DONE) t = x;
    yieldPoint(0);
    if(t) while(t->state != T_DONE) block(self, K_JOIN, t);
    return real(th, ret);
}

int pthread_mutex_init(pthread_mutex_t * m, const pthread_mutexattr_t * a) { NA na_;
    if(active) mutexes.erase(m);
    return REAL(pthread_mutex_init)(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t * m) { NA na_;
    if(active) { mutexes.erase(m); return 0; }
    return REAL(pthread_mutex_destroy)(m);
}
int pthread_mutex_lock(pthread_mutex_t * m) { NA na_;
    if(!managed()) return active ? 0 : REAL(pthread_mutex_lock)(m);
    yieldPoint(0);
    return lockMutex(self, m, 0, false);
}
int pthread_mutex_trylock(pthread_mutex_t * m) { NA na_;
    if(!managed()) return active ? 0 : REAL(pthread_mutex_trylock)(m);
    yieldPoint(0);
    return lockMutex(self, m, 0, true);
}
int pthread_mutex_timedlock(pthread_mutex_t * m, const struct timespec * ts) { NA na_;
    if(!managed()) return active ? 0 : REAL(pthread_mutex_timedlock)(m, ts);
    yieldPoint(0);
    return lockMutex(self, m, toDeadline(ts, false), false);
}
int pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t c, const struct timespec * ts) { NA na_;
    if(!managed()) return active ? 0 : REAL(pthread_mutex_clocklock)(m, c, ts);
    yieldPoint(0);
    return lockMutex(self, m, toDeadline(ts, false), false);
}
int pthread_mutex_unlock(pthread_mutex_t * m) { NA na_;
    if(!managed()) return active ? 0 : REAL(pthread_mutex_unlock)(m);
    unlockMutex(m);
    yieldPoint(0);
    return 0;
}

static int condWait(pthread_cond_t * c, pthread_mutex_t * m, uint64_t deadline) { NA na_;
    Thr * me = self;
    yieldPoint(0);
    ++me->nopre; ++me->nofault;
    conds[c].push_back(me);
    unlockMutex(m);
    bool spurious = policy.pSpurious > 0 ? chooseRare(policy.pSpurious) : false;
    bool timed = false;
    if(spurious) {
        ++rec->faults[F_SPURIOUS];
        me->inCond = true;
        consult(me, 0, true, true);
    } else {
        me->inCond = true;
        block(me, K_COND, c, deadline);
        timed = me->timedOut;
    }
    me->inCond = false;
    auto it = conds.find(c);
    if(it != conds.end()) {
        auto & q = it->second;
        q.erase(std::remove(q.begin(), q.end(), me), q.end());
        if(q.empty()) conds.erase(it);
    }
    lockMutex(me, m, 0, false);
    --me->nopre; --me->nofault;
    return timed ? ETIMEDOUT : 0;
}
static void condWake(pthread_cond_t * c, bool everyone) { NA na_;
    auto it = conds.find(c);
    if(it == conds.end()) return;
    if(everyone) {
        for(Thr * t : it->second) if(t->state == T_BLOCKED) t->state = T_READY;
        conds.erase(it);
        return;
    }
    uint64_t i = choose(it->second.size());
    Thr * t = it->second[i];
    it->second.erase(it->second.begin() + i);
    if(t->state == T_BLOCKED) t->state = T_READY;
    if(it->second.empty()) conds.erase(it);
}
int pthread_cond_init(pthread_cond_t * c, const pthread_condattr_t * a) { NA na_;
    if(active) conds.erase(c);
    return REAL(pthread_cond_init)(c, a);
}
int pthread_cond_destroy(pthread_cond_t * c) { NA na_;
    if(active) return 0;
    return REAL(pthread_cond_destroy)(c);
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) { NA na_;
    if(!managed()) return REAL(pthread_cond_wait)(c, m);
    return condWait(c, m, 0);
}
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * ts) { NA na_;
    if(!managed()) return REAL(pthread_cond_timedwait)(c, m, ts);
    return condWait(c, m, toDeadline(ts, false));
}
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const struct timespec * ts) { NA na_;
    if(!managed()) return REAL(pthread_cond_clockwait)(c, m, k, ts);
    return condWait(c, m, toDeadline(ts, false));
}
int pthread_cond_signal(pthread_cond_t * c) { NA na_;
    if(!managed()) return active ? 0 : REAL(pthread_cond_signal)(c);
    yieldPoint(0);
    condWake(c, false);
    yieldPoint(0);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t * c) { NA na_;
    if(!managed()) return active ? 0 : REAL(pthread_cond_broadcast)(c);
    yieldPoint(0);
    condWake(c, true);
    yieldPoint(0);
    return 0;
}

static int rwLock(pthread_rwlock_t * l, bool write, bool tryOnly) { NA na_;
    yieldPoint(0);
    for(;;) {
        RW & r = rwlocks[l];
        if(write ? (!r.writer && !r.readers) : !r.writer) { if(write) r.writer = self; else ++r.readers; return 0; }
        if(tryOnly) return EBUSY;
        block(self, K_RW, l);
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t * l) { NA na_; return managed() ? rwLock(l, false, false) : active ? 0 : REAL(pthread_rwlock_rdlock)(l); }
int pthread_rwlock_wrlock(pthread_rwlock_t * l) { NA na_; return managed() ? rwLock(l, true, false) : active ? 0 : REAL(pthread_rwlock_wrlock)(l); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t * l) { NA na_; return managed() ? rwLock(l, false, true) : active ? 0 : REAL(pthread_rwlock_tryrdlock)(l); }
int pthread_rwlock_trywrlock(pthread_rwlock_t * l) { NA na_; return managed() ? rwLock(l, true, true) : active ? 0 : REAL(pthread_rwlock_trywrlock)(l); }
int pthread_rwlock_unlock(pthread_rwlock_t * l) { NA na_;
    if(!managed()) return active ? 0 : REAL(pthread_rwlock_unlock)(l);
    RW & r = rwlocks[l];
    if(r.writer == self) r.writer = nullptr; else --r.readers;
    if(!r.writer && !r.readers) rwlocks.erase(l);
    unblockAll(l, K_RW);
    yieldPoint(0);
    return 0;
}

static int semWait(sem_t * s, uint64_t deadline, bool tryOnly) { NA na_;
    yieldPoint(0);
    volatile unsigned * v = (volatile unsigned *) s;
    for(;;) {
        if(*v) { *v = *v - 1; return 0; }
        if(tryOnly) { errno = EAGAIN; return -1; }
        block(self, K_SEM, s, deadline);
        if(deadline && self->timedOut && !*v) { errno = ETIMEDOUT; return -1; }
    }
}
int sem_init(sem_t * s, int, unsigned v) noexcept { NA na_; memset(s, 0, sizeof *s); *(volatile unsigned *) s = v; return 0; }
int sem_destroy(sem_t *) noexcept { NA na_; return 0; }
int sem_wait(sem_t * s) { NA na_; return semWait(s, 0, false); }
int sem_trywait(sem_t * s) noexcept { NA na_; return semWait(s, 0, true); }
int sem_timedwait(sem_t * s, const struct timespec * ts) { NA na_; return semWait(s, toDeadline(ts, false), false); }
int sem_clockwait(sem_t * s, clockid_t, const struct timespec * ts) { NA na_; return semWait(s, toDeadline(ts, false), false); }
int sem_post(sem_t * s) noexcept { NA na_; *(volatile unsigned *) s = *(volatile unsigned *) s + 1; unblockAll(s, K_SEM); yieldPoint(0); return 0; }

int pthread_once(pthread_once_t * o, void (*fn)(void)) { NA na_;
    volatile int * st = (volatile int *) o;
    if(managed()) yieldPoint(0);
    for(;;) {
        if(*st == 2) return 0;
        if(*st == 0) break;
        if(!managed()) return 0;
        block(self, K_ONCE, o);
    }
    *st = 1;
    struct Undo { volatile int * st; bool done = false; ~Undo() { *st = done ? 2 : 0; if(managed()) unblockAll((const void *) st, K_ONCE); } } u{st};
    fn();
    u.done = true;
    return 0;
}

int sched_yield(void) noexcept { NA na_;
    if(!managed()) return REAL(sched_yield)();
    Thr * me = self;
    if(me->nopre) return 0;
    ++me->nopre; ++me->nofault;
    consult(me, 0, true, true);
    --me->nopre; --me->nofault;
    return 0;
}
static int sleepUntil(uint64_t d) { NA na_; block(self, K_SLEEP, self, d); return 0; }
pid_t getpid(void) noexcept { if(managed()) return 1000; return pid_t(syscall(SYS_getpid)); }
int nanosleep(const struct timespec * t, struct timespec * rem) { NA na_;
    if(!managed()) return REAL(nanosleep)(t, rem);
    return sleepUntil(toDeadline(t, true));
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec * t, struct timespec * rem) { NA na_;
    if(!managed()) return REAL(clock_nanosleep)(c, flags, t, rem);
    return sleepUntil(toDeadline(t, !(flags & TIMER_ABSTIME)));
}
int usleep(useconds_t us) { NA na_;
    if(!managed()) return REAL(usleep)(us);
    return sleepUntil(now() + us * 1000ULL);
}
unsigned sleep(unsigned s) { NA na_;
    if(!managed()) return REAL(sleep)(s);
    sleepUntil(now() + s * 1000000000ULL);
    return 0;
}
int clock_gettime(clockid_t c, struct timespec * t) noexcept { NA na_;
    if(!managed()) return REAL(clock_gettime)(c, t);
    t->tv_sec = now() / 1000000000ULL; t->tv_nsec = now() % 1000000000ULL;
    return 0;
}
int gettimeofday(struct timeval * t, void * z) noexcept { NA na_;
    if(!managed()) return REAL(gettimeofday)(t, z);
    t->tv_sec = now() / 1000000000ULL; t->tv_usec = now() / 1000 % 1000000ULL;
    return 0;
}
time_t time(time_t * t) noexcept { NA na_;
    time_t v;
    if(managed()) v = now() / 1000000000ULL;
    else { struct timespec ts; REAL(clock_gettime)(CLOCK_REALTIME, &ts); v = ts.tv_sec; }
    if(t) *t = v;
    return v;
}
int get_nprocs(void) noexcept { NA na_; return active ? nprocs : REAL(get_nprocs)(); }
long sysconf(int name) noexcept { NA na_;
    if(active && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return nprocs;
    return REAL(sysconf)(name);
}

// libstdc++ (futures, guards of local statics, atomic waiting) reaches futex through syscall()
long syscall(long n, ...) noexcept { NA na_;
    va_list ap; va_start(ap, n);
    long a[6]; for(int i = 0; i < 6; ++i) a[i] = va_arg(ap, long);
    va_end(ap);
    if(n == SYS_futex && managed()) {
        int op = int(a[1]) & 0x7f;
        int * addr = (int *) a[0];
        if(op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            yieldPoint(0);
            if(*(volatile int *) addr != int(a[2])) { errno = EAGAIN; return -1; }
            uint64_t dl = 0;
            if(a[3]) dl = toDeadline((const struct timespec *) a[3], op == FUTEX_WAIT);
            block(self, K_FUTEX, addr, dl);
            if(dl && self->timedOut) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if(op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            yieldPoint(0);
            long k = 0;
            for(auto t : all) if(k < a[2] && t->state == T_BLOCKED && t->waitObj == addr && t->waitKind == K_FUTEX) { t->state = T_READY; ++k; }
            yieldPoint(0);
            return k;
        }
    }
    long r;
    register long r10 __asm__("r10") = a[3];
    register long r8 __asm__("r8") = a[4];
    register long r9 __asm__("r9") = a[5];
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if(r < 0 && r > -4096) { errno = int(-r); return -1; }
    return r;
}

} // extern C
