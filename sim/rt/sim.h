// Deterministic simulator runtime: scheduler, virtual file system, fault injection.
// One process = one simulated run; every choice comes from one PRNG (search) or from a
// recorded list of decisions (replay).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
    uint64_t next() {                       // splitmix64
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + int(below(uint64_t(hi - lo + 1))); }   // inclusive
    double uniform() { return double(next() >> 11) / 9007199254740992.0; }
    bool chance(double p) { return uniform() < p; }
    template <class V> const typename V::value_type & pick(const V & v) { return v[below(v.size())]; }
};
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hashBytes(const void * p, std::size_t n, uint64_t h = 1469598103934665603ULL);

// ---------------------------------------------------------------- shared record
enum FaultKind : uint32_t {
    F_NONE = 0,
    F_EIO, F_ENOSPC, F_EACCES, F_EMFILE, F_EINTR, F_SHORT, F_CLOSE_LOSS, F_ENOMEM /*allocation*/,
    F_EAGAIN /*thread creation*/, F_SPURIOUS, F_ESTALE,
    // network (simulated object store)
    F_NET_TIMEOUT_BEFORE, F_NET_TIMEOUT_AFTER, F_NET_503, F_NET_403, F_NET_TRUNC, F_NET_RESET, F_NET_PARTIAL,
    F_CRASH, F_FULL, F_STALL /*storage that does not answer for a while*/,
    F_COUNT
};
extern const char * const faultNames[F_COUNT];

struct Decision { uint32_t scope; uint32_t value; uint64_t point; };
struct FaultRec { uint32_t scope; uint32_t kind; uint64_t io; uint64_t param; };

constexpr int MAXDEC = 200000, MAXFAULT = 512, MAXPROBE = 64;
enum Status : int { ST_RUNNING = 0, ST_OK = 1, ST_VIOLATION = 2, ST_SKIP = 3 };
struct Rec {
    volatile int status;
    char cls[96];
    char msg[4096];
    char opsText[16384];
    uint64_t hash, switchHash, stateHash;
    uint64_t points, switches, preemptions, ioOps, mutations, vtime, crashPoints, ops, threads, oracleChecks;
    uint64_t faults[F_COUNT];
    uint64_t configured[F_COUNT];
    char probeName[MAXPROBE][40];
    uint64_t probeCount[MAXPROBE];
    int nDec, nFault, decOverflow;
    uint32_t crashScope; uint64_t crashPoint; uint64_t crashTorn; int haveCrash;
    char knobs[2048];
    int nOps;
    Decision dec[MAXDEC];
    FaultRec fault[MAXFAULT];
};

struct Crash { bool set = false; uint32_t scope = 0; uint64_t point = 0; uint64_t torn = 0; };

// what a run is: everything needed to repeat it exactly
struct Spec {
    std::string scenario;
    uint64_t seed = 1;
    bool replay = false;                 // decisions/faults explicit (no PRNG for them)
    std::vector<int> drop;               // indices of workload operations to leave out
    std::map<std::string, long> knobs;   // overrides of drawn knobs
    std::vector<Decision> dec;
    std::vector<FaultRec> faults;
    Crash crash;
    bool noSched = false, noFault = false;
};

extern Rec * rec;
extern Spec spec;

// ---------------------------------------------------------------- control
void begin();                            // start simulating in this process (main thread = managed 0)
void end();
[[noreturn]] void fail(const char * cls, const std::string & msg);     // property violated
[[noreturn]] void finishOk();
void note(uint64_t v);                   // feed the event hash
void noteStr(const std::string & s);
void probe(const char * name);           // "rare condition reached" counter
void check(bool ok, const char * cls, const std::string & msg);       // counts an oracle evaluation

// scope = workload operation: decision and fault indices restart, so dropping other
// operations while minimising does not renumber them
void scope(uint32_t id);
uint32_t currentScope();

// no preemption (and no faults unless asked) while alive: for oracles and harness data
struct NoPreempt { NoPreempt(); ~NoPreempt(); };
// disables fault injection while alive
struct NoFaults { NoFaults(); ~NoFaults(); };
// enables fault injection in this dynamic scope (faults only fire when armed)
struct Arm { Arm(); ~Arm(); };

struct SchedPolicy {
    int kind = 0;            // 0 random, 1 PCT
    double pSync = 0.2, pIo = 0.3;
    uint64_t memGap = 0;     // mean number of memory accesses between preemptions, 0 = never
    int changePoints = 3; uint64_t horizon = 20000;
    double pSpurious = 0.0;
};
extern SchedPolicy policy;
void drawPolicy(Rng & r);    // swarm: draws a policy for this run
extern int nprocs;           // simulated hardware concurrency

struct FaultPolicy {
    uint64_t kinds = 0;      // bit mask of FaultKind
    double rate = 0;
    int maxFaults = 1;
    uint64_t skipIo = 0;     // no fault before this many armed I/O operations
    uint64_t minIo = 0;
    const char * pathFilter = nullptr;
};
extern FaultPolicy faultPolicy;
extern uint64_t faultsFired;
inline uint64_t bit(FaultKind k) { return 1ULL << k; }
uint64_t firedInScope();
// used by the simulated object store; 'mask' = kinds that make sense here
uint32_t decideFault(uint64_t mask, uint64_t & param, uint64_t paramMax);
void yieldPoint(int cls);    // 0 sync, 1 io, 2 mem
uint64_t choose(uint64_t n); // recorded free choice in [0,n), default 0
uint64_t now();              // virtual ns
// the n-th I/O operation from here on of this thread and those it starts does not return before stallEnd
void stallBegin(uint64_t n);
bool stalling();             // somebody is waiting
void stallEnd();
void stallPoint();

bool allThreadsDone();
int liveThreads();

// allocation behaviour
void guardAlloc(bool on);    // electric fence allocations for managed threads
extern size_t allocLimit;           // larger requests fail; 0: no limit
extern int allocSites;            // >0: allocations fail at one in so many places in the code, however often they come by
extern int allocFaults;           // 1: any allocation may fail, 2: only those of the codec libraries

// ---------------------------------------------------------------- virtual file system
namespace vfs {
    struct Node;
    typedef std::shared_ptr<Node> NodeP;
    struct Node {
        bool dir = false;
        std::shared_ptr<std::string> data;
        std::map<std::string, NodeP> kids;
        uint64_t ino = 0;
    };
    extern NodeP root;                         // what /sim is
    extern uint64_t capacity;                  // bytes; full disk when exceeded (0: unlimited)
    extern uint64_t dirSalt;                   // directory order
    extern bool denyWrites;                    // any mutation is a violation (read-only oracle)
    extern uint64_t mutationCount;             // mutating operations applied so far
    NodeP clone(const NodeP &);
    uint64_t digest(const NodeP &);            // content hash of a tree
    NodeP lookup(const std::string & path);    // absolute path under /sim, nullptr if absent
    void list(const NodeP &, const std::string & prefix, std::vector<std::string> & out);  // all paths
    std::string dump(const NodeP &);
    void reset();
    uint64_t used();                           // bytes in the store
    NodeP emptyDir();
    uint64_t openFds();
    bool inUse(const NodeP &);

    // point: mutations so far in this scope; torn: bytes of the write in flight that arrived
    struct Snap { uint32_t scope; uint64_t point; uint64_t torn; NodeP tree; uint64_t tag; };
    extern uint64_t tag;                       // caller's label of the moment, copied into snapshots
    extern uint64_t scopeMutations;
    extern bool captureCrash;                  // take a snapshot after every mutating step
    extern std::vector<Snap> snaps;
    extern int maxSnaps;
    void mutated(const char * op, const std::string & path);
    // true for a path this module serves
    bool mine(const char * path);
}

// ---------------------------------------------------------------- scenarios
struct Ctx {
    Rng rng;                                   // workload generation only
    std::vector<char> keep;
    int nOps = 0;
    std::string text;
    explicit Ctx(uint64_t s) : rng(s) {}
    long knob(const std::string & name, long simplest, long drawn);  // drawn value, overridable
    bool kept(int i);
    void say(const std::string & s);           // operation text for the report
};
typedef void (*ScenarioFn)(Ctx &);
struct Scenario { const char * name; ScenarioFn fn; };
std::vector<Scenario> & scenarios();
extern void (*prepareHook)();                  // called once, before the first run
struct Register { Register(const char * n, ScenarioFn f) { scenarios().push_back({n, f}); } };
#define SIM_SCENARIO(ident, name) static void ident(sim::Ctx &); static sim::Register reg_##ident(name, ident); static void ident(sim::Ctx & ctx)

} // namespace sim
