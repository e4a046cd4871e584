// Workload engine: random histories of z5 operations against a small reference model (a tree of
// groups and datasets, each dataset a flat byte array, each node a JSON document), with faults
// and process kills injected while an operation runs.
#pragma once
#include "rt/sim.h"
#include "api/api.h"
#include <nlohmann/json.hpp>
#include <set>
namespace w {
using nlohmann::json;
enum Kind { WRITE, SCALAR, WCHUNK, RMCHUNK, READ, RCHUNK, REOPEN, WATTR, RMATTR, RATTR, BADATTR, CGROUP, CDATA, CEXIST,
            REMOVE, RFILE, LIST, OPEN, ROTRY, BADREQ, BADMAKE, NKIND };
// what a mismatch is about
enum Aspect : uint32_t { A_DATA = 1, A_ATTR = 2, A_META = 4, A_LIST = 8, A_EXIST = 16, A_CREATE = 32, A_REMOVE = 64,
                         A_SPUR = 128 /*exception without a fault*/, A_RETRY = 256, A_READ = 512, A_ALL = 1023 };
// when it was seen
enum Sit { S_OK = 0 /*call returned, no fault*/, S_ACK /*returned although a fault fired*/, S_HARM /*call threw after a fault*/,
           S_CRASH /*state found after a kill*/, S_ILLEGAL /*a call that must be refused*/, NSIT };

struct Cfg {
    int weight[NKIND] = {};
    int minOps = 3, maxOps = 12;
    int startGroups = 0, startData = 1;
    uint64_t faultKinds = 0; double pFault = 0;       // share of runs with faults
    bool full = false;                                // also full disks
    bool crash = false;
    bool alloc = false;
    int maxThreads = 4;
    int fmtLo = 0, fmtHi = 8;
    bool bigChunks = false, hugeChunks = false, complex = false;      // complex: also datasets of complex numbers (zarr v2)
    bool plainOnly = false;
    uint32_t report[NSIT] = {A_ALL, A_ALL, A_ALL, A_ALL, A_ALL};
    void all(uint32_t m) { for(auto & r : report) r = m; }
};

struct Obj {
    bool data = false;
    json attrs = json::object();
    z::DsSpec spec; z::Meta meta; std::map<std::string, std::string> paths;
    size_t esz = 1; std::string fill;                 // one element
    std::string buf;                                  // the array, C order
    z::DsetP live;
    uint64_t okStamp = 0;
    size_t elems() const { size_t n = 1; for(auto v : spec.shape) n *= v; return n; }
    z::Shape grid() const { z::Shape g; for(size_t d = 0; d < spec.shape.size(); ++d) g.push_back((spec.shape[d] + spec.chunks[d] - 1) / spec.chunks[d]); return g; }
    size_t nChunks() const { size_t n = 1; for(auto v : grid()) n *= v; return n; }
    bool nanFill() const { return spec.fill != spec.fill; }
};
struct Region { z::Shape off, shape; };

// helpers shared with the special-purpose scenarios
z::Shape unravel(size_t i, const z::Shape & s);
size_t ravel(const z::Shape & p, const z::Shape & s);
void forRegion(const Region & r, const std::function<void(size_t /*index in region*/, const z::Shape & /*absolute*/)> & f);
std::string getRegion(const Obj & o, const Region & r);
void setRegion(Obj & o, const Region & r, const std::string & bytes);
Region chunkRegion(const Obj & o, const z::Shape & id);
bool regionIsFill(const Obj & o, const Region & r);
std::string chunkBytes(const Obj & o, const z::Shape & id);       // what writeChunk takes / readChunk gives (padded for zarr)
std::string randomBytes(const Obj & o, size_t n, uint64_t salt, int zeros /*0 none, 1 some, 2 all*/);
// draws a dataset specification for format fmt (0 n5, 1-2 zarr v2, 3-6 zarr v3, 7-8 sharded)
struct SpecOpt { bool big = false, huge = false, complex = false; int maxDim = 5; long dtype = -1, comp = -1, fill = -1; };   // -1: random
void drawSpec(sim::Rng & r, int fmt, z::DsSpec & s, const SpecOpt & o = SpecOpt());
void initObj(Obj & o, const z::DsSpec & s);
int zfmtOf(int fmt);

std::string shapeStr(const z::Shape & s);
std::string specStr(const z::DsSpec & s);
Region drawRegion(const Obj & o, uint64_t w);

// observing a dataset through fresh handles, without faults or preemption
struct Backend {
    std::string root = "/sim/f";
    bool fs = true;               // directories in the simulated file system; otherwise the simulated object store
    bool kills = true;            // states between two store changes can be looked at
    std::function<bool(const std::string &)> remains;             // is anything stored below this path
    std::function<std::string()> foreign;                         // what is wrong with objects of others; empty: nothing
    std::function<void(const std::string &)> made;                // something was created here
    std::function<uint64_t(const std::string &)> digest;          // state below a path; empty: unknown
    std::function<std::string(const std::string &)> fetch;        // an object as it is stored, and storing it
    std::function<bool(const std::string &)> has;
    std::function<void(const std::string &, const std::string &)> store;
    std::function<uint64_t(const std::string &)> digestBelow;
    std::function<std::vector<std::string>()> stored;             // everything in the container, by names that begin with a slash
};
extern Backend backend;

void run(sim::Ctx & ctx, const Cfg & cfg);
void profile(sim::Ctx & ctx, Cfg & c, const std::string & name, uint64_t faults, bool disk);
// special-purpose scenarios that work on either backend
void concurrentUsers(sim::Ctx & ctx, int lo, int hi, bool sharedShards);
void forEach(sim::Ctx & ctx);
void utilities(sim::Ctx & ctx, bool memory = false);
void readOnly(sim::Ctx & ctx);
void sharedUsers(sim::Ctx & ctx);
void sharedTree(sim::Ctx & ctx);
void names(sim::Ctx & ctx);
void documents(sim::Ctx & ctx);
void damage(sim::Ctx & ctx);
void moved(sim::Ctx & ctx, const std::string & to, const std::function<void(const std::string &, const std::string &)> & move);
void setFaultPolicy(sim::Ctx & ctx, uint64_t kinds, double pFault);
} // namespace w
