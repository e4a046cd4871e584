// Helpers of the special-purpose scenarios: a store prepared without faults, and threads of users.
#pragma once
#include "world.h"
#include <algorithm>
#include <atomic>
#include <cmath>
#include <mutex>
#include <sstream>
#include <thread>
using namespace sim;
using namespace w;
namespace {
const uint64_t DISK = bit(F_EIO) | bit(F_ENOSPC) | bit(F_EACCES) | bit(F_EMFILE) | bit(F_EINTR) | bit(F_SHORT) | bit(F_CLOSE_LOSS) | bit(F_ESTALE);
const uint64_t NET = bit(F_NET_TIMEOUT_BEFORE) | bit(F_NET_TIMEOUT_AFTER) | bit(F_NET_503) | bit(F_NET_403) | bit(F_NET_TRUNC) | bit(F_NET_RESET) | bit(F_NET_PARTIAL);
#define IOF (backend.fs ? DISK : NET)
// the state of the whole store, and whether anything is stored below a path
uint64_t storeState() { return backend.digest ? backend.digest(backend.root) : vfs::digest(vfs::lookup("/sim") ? vfs::lookup("/sim") : vfs::root); }
bool present(const std::string & p) { return backend.remains ? backend.remains(p) : bool(vfs::lookup(p)); }
size_t prod(const z::Shape & s) { size_t n = 1; for(auto v : s) n *= v; return n; }
struct Quiet { NoPreempt a; NoFaults b; };

// a store with one file, prepared without faults or preemption
struct Store {
    Ctx & ctx;
    int fmt; SpecOpt so;
    std::map<std::string, Obj> ds;
    Store(Ctx & c, int lo, int hi) : ctx(c) {
        fmt = int(ctx.knob("fmt", lo, ctx.rng.range(lo, hi)));
        vfs::dirSalt = uint64_t(ctx.knob("dirorder", 0, long(ctx.rng.below(1000))));
        Quiet q;
        z::file(backend.root, z::A)->createFile(fmt > 0, zfmtOf(fmt));
        ctx.say(std::string("file: ") + (fmt ? "zarr v" + std::to_string(zfmtOf(fmt)) : std::string("n5")));
    }
    // a dataset with random content in a random subset of its chunks
    Obj & make(const std::string & name, uint64_t seed, double filled = 0.7, int zeros = 0) {
        Quiet q;
        Rng r(seed);
        z::DsSpec s; drawSpec(r, fmt, s, so);
        Obj & o = ds[name]; initObj(o, s);
        z::DsetP d = z::file(backend.root, z::A)->create(name, s);
        z::Shape g = o.grid();
        for(size_t i = 0, n = o.nChunks(); i < n; ++i) {
            uint64_t salt = r.next();
            if(!r.chance(filled)) continue;
            z::Shape id = unravel(i, g); Region c = chunkRegion(o, id);
            setRegion(o, c, randomBytes(o, prod(c.shape), salt, zeros));
            d->writeChunk(id, chunkBytes(o, id).data());
        }
        o.meta = d->meta();
        ctx.say("dataset " + name + ": " + specStr(s));
        return o;
    }
    z::DsetP open(const std::string & name, z::Mode m = z::A) { Quiet q; return z::file(backend.root, m)->open(name); }
    // the whole dataset through a fresh handle
    void verify(const std::string & name, const char * cls, const std::string & when) {
        Quiet q;
        Obj & o = ds[name];
        std::string got(o.buf.size(), '\x5c');
        z::DsetP d;
        try { d = z::file(backend.root, z::R)->open(name); d->read(z::Shape(o.spec.shape.size(), 0), o.spec.shape, &got[0], 1); }
        catch(const std::exception & e) { fail(cls, when + ": reading '" + name + "' (" + specStr(o.spec) + ") throws: " + e.what()); }
        if(got != o.buf) {
            size_t i = 0; while(got.compare(i * o.esz, o.esz, o.buf, i * o.esz, o.esz) == 0) ++i;
            fail(cls, when + ": '" + name + "' (" + specStr(o.spec) + ") differs from the model first at " + shapeStr(unravel(i, o.spec.shape)));
        }
        ++rec->oracleChecks;
        if(!(d->meta() == o.meta)) fail(cls, when + ": metadata of '" + name + "' changed to " + d->meta().str());
        if(!o.nanFill()) for(size_t i = 0, n = o.nChunks(); i < n; ++i) {
            z::Shape id = unravel(i, o.grid());
            bool want = !regionIsFill(o, chunkRegion(o, id)), have = d->exists(id);
            if(want != have) fail("wrong-existence", when + ": chunk " + shapeStr(id) + " of '" + name + "' (" + specStr(o.spec) + ") " + (have ? "exists but holds only the fill value" : "does not exist but holds data"));
            if(!backend.fs) continue;
            // the stored object itself
            vfs::NodeP f = vfs::lookup(d->chunkPath(id));
            bool any = want;
            if(o.spec.shard.size()) {
                any = false;
                z::Shape sid = id; for(size_t k = 0; k < id.size(); ++k) sid[k] = id[k] / (o.spec.shard[k] / o.spec.chunks[k]);
                for(size_t j = 0; j < n; ++j) {
                    z::Shape jd = unravel(j, o.grid()); bool same = true;
                    for(size_t k = 0; k < jd.size(); ++k) if(jd[k] / (o.spec.shard[k] / o.spec.chunks[k]) != sid[k]) same = false;
                    if(same && !regionIsFill(o, chunkRegion(o, jd))) any = true;
                }
            }
            if(bool(f) != any) fail("wrong-existence", when + ": the " + (o.spec.shard.size() ? "shard" : "file") + " of chunk " + shapeStr(id) + " of '" + name + "' (" + specStr(o.spec) + ") " + (f ? "is in the store although nothing is in it" : "is not in the store"));
        }
        if(backend.foreign) { std::string e = backend.foreign(); if(!e.empty()) fail("other-objects-changed", when + ": " + e); }
        ++rec->oracleChecks;
    }
};
// runs threads of user code; an exception in one is a violation unless it is expected
struct Users {
    std::vector<std::thread> th;
    template <class F> void add(F f) { th.emplace_back(f); }
    void join() { for(auto & t : th) t.join(); }
};
std::string threadName(int t) { return "thread " + std::to_string(t); }
}

