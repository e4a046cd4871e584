// S3 scenarios: the workload engine on the simulated object store.
#include "store.h"
#include "scn/world.h"
using namespace sim;
using namespace w;
namespace {
std::map<std::string, std::string> foreignKeys;
// the key prefix of a path "bucket/name", with the separator; the bucket itself: nothing
std::string below(const std::string & path) { size_t i = path.find('/'); return i == std::string::npos ? "" : path.substr(i + 1) + "/"; }
long junk = 0; long junkLeft = 0;

void store(Ctx & ctx, bool crash) {
    static const int pages[] = {1, 2, 3, 5, 8, 1000};
    s3sim::pageSize = int(ctx.knob("page", 1000, pages[ctx.rng.below(6)]));
    s3sim::unknownLength = ctx.knob("nolength", 0, ctx.rng.chance(0.15));
    // objects other people keep in the same bucket; some of them sort or begin like z5's own
    // the container is somewhere in a bucket, or the bucket itself
    static const char * const roots[] = {"bkt/f", "bkt", "bkt/some/where/f", "bkt/f.d"};
    const std::string root = roots[ctx.knob("root", 0, ctx.rng.chance(0.4) ? long(ctx.rng.below(4)) : 0)];
    foreignKeys.clear();
    static const char * const names[] = {"f2/a/attributes.json", "f2/zarr.json", "f.txt", "f", "f-a/.zgroup", "e", "fa", "g/a/0/0", "f0/0"};
    if(ctx.knob("foreign", 0, ctx.rng.chance(0.6)) && root != "bkt") for(auto n : names) { foreignKeys[n] = std::string("mine: ") + n; s3sim::poke(n, foreignKeys[n]); }
    junk = ctx.knob("junk", 0, crash ? 0 : ctx.rng.chance(0.06) ? ctx.rng.range(998, 2100) : ctx.rng.chance(0.3) ? ctx.rng.range(1, 12) : 0);
    junkLeft = junk > 100 ? 1 : 2;
    if(junk > 100 && s3sim::pageSize < 1000) s3sim::pageSize = 500;
    backend = Backend();
    backend.root = root; backend.fs = false;
    // every container has an account of its own; another one, opened before, differs in one setting
    static s3sim::Conn conn;
    static uint64_t connSalt;
    connSalt = ctx.rng.next();
    if(ctx.knob("connection", 0, ctx.rng.chance(0.4))) {
        Rng r(connSalt); conn = s3sim::drawConn(r);
        z::connection = [=](const std::string & p, std::string & e, std::string & g, bool & anon, std::string & k, std::string & s) {
            s3sim::Conn c = conn;
            if(p != backend.root) c = s3sim::differing(conn, int(hashBytes(p.data(), p.size()) % 5));
            s3sim::account(p, c);
            e = c.endpoint; g = c.region; anon = c.anon; k = c.access; s = c.secret;
            return true;
        };
        backend.root = root;
        NoPreempt q; NoFaults q2;
        z::file("bkt/~" + std::to_string(r.below(9)), z::R)->exists();
    }
    else z::connection = nullptr;
    backend.digest = [](const std::string &) { return s3sim::digest(); };
    backend.remains = [](const std::string & p) { return s3sim::anyBelow(below(p)); };
    auto keyOf = [](const std::string & p) { size_t i = p.find('/'); return i == std::string::npos ? std::string() : p.substr(i + 1); };
    backend.fetch = [=](const std::string & p) -> std::string { auto it = s3sim::objects().find(keyOf(p)); if(it == s3sim::objects().end()) fail("object-lost", "there is no " + p); return *it->second->data; };
    backend.store = [=](const std::string & p, const std::string & d) { s3sim::poke(keyOf(p), d); };
    backend.has = [=](const std::string & p) { return s3sim::objects().count(keyOf(p)) > 0; };
    backend.digestBelow = [](const std::string & p) {
        uint64_t h = 1; const std::string pre = below(p);
        for(auto & k : s3sim::objects()) if(k.first.compare(0, pre.size(), pre) == 0) h = mix(mix(h, hashBytes(k.first.data(), k.first.size())), hashBytes(k.second->data->data(), k.second->data->size()));
        return h;
    };
    backend.stored = [=] {
        std::vector<std::string> l; const std::string pre = below(backend.root);
        for(auto & k : s3sim::objects()) if(k.first.compare(0, pre.size(), pre) == 0) l.push_back("/" + k.first.substr(pre.size()));
        return l;
    };
    backend.foreign = []() -> std::string {
        for(auto & k : foreignKeys) {
            auto it = s3sim::objects().find(k.first);
            if(it == s3sim::objects().end()) return vfs::root->kids["bkt"]->kids.size() && s3sim::anyBelow("") ? "the object '" + k.first + "' of somebody else is gone" : "";
            if(*it->second->data != k.second) return "the object '" + k.first + "' of somebody else has changed";
        }
        return "";
    };
    // files somebody put next to what z5 stores; they go when the node is removed
    backend.made = [](const std::string & p) {
        if(junkLeft <= 0) return;
        --junkLeft;
        for(long i = 0; i < junk; ++i) s3sim::poke(below(p) + "x" + std::to_string(i), "");
        if(junk > 1000) probe("more-than-one-batch");
    };
}
void weights(Cfg & c, int data, int attr, int make, int remove, int rd) {
    c.weight[WRITE] = 6 * data; c.weight[SCALAR] = 2 * data; c.weight[WCHUNK] = 2 * data; c.weight[RMCHUNK] = 2 * data;
    c.weight[WATTR] = 3 * attr; c.weight[RMATTR] = 2 * attr;
    c.weight[CGROUP] = make; c.weight[CDATA] = 2 * make; c.weight[CEXIST] = make;
    c.weight[REMOVE] = 2 * remove; c.weight[RFILE] = remove ? 1 : 0;
    c.weight[READ] = 4 * rd; c.weight[RCHUNK] = 3 * rd; c.weight[RATTR] = 3 * rd; c.weight[OPEN] = 3 * rd; c.weight[LIST] = 5 * rd;
    c.weight[REOPEN] = 1;
    c.minOps = 4; c.maxOps = 12; c.startGroups = 1;
}
}
// C19: requests fail while things are read, and while attributes and chunks are updated
SIM_SCENARIO(s3fault, "s3-fault") {
    store(ctx, false);
    Cfg c; weights(c, 2, 2, 1, 0, 2);
    c.faultKinds = s3sim::FAULTS; c.pFault = 1.0;
    c.all(0); c.report[S_OK] = A_READ | A_SPUR; c.report[S_ACK] = A_READ; c.report[S_HARM] = A_READ | A_DATA | A_ATTR | A_META | A_EXIST | A_LIST | A_RETRY;
    c.report[S_ILLEGAL] = A_ALL;
    run(ctx, c);
}
// C20: what returned is stored, what was lost is reported; also killed between requests
SIM_SCENARIO(s3history, "s3-history") {
    bool crash = ctx.rng.chance(0.2);
    store(ctx, crash);
    Cfg c; weights(c, 2, 1, 2, 2, 1); c.weight[BADREQ] = 1; c.weight[BADMAKE] = 1;
    c.crash = crash;
    c.faultKinds = s3sim::FAULTS; c.pFault = 0.6;
    run(ctx, c);
}
// the general scenarios on this backend
static void general(Ctx & ctx, const char * name, int lo = 0) {
    Cfg c; profile(ctx, c, name, s3sim::FAULTS, false); c.fmtLo = lo;
    store(ctx, c.crash);
    run(ctx, c);
}
SIM_SCENARIO(s3datamodel, "s3-data-model") { general(ctx, "data-model"); }
SIM_SCENARIO(s3datamodelhuge, "s3-data-model-huge") { general(ctx, "data-model-huge"); }
SIM_SCENARIO(s3acknowledged, "s3-acknowledged") { general(ctx, "acknowledged"); }
SIM_SCENARIO(s3failed, "s3-failed-write") { general(ctx, "failed-write"); }
SIM_SCENARIO(s3crash, "s3-crash") { general(ctx, "crash"); }
SIM_SCENARIO(s3readfault, "s3-read-fault") { general(ctx, "read-fault"); }
SIM_SCENARIO(s3progress, "s3-progress") { general(ctx, "progress"); }
SIM_SCENARIO(s3attributes, "s3-attributes") { general(ctx, "attributes"); }
SIM_SCENARIO(s3metadata, "s3-metadata") { general(ctx, "metadata"); }
SIM_SCENARIO(s3creation, "s3-creation") { general(ctx, "creation"); }
SIM_SCENARIO(s3removal, "s3-removal") { general(ctx, "removal"); }
SIM_SCENARIO(s3listing, "s3-listing") { general(ctx, "listing"); }
SIM_SCENARIO(s3shards, "s3-shards") { general(ctx, "data-model", 7); }
// several users of one process, parallel utilities, read-only handles
SIM_SCENARIO(s3users, "s3-users") { store(ctx, false); concurrentUsers(ctx, 0, 8, ctx.rng.chance(0.3)); }
SIM_SCENARIO(s3utilities, "s3-utilities") { store(ctx, false); utilities(ctx); }
SIM_SCENARIO(s3readonly, "s3-read-only") { store(ctx, false); readOnly(ctx); }
SIM_SCENARIO(s3registers, "s3-registers") { store(ctx, false); sharedUsers(ctx); }
SIM_SCENARIO(s3tree, "s3-tree-users") { store(ctx, false); sharedTree(ctx); }
SIM_SCENARIO(s3docs, "s3-documents") { store(ctx, false); documents(ctx); }
SIM_SCENARIO(s3damage, "s3-damage") { store(ctx, false); damage(ctx); }
SIM_SCENARIO(s3names, "s3-names") { store(ctx, false); names(ctx); }
// C20: what is stored does not depend on where
SIM_SCENARIO(s3moved, "s3-moved") {
    store(ctx, false);
    static const char * const places[] = {"bkt", "bkt/x", "bkt/f/b", "bkt/other/place/of it", "bkt/f-a/q"};
    moved(ctx, places[ctx.knob("to", 0, ctx.rng.chance(0.4) ? 0 : long(ctx.rng.below(5)))], [](const std::string & source, const std::string & to) {
        std::string from = below(source);
        std::map<std::string, std::string> keep;
        for(auto & k : s3sim::objects()) if(k.first.compare(0, from.size(), from) == 0) keep[k.first.substr(from.size())] = *k.second->data;
        if(keep.empty()) fail("not-stored", "creating a dataset stored nothing below '" + from + "'");
        if(to == "bkt") { s3sim::objects().clear(); foreignKeys.clear(); }         // a dataset and nothing else
        else for(auto & k : keep) s3sim::objects().erase(from + k.first);
        for(auto & k : keep) s3sim::poke(below(to) + k.first, k.second);
    });
}
