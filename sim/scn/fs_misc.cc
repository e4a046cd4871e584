// Special-purpose filesystem scenarios: concurrent users, damaged files, shards, parallel loops and
// utilities, read-only handles, variable-length chunks.
#include "users.h"
#include <sys/mman.h>

// ---------------------------------------------------------------- concurrent users of disjoint chunks (C02, C08)
static void concurrent(Ctx & ctx, int lo, int hi, bool sharedShards) {
    Store st(ctx, lo, hi);
    st.so.complex = backend.fs;
    int nt = int(ctx.knob("users", 2, ctx.rng.range(2, 4)));
    int nd = ctx.rng.range(1, 2);
    std::vector<std::string> names = {"a", "a.b"};
    // chunks are owned by one thread or by none (then they are only read); the unit of ownership is
    // the shard unless all updates go chunk by chunk through one dataset object
    std::vector<std::vector<int>> owner(nd);
    std::vector<z::DsetP> shared;
    std::vector<bool> byShard;
    for(int i = 0; i < nd; ++i) {
        Obj & o = st.make(names[i], ctx.rng.next(), 0.6);
        bool sh = !o.spec.shard.empty() && !(sharedShards || ctx.rng.chance(0.5));
        byShard.push_back(sh);
        uint64_t salt = ctx.rng.next();
        // ownership chunk by chunk, or of whole slabs along one axis
        long slab = ctx.rng.chance(0.5) ? long(ctx.rng.below(o.spec.shape.size())) : -1;
        for(size_t c = 0, n = o.nChunks(); c < n; ++c) {
            size_t unit = slab < 0 ? c : unravel(c, o.grid())[size_t(slab)] / (sh ? o.spec.shard[size_t(slab)] / o.spec.chunks[size_t(slab)] : 1);
            if(slab >= 0) { owner[i].push_back(int(mix(salt, unit) % uint64_t(nt + 1)) - 1); continue; }
            if(sh) { z::Shape id = unravel(c, o.grid()), sg; unit = 7; for(size_t k = 0; k < id.size(); ++k) unit = unit * 31 + id[k] / (o.spec.shard[k] / o.spec.chunks[k]); }
            owner[i].push_back(int(mix(salt, unit) % uint64_t(nt + 1)) - 1);
        }
        shared.push_back(st.open(names[i]));
    }
    z::NodeP root; { Quiet q; root = z::file(backend.root, z::A); }
    struct Step { int kind; int d; size_t chunk; uint64_t a, b; };
    std::vector<std::vector<Step>> plan(nt);
    int opNo = 0;
    for(int t = 0; t < nt; ++t) {
        int n = ctx.rng.range(2, 7);
        for(int i = 0; i < n; ++i) {
            Step s; s.kind = ctx.rng.range(0, 11); s.d = ctx.rng.range(0, nd - 1); s.a = ctx.rng.next(); s.b = ctx.rng.next();
            s.chunk = ctx.rng.next() % st.ds[names[s.d]].nChunks();
            if(!ctx.kept(opNo++)) continue;
            plan[t].push_back(s);
        }
    }
    // each thread's own view: only its chunks change
    std::vector<std::map<std::string, Obj>> view(nt, st.ds);
    static const char * kn[] = {"writeChunk", "writeChunk", "writeChunk (fill)", "removeChunk", "write part", "read part", "readChunk", "read unowned", "exists", "open", "attributes", "list"};
    Users u;
    scope(1);
    for(int t = 0; t < nt; ++t) {
        u.add([&, t] {
            z::DsetP own[2];
            for(auto & s : plan[t]) {
                Obj & o = view[t][names[s.d]];
                // a chunk of this thread, or of nobody for reads
                size_t n = o.nChunks(); long mine = -1, free = -1;
                for(size_t k = 0; k < n; ++k) { size_t c = (s.chunk + k) % n; if(mine < 0 && owner[s.d][c] == t) mine = long(c); if(free < 0 && owner[s.d][c] == -1) free = long(c); }
                int kind = s.kind;
                if(kind <= 6 && mine < 0) kind = 7;
                if(kind == 7 && free < 0) kind = 8;
                if(kind == 8 && mine < 0 && free < 0) continue;
                // region writes rewrite whole shards without the dataset's lock: only for threads owning whole shards
                bool regionOk = o.spec.shard.empty() || byShard[s.d];
                if(kind == 4 && !regionOk) kind = 0;
                z::DsetP d = shared[s.d];
                std::string what;
                try {
                    if(regionOk && s.b % 3 == 0) { if(!own[s.d]) own[s.d] = root->open(names[s.d]); d = own[s.d]; }
                    z::Shape id = unravel(size_t(kind == 7 ? free : kind == 8 ? (mine >= 0 ? mine : free) : std::max(mine, 0L)), o.grid());
                    Region c = chunkRegion(o, id), r = c;
                    Rng rr(s.a);
                    // regions may reach over more chunks of this thread (for reads: also of nobody)
                    Region box = c;
                    if(kind == 4 || kind == 5 || kind == 7) {
                        z::Shape lo = id, hi = id, g = o.grid();
                        for(int tries = 0; tries < 6; ++tries) {
                            z::Shape l2 = lo, h2 = hi; size_t k = rr.below(g.size());
                            if(rr.chance(0.5)) { if(!l2[k]) continue; --l2[k]; } else { if(h2[k] + 1 >= g[k]) continue; ++h2[k]; }
                            bool ok = true; Region b2{l2, h2}; for(size_t x = 0; x < g.size(); ++x) b2.shape[x] = h2[x] - l2[x] + 1;
                            forRegion(b2, [&](size_t, const z::Shape & p) { int w = owner[s.d][ravel(p, g)]; if(w != t && (kind == 4 || w != -1)) ok = false; });
                            if(ok) { lo = l2; hi = h2; }
                        }
                        for(size_t k = 0; k < g.size(); ++k) { box.off[k] = lo[k] * o.spec.chunks[k]; box.shape[k] = std::min(o.spec.shape[k], (hi[k] + 1) * o.spec.chunks[k]) - box.off[k]; }
                        r = box;
                    }
                    if(rr.chance(0.7)) for(size_t k = 0; k < r.off.size(); ++k) { size_t b = rr.below(box.shape[k]), e = b + 1 + rr.below(box.shape[k] - b); r.off[k] = box.off[k] + b; r.shape[k] = e - b; }
                    int width = 1 + int((s.b >> 8) % 4);
                    what = threadName(t) + " " + kn[kind] + " " + names[s.d] + " " + shapeStr(id);
                    switch(kind) {
                    case 0: case 1: case 2: { setRegion(o, c, randomBytes(o, prod(c.shape), s.a, kind == 2 ? 2 : 0)); std::string b = chunkBytes(o, id); d->writeChunk(id, b.data()); break; }
                    case 3: setRegion(o, c, randomBytes(o, prod(c.shape), 0, 2)); d->removeChunk(id); break;
                    case 4: { std::string b = randomBytes(o, prod(r.shape), s.a, s.a >> 60 ? 0 : 2); setRegion(o, r, b); d->write(r.off, r.shape, b.data(), width); break; }
                    case 5: case 7: {
                        std::string got(prod(r.shape) * o.esz, '\x5c');
                        d->read(r.off, r.shape, &got[0], width);
                        if(got != getRegion(o, r)) fail("wrong-data", what + " " + shapeStr(r.off) + "+" + shapeStr(r.shape) + ": not what this thread wrote last (" + specStr(o.spec) + ")");
                        break;
                    }
                    case 6: case 8: {
                        bool want = !regionIsFill(o, c);
                        if(o.nanFill()) break;
                        if(kind == 8 || !want) { if(d->exists(id) != want) fail("wrong-existence", what + ": wrong answer (" + specStr(o.spec) + ")"); break; }
                        std::string b = chunkBytes(o, id), got(b.size(), '\x5c');
                        d->readChunk(id, &got[0]);
                        if(got != b) fail("wrong-data", what + ": not what this thread wrote last (" + specStr(o.spec) + ")");
                        break;
                    }
                    case 9: { z::DsetP e = root->open(names[s.d]); if(!(e->meta() == o.meta)) fail("metadata-changed", what + " reports " + e->meta().str()); break; }
                    case 10: if(root->dataset(names[s.d])->readAttrs() != "{}") fail("attributes-wrong", what + ": unexpected attributes"); break;
                    case 11: { auto k = root->keys(); if(k.size() != size_t(nd)) fail("wrong-listing", what + ": lists " + std::to_string(k.size()) + " children"); break; }
                    }
                    ++rec->oracleChecks;
                } catch(const std::exception & e) { fail("spurious-failure", what + " (" + specStr(o.spec) + ") throws: " + e.what()); }
            }
        });
    }
    u.join();
    scope(2);
    for(int t = 0; t < nt; ++t) {
        std::string line = threadName(t) + ":";
        for(auto & s : plan[t]) { line += std::string(" ") + kn[s.kind] + " " + names[s.d] + " near " + std::to_string(s.chunk) + ";"; ++rec->ops; }
        ctx.say(line);
    }
    for(int i = 0; i < nd; ++i) {
        Obj & o = st.ds[names[i]];
        for(size_t c = 0; c < o.nChunks(); ++c) if(owner[i][c] >= 0) { Region r = chunkRegion(o, unravel(c, o.grid())); setRegion(o, r, getRegion(view[owner[i][c]][names[i]], r)); }
        st.verify(names[i], "wrong-data", "after all threads have ended");
    }
    rec->stateHash = storeState(); note(rec->stateHash);
}
void w::concurrentUsers(Ctx & ctx, int lo, int hi, bool sharedShards) { concurrent(ctx, lo, hi, sharedShards); }
SIM_SCENARIO(c02, "concurrent") { concurrent(ctx, 0, 8, false); }
SIM_SCENARIO(c08c, "shard-threads") { concurrent(ctx, 7, 8, true); }
SIM_SCENARIO(c08h, "shard-history") {
    Cfg c; c.weight[WRITE] = 6; c.weight[SCALAR] = 3; c.weight[WCHUNK] = 8; c.weight[RMCHUNK] = 6; c.weight[READ] = 3; c.weight[RCHUNK] = 4; c.weight[REOPEN] = 1;
    c.fmtLo = 7; c.fmtHi = 8; c.minOps = 4; c.maxOps = 14;
    c.faultKinds = IOF; c.pFault = 0.3;
    c.all(A_DATA | A_EXIST); c.report[S_OK] = A_DATA | A_EXIST | A_SPUR | A_READ;
    run(ctx, c);
}

// ---------------------------------------------------------------- parallel loops over chunks and blocks (C10)
SIM_SCENARIO(c10, "for-each") { w::forEach(ctx); }
namespace {
// one parallel loop and the units it has to visit
struct Loop {
    int kind, nt; z::Shape bs; Region roi; z::Shape end; bool useRoi;
    std::map<z::Shape, z::Shape> want;                 // key -> extent
    bool throwing; size_t thrower; std::string text;
    Loop * inner = nullptr; z::DsetP innerSet;         // a loop that some of the calls run themselves
};
// wide: the request is somewhere in a dataset of any size
Loop drawLoop(Rng & r, const z::DsSpec & spec, const Obj * o, bool wide) {
    Loop l;
    const z::Shape & shape = spec.shape;
    l.kind = wide ? 1 + 2 * r.range(0, 1) : r.range(0, 3); l.nt = r.range(0, 5);
    l.useRoi = l.kind & 1;
    for(size_t k = 0; k < shape.size(); ++k) l.bs.push_back(l.kind < 2 ? spec.chunks[k] : wide ? size_t(1) + r.below(std::min<size_t>(shape[k] + 2, size_t(1) << r.range(0, 40))) : size_t(r.range(1, int(shape[k]) + 2)));
    if(!wide) while(l.kind >= 2) { size_t blocks = 1; for(size_t k = 0; k < l.bs.size(); ++k) blocks *= (shape[k] + l.bs[k] - 1) / l.bs[k]; if(blocks <= 40) break; for(auto & b : l.bs) ++b; }
    if(wide) {
        size_t units = 1;
        for(size_t k = 0; k < shape.size(); ++k) {
            size_t grid = (shape[k] - 1) / l.bs[k] + 1, a = r.chance(0.3) ? grid - 1 - r.below(std::min<size_t>(grid, 3)) : r.chance(0.3) ? 0 : r.below(grid);
            size_t n = std::min<size_t>(size_t(r.range(1, 5)), grid - a); if(units * n > 40) n = 1;
            units *= n;
            size_t lo = a * l.bs[k], hi = (a + n == grid ? shape[k] : (a + n) * l.bs[k]);      // the units [a, a + n)
            size_t b = lo + (r.chance(0.4) ? 0 : r.below(std::min(hi, lo + l.bs[k]) - lo));
            size_t last = (a + n - 1) * l.bs[k], e = r.chance(0.4) ? hi : std::max(b, last) + 1 + r.below(hi - std::max(b, last));
            l.roi.off.push_back(b); l.roi.shape.push_back(e - b);
        }
    } else l.roi = drawRegion(*o, r.next());
    if(!l.useRoi) { l.roi.off.assign(shape.size(), 0); l.roi.shape = shape; }
    l.end = l.roi.off; for(size_t k = 0; k < l.end.size(); ++k) l.end[k] += l.roi.shape[k];
    // the units expected
    z::Shape lo, n;
    for(size_t k = 0; k < shape.size(); ++k) { lo.push_back(l.roi.off[k] / l.bs[k]); n.push_back((l.end[k] - 1) / l.bs[k] - lo[k] + 1); }
    for(size_t u = 0; u < prod(n); ++u) {
        z::Shape id = unravel(u, n), b, e;
        for(size_t k = 0; k < id.size(); ++k) { id[k] += lo[k]; b.push_back(id[k] * l.bs[k]); e.push_back(shape[k] - b[k] < l.bs[k] ? shape[k] - b[k] : l.bs[k]); }
        l.want[l.kind < 2 ? id : b] = e;
    }
    l.throwing = r.chance(0.35);
    l.thrower = r.below(l.want.size());
    l.text = std::string(l.kind < 2 ? "chunks" : "blocks") + (l.kind >= 2 ? shapeStr(l.bs) : "") + (l.useRoi ? " in " + shapeStr(l.roi.off) + "+" + shapeStr(l.roi.shape) : "") + " of " + specStr(spec) + " threads " + std::to_string(l.nt) + (l.throwing ? " one call throws" : "");
    return l;
}
void runLoop(const Loop & l, z::DsetP d, bool alone) {
    const std::string & text = l.text;
    int width = l.nt < 1 ? 1 : l.nt;
    std::map<z::Shape, int> seen; std::vector<char> busy(size_t(width), 0);
    std::atomic<int> running{0}; size_t calls = 0; bool wrongTid = false, clash = false, wrongExt = false, thrown = false, ended = false, late = false;
    auto unit = [&](int tid, const z::Shape & key, const z::Shape * ext) {
        bool nest = false;
        {
            Quiet q;
            if(ended) late = true;
            ++running;
            if(tid < 0 || tid >= width) wrongTid = true;
            else { if(busy[size_t(tid)]) clash = true; busy[size_t(tid)] = 1; }
            nest = l.inner && seen.size() % 3 == 0;
            ++seen[key];
            auto w = l.want.find(key);
            if(ext && w != l.want.end() && w->second != *ext) wrongExt = true;
        }
        yieldPoint(0);
        if(nest) { NoFaults nf; runLoop(*l.inner, l.innerSet, false); }
        yieldPoint(0);
        bool t = false;
        {
            Quiet q;
            if(tid >= 0 && tid < width) busy[size_t(tid)] = 0;
            --running;
            t = l.throwing && calls++ == l.thrower;
            if(t) thrown = true;
        }
        if(t) throw std::runtime_error("unit failed");
    };
    bool threw = false; std::string msg;
    auto call = [&] {
        try {
            if(l.kind == 0) d->eachChunk(l.nt, [&](int t, const z::Shape & c) { unit(t, c, nullptr); });
            else if(l.kind == 1) d->eachChunkRoi(l.roi.off, l.end, l.nt, [&](int t, const z::Shape & c) { unit(t, c, nullptr); });
            else if(l.kind == 2) d->eachBlock(l.bs, l.nt, [&](int t, const z::Shape & b, const z::Shape & s) { unit(t, b, &s); });
            else d->eachBlockRoi(l.bs, l.roi.off, l.end, l.nt, [&](int t, const z::Shape & b, const z::Shape & s) { unit(t, b, &s); });
        } catch(const std::exception & e) { NoFaults nf; threw = true; msg = e.what(); }
    };
    if(alone) { Arm arm; call(); } else call();
    Quiet q;
    ended = true;
    bool fired = alone && firedInScope() > 0;
    if(running.load() || (alone && !allThreadsDone())) fail("call-still-running", text + ": a call is still running after the loop has ended");
    if(wrongTid) fail("wrong-worker", text + ": worker id outside the range");
    if(clash) fail("worker-id-shared", text + ": two calls had the same worker id at the same time");
    if(wrongExt) fail("wrong-extent", text + ": a block was given a wrong extent");
    for(auto & s : seen) {
        if(!l.want.count(s.first)) fail("wrong-unit", text + ": called for " + shapeStr(s.first) + ", which does not overlap");
        if(s.second != 1) fail("visited-twice", text + ": " + shapeStr(s.first) + " was visited " + std::to_string(s.second) + " times");
    }
    if(threw && !thrown && !fired) fail("spurious-failure", text + " throws: " + msg);
    if(threw && thrown && !fired && msg != "unit failed") fail("wrong-exception", text + " throws: " + msg);
    if(!threw) {
        if(thrown) fail("exception-lost", text + ": the exception of a call did not reach the caller");
        if(seen.size() != l.want.size()) fail("unit-missed", text + ": " + std::to_string(l.want.size() - seen.size()) + " units were not visited");
    }
    ++rec->oracleChecks;
    note(mix(seen.size(), threw));
}
// where a chunk is in a request, and the request in the chunk
void checkPlaces(Rng & r, const z::DsSpec & s, z::DsetP d) {
    Quiet q;
    for(int i = 0; i < 4; ++i) {
        z::Shape off, shape, id, b0(s.shape.size()), e(s.shape.size()), b1(s.shape.size());
        bool all = true;
        for(size_t k = 0; k < s.shape.size(); ++k) {
            size_t b = r.chance(0.3) ? 0 : r.below(s.shape[k]), n = r.chance(0.3) ? s.shape[k] - b : 1 + r.below(s.shape[k] - b);
            off.push_back(b); shape.push_back(n);
            size_t first = b / s.chunks[k], last = (b + n - 1) / s.chunks[k];
            id.push_back(r.chance(0.2) ? first : r.chance(0.2) ? last : first + r.below(last - first + 1));
            size_t cb = id[k] * s.chunks[k], ce = s.shape[k] - cb < s.chunks[k] ? s.shape[k] : cb + s.chunks[k];
            size_t lo = std::max(cb, b), hi = std::min(ce, b + n);
            b0[k] = lo - b; e[k] = hi - lo; b1[k] = lo - cb;
            if(e[k] != ce - cb) all = false;
        }
        z::Shape g0, ge, g1;
        bool got = d->place(id, off, shape, g0, ge, g1);
        if(got != all || g0 != b0 || ge != e || g1 != b1)
            fail("wrong-place", "chunk " + shapeStr(id) + " of " + specStr(s) + " in the request " + shapeStr(off) + "+" + shapeStr(shape) + " is said to begin at " + shapeStr(g0) + " with extent " + shapeStr(ge) + " from " + shapeStr(g1) + " of the chunk, " + (got ? "complete" : "in part"));
        ++rec->oracleChecks;
    }
}
}
// a dataset of any size
static void drawWide(Rng & r, int fmt, z::DsSpec & ws, const SpecOpt & so) {
    drawSpec(r, fmt, ws, so);
    int left = 55;
    for(size_t k = 0; k < ws.shape.size(); ++k) {
        int bits = r.range(0, std::min(left, 40)); left -= bits;
        ws.shape[k] = (size_t(1) << bits) + r.below(size_t(1) << bits); if(left) --left;
        ws.chunks[k] = 1 + r.below(std::min<size_t>(ws.shape[k], size_t(1) << r.range(0, 31)));
        if(ws.shard.size()) ws.shard[k] = ws.chunks[k] * size_t(r.range(1, 3));
    }
}
void w::forEach(Ctx & ctx) {
    Store st(ctx, 0, 8);
    Obj & o = st.make("a", ctx.rng.next(), 0.0);
    z::DsetP d = st.open("a");
    // one of any size, of which only the metadata is stored
    z::DsSpec ws; z::DsetP wd;
    {
        Quiet q;
        Rng r(ctx.rng.next());
        drawWide(r, st.fmt, ws, st.so);
        z::file(backend.root, z::A)->create("w", ws);
        wd = st.open("w");
        ctx.say("dataset w: " + specStr(ws));
    }
    int n = ctx.rng.range(1, 3);
    bool faults = ctx.rng.chance(0.3);
    int users = !faults && ctx.rng.chance(0.25) ? 2 : 1;
    if(faults) { setFaultPolicy(ctx, bit(F_EAGAIN) | bit(F_ENOMEM), 1.0); allocFaults = true; }
    std::vector<std::pair<Loop *, z::DsetP>> plan[2];
    for(int i = 0; i < n * users; ++i) {
        Rng r(ctx.rng.next());
        if(!ctx.kept(i)) continue;
        ++rec->ops;
        bool wide = r.chance(0.25);
        Loop * l = new Loop(drawLoop(r, wide ? ws : o.spec, &o, wide));
        if(!faults && r.chance(0.25)) {
            Rng r2(r.next()); bool w2 = r2.chance(0.25);
            l->inner = new Loop(drawLoop(r2, w2 ? ws : o.spec, &o, w2)); l->inner->throwing = false; if(l->inner->nt > 2) l->inner->nt = 2;
            l->innerSet = w2 ? wd : d;
        }
        ctx.say((users > 1 ? threadName(i % users) + ": " : std::string()) + l->text + (l->inner ? ", some calls run: " + l->inner->text : ""));
        if(users > 1) plan[size_t(i % users)].push_back({l, wide ? wd : d});
        else { scope(uint32_t(i + 1)); runLoop(*l, wide ? wd : d, true); }
    }
    if(users > 1) {
        Users u;
        for(auto & p : plan) u.add([&p] { for(auto & l : p) runLoop(*l.first, l.second, false); });
        u.join();
        if(!allThreadsDone()) fail("call-still-running", "a worker is still running after all loops have ended");
    }
}

// ---------------------------------------------------------------- requests of any size (C01), chunks of any size (C03)
SIM_SCENARIO(c01p, "request-places") {
    Store st(ctx, 0, 8);
    for(int i = 0; i < 6; ++i) {
        Quiet q;
        Rng r(ctx.rng.next());
        if(!ctx.kept(i)) continue;
        scope(uint32_t(i + 1)); ++rec->ops;
        z::DsSpec s; if(r.chance(0.8)) drawWide(r, st.fmt, s, st.so); else drawSpec(r, st.fmt, s, st.so);
        std::string name = "d" + std::to_string(i);
        ctx.say("dataset " + name + ": " + specStr(s));
        z::DsetP d = z::file(backend.root, z::A)->create(name, s);
        if(r.chance(0.5)) d = st.open(name);
        checkPlaces(r, s, d);
        note(r.next());
    }
}
// Chunks larger than what a codec or the format can express: stored completely, or refused
SIM_SCENARIO(c03l, "too-large") {
    Store st(ctx, 0, 2);
    Rng r(ctx.rng.next());
    // the code that does not refuse needs gigabytes: in one of the parallel searches only
    int kind = spec.seed % 8 == 3 ? r.range(0, 1) * 2 : 1;
    z::DsSpec s; s.isZarr = st.fmt > 0; s.zfmt = 2; s.delim = st.fmt == 2 ? "/" : ".";
    const size_t G = size_t(1) << 32, extra = 1 + r.below(5000);
    size_t n = kind == 0 ? G + extra : kind == 1 ? (size_t(1) << 31) + extra : G + extra;
    bool varlen = false;
    // lz4 and bzip2 count in (unsigned) int, headers of n5 chunks in 32 bit
    s.dtype = r.chance(0.5) ? "uint8" : "int8";
    if(kind == 0) s.comp = "bzip2"; else if(kind == 1) s.comp = "lz4"; else { s.comp = "gzip"; varlen = st.fmt == 0; if(!varlen) { s.comp = "bzip2"; } }
    bool two = r.chance(0.5);
    s.shape = s.chunks = two ? z::Shape{2, n / 2} : z::Shape{n};
    if(varlen) s.shape = s.chunks = z::Shape{8};
    n = varlen ? n : two ? n / 2 * 2 : n;
    ctx.say("dataset d: " + specStr(s) + (varlen ? ", a chunk of variable length " : ", a chunk of ") + std::to_string(n) + " elements");
    scope(1); ++rec->ops;
    Quiet q;
    z::DsetP d = z::file(backend.root, z::A)->create("d", s);
    char * in = (char *) mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(in == MAP_FAILED) return;
    const size_t at[] = {0, 1 + r.below(1000), n / 2, n - 1 - r.below(extra), n - 1};
    for(size_t k = 0; k < 5; ++k) in[at[k]] = char(k + 1);
    z::Shape id(s.shape.size(), 0);
    bool threw = false;
    try { d->writeChunk(id, in, varlen, varlen ? n : 0); } catch(const std::exception &) { threw = true; }
    if(threw) { if(d->exists(id)) fail("harm", "a refused chunk is in the store"); note(1); ++rec->oracleChecks; return; }
    char * out = (char *) mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(out == MAP_FAILED) return;
    if(varlen) { size_t got = 0; if(!d->varlen(id, got) || got != n) fail("wrong-data", "a chunk of variable length " + std::to_string(n) + " is stored with length " + std::to_string(got)); }
    try { d->readChunk(id, out); } catch(const std::exception & e) { fail("unreadable", std::string("a chunk was stored, but reading it throws: ") + e.what()); }
    for(size_t k = 0; k < 5; ++k) if(out[at[k]] != in[at[k]]) fail("wrong-data", "element " + std::to_string(at[k]) + " of a chunk was not stored");
    ++rec->oracleChecks;
    note(2);
}

// ---------------------------------------------------------------- parallel utilities (C11)
SIM_SCENARIO(c11, "utilities") { w::utilities(ctx); }
SIM_SCENARIO(c22u, "no-memory-utilities") { w::utilities(ctx, true); }
void w::utilities(Ctx & ctx, bool memory) {
    Store st(ctx, 0, 8);
    st.so.fill = ctx.rng.pick(std::vector<long>{0, 1, 3});        // no NaN: sets of NaN have no meaning
    // few different values, some chunks of one value only, in n5 some chunks of their own length
    std::map<size_t, std::string> own;
    auto content = [&](const std::string & name, uint64_t seed) {
        Quiet q;
        Rng r(seed);
        const bool lengths = name == "a" && st.fmt == 0 && backend.fs && r.chance(0.5);
        z::DsSpec s; drawSpec(r, st.fmt, s, st.so);
        Obj & o = st.ds[name]; initObj(o, s);
        z::DsetP d = z::file(backend.root, z::A)->create(name, s);
        for(size_t i = 0, n = o.nChunks(); i < n; ++i) {
            z::Shape id = unravel(i, o.grid()); Region c = chunkRegion(o, id);
            int how = r.range(0, 9); uint64_t salt = r.next(); uint32_t one = uint32_t(r.range(1, 3));
            if(how < 2) continue;
            const bool len = lengths && r.chance(0.5);
            const size_t m = !len ? prod(c.shape) : size_t(r.range(1, r.chance(0.5) ? 4 : int(3 * prod(s.chunks) + 1)));
            std::string b(m * o.esz, 0);
            for(size_t k = 0; k < m; ++k) z::encode(s.dtype, s.fill, how < 5 ? one : uint32_t(mix(salt, k) % 5), &b[k * o.esz]);
            if(len) { own[i] = b; d->writeChunk(id, b.data(), true, m); continue; }
            setRegion(o, c, b);
            d->writeChunk(id, chunkBytes(o, id).data());
        }
        o.meta = d->meta();
        ctx.say("dataset " + name + ": " + specStr(s));
    };
    content("a", ctx.rng.next()); content("ab", ctx.rng.next());
    setFaultPolicy(ctx, memory ? bit(F_EAGAIN) | bit(F_ENOMEM) : IOF & ~bit(F_ENOSPC), memory ? 1.0 : 0.5);
    if(memory) allocFaults = 1;
    Obj & o = st.ds["a"];
    z::DsetP d = st.open("a");
    int n = ctx.rng.range(1, 4);
    auto stored = [&](const z::Shape & id) { return !regionIsFill(o, chunkRegion(o, id)); };
    auto verify = [&](const std::string & name, const char * kind, const std::string & when) {
        if(name != "a" || own.empty()) { st.verify(name, kind, when); return; }
        z::DsetP x = st.open("a");
        for(size_t c = 0; c < o.nChunks(); ++c) {
            z::Shape id = unravel(c, o.grid());
            auto it = own.find(c); const bool there = it != own.end() || stored(id);
            const std::string want = it != own.end() ? it->second : there ? chunkBytes(o, id) : "";
            std::string t;
            if(x->exists(id) != there) t = there ? "is gone" : "exists";
            else if(there) {
                size_t m = 0; const bool vl = x->varlen(id, m);
                if(vl != (it != own.end())) t = vl ? "has a length of its own" : "has no length of its own";
                else if(m * o.esz != want.size()) t = "has " + std::to_string(m) + " elements instead of " + std::to_string(want.size() / o.esz);
                else { std::string got(want.size(), '\x5c'); x->readChunk(id, &got[0]); if(got != want) t = "holds other values"; }
            }
            if(!t.empty()) fail(kind, when + ": chunk " + shapeStr(id) + (it != own.end() ? " (variable length) " : " ") + t + " (" + specStr(o.spec) + ")");
            ++rec->oracleChecks;
        }
    };
    for(int i = 0; i < n; ++i) {
        Rng r(ctx.rng.next());
        if(!ctx.kept(i)) continue;
        scope(uint32_t(i + 1)); ++rec->ops;
        int kind = r.range(0, 5), nt = r.range(1, 5);
        if(kind == 5 && i + 1 < n) kind = r.range(0, 4);
        static const char * kn[] = {"unique", "uniqueWithCounts", "unique", "removeTrivialChunks", "removeTrivialChunks of one value", "removeDataset"};
        std::string text = std::string(kn[kind]) + " threads " + std::to_string(nt);
        if(r.chance(0.15)) {
            // asked for values of another type
            std::string b(64, '\x21'); int how = 3 + kind % 4, other = r.range(0, 8);
            bool threw = false; uint64_t before = storeState();
            try { Arm arm; d->wrongType(how, other, {}, {}, &b[0], nt); } catch(const std::exception &) { threw = true; }
            Quiet q;
            if(!allThreadsDone()) fail("threads-left", text + " for another type: threads are still running");
            if(!threw) fail("not-refused", text + " (" + specStr(o.spec) + ") for values of another type is not refused");
            if(storeState() != before) fail("refused-call-changed-store", text + " for values of another type is refused, but changes the store");
        }
        // the sequential meaning
        std::map<std::string, size_t> counts;
        std::string val(o.esz, 0); z::encode(o.spec.dtype, o.spec.fill, uint32_t(r.range(0, 3)), &val[0]);
        std::vector<char> drop(o.nChunks(), 0);
        for(size_t c = 0; c < o.nChunks(); ++c) {
            z::Shape id = unravel(c, o.grid());
            if(!own.count(c) && !stored(id)) continue;
            std::string b = own.count(c) ? own[c] : chunkBytes(o, id); std::set<std::string> u;
            for(size_t k = 0; k < b.size(); k += o.esz) { ++counts[b.substr(k, o.esz)]; u.insert(b.substr(k, o.esz)); }
            if(u.size() == 1 && (kind != 4 || *u.begin() == val)) drop[c] = 1;
        }
        ctx.say(text);
        bool threw = false; std::string msg; std::vector<std::string> uq; std::map<std::string, size_t> uc;
        {
            Arm arm;
            try {
                if(kind == 1) uc = d->uniqueCounts(nt);
                else if(kind == 3) d->trivial(nt, false, val.data());
                else if(kind == 4) d->trivial(nt, true, val.data());
                else if(kind == 5) d->removeAll(nt);
                else uq = d->unique(nt);
            } catch(const std::exception & e) { NoFaults nf; threw = true; msg = e.what(); }
        }
        Quiet q;
        bool fired = firedInScope() > 0;
        if(!allThreadsDone()) fail("threads-left", text + ": threads are still running");
        if(threw && !fired) fail("spurious-failure", text + " (" + specStr(o.spec) + ") throws: " + msg);
        if(threw) probe("threw-after-fault"); else if(fired) probe("returned-despite-fault");
        if(!threw && (kind == 0 || kind == 2)) {
            std::vector<std::string> want; for(auto & k : counts) want.push_back(k.first);
            std::sort(uq.begin(), uq.end());
            if(uq != want) fail("wrong-result", text + " (" + specStr(o.spec) + ") returns " + std::to_string(uq.size()) + " values, sequentially " + std::to_string(want.size()));
        }
        if(!threw && kind == 1 && uc != counts) {
            std::string t; for(auto & k : counts) if(uc[k.first] != k.second) { t = std::to_string(uc[k.first]) + " instead of " + std::to_string(k.second); break; }
            fail("wrong-result", text + " (" + specStr(o.spec) + ") counts are wrong: " + t);
        }
        if(kind == 3 || kind == 4) for(size_t c = 0; c < o.nChunks(); ++c) if(drop[c]) {
            z::Shape id = unravel(c, o.grid());
            if(threw && st.open("a")->exists(id)) continue;
            if(own.erase(c)) continue;
            setRegion(o, chunkRegion(o, id), randomBytes(o, prod(chunkRegion(o, id).shape), 0, 2));
        }
        if(kind == 5) {
            bool there = present(backend.root + "/a");
            if(!threw && there) fail("not-removed", text + ": remains of the dataset are in the store");
            if(threw && there) {
                try { z::file(backend.root, z::A)->dataset("a")->remove(); } catch(const std::exception & e) { fail("not-recovered", text + ": removing what was left throws: " + e.what()); }
                if(present(backend.root + "/a")) fail("not-removed", text + ": remains after removing again");
            }
            st.ds.erase("a");
            st.verify("ab", "other-data-changed", "after " + text);
            rec->stateHash = storeState(); note(rec->stateHash);
            return;
        }
        for(auto & k : st.ds) verify(k.first, kind >= 3 ? "wrong-chunks-removed" : "wrong-data", "after " + text);
        rec->stateHash = mix(rec->stateHash, storeState()); note(rec->stateHash);
    }
}

// ---------------------------------------------------------------- read-only handles (C15)
SIM_SCENARIO(c15, "read-only") { w::readOnly(ctx); }
void w::readOnly(Ctx & ctx) {
    Store st(ctx, 0, 8);
    Obj & o = st.make("a", ctx.rng.next(), 0.6);
    bool fresh = ctx.rng.chance(0.15);        // creation modes on absent files
    {
        Quiet q;
        z::NodeP r = z::file(backend.root, z::A);
        r->createGroup("g", zfmtOf(st.fmt));
        r->writeAttrs("{\"k\":1}"); r->group("g")->writeAttrs("{\"x\":[1,2]}"); r->dataset("a")->writeAttrs("{\"y\":\"z\"}");
        if(ctx.rng.chance(0.6)) { Rng rr(ctx.rng.next()); z::DsSpec s; drawSpec(rr, st.fmt, s, st.so); r->group("g")->create("d", s); }
    }
    uint64_t before = storeState();
    z::NodeP root; z::DsetP d; z::NodeP g, dn;
    { Quiet q; root = z::file(backend.root, z::R); g = root->group("g"); dn = root->dataset("a"); d = root->open("a"); }
    setFaultPolicy(ctx, IOF, 0.4);
    vfs::denyWrites = true;
    int nt = int(ctx.knob("users", 1, ctx.rng.range(1, 3)));
    struct Step { int kind; uint64_t a, b; };
    std::vector<std::vector<Step>> plan(nt);
    int opNo = 0;
    for(int t = 0; t < nt; ++t) for(int i = 0, n = ctx.rng.range(2, 8); i < n; ++i) { Step s{ctx.rng.range(0, 27), ctx.rng.next(), ctx.rng.next()}; if(ctx.kept(opNo++)) plan[t].push_back(s); }
    auto step = [&](int t, const Step & s) {
        std::string what; bool mustThrow = true;
        z::Shape id = unravel(s.a % o.nChunks(), o.grid());
        Region r = drawRegion(o, s.a);
        std::string b = randomBytes(o, prod(o.spec.shape) + prod(o.spec.chunks), s.b, s.b % 4 == 0 ? 2 : 0);
        std::string other = backend.root.substr(0, backend.root.rfind('/')) + "/other";
        try {
            Arm arm;
            switch(s.kind) {
            case 0: what = "writeChunk"; d->writeChunk(id, b.data()); break;
            case 1: what = "write"; d->write(r.off, r.shape, b.data(), 1 + int(s.b % 3)); break;
            case 2: what = "scalar"; d->scalar(r.off, r.shape, b.data(), 1 + int(s.b % 3)); break;
            case 3: what = "removeChunk"; d->removeChunk(id); break;
            case 4: what = "remove dataset object"; d->remove(); break;
            case 5: what = "removeTrivialChunks"; d->trivial(1 + int(s.b % 3), s.b % 2, b.data()); break;
            case 6: what = "removeDataset"; d->removeAll(1 + int(s.b % 3)); break;
            case 7: what = "write file attributes"; root->writeAttrs("{\"n\":2}"); break;
            case 8: what = "write group attributes"; g->writeAttrs("{\"n\":2}"); break;
            case 9: what = "write dataset attributes"; dn->writeAttrs("{\"n\":2}"); break;
            case 10: what = "remove file attribute"; root->removeAttr(s.b % 2 ? "k" : "nope"); break;
            case 11: what = "remove group attribute"; g->removeAttr(s.b % 2 ? "x" : "nope"); break;
            case 12: what = "remove dataset attribute"; dn->removeAttr(s.b % 2 ? "y" : "nope"); break;
            case 13: what = "remove group"; g->remove(); break;
            case 14: what = "remove dataset"; dn->remove(); break;
            case 15: what = "remove file"; root->remove(); break;
            case 16: what = "create group"; root->createGroup(s.b % 2 ? "new" : "g", zfmtOf(st.fmt)); break;
            case 17: what = "create sub-group"; g->createGroup("new", zfmtOf(st.fmt)); break;
            case 18: { what = "create dataset"; Rng rr(s.b); z::DsSpec sp; drawSpec(rr, st.fmt, sp, st.so); (s.b >> 32 & 1 ? root : g)->create(s.b >> 33 & 1 ? "new" : "a", sp); break; }
            case 19: what = "create file over it"; root->createFile(s.b % 2, 2 + int(s.b >> 8 & 1)); break;
            case 20: what = "create another file read-only"; z::file(other, z::R)->createFile(s.b % 2, 2 + int(s.b >> 8 & 1)); break;
            case 21: what = "create another file in mode r+"; z::file(other, z::RP)->createFile(s.b % 2, 2 + int(s.b >> 8 & 1)); break;
            case 22: { what = "writeChunk (varlen)"; d->writeChunk(id, b.data(), true, 1); break; }
            default:
                mustThrow = false; what = "reading";
                if(s.kind == 23) { std::string got(prod(r.shape) * o.esz, 0); d->read(r.off, r.shape, &got[0], 1 + int(s.b % 3)); }
                else if(s.kind == 24) { root->keys(); g->exists(); root->in("zz"); root->isSubGroup("g"); }
                else if(s.kind == 25) { root->readAttrs(); g->readAttrs(); dn->readAttrs(); }
                else if(s.kind == 26) root->open("a");
                else { d->exists(id); d->unique(2); }
            }
            NoFaults nf;
            if(mustThrow) fail("not-refused", threadName(t) + ": " + what + " through a read-only handle returns (" + specStr(o.spec) + ")");
        } catch(const std::exception & e) { NoFaults nf; note(1); }
        ++rec->oracleChecks;
    };
    (void) fresh;
    static std::atomic<uint32_t> dummy;
    scope(1);
    if(nt == 1) for(auto & s : plan[0]) step(0, s);
    else { Users u; for(int t = 0; t < nt; ++t) u.add([&, t] { for(auto & s : plan[t]) step(t, s); }); u.join(); }
    Quiet q;
    for(int t = 0; t < nt; ++t) { std::string l = threadName(t) + ": calls"; for(auto & s : plan[t]) { l += " " + std::to_string(s.kind); ++rec->ops; } ctx.say(l); }
    if(storeState() != before) fail("store-changed", "the store is not what it was");
    rec->stateHash = before;
}

// ---------------------------------------------------------------- damaged chunk files (C07)
namespace {
uint64_t le64(const std::string & s, size_t p) { uint64_t v = 0; for(int i = 0; i < 8; ++i) v |= uint64_t((unsigned char) s[p + size_t(i)]) << 8 * i; return v; }
uint32_t crc32c(const char * p, size_t n) { uint32_t c = ~0u; for(size_t i = 0; i < n; ++i) { c ^= (unsigned char) p[i]; for(int k = 0; k < 8; ++k) c = c >> 1 ^ (0x82F63B78u & (0 - (c & 1))); } return ~c; }
}
void w::damage(Ctx & ctx) {
    Store st(ctx, 0, 8);
    st.so.big = ctx.rng.chance(0.1);
    Obj & o = st.make("a", ctx.rng.next(), 0.9, ctx.rng.chance(0.3) ? 1 : 0);
    Obj & other = st.make("b", ctx.rng.next(), 0.7);
    (void) other;
    const bool fs = backend.fs;
    bool varlenStore = fs && st.fmt == 0 && ctx.rng.chance(0.3);
    z::DsetP d;
    // where a chunk is stored
    auto pathOf = [&](const z::Shape & id) {
        if(fs) return d->chunkPath(id);
        z::Shape c = id; for(size_t k = 0; k < o.spec.shard.size(); ++k) c[k] /= o.spec.shard[k] / o.spec.chunks[k];
        if(!o.spec.isZarr) std::reverse(c.begin(), c.end());
        const std::string sep = o.spec.isZarr ? o.spec.delim : "/";
        std::string p = o.spec.zfmt == 3 && o.spec.isZarr && o.spec.enc == "default" ? "c" : "";
        for(size_t k = 0; k < c.size(); ++k) p += (p.empty() ? "" : sep) + std::to_string(c[k]);
        return backend.root + "/a/" + p;
    };
    auto there = [&](const std::string & p) { return fs ? bool(vfs::lookup(p)) : backend.has(p); };
    std::vector<std::pair<z::Shape, std::string>> files;      // chunk -> path
    {
        Quiet q;
        d = st.open("a");
        if(varlenStore) { std::string b = randomBytes(o, 50, 5, 0); d->writeChunk(z::Shape(o.spec.shape.size(), 0), b.data(), true, size_t(ctx.rng.range(0, 50))); }
        std::set<std::string> have;
        for(size_t c = 0; c < o.nChunks(); ++c) { z::Shape id = unravel(c, o.grid()); std::string p = pathOf(id); if(there(p) && have.insert(p).second) files.push_back({id, p}); }
    }
    if(files.empty()) { ctx.say("nothing stored"); return; }
    auto & victim = files[ctx.rng.below(files.size())];
    const std::string good = fs ? *vfs::lookup(victim.second)->data : backend.fetch(victim.second);
    std::string bad = good;
    bool sharded = !o.spec.shard.empty();
    size_t slots = 1; if(sharded) for(size_t k = 0; k < o.spec.shard.size(); ++k) slots *= o.spec.shard[k] / o.spec.chunks[k];
    size_t footer = sharded ? 16 * slots + 4 : 0;
    int kind = ctx.rng.range(0, sharded ? 7 : 4);
    if(!sharded && !o.spec.isZarr && o.spec.comp == "raw" && !varlenStore && ctx.rng.chance(0.4)) kind = 8;
    bool loud = false;             // must throw or be right
    std::string text;
    uint64_t a = ctx.rng.next(), b = ctx.rng.next();
    size_t lo = good.size(), hi = 0;           // changed byte range
    auto touch = [&](size_t p) { lo = std::min(lo, p); hi = std::max(hi, p + 1); };
    switch(kind) {
    case 0: case 1: {
        size_t n = kind == 0 ? a % good.size() : a % 4 == 0 ? 0 : good.size() - 1 - a % std::min<size_t>(good.size(), 24);
        if(n >= good.size()) n = 0;
        n = size_t(ctx.knob("length", long(n), long(n)));
        bad.resize(n); loud = true; lo = n; hi = good.size(); text = "truncated from " + std::to_string(good.size()) + " to " + std::to_string(n) + " bytes"; break;
    }
    case 2: { int n = 1 + int(a % 4); text = "bits flipped at"; for(int i = 0; i < n; ++i) { size_t p = mix(a, uint64_t(i)) % good.size(); bad[p] = char(bad[p] ^ (1 << (mix(b, uint64_t(i)) % 8))); touch(p); text += " " + std::to_string(p); } break; }
    case 3: {      // header fields (n5: mode, dimensions, shape; blosc, lz4, zstd, ... headers)
        size_t w = std::min<size_t>(good.size(), 40), p = a % w, n = 1 + b % 4; static const unsigned char vals[] = {0, 1, 0xff, 0x7f, 0x80, 2};
        for(size_t i = 0; i < n && p + i < good.size(); ++i) { bad[p + i] = char(vals[mix(b, i) % 6]); touch(p + i); }
        text = "bytes set at " + std::to_string(p); break;
    }
    case 4: { size_t n = a % 200; std::string t; for(size_t i = 0; i < n; ++i) t += char(mix(b, i)); if(a >> 50 & 1) bad += t; else bad = t; lo = 0; hi = good.size(); text = a >> 50 & 1 ? "garbage appended" : "replaced by garbage"; break; }
    case 5: {      // the index of a shard
        size_t p = good.size() - footer + a % footer; bad[p] = char(bad[p] ^ (1 + b % 255)); touch(p); loud = true; text = "index byte " + std::to_string(p) + " altered"; break;
    }
    case 8: {      // an n5 chunk whose header announces another shape, with data to match
        size_t nd = o.spec.shape.size(); uint64_t n = 1; text = "given the shape";
        if(good[0] || good[1]) break;
        for(size_t k = 0; k < nd; ++k) {      // dimensions are stored in reverse
            uint32_t v = uint32_t(o.spec.chunks[nd - 1 - k]); uint64_t h = mix(a, k);
            if(h % 3 == 0) v += uint32_t(h >> 8) % 4; else if(h % 3 == 1) v = uint32_t(h >> 8) % (v + 1);
            n *= v; text += " " + std::to_string(v);
            for(int i = 0; i < 4; ++i) { bad[4 + 4 * k + size_t(i)] = char(v >> 8 * (3 - i)); touch(4 + 4 * k + size_t(i)); }
        }
        size_t h = 4 + 4 * nd; while(bad.size() < h + n * o.esz) bad += char(mix(b, bad.size()));
        bad.resize(h + n * o.esz); hi = std::max(bad.size(), good.size());
        break;
    }
    case 6: case 7: {      // an index that is wrong although its checksum is right: entries that point outside of the data
        auto put = [&](size_t p, uint64_t v) { for(int i = 0; i < 8; ++i) bad[p + size_t(i)] = char(v >> 8 * i); };
        size_t idx = good.size() - footer, slot = a % slots, e = idx + 16 * slot;
        uint64_t dsz = idx, off, nb;
        switch(b % 8) {
        case 0: off = dsz; nb = 1 + (b >> 8) % 64; break;
        case 1: off = 0; nb = dsz + 1 + (b >> 8) % 64; break;
        case 2: off = dsz + 1 + (b >> 8) % 1000; nb = (b >> 32) % 64; break;
        case 3: nb = 1 + (b >> 8) % 4096; off = 0 - nb; break;                               // the end wraps around to 0
        case 4: nb = 1 + (b >> 8) % 4096; off = 0 - nb + (b >> 32) % std::min<uint64_t>(nb, dsz + 1); break;       // or into the data
        case 5: off = (b >> 8) % (dsz + 1); nb = 0 - off; if(!off) nb = UINT64_MAX - 1; break;
        case 6: off = uint64_t(1) << (8 + (b >> 8) % 56); nb = 1 + (b >> 32) % 64; if(off + nb <= dsz) off = dsz + 1; break;
        default: off = (b >> 8) % (dsz + 1); nb = uint64_t(1) << (b >> 32) % 64; if(off + nb <= dsz) nb = dsz + 1; break;
        }
        put(e, off); put(e + 8, nb); touch(e); touch(e + 15);
        uint32_t crc = crc32c(bad.data() + idx, 16 * slots);
        for(int i = 0; i < 4; ++i) bad[bad.size() - 4 + size_t(i)] = char(crc >> 8 * i);
        loud = true; text = "index entry " + std::to_string(slot) + " set to offset " + std::to_string(off) + " length " + std::to_string(nb) + " (checksum right)"; break;
    }
    }
    if(bad == good) { ctx.say("no damage"); return; }
    std::set<std::string> hit;     // elements that may be wrong: chunks stored in the damaged range
    std::string base;              // paths
    bool indexHit = sharded && (bad.size() != good.size() || hi > good.size() - footer);
    std::vector<char> affected(o.nChunks(), 0);
    for(size_t c = 0; c < o.nChunks(); ++c) {
        z::Shape id = unravel(c, o.grid());
        Quiet q;
        if(pathOf(id) != victim.second) continue;
        affected[c] = 1;
        if(sharded && !indexHit) {
            size_t slot = 0; for(size_t k = 0; k < id.size(); ++k) { size_t cps = o.spec.shard[k] / o.spec.chunks[k]; slot = slot * cps + id[k] % cps; }
            size_t e = good.size() - footer + 16 * slot; uint64_t off = le64(good, e), nb = le64(good, e + 8);
            if(off == UINT64_MAX || off >= hi || off + nb <= lo) affected[c] = 0;
        }
    }
    if(fs) *vfs::lookup(victim.second)->data = bad; else backend.store(victim.second, bad);
    ctx.say("file of chunk " + shapeStr(victim.first) + " " + text);
    auto others = [&] { return fs ? vfs::digest(vfs::lookup(backend.root + "/b")) : backend.digestBelow(backend.root + "/b"); };
    uint64_t otherDigest = others();
    guardAlloc(true);
    { Quiet q; d = z::file(backend.root, z::A)->open("a"); }
    int n = ctx.rng.range(2, 6);
    std::string when = "after the file of chunk " + shapeStr(victim.first) + " (" + specStr(o.spec) + ") was " + text;
    for(int i = 0; i < n; ++i) {
        Rng r(ctx.rng.next());
        if(!ctx.kept(i)) continue;
        scope(uint32_t(i + 1)); ++rec->ops;
        int op = r.range(0, 9);
        int nt = r.range(1, 3);
        z::Shape id = r.chance(0.6) ? victim.first : unravel(r.below(o.nChunks()), o.grid());
        size_t ci = ravel(id, o.grid());
        bool threw = false; std::string msg;
        std::string what;
        try {
            if(op <= 1) {
                what = "readChunk " + shapeStr(id);
                if(!d->exists(id)) { if(!affected[ci] && !o.nanFill() && !regionIsFill(o, chunkRegion(o, id))) fail("chunk-lost", when + ": an undamaged chunk is said not to exist"); continue; }
                std::string want = chunkBytes(o, id);
                size_t vn = 0; size_t sz = want.size();
                bool vl = fs && d->varlen(id, vn);
                // the contract of readChunk: the caller provides what the probe announces
                if(vl) sz = std::max(sz, std::min<size_t>(vn, 1 << 20) * o.esz);
                if(vl && vn > 1 << 20) continue;
                std::string got(sz, '\x5c');
                bool rv = d->readChunk(id, &got[0]);
                bool isVar = varlenStore && ci == 0;
                if(!rv && !isVar && got != want && !affected[ci]) fail("wrong-data", when + ": undamaged chunk " + shapeStr(id) + " is read wrongly");
                if(loud && !isVar && (rv || got != want)) fail("garbage-read", when + ": readChunk " + shapeStr(id) + " returned something else than was stored");
            } else if(op <= 5) {
                Region g = op <= 3 ? chunkRegion(o, id) : drawRegion(o, r.next());
                what = "read " + shapeStr(g.off) + "+" + shapeStr(g.shape);
                std::string got(prod(g.shape) * o.esz, '\x5c'), want = getRegion(o, g);
                d->read(g.off, g.shape, &got[0], nt);
                if(varlenStore) continue;
                if(loud && got != want) fail("garbage-read", when + ": " + what + " returned something else than was stored");
                forRegion(g, [&](size_t k, const z::Shape & p) {
                    z::Shape q = p; for(size_t x = 0; x < q.size(); ++x) q[x] /= o.spec.chunks[x];
                    if(!affected[ravel(q, o.grid())] && got.compare(k * o.esz, o.esz, want, k * o.esz, o.esz)) fail("wrong-data", when + ": " + what + " is wrong at " + shapeStr(p) + ", which is in an undamaged chunk");
                });
            } else if(op == 6) {
                bool huge = false;          // a header may announce any number of elements: allocating them takes time only
                if(fs && !o.spec.isZarr && !sharded) { Quiet q; size_t vn; try { huge = d->varlen(victim.first, vn) && vn > 1 << 16; } catch(const std::exception &) {} }
                what = "utilities"; if(!o.nanFill() && !huge) { if(r.chance(0.5)) d->unique(nt); else d->uniqueCounts(nt); }
            } else if(op == 7) {
                what = "header"; d->exists(id); size_t vn; if(fs) { d->varlen(id, vn); d->chunkShape(id, true); } else d->chunkSize(id);
            } else {
                // overwrite: part of a chunk (reads the rest), or another chunk of the same shard
                Region c = chunkRegion(o, id), g = c;
                if(op == 8) for(size_t k = 0; k < g.off.size(); ++k) { size_t b0 = r.below(c.shape[k]), e0 = b0 + 1 + r.below(c.shape[k] - b0); g.off[k] = c.off[k] + b0; g.shape[k] = e0 - b0; }
                std::string v = randomBytes(o, prod(g.shape), r.next(), 0);
                what = "write " + shapeStr(g.off) + "+" + shapeStr(g.shape);
                Obj nw; nw.spec = o.spec; nw.esz = o.esz; nw.fill = o.fill; nw.buf = o.buf; setRegion(nw, g, v);
                bool whole = g.shape == c.shape;
                bool viaChunk = whole && r.chance(0.5);
                if(o.spec.isZarr && g.shape != o.spec.chunks) whole = viaChunk;      // the stored padding of a border chunk is kept
                if(viaChunk) { std::string cb = chunkBytes(nw, id); d->writeChunk(id, cb.data()); } else d->write(g.off, g.shape, v.data(), nt);
                o.buf = nw.buf;
                if(varlenStore) return;
                // a chunk that was written completely is whole again
                if(whole && !(sharded && indexHit)) affected[ci] = 0;
                if(sharded && indexHit && affected[ci]) {
                    // the shard could be rewritten although its index is damaged: the other chunks must still be there
                    if(!whole || slots > 1) {
                        bool more = false; for(size_t c2 = 0; c2 < o.nChunks(); ++c2) if(c2 != ci && affected[c2] && !regionIsFill(o, chunkRegion(o, unravel(c2, o.grid())))) more = true;
                        if(loud && more) {
                            Quiet q; std::string got(o.buf.size(), '\x5c');
                            try { st.open("a", z::R)->read(z::Shape(o.spec.shape.size(), 0), o.spec.shape, &got[0], 1); if(got == o.buf) { continue; } } catch(const std::exception &) {}
                            fail("neighbours-discarded", when + ": " + what + " returned and the other chunks of the shard are gone");
                        }
                    }
                    return;
                }
                if(!whole && affected[ci]) { if(!loud) return; fail("garbage-kept", when + ": " + what + " merged with a damaged chunk returned"); }
                if(affected[ci] && loud) return;
            }
        } catch(const std::exception & e) {
            NoFaults nf; threw = true; msg = e.what();
            if(op <= 3 && !affected[ci] && !(varlenStore && ci == 0)) fail("undamaged-unreadable", when + ": " + what + " of an undamaged chunk throws: " + msg);
        }
        if(!allThreadsDone()) fail("threads-left", when + ": threads are still running");
        probe(threw ? "damage-reported" : "damage-survived");
        ++rec->oracleChecks; note(threw);
        if(threw) {
            Quiet q;
            // a failing write has not made it worse: the undamaged chunks are still there
            for(size_t c = 0; c < o.nChunks(); ++c) if(!affected[c]) {
                Region g = chunkRegion(o, unravel(c, o.grid())); std::string got(prod(g.shape) * o.esz, '\x5c');
                if(varlenStore && c == 0) continue;
                try { st.open("a", z::R)->read(g.off, g.shape, &got[0], 1); } catch(const std::exception & e) { fail("undamaged-unreadable", when + ": then " + what + " threw, then an undamaged chunk " + shapeStr(unravel(c, o.grid())) + " cannot be read: " + e.what()); }
                if(op < 8 && got != getRegion(o, g)) fail("other-data-changed", when + ": then " + what + " threw, and an undamaged chunk is wrong");
            }
            if(op >= 8) return;       // parts of a region write may have been done
        }
    }
    if(others() != otherDigest) fail("other-data-changed", when + ": another dataset was changed");
    guardAlloc(false);
    st.verify("b", "other-data-changed", when);
    rec->stateHash = storeState(); note(rec->stateHash);
}
SIM_SCENARIO(c07, "damage") { w::damage(ctx); }

// ---------------------------------------------------------------- variable-length chunks (C21)
SIM_SCENARIO(c21, "varlen") {
    Store st(ctx, 0, 0);
    Obj & o = st.make("a", ctx.rng.next(), 0.3);
    Obj & o2 = st.make("b", ctx.rng.next(), 0.7);
    (void) o2;
    struct Ch { int kind = 0; std::string bytes; };         // 0 absent, 1 ordinary, 2 variable length
    std::map<size_t, Ch> model;
    for(size_t c = 0; c < o.nChunks(); ++c) { z::Shape id = unravel(c, o.grid()); Ch h; if(!regionIsFill(o, chunkRegion(o, id))) { h.kind = 1; h.bytes = chunkBytes(o, id); } model[c] = h; }
    setFaultPolicy(ctx, IOF, 0.5);
    z::DsetP d = st.open("a");
    guardAlloc(ctx.rng.chance(0.6));
    bool crash = ctx.rng.chance(0.4);
    auto checkChunk = [&](z::DsetP x, size_t c, const Ch & h, const std::string & when) -> std::string {
        z::Shape id = unravel(c, o.grid());
        if(x->exists(id) != (h.kind != 0)) return "chunk " + shapeStr(id) + (h.kind ? " is gone" : " exists");
        size_t n = 77; bool vl = x->varlen(id, n);
        if(vl != (h.kind == 2)) return "chunk " + shapeStr(id) + " is reported as " + (vl ? "variable-length" : "ordinary");
        size_t wantN = h.kind ? h.bytes.size() / o.esz : prod(chunkRegion(o, id).shape);
        if(n != wantN) return "chunk " + shapeStr(id) + " has " + std::to_string(n) + " elements instead of " + std::to_string(wantN);
        if(!h.kind) return "";
        z::Shape cs = x->chunkShape(id, true);
        if(cs != chunkRegion(o, id).shape) return "chunk " + shapeStr(id) + " is said to have the shape " + shapeStr(cs);
        std::string got(std::max(h.bytes.size(), size_t(1)), '\x5c');
        bool rv = x->readChunk(id, &got[0]);
        got.resize(h.bytes.size());
        if(rv != (h.kind == 2)) return "chunk " + shapeStr(id) + " is read as " + (rv ? "variable-length" : "ordinary");
        if(got != h.bytes) return "chunk " + shapeStr(id) + " holds other values";
        (void) when;
        return "";
    };
    int n = ctx.rng.range(3, 10);
    for(int i = 0; i < n; ++i) {
        Rng r(ctx.rng.next());
        if(!ctx.kept(i)) continue;
        scope(uint32_t(i + 1)); ++rec->ops;
        size_t c = r.below(o.nChunks()); z::Shape id = unravel(c, o.grid());
        int op = r.range(0, 9);
        Ch old = model[c], nw = old;
        std::string text, err; bool threw = false;
        bool mutating = op <= 5;
        if(op <= 2) { size_t k = r.chance(0.15) ? 0 : r.chance(0.3) ? size_t(r.range(1, int(3 * prod(o.spec.chunks)))) : size_t(r.range(1, 60)); nw.kind = k ? 2 : 0; nw.bytes = randomBytes(o, k, r.next(), r.chance(0.2) ? 2 : 0); text = "writeChunk " + shapeStr(id) + " variable length " + std::to_string(k); }
        else if(op <= 4) { Obj t; t.spec = o.spec; t.esz = o.esz; t.fill = o.fill; t.buf = o.buf; Region g = chunkRegion(o, id); bool zz = r.chance(0.2); setRegion(t, g, randomBytes(o, prod(g.shape), r.next(), zz ? 2 : 0)); nw.kind = zz ? 0 : 1; nw.bytes = chunkBytes(t, id); text = "writeChunk " + shapeStr(id) + (zz ? " fill value" : ""); if(zz) nw.bytes.clear(); }
        else if(op == 5) { nw = Ch(); text = "removeChunk " + shapeStr(id); }
        else if(op == 6) text = "reopen";
        else if(op == 7) text = "read chunk " + shapeStr(id);
        else if(op == 8) text = "read region over " + shapeStr(id);
        else text = "write region over " + shapeStr(id);
        ctx.say(std::to_string(i) + ": " + text);
        std::string cb; if(op == 3 || op == 4) { if(nw.kind) cb = nw.bytes; else { for(size_t k = 0, m = prod(chunkRegion(o, id).shape); k < m; ++k) cb += o.fill; } }
        if(op == 6) { Quiet q; d = st.open("a", r.chance(0.5) ? z::RP : z::A); continue; }
        Region reg = drawRegion(o, r.next());
        bool overVarlen = false;
        std::set<size_t> replaced;        // variable-length chunks a region write replaces completely
        if(op >= 8) {
            // make it overlap the chunk
            Region g = chunkRegion(o, id);
            for(size_t k = 0; k < reg.off.size(); ++k) if(reg.off[k] + reg.shape[k] <= g.off[k] || reg.off[k] >= g.off[k] + g.shape[k]) { reg.off[k] = g.off[k]; reg.shape[k] = 1 + r.below(g.shape[k]); }
            forRegion(reg, [&](size_t, const z::Shape & p) { z::Shape q = p; for(size_t x = 0; x < q.size(); ++x) q[x] /= o.spec.chunks[x]; size_t mc = ravel(q, o.grid()); if(model[mc].kind != 2) return; Region cg = chunkRegion(o, q); bool all = op == 9; for(size_t x = 0; x < q.size(); ++x) if(cg.off[x] < reg.off[x] || cg.off[x] + cg.shape[x] > reg.off[x] + reg.shape[x]) all = false; if(all) replaced.insert(mc); else overVarlen = true; });
        }
        std::string wv = op == 9 ? randomBytes(o, prod(reg.shape), r.next(), 0) : "";
        std::string got;
        vfs::snaps.clear(); vfs::captureCrash = crash && mutating;
        {
            Arm arm;
            try {
                if(op <= 2) d->writeChunk(id, nw.bytes.size() ? nw.bytes.data() : "", true, nw.bytes.size() / o.esz);
                else if(op <= 4) d->writeChunk(id, cb.data());
                else if(op == 5) d->removeChunk(id);
                else if(op == 7) err = checkChunk(d, c, old, text);
                else if(op == 8) { got.assign(prod(reg.shape) * o.esz, '\x5c'); d->read(reg.off, reg.shape, &got[0], 1 + int(r.below(3))); }
                else d->write(reg.off, reg.shape, wv.data(), 1 + int(r.below(3)));
            } catch(const std::exception & e) { NoFaults nf; threw = true; err = e.what(); }
        }
        vfs::captureCrash = false;
        Quiet q;
        bool fired = firedInScope() > 0;
        if(!allThreadsDone()) fail("threads-left", text + ": threads are still running");
        std::string ctxt = "after " + std::to_string(i) + ": " + text + " (" + specStr(o.spec) + ")" + (threw ? " threw " + err : "");
        if(threw) probe("threw-after-fault");
        // restarts in the middle of it
        if(crash && mutating) {
            std::vector<vfs::Snap> sn; sn.swap(vfs::snaps);
            vfs::NodeP keep = vfs::root;
            size_t k0 = 0;
            for(size_t k = 0; k < sn.size(); ++k) {
                if(spec.replay ? !(spec.crash.set && sn[k].scope == spec.crash.scope && sn[k].point == spec.crash.point && sn[k].torn == spec.crash.torn) : k0++ >= 8) continue;
                rec->haveCrash = 1; rec->crashScope = sn[k].scope; rec->crashPoint = sn[k].point; rec->crashTorn = sn[k].torn;
                ++rec->crashPoints; ++rec->faults[F_CRASH];
                vfs::root = vfs::clone(sn[k].tree);
                z::DsetP x;
                try {
                    x = z::file(backend.root, z::R)->open("a");
                    std::string e1 = checkChunk(x, c, old, ""), e2 = checkChunk(x, c, nw, "");
                    if(!e1.empty() && !e2.empty()) fail("neither-old-nor-new", "restart in the middle of " + text + ": " + e1 + "; " + e2);
                    for(auto & m : model) if(m.first != c) { std::string e3 = checkChunk(x, m.first, m.second, ""); if(!e3.empty()) fail("other-data-changed", "restart in the middle of " + text + ": " + e3); }
                } catch(const std::exception & e) { fail("data-unreadable", "restart in the middle of " + text + ": " + e.what()); }
            }
            rec->haveCrash = 0;
            vfs::root = keep;
        }
        if(mutating && !threw) model[c] = nw;
        if(mutating && threw) {
            if(!fired) fail("spurious-failure", ctxt);
            z::DsetP x = st.open("a", z::R); std::string e1, e2;
            try { e1 = checkChunk(x, c, old, ""); if(!e1.empty()) { e2 = checkChunk(x, c, nw, ""); if(e2.empty()) model[c] = nw; } } catch(const std::exception & e) { e1 = e2 = e.what(); }
            if(!e1.empty() && !e2.empty()) fail("neither-old-nor-new", ctxt + ": " + e1 + "; " + e2);
        }
        if(op == 7) {
            if(threw && !fired) fail("spurious-failure", ctxt);
            if(!threw && !err.empty()) fail("wrong-chunk", ctxt + ": " + err);
        }
        if(op == 8 || op == 9) {
            if(overVarlen && !threw) fail("not-refused", ctxt + ": returns although a variable-length chunk is in the region " + shapeStr(reg.off) + "+" + shapeStr(reg.shape));
            if(!overVarlen && threw && !fired) fail("spurious-failure", ctxt);
            if(!overVarlen && !threw && op == 8) {
                Obj t; t.spec = o.spec; t.esz = o.esz; t.fill = o.fill; t.buf.clear(); for(size_t k = 0; k < o.elems(); ++k) t.buf += o.fill;
                for(auto & m : model) if(m.second.kind == 1) setRegion(t, chunkRegion(o, unravel(m.first, o.grid())), m.second.bytes);
                if(got != getRegion(t, reg)) fail("wrong-data", ctxt + ": region is read wrongly");
            }
            if(op == 9) {
                // ordinary chunks of the region hold the old or the new values, all others are unchanged
                z::DsetP x = st.open("a", z::R);
                Obj t; t.spec = o.spec; t.esz = o.esz; t.fill = o.fill; for(size_t k = 0; k < o.elems(); ++k) t.buf += o.fill;
                for(auto & m : model) if(m.second.kind == 1) setRegion(t, chunkRegion(o, unravel(m.first, o.grid())), m.second.bytes);
                setRegion(t, reg, wv);
                for(auto & m : model) {
                    z::Shape mid = unravel(m.first, o.grid()); Region g = chunkRegion(o, mid);
                    bool in = true; for(size_t k = 0; k < mid.size(); ++k) if(reg.off[k] + reg.shape[k] <= g.off[k] || reg.off[k] >= g.off[k] + g.shape[k]) in = false;
                    std::string e1, e2 = "x";
                    try {
                        e1 = checkChunk(x, m.first, m.second, "");
                        Ch h; h.kind = regionIsFill(t, g) ? 0 : 1; if(h.kind) h.bytes = getRegion(t, g);
                        bool may = in && (m.second.kind != 2 || replaced.count(m.first)), mustNew = may && !threw;
                        if(may) { if(!e1.empty() || mustNew) { e2 = checkChunk(x, m.first, h, ""); if(e2.empty()) { m.second = h; e1.clear(); } else if(mustNew) e1 = e2; } }
                    } catch(const std::exception & e) { e1 = e.what(); }
                    if(!e1.empty()) fail(in ? "neither-old-nor-new" : "other-data-changed", ctxt + ": " + e1);
                }
            }
        }
        z::DsetP x = st.open("a", z::R);
        for(auto & m : model) { std::string e; try { e = checkChunk(x, m.first, m.second, ""); } catch(const std::exception & ex) { e = std::string("throws ") + ex.what(); } if(!e.empty()) fail("wrong-chunk", ctxt + ": " + e); }
        ++rec->oracleChecks;
        rec->stateHash = mix(rec->stateHash, vfs::digest(vfs::lookup(backend.root))); note(rec->stateHash);
    }
    scope(9999);
    guardAlloc(false);
    st.verify("b", "other-data-changed", "at the end");
}
