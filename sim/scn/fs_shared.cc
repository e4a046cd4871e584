// Several users of the same chunks, shards and attribute documents: every completed history must be
// explained by one order of the calls that respects real time (linearizability), chunk by chunk.
#include "users.h"
#include <unordered_set>
namespace {
// One call on one register. A write turns the state into another one; a read accepts some states.
struct Call {
    int id; uint64_t inv, resp;
    bool maybe = false;                       // a write that failed: it may or may not have taken effect
    std::function<std::string(const std::string &)> apply;      // writes
    std::function<bool(const std::string &)> accepts;            // reads
    std::string text;
};
// searches for an order (Wing & Gong, with memory of the configurations already tried)
struct Search {
    const std::vector<Call> & h;
    std::unordered_set<uint64_t> tried;
    uint64_t steps = 0;
    explicit Search(const std::vector<Call> & c) : h(c) {}
    bool go(uint64_t done, const std::string & state) {
        if(done == (h.size() == 64 ? ~0ull : (1ull << h.size()) - 1)) return true;
        if(++steps > 200000) return true;                     // undecided counts as explained
        if(!tried.insert(mix(done, hashBytes(state.data(), state.size()))).second) return false;
        uint64_t first = ~0ull;
        for(size_t i = 0; i < h.size(); ++i) if(!(done >> i & 1)) first = std::min(first, h[i].resp);
        for(size_t i = 0; i < h.size(); ++i) {
            if(done >> i & 1 || h[i].inv > first) continue;
            uint64_t d = done | 1ull << i;
            if(h[i].accepts) { if(h[i].accepts(state) && go(d, state)) return true; continue; }
            if(go(d, h[i].apply(state))) return true;
            if(h[i].maybe && go(d, state)) return true;
        }
        return false;
    }
};
// a region of a chunk, relative to the chunk's own part of the array
std::string cut(const Region & c, size_t esz, const std::string & state, const Region & r) {
    std::string out(prod(r.shape) * esz, 0);
    forRegion(r, [&](size_t i, const z::Shape & p) {
        z::Shape q = p; for(size_t k = 0; k < q.size(); ++k) q[k] -= c.off[k];
        memcpy(&out[i * esz], &state[ravel(q, c.shape) * esz], esz);
    });
    return out;
}
std::string paste(const Region & c, size_t esz, std::string state, const Region & r, const std::string & b) {
    forRegion(r, [&](size_t i, const z::Shape & p) {
        z::Shape q = p; for(size_t k = 0; k < q.size(); ++k) q[k] -= c.off[k];
        memcpy(&state[ravel(q, c.shape) * esz], &b[i * esz], esz);
    });
    return state;
}
bool overlap(const Region & a, const Region & b, Region & o) {
    o.off.resize(a.off.size()); o.shape.resize(a.off.size());
    for(size_t k = 0; k < a.off.size(); ++k) {
        size_t x = std::max(a.off[k], b.off[k]), e = std::min(a.off[k] + a.shape[k], b.off[k] + b.shape[k]);
        if(x >= e) return false;
        o.off[k] = x; o.shape[k] = e - x;
    }
    return true;
}
// the part of a region buffer that belongs to a sub-region
std::string part(const Region & r, size_t esz, const std::string & b, const Region & s) { return cut(r, esz, b, s); }
}

// ---------------------------------------------------------------- the same chunks and documents (C26)
void w::sharedUsers(Ctx & ctx) {
    Store st(ctx, 0, 8);
    st.so.fill = ctx.rng.pick(std::vector<long>{0, 1, 3});
    int nt = int(ctx.knob("users", 2, ctx.rng.range(2, 4)));
    Obj & o = st.make("a", ctx.rng.next(), ctx.rng.chance(0.5) ? 1.0 : 0.5);
    const bool sharded = !o.spec.shard.empty();
    // one writer per chunk (or shard), which may then update parts of chunks; or any number, replacing
    // whole chunks (in shards only chunk by chunk, through one dataset object)
    const bool single = ctx.rng.chance(0.5);
    const bool faulty = ctx.rng.chance(0.3);
    if(faulty) setFaultPolicy(ctx, IOF, 1.0);
    const size_t n = o.nChunks();
    // attention is on a few chunks
    std::vector<size_t> hot; { int k = ctx.rng.range(1, 3); for(int i = 0; i < k; ++i) hot.push_back(size_t(ctx.rng.below(n))); }
    auto unitOf = [&](size_t c) -> uint64_t {
        if(!sharded) return c;
        z::Shape id = unravel(c, o.grid()); uint64_t u = 7; for(size_t k = 0; k < id.size(); ++k) u = u * 31 + id[k] / (o.spec.shard[k] / o.spec.chunks[k]);
        return u;
    };
    const uint64_t salt = ctx.rng.next();
    auto owner = [&](size_t c) { return int(mix(salt, unitOf(c)) % uint64_t(nt)); };
    struct Step { int kind; size_t chunk; uint64_t a, b; };
    std::vector<std::vector<Step>> plan(nt);
    int opNo = 0, total = 0;
    for(int t = 0; t < nt; ++t) {
        int m = ctx.rng.range(2, 9);
        for(int i = 0; i < m; ++i) {
            Step s; s.kind = ctx.rng.range(0, 15); s.a = ctx.rng.next(); s.b = ctx.rng.next();
            s.chunk = ctx.rng.chance(0.8) ? hot[ctx.rng.below(hot.size())] : size_t(ctx.rng.below(n));
            if(!ctx.kept(opNo++)) continue;
            plan[t].push_back(s); ++total;
        }
    }
    // attributes: thread 0 writes, all read
    const json attrs0 = json{{"v", 0}, {"pad", "start"}};
    { Quiet q; z::file(backend.root, z::A)->dataset("a")->writeAttrs(attrs0.dump()); }
    z::DsetP common = st.open("a");
    z::NodeP root; { Quiet q; root = z::file(backend.root, z::A); }
    std::vector<std::vector<Call>> calls(n); std::vector<Call> docCalls;
    uint64_t clock = 0;
    static const char * kn[] = {"writeChunk", "writeChunk", "writeChunk", "writeChunk (fill)", "removeChunk", "write", "write part", "scalar", "readChunk", "readChunk", "exists", "read", "read", "write attributes", "read attributes", "open"};
    Users u;
    scope(1);
    for(int t = 0; t < nt; ++t) u.add([&, t] {
        z::DsetP own; int version = 0;
        for(auto & s : plan[t]) {
            size_t ch = s.chunk; int kind = s.kind;
            bool writes = kind <= 7;
            if(writes && single && owner(ch) != t) {                  // somebody else's: read it
                kind = 8 + int((s.b >> 20) % 5); writes = false;
            }
            if(writes && sharded && !single && kind >= 5) kind = 0;
            if(kind == 6 && !single) kind = 5;
            if(kind == 13 && t != 0) kind = 14;
            z::DsetP d = common;
            bool mine = (s.b & 3) == 0 && (!writes || !sharded || single);
            Region r; std::string in, text, err; bool threw = false, ex = false; std::string got;
            z::Shape id = unravel(ch, o.grid());
            Region c = chunkRegion(o, id);
            Rng rr(s.a);
            int threads = 1 + int(s.b >> 8 & 1);
            r = c;
            if(kind == 6) for(size_t k = 0; k < r.off.size(); ++k) { size_t b = rr.below(c.shape[k]), e = b + 1 + rr.below(c.shape[k] - b); r.off[k] = c.off[k] + b; r.shape[k] = e - b; }
            if(kind == 11 || kind == 12) r = kind == 11 ? drawRegion(o, s.a) : c;
            if(kind == 5 || kind == 7) {
                // a block of whole chunks; with one writer each, only one's own chunk
                if(!single) for(size_t k = 0; k < r.off.size(); ++k) if(rr.chance(0.3)) { size_t e = std::min(o.spec.shape[k], r.off[k] + r.shape[k] + o.spec.chunks[k]); r.shape[k] = e - r.off[k]; }
            }
            int zeros = kind == 3 || kind == 4 ? 2 : rr.chance(0.15) ? 2 : 0;
            if(kind <= 6) in = randomBytes(o, prod(r.shape), s.a, zeros);
            if(kind == 7) { std::string v = randomBytes(o, 1, s.a, zeros); for(size_t i = 0; i < prod(r.shape); ++i) in += v; }
            Obj tmp; std::string cb;
            if(kind <= 3) { tmp.spec = o.spec; tmp.esz = o.esz; tmp.fill = o.fill; tmp.buf = o.buf; setRegion(tmp, c, in); cb = chunkBytes(tmp, id); }
            if(kind == 8 || kind == 9) got.assign((o.spec.isZarr ? prod(o.spec.chunks) : prod(c.shape)) * o.esz, '\x5c');
            if(kind == 11 || kind == 12) got.assign(prod(r.shape) * o.esz, '\x5c');
            json doc; if(kind == 13) { ++version; doc = json{{"v", version}, {"pad", std::string(rr.below(60), char('a' + version % 26)) + std::to_string(version)}}; }
            text = threadName(t) + " " + kn[kind] + (kind <= 12 ? " " + shapeStr(r.off) + "+" + shapeStr(r.shape) : "") + (kind == 13 ? " " + std::to_string(version) : "") + (mine ? " (own handle)" : "");
            uint64_t inv, f0; { Quiet q; inv = ++clock; f0 = firedInScope(); }
            {
                Arm arm;
                try {
                    if(mine) { if(!own) own = root->open("a"); d = own; }
                    switch(kind) {
                    case 0: case 1: case 2: case 3: d->writeChunk(id, cb.data()); break;
                    case 4: d->removeChunk(id); break;
                    case 5: case 6: d->write(r.off, r.shape, in.data(), threads); break;
                    case 7: d->scalar(r.off, r.shape, in.data(), threads); break;
                    case 8: case 9: d->readChunk(id, &got[0]); break;
                    case 10: ex = d->exists(id); break;
                    case 11: case 12: d->read(r.off, r.shape, &got[0], threads); break;
                    case 13: root->dataset("a")->writeAttrs(doc.dump()); break;
                    case 14: got = root->dataset("a")->readAttrs(); break;
                    case 15: { z::DsetP e = root->open("a"); NoFaults nf; if(!(e->meta() == o.meta)) fail("metadata-changed", text + ": reports " + e->meta().str()); break; }
                    }
                } catch(const std::exception & e) { NoFaults nf; threw = true; err = e.what(); }
            }
            Quiet q;
            uint64_t resp = ++clock;
            bool fault = firedInScope() > f0;
            ++rec->oracleChecks;
            note(mix(uint64_t(kind), threw)); if(!threw) note(hashBytes(got.data(), got.size(), ex));
            text += threw ? " throws: " + err : std::string();
            Call base; base.inv = inv; base.resp = resp; base.text = text; base.maybe = threw;
            const size_t esz = o.esz;
            if(kind == 13) { base.apply = [doc](const std::string &) { return doc.dump(); }; docCalls.push_back(base); if(threw && !fault) fail("spurious-failure", text); continue; }
            if(kind == 14) { if(threw) { if(!fault) fail("spurious-failure", text); continue; } base.text += " -> " + got; std::string g = json::parse(got).dump(); base.accepts = [g](const std::string & s2) { return s2 == g; }; docCalls.push_back(base); continue; }
            if(kind == 15) { if(threw && !fault) fail("spurious-failure", text); continue; }
            if(threw && !fault && kind != 8 && kind != 9) fail("spurious-failure", text + " (" + specStr(o.spec) + ")");
            if(threw && !writes && fault) continue;
            for(size_t k = 0; k < n; ++k) {
                Region cc = chunkRegion(o, unravel(k, o.grid())), s2;
                if(!overlap(cc, r, s2)) continue;
                Call e = base;
                std::string fill; for(size_t j = 0; j < prod(cc.shape); ++j) fill += o.fill;
                if(writes) { std::string b = part(r, esz, in, s2); e.apply = [=](const std::string & x) { return paste(cc, esz, x, s2, b); }; }
                else if(kind == 10) { bool v = ex; e.text += ex ? " -> yes" : " -> no"; e.accepts = [=](const std::string & x) { return (x != fill) == v; }; }
                else if(threw) e.accepts = [=](const std::string & x) { return x == fill; };       // absent at that moment
                else if(kind <= 9) {
                    std::string b = got;
                    if(o.spec.isZarr) {
                        Region full{cc.off, o.spec.chunks};
                        b = cut(full, esz, got, cc);
                        // a chunk that is not there is not read
                    }
                    e.accepts = [=](const std::string & x) { return x == b; };
                } else { std::string b = part(r, esz, got, s2); e.accepts = [=](const std::string & x) { return cut(cc, esz, x, s2) == b; }; }
                calls[k].push_back(e);
            }
        }
    });
    u.join();
    scope(2);
    for(int t = 0; t < nt; ++t) {
        std::string line = threadName(t) + ":";
        for(auto & s : plan[t]) { line += std::string(" ") + kn[s.kind] + " " + std::to_string(s.chunk) + ";"; ++rec->ops; }
        ctx.say(line);
    }
    // what is stored when all have ended belongs to the history too
    Quiet q;
    z::DsetP d;
    std::string all(o.buf.size(), '\x5c'), doc;
    std::vector<char> ex(n);
    try {
        d = z::file(backend.root, z::R)->open("a");
        d->read(z::Shape(o.spec.shape.size(), 0), o.spec.shape, &all[0], 1);
        for(size_t k = 0; k < n; ++k) ex[k] = d->exists(unravel(k, o.grid()));
        doc = json::parse(z::file(backend.root, z::R)->dataset("a")->readAttrs()).dump();
    } catch(const std::exception & e) { fail("unreadable", "after all threads have ended: " + specStr(o.spec) + " cannot be read: " + e.what()); }
    if(!(d->meta() == o.meta)) fail("metadata-changed", "after all threads have ended: metadata is " + d->meta().str());
    auto explain = [&](std::vector<Call> & h, const std::string & start, const std::string & what) {
        std::sort(h.begin(), h.end(), [](const Call & a, const Call & b) { return a.inv < b.inv; });
        if(h.size() > 63) { probe("history-too-long"); return; }
        Search s(h);
        ++rec->oracleChecks;
        if(s.steps > 200000) probe("search-given-up");
        if(s.go(0, start)) return;
        std::string m;
        for(auto & c : h) m += "\n  [" + std::to_string(c.inv) + "," + std::to_string(c.resp) + "] " + c.text;
        fail("not-linearizable", what + " (" + specStr(o.spec) + "): no order of the calls explains what they returned:" + m);
    };
    Region whole{z::Shape(o.spec.shape.size(), 0), o.spec.shape};
    for(size_t k = 0; k < n; ++k) {
        Region cc = chunkRegion(o, unravel(k, o.grid()));
        std::string fill; for(size_t j = 0; j < prod(cc.shape); ++j) fill += o.fill;
        Call e; e.inv = ++clock; e.resp = ++clock; e.text = "finally read"; std::string b = part(whole, o.esz, all, cc); bool v = ex[k];
        e.accepts = [=](const std::string & x) { return x == b && (x != fill) == v; };
        calls[k].push_back(e);
        explain(calls[k], getRegion(o, cc), "chunk " + shapeStr(unravel(k, o.grid())));
    }
    Call e; e.inv = ++clock; e.resp = ++clock; e.text = "finally read -> " + doc; e.accepts = [doc](const std::string & x) { return x == doc; };
    docCalls.push_back(e);
    explain(docCalls, attrs0.dump(), "the attributes");
    if(backend.foreign) { std::string x = backend.foreign(); if(!x.empty()) fail("other-objects-changed", x); }
    rec->stateHash = storeState(); note(rec->stateHash);
}
SIM_SCENARIO(c26, "registers") { w::sharedUsers(ctx); }

// ---------------------------------------------------------------- creating and removing side by side (C27)
void w::sharedTree(Ctx & ctx) {
    Store st(ctx, 0, 8);
    const int nt = int(ctx.knob("users", 2, ctx.rng.range(2, 4)));
    const int zf = st.fmt > 0 ? zfmtOf(st.fmt) : 2;
    struct Ver { int kind; json attrs; z::Meta meta; std::string data; z::DsSpec spec; uint64_t inv, resp; bool moves; };        // 0 absent, 1 group, 2 dataset
    struct Node { std::string parent, name; int owner; std::vector<Ver> v; };
    static const char * const names[] = {"a", "ab", "a.b", "b", "a-"};
    const std::string parents[] = {"", "g"};
    { Quiet q; z::file(backend.root, z::A)->createGroup("g", zf); }
    std::vector<Node> nodes;
    const uint64_t salt = ctx.rng.next();
    for(auto & p : parents) for(auto n : names) {
        Node x; x.parent = p; x.name = n; x.owner = int(mix(salt, nodes.size()) % uint64_t(nt));
        x.v.push_back({0, json::object(), {}, "", {}, 0, 0, false});
        nodes.push_back(x);
    }
    struct Seen { int what; std::string parent; size_t node; uint64_t inv, resp; bool threw = false, yes = false; z::Meta meta; std::string doc, text; std::vector<std::string> keys; };
    struct Step { int kind; uint64_t a, b; };
    std::vector<std::vector<Step>> plan(nt);
    int opNo = 0;
    for(int t = 0; t < nt; ++t) {
        int m = ctx.rng.range(3, 9);
        for(int i = 0; i < m; ++i) { Step s; s.kind = ctx.rng.range(0, 12); s.a = ctx.rng.next(); s.b = ctx.rng.next(); if(ctx.kept(opNo++)) plan[t].push_back(s); }
    }
    std::vector<std::vector<Seen>> seen(nt); std::vector<std::string> log(nt);
    uint64_t clock = 0;
    auto path = [](const Node & n) { return (n.parent.empty() ? "" : n.parent + "/") + n.name; };
    Users u;
    scope(1);
    for(int t = 0; t < nt; ++t) u.add([&, t] {
        z::NodeP root = z::file(backend.root, z::A), grp = root->group("g");
        std::vector<size_t> mine; { Quiet q; for(size_t i = 0; i < nodes.size(); ++i) if(nodes[i].owner == t) mine.push_back(i); }
        for(auto & s : plan[t]) {
            int kind = s.kind;
            if(mine.empty() && kind <= 6) kind = 7 + kind % 6;
            if(kind <= 6) {
                // one's own node
                Node & n = nodes[mine[s.a % mine.size()]];
                z::NodeP par = n.parent.empty() ? root : grp;
                Ver next = n.v.back(); next.moves = false;
                std::string text; std::function<void()> act;
                Rng r(s.b);
                std::shared_ptr<z::Meta> made;
                if(next.kind == 0) {
                    next.moves = true; next.attrs = json::object();
                    if(r.chance(0.4)) { next.kind = 1; text = "create group"; act = [&] { par->createGroup(n.name, zf); }; }
                    else {
                        Quiet q;
                        next.kind = 2; drawSpec(r, st.fmt, next.spec, st.so); Obj o; initObj(o, next.spec); next.data = o.buf;
                        text = "create dataset";
                        made = std::make_shared<z::Meta>();
                        act = [&, made, spec = next.spec] { z::DsetP d = par->create(n.name, spec); *made = d->meta(); };
                    }
                } else if(kind <= 2) {
                    text = "remove"; bool grp2 = next.kind == 1;
                    next.kind = 0; next.moves = true; next.data.clear(); next.attrs = json::object();
                    act = [&, grp2] { (grp2 ? par->group(n.name) : par->dataset(n.name))->remove(); };
                } else if(kind <= 4 || next.kind == 1) {
                    text = "write attributes"; next.attrs["k"] = r.range(0, 99); next.attrs["by"] = t;
                    act = [&, doc = next.attrs.dump(), g = next.kind == 1] { (g ? par->group(n.name) : par->dataset(n.name))->writeAttrs(doc); };
                } else {
                    Quiet q;
                    Obj o; initObj(o, next.spec); o.buf = next.data;
                    Region g = drawRegion(o, r.next()); std::string b = randomBytes(o, prod(g.shape), r.next(), 0);
                    setRegion(o, g, b); next.data = o.buf; text = "write " + shapeStr(g.off) + "+" + shapeStr(g.shape);
                    act = [&, g, b, all = next.data, sh = next.spec.shape] {
                        z::DsetP d = par->open(n.name); d->write(g.off, g.shape, b.data(), 1);
                        std::string got(all.size(), '\x5c'); d->read(z::Shape(sh.size(), 0), sh, &got[0], 2);
                        if(got != all) fail("wrong-data", "thread " + std::to_string(t) + ": its dataset " + n.parent + "/" + n.name + " is read back wrongly");
                    };
                }
                { Quiet q; next.inv = ++clock; next.resp = ~0ull; n.v.push_back(next); }
                size_t at = n.v.size() - 1;
                try { act(); }
                catch(const std::exception & e) { NoFaults nf; fail("spurious-failure", threadName(t) + " " + text + " " + path(n) + " (" + specStr(next.spec) + ") throws: " + e.what()); }
                Quiet q;
                n.v[at].resp = ++clock; if(made) n.v[at].meta = *made;
                log[t] += " [" + std::to_string(n.v[at].inv) + "," + std::to_string(n.v[at].resp) + "] " + text + " " + path(n) + ";";
                note(mix(n.v[at].inv, n.v[at].resp)); ++rec->oracleChecks;
                continue;
            }
            Seen x; x.what = kind; x.node = s.a % nodes.size(); const Node & n = nodes[x.node];
            x.parent = kind == 7 || kind == 8 ? parents[s.b & 1] : n.parent;
            z::NodeP par = x.parent.empty() ? root : grp;
            { Quiet q; x.inv = ++clock; x.text = threadName(t) + " "; }
            try {
                switch(kind) {
                case 7: case 8: x.text += "list '" + x.parent + "'"; x.keys = par->keys(); break;
                case 9: x.text += "in " + path(n); x.yes = par->in(n.name); break;
                case 10: x.text += "isSubGroup " + path(n); x.yes = par->isSubGroup(n.name); break;
                case 11: x.text += "open " + path(n); { z::DsetP d = par->open(n.name); x.meta = d->meta(); } break;
                case 12: x.text += "read attributes of " + path(n); x.doc = s.b & 1 ? par->group(n.name)->readAttrs() : par->dataset(n.name)->readAttrs(); x.yes = s.b & 1; break;
                }
            } catch(const std::exception & e) { x.threw = true; x.doc = e.what(); }
            Quiet q;
            x.resp = ++clock; ++rec->oracleChecks;
            note(mix(uint64_t(kind), x.threw * 2 + x.yes)); note(mix(x.inv, x.resp)); note(hashBytes(x.doc.data(), x.doc.size(), x.keys.size()));
            log[t] += " [" + std::to_string(x.inv) + "," + std::to_string(x.resp) + "] " + x.text.substr(9) + ";";
            seen[t].push_back(x);
        }
    });
    u.join();
    scope(2);
    Quiet q;
    for(int t = 0; t < nt; ++t) { ctx.say(threadName(t) + ":" + log[t]); rec->ops += plan[t].size(); }
    for(auto & n : nodes) { Node & m = n; std::string line; for(size_t i = 1; i < m.v.size(); ++i) line += " " + std::to_string(m.v[i].kind); if(line.size()) ctx.say(path(n) + " by thread " + std::to_string(n.owner) + ":" + line); }
    // what a call between inv and resp may have seen of a node
    auto window = [&](const Node & n, uint64_t inv, uint64_t resp, bool & moving) {
        std::vector<const Ver *> w; moving = false;
        size_t settled = 0;
        for(size_t i = 0; i < n.v.size(); ++i) if(n.v[i].resp < inv) settled = i;
        for(size_t i = settled; i < n.v.size() && n.v[i].inv < resp; ++i) { w.push_back(&n.v[i]); if(i > settled && n.v[i].moves) moving = true; }
        return w;
    };
    auto judge = [&](const Seen & x) {
        bool moving;
        if(x.what == 7 || x.what == 8) {
            if(x.threw) fail("spurious-failure", x.text + " throws: " + x.doc);
            std::set<std::string> k(x.keys.begin(), x.keys.end());
            if(k.size() != x.keys.size()) fail("wrong-listing", x.text + ": a child is listed twice");
            for(auto & n : nodes) if(n.parent == x.parent) {
                auto w2 = window(n, x.inv, x.resp, moving); bool has = k.erase(n.name);
                if(!moving && has != (w2[0]->kind != 0)) fail("wrong-listing", x.text + ": " + n.name + (has ? " is listed but does not exist" : " is missing"));
            }
            if(x.parent.empty() && !k.erase("g")) fail("wrong-listing", x.text + ": g is missing");
            if(!k.empty()) fail("wrong-listing", x.text + ": lists '" + *k.begin() + "'");
            return;
        }
        const Node & n = nodes[x.node];
        auto w2 = window(n, x.inv, x.resp, moving);
        bool anyData = false, match = false;
        switch(x.what) {
        case 9: if(!moving && (x.threw || x.yes != (w2[0]->kind != 0))) fail("wrong-probe", x.text + ": " + (x.threw ? "throws: " + x.doc : x.yes ? "yes" : "no")); break;
        case 10: if(!moving && w2[0]->kind && (x.threw || x.yes != (w2[0]->kind == 1))) fail("wrong-probe", x.text + ": " + (x.threw ? "throws: " + x.doc : x.yes ? "yes" : "no")); break;
        case 11:
            for(auto v : w2) if(v->kind == 2) { anyData = true; if(v->meta == x.meta) match = true; }
            if(x.threw) { if(!moving && w2[0]->kind == 2) fail("spurious-failure", x.text + " throws: " + x.doc); break; }
            if(!anyData) { if(w2.size() == 1 && w2[0]->kind == 0) fail("opened-nothing", x.text + " succeeds although there is no such dataset"); break; }
            if(!match) fail("metadata-changed", x.text + " reports " + x.meta.str());
            break;
        case 12:
            if(moving || w2[0]->kind == 0) break;
            if(x.yes != (w2[0]->kind == 1)) break;           // through a handle of the wrong kind
            if(x.threw) fail("spurious-failure", x.text + " throws: " + x.doc);
            { json got = json::parse(x.doc); for(auto v : w2) if(got == v->attrs) match = true; }
            if(!match) fail("attributes-wrong", x.text + ": " + x.doc);
            break;
        }
    };
    for(auto & l : seen) for(auto & x : l) judge(x);
    // and afterwards, through new handles
    z::NodeP root = z::file(backend.root, z::R), grp = root->group("g");
    for(auto & p : parents) {
        Seen x; x.what = 7; x.parent = p; x.inv = clock + 1; x.resp = clock + 2; x.text = "afterwards: list '" + p + "'";
        try { x.keys = (p.empty() ? root : grp)->keys(); } catch(const std::exception & e) { x.threw = true; x.doc = e.what(); }
        judge(x);
    }
    for(auto & n : nodes) {
        const Ver & v = n.v.back(); z::NodeP par = n.parent.empty() ? root : grp;
        std::string who = "afterwards: " + path(n);
        ++rec->oracleChecks;
        try {
            if(par->in(n.name) != (v.kind != 0)) fail("wrong-probe", who + (v.kind ? " is gone" : " exists"));
            if(!v.kind) continue;
            if(par->isSubGroup(n.name) != (v.kind == 1)) fail("wrong-probe", who + ": isSubGroup is wrong");
            json got = json::parse((v.kind == 1 ? par->group(n.name) : par->dataset(n.name))->readAttrs());
            if(got != v.attrs) fail("attributes-wrong", who + ": attributes are " + got.dump() + " instead of " + v.attrs.dump());
            if(v.kind != 2) continue;
            z::DsetP d = par->open(n.name);
            std::string all(v.data.size(), '\x5c'); d->read(z::Shape(v.spec.shape.size(), 0), v.spec.shape, &all[0], 1);
            if(all != v.data) fail("wrong-data", who + " (" + specStr(v.spec) + "): wrong content");
            if(!(d->meta() == v.meta)) fail("metadata-changed", who + ": metadata is " + d->meta().str());
        } catch(const std::exception & e) { fail("spurious-failure", who + " throws: " + e.what()); }
    }
    if(backend.foreign) { std::string x = backend.foreign(); if(!x.empty()) fail("other-objects-changed", x); }
    rec->stateHash = storeState(); note(rec->stateHash);
}
SIM_SCENARIO(c27, "tree-users") { w::sharedTree(ctx); }
