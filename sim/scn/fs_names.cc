// C29: names.  Objects of a container are addressed by every spelling of their names, and by names
// that try to lead out of the container; a model tree says what there is, and everything that is
// kept outside of the container has to stay as it was.
#include "users.h"
namespace {
typedef std::vector<std::string> Path;
std::string join(const Path & p) { std::string s; for(auto & c : p) s += (s.empty() ? "" : "/") + c; return s; }
// all stored below the root of the store which is not in the container
std::string others() {
    std::string out, in = backend.fs ? backend.root.substr(4) : "/" + backend.root;
    std::vector<std::string> all; vfs::list(vfs::root, "", all);
    for(auto & p : all) {
        if(p == in || p.compare(0, in.size() + 1, in + "/") == 0) continue;
        out += p;
        vfs::NodeP n = vfs::root;                                  // keys of the object store contain slashes
        if(backend.fs) n = vfs::lookup("/sim" + p);
        else { size_t i = p.find('/', 1); n = n->kids[p.substr(1, i - 1)]; if(i != std::string::npos) n = n->kids[p.substr(i + 1)]; }
        if(n && n->data) out += "=" + *n->data;
        out += "\n";
    }
    return out;
}
}
void w::names(Ctx & ctx) {
    if(backend.fs) {
        Quiet q;
        backend.root = "/sim/jail/c/f";
        // the neighbours
        vfs::dirSalt = 0;
        for(auto p : {"/sim/jail", "/sim/jail/c", "/sim/sim"}) { vfs::NodeP d = vfs::emptyDir(); std::string s = p; size_t i = s.rfind('/'); vfs::lookup(s.substr(0, i).empty() ? "/sim" : s.substr(0, i))->kids[s.substr(i + 1)] = d; }
    }
    int fmt = int(ctx.knob("fmt", 0, long(ctx.rng.below(9))));
    int zf = zfmtOf(fmt);
    const std::string root = backend.root;
    SpecOpt so;
    {
        Quiet q;
        z::file(root, z::A)->createFile(fmt > 0, zf);
        // other containers next to it, above it, and where an absolute name would lead
        if(backend.fs) for(auto p : {"/sim/jail/c/x", "/sim/jail/x", "/sim/x", "/sim/f", "/sim/jail/c/f2"}) { z::NodeP o = z::file(p, z::A); o->createFile(fmt > 0, zf); o->createGroup("a", zf); o->group("a")->createGroup("b", zf); }
        // so that "/sim/..." is a name with a parent
        z::NodeP o = z::file(root, z::A); o->createGroup("sim", zf); o->group("sim")->createGroup("x", zf); o->group("sim")->createGroup("jail", zf);
    }
    ctx.say(std::string("file: ") + (fmt ? "zarr v" + std::to_string(zf) : std::string("n5")));
    struct N { bool data = false; json attrs = json::object(); z::DsSpec spec; z::Meta meta; uint8_t mark = 0; };
    std::map<Path, N> tree;                                    // the root is always there
    tree[Path{}]; tree[Path{"sim"}]; tree[Path{"sim", "x"}]; tree[Path{"sim", "jail"}];
    const std::string before = others();
    setFaultPolicy(ctx, IOF, 0.25);
    // a spelling of a relative name
    auto spell = [](Rng & r, const Path & p) {
        std::string s;
        bool sim = p.size() && p[0] == "sim";
        // absolute only where the simulator serves what a wrong answer would touch
        if(sim && r.chance(0.6)) { s = "/"; if(r.chance(0.3)) s += "/"; }
        else if(r.chance(0.15)) s = "./";
        for(size_t i = 0; i < p.size(); ++i) { if(i) { s += "/"; if(r.chance(0.15)) s += "/"; if(r.chance(0.1)) s += "./"; } s += p[i]; }
        if(r.chance(0.15)) s += "/";
        return s;
    };
    static const char * const outside[] = {"..", "../x", "../x/a", "../../x", "../../../x", "../f2", "a/../../x", "sim/../..", "sim/x/../../../x", "./../x", "a/../..", "..//x/a", "/sim/../x", "/sim/x/../../x", "../f/../x", "../f"};
    static const char * const alpha[] = {"a", "b", "sim", "x", "f", "c", "...", "a.b", "0"};
    int n = ctx.rng.range(4, 14);
    for(int i = 0; i < n; ++i) {
        Rng r(ctx.rng.next());
        if(!ctx.kept(i)) continue;
        scope(uint32_t(i + 1)); ++rec->ops;
        // what is addressed: a group to start from, reached by its own name, and a name below it
        Path base, rel;
        std::vector<Path> groups; for(auto & t : tree) if(!t.second.data) groups.push_back(t.first);
        base = r.chance(0.5) ? Path{} : r.pick(groups);
        std::string baseName = base.empty() ? "" : spell(r, base), name;
        bool leads = r.chance(0.25);
        Path full = base;
        if(leads) name = outside[r.below(sizeof outside / sizeof *outside)];
        else {
            // something below base: existing, or new in an existing group
            std::vector<Path> below; for(auto & t : tree) if(t.first.size() > base.size() && std::equal(base.begin(), base.end(), t.first.begin())) below.push_back(t.first);
            if(below.size() && r.chance(0.5)) full = r.pick(below);
            else { std::vector<Path> gs{base}; for(auto & b : below) if(!tree[b].data) gs.push_back(b); full = r.pick(gs); if(full.size() > 3) full = base; full.push_back(alpha[r.below(sizeof alpha / sizeof *alpha)]); }
            rel = Path(full.begin() + base.size(), full.end());
            name = spell(r, rel);
        }
        bool have = !leads && tree.count(full);
        int op = r.range(0, 11);
        std::string text, err; bool threw = false, yes = false; std::vector<std::string> keys; json doc; z::Meta meta;
        z::DsSpec s; drawSpec(r, fmt, s, so);
        uint8_t mark = uint8_t(1 + r.below(100)); bool asData = have ? tree[full].data : r.chance(0.5);
        json add; add["k" + std::to_string(r.below(3))] = int(r.below(100));
        if(op == 3 && !have) op = 4;
        if(op == 9 && have && full == Path{"sim"}) op = 6;         // keep the parents of the absolute names
        static const char * const what[] = {"create group", "create dataset", "create dataset", "remove", "in", "isSubGroup", "open", "list", "write attributes of", "remove", "read attributes of", "exists"};
        if(op == 9 && !have && !leads) op = 11;
        std::string where = base.empty() ? "" : " of the group '" + baseName + "'";
        text = std::string(what[op]) + " '" + name + "'" + where;
        if(op >= 8 || op == 3) text += asData ? " (dataset handle)" : " (group handle)";
        ctx.say(std::to_string(i) + ": " + text);
        {
            Arm arm;
            try {
                z::NodeP f = z::file(root, z::A), g = base.empty() ? f : f->group(baseName);
                auto h = [&] { return asData ? g->dataset(name) : g->group(name); };
                switch(op) {
                case 0: g->createGroup(name, zf); break;
                case 1: case 2: { z::DsetP d = g->create(name, s); break; }
                case 3: case 9: h()->remove(); break;
                case 4: yes = g->in(name); break;
                case 5: yes = g->isSubGroup(name); break;
                case 6: { z::DsetP d = g->open(name); meta = d->meta(); break; }
                case 7: keys = g->group(name)->keys(); break;
                case 8: h()->writeAttrs(add.dump()); break;
                case 10: doc = json::parse(h()->readAttrs()); break;
                case 11: yes = h()->exists(); break;
                }
            } catch(const std::exception & e) { NoFaults nf; threw = true; err = e.what(); }
        }
        Quiet q;
        bool fired = firedInScope() > 0;
        std::string ctxt = "after " + std::to_string(i) + ": " + text + (threw ? " throws " + err : "");
        note(mix(uint64_t(op) * 4 + threw * 2 + yes, leads));
        if(!allThreadsDone()) fail("threads-left", ctxt + ": threads are still running");
        ++rec->oracleChecks;
        if(others() != before) fail("outside-changed", ctxt + ": something outside of the container has changed");
        if(backend.foreign) { std::string x = backend.foreign(); if(!x.empty()) fail("outside-changed", ctxt + ": " + x); }
        std::string path = root + "/" + join(full);
        if(leads) {
            probe("leads-out");
            if(threw) continue;
            if(op == 4 || op == 5 || op == 11) { if(yes) fail("not-refused", ctxt + ": something outside of the container is found"); }
            else fail("not-refused", ctxt + ": succeeds, although the name leads out of the group");
            continue;
        }
        if(op == 8 && !have) {
            // an object that does not exist: nothing is promised but that nobody else is touched
            if(present(path)) z::file(root, z::A)->group(join(full))->remove();
        } else if(threw && fired) {
            // known again: what is there now
            probe("threw-after-fault");
            bool there = present(path);
            if(op == 8) { try { tree[full].attrs = json::parse((asData ? z::file(root, z::R)->dataset(join(full)) : z::file(root, z::R)->group(join(full)))->readAttrs()); } catch(const std::exception &) {} }
            else if((op <= 2 && !have) || op == 3 || op == 9) {
                // begun and not finished: tidy up
                if(there) { bool data = op == 1 || op == 2 || (have && tree[full].data); z::NodeP f = z::file(root, z::A); (data ? f->dataset(join(full)) : f->group(join(full)))->remove(); }
                for(auto it = tree.begin(); it != tree.end();) if(it->first.size() >= full.size() && std::equal(full.begin(), full.end(), it->first.begin())) it = tree.erase(it); else ++it;
                if(present(path)) fail("not-removed", ctxt + ": and removing it again leaves something of '" + join(full) + "'");
            }
        } else switch(op) {
        case 0: case 1: case 2:
            if(have) { if(!threw) fail("created-again", ctxt + ": '" + join(full) + "' existed"); break; }
            if(threw) fail("spurious-failure", ctxt);
            { N & x = tree[full]; x.data = op > 0; if(op) { x.spec = s; x.meta = z::file(root, z::R)->open(join(full))->meta(); } }
            if(!present(path)) fail("stored-elsewhere", ctxt + ": there is no '" + join(full) + "' in the store");
            break;
        case 3: case 9:
            if(threw) fail("spurious-failure", ctxt);
            for(auto it = tree.begin(); it != tree.end();) if(it->first.size() >= full.size() && std::equal(full.begin(), full.end(), it->first.begin())) it = tree.erase(it); else ++it;
            if(present(path)) fail("not-removed", ctxt + ": something of '" + join(full) + "' is left");
            break;
        case 4: case 11:
            if(threw) fail("spurious-failure", ctxt);
            if(yes != have) fail("wrong-answer", ctxt + ": says " + (yes ? "yes" : "no"));
            break;
        case 5:
            if(have && threw) fail("spurious-failure", ctxt);
            if(have && yes == tree[full].data) fail("wrong-answer", ctxt + ": says " + (yes ? "yes" : "no"));
            break;
        case 6:
            if(have && tree[full].data) { if(threw) fail("spurious-failure", ctxt); if(!(meta == tree[full].meta)) fail("wrong-object", ctxt + ": reports " + meta.str()); }
            else if(!threw) fail("opened-nothing", ctxt + ": succeeds although there is no such dataset");
            break;
        case 7:
            if(!have || tree[full].data) break;
            if(threw) fail("spurious-failure", ctxt);
            { std::set<std::string> k(keys.begin(), keys.end()), want; for(auto & t : tree) if(t.first.size() == full.size() + 1 && std::equal(full.begin(), full.end(), t.first.begin())) want.insert(t.first.back());
              if(k != want || k.size() != keys.size()) { std::string l; for(auto & x : keys) l += " " + x; fail("wrong-listing", ctxt + ": lists" + l); } }
            break;
        case 8:
            if(threw) fail("spurious-failure", ctxt);
            tree[full].attrs.update(add);
            break;
        case 10:
            if(!have) break;
            if(threw) fail("spurious-failure", ctxt);
            if(doc != tree[full].attrs) fail("wrong-object", ctxt + ": the attributes are " + doc.dump());
            break;
        }
        // the tree as others see it, by plain names
        z::NodeP f = z::file(root, z::R);
        for(auto & t : tree) if(t.first.size()) {
            std::string p = join(t.first);
            try {
                if(!f->in(p)) fail("object-lost", ctxt + ": '" + p + "' is gone");
                if(f->isSubGroup(p) == t.second.data) fail("wrong-object", ctxt + ": '" + p + "' has become another kind of object");
                json a = json::parse((t.second.data ? f->dataset(p) : f->group(p))->readAttrs());
                if(a != t.second.attrs) fail("wrong-object", ctxt + ": the attributes of '" + p + "' are " + a.dump());
                if(t.second.data && !(f->open(p)->meta() == t.second.meta)) fail("wrong-object", ctxt + ": the metadata of '" + p + "' has changed");
            } catch(const std::exception & e) { fail("object-lost", ctxt + ": '" + p + "' cannot be read: " + e.what()); }
        }
        for(auto & t : tree) if(!t.second.data) {
            std::vector<std::string> l = (t.first.empty() ? f : f->group(join(t.first)))->keys();
            std::set<std::string> k(l.begin(), l.end()), want; for(auto & u : tree) if(u.first.size() == t.first.size() + 1 && std::equal(t.first.begin(), t.first.end(), u.first.begin())) want.insert(u.first.back());
            if(k != want || k.size() != l.size()) { std::string o; for(auto & x : l) o += " " + x; fail("wrong-listing", ctxt + ": '" + join(t.first) + "' lists" + o); }
        }
        (void) mark;
        ++rec->oracleChecks;
        rec->stateHash = mix(rec->stateHash, storeState()); note(rec->stateHash);
    }
    if(others() != before) fail("outside-changed", "at the end something outside of the container has changed");
    rec->stateHash = mix(rec->stateHash, tree.size()); note(rec->stateHash);
}
SIM_SCENARIO(c29, "names") { w::names(ctx); }
// The document of a dataset as an older version or another program writes it: the dataset stays the same.
namespace {
std::string docOf(int fmt, const std::string & key) { return backend.root + (key.empty() ? "" : "/" + key) + (fmt == 0 ? "/attributes.json" : fmt < 3 ? "/.zarray" : "/zarr.json"); }
json fetchDoc(const std::string & path) {
    if(backend.fetch) return json::parse(backend.fetch(path));
    vfs::NodeP n = vfs::lookup(path);
    if(!n) fail("object-lost", "there is no " + path);
    return json::parse(*n->data);
}
void storeDoc(const std::string & path, const json & j, Rng & r) {
    std::string text;
    if(r.chance(0.5)) text = j.dump(r.chance(0.5) ? -1 : r.range(0, 4));
    else {
        std::vector<std::string> keys; for(auto it = j.begin(); it != j.end(); ++it) keys.push_back(it.key());
        for(size_t i = keys.size(); i > 1; --i) std::swap(keys[i - 1], keys[r.below(i)]);
        const char * nl = r.chance(0.5) ? "\n" : r.chance(0.5) ? "\r\n\t" : " ";
        for(auto & k : keys) text += (text.empty() ? "{" : ",") + std::string(nl) + json(k).dump() + (r.chance(0.5) ? " : " : ":") + j[k].dump();
        text += nl + std::string("}") + (r.chance(0.5) ? "\n" : "");
    }
    if(backend.store) backend.store(path, text);
    else { vfs::NodeP n = vfs::lookup(path); *n->data = text; }
}
std::string otherForm(int fmt, Obj & o, json & j, Rng & r) {
    std::string what;
    auto done = [&](const char * t) { what += std::string(what.empty() ? "" : ", ") + t; };
    auto coin = [&] { return r.chance(0.5); };
    const bool real = o.spec.dtype.compare(0, 5, "float") == 0;
    if(fmt == 0) {
        json c = j.value("compression", json());
        if(coin() && c.is_object() && (c["type"] == "raw" || c["type"] == "gzip")) {
            j["compressionType"] = c["type"]; j.erase("compression"); done("the first version's compression field");
            return what;
        }
        if(c.is_object() && c.value("type", "") == "blosc") { if(coin() && c.value("blocksize", 1) == 0) { j["compression"].erase("blocksize"); done("no block size"); } if(coin() && c.value("nthreads", 0) == 1) { j["compression"].erase("nthreads"); done("no threads"); } }
        return what;
    }
    json & f = j["fill_value"];
    if(f.is_number() && coin()) { double v = f.get<double>(); if(v == std::floor(v) && std::fabs(v) < 1e15) { if(f.is_number_float()) f = int64_t(v); else f = v; done("the fill value in another notation"); } }
    if(fmt < 3) {
        if(j.value("dimension_separator", "") == "." && coin()) { j.erase("dimension_separator"); done("no dimension separator"); }
        if(f == "NaN" && real && coin()) { f = nullptr; done("no fill value"); }
        json & c = j["compressor"];
        if(c.is_object() && c.value("blocksize", 1) == 0 && coin()) { c.erase("blocksize"); done("no block size"); }
        return what;
    }
    json & e = j["chunk_key_encoding"];
    if(e.contains("configuration") && e["configuration"].value("separator", "") == (e["name"] == "v2" ? "." : "/") && r.chance(0.7)) { if(coin()) e.erase("configuration"); else e["configuration"] = json::object(); done("the default separator"); }
    if(f.is_number() && f == 0 && r.chance(0.3)) { f = nullptr; done("no fill value"); }
    if(j.contains("attributes") && j["attributes"].empty() && coin()) { j.erase("attributes"); done("no attributes"); }
    if(coin()) { json n = json::array(); for(size_t k = 0; k < o.spec.shape.size(); ++k) n.push_back(r.chance(0.3) ? json() : json("axis" + std::to_string(k))); j["dimension_names"] = n; done("names of dimensions"); }
    if(coin()) { j["storage_transformers"] = json::array(); done("no transformers"); }
    json * l = &j["codecs"];
    if((*l)[0]["name"] == "sharding_indexed") {
        json & c = (*l)[0]["configuration"];
        if(coin()) { c.erase("index_location"); done("the default location of the index"); }
        if(coin()) { c["index_codecs"][1]["configuration"] = json::object(); done("an empty configuration"); }
        l = &c["codecs"];
    }
    for(auto & c : *l) {
        if(c["name"] == "bytes" && o.esz == 1 && coin()) { c.erase("configuration"); done("no byte order"); }
        if(c["name"] == "gzip" && c.value("configuration", json::object()).value("level", 0) == 5 && coin()) { c.erase("configuration"); done("the default level"); }
        if(c["name"] == "zstd" && coin()) { c["configuration"]["checksum"] = false; done("no checksum"); }
        if(c["name"] == "blosc" && c["configuration"].value("blocksize", 1) == 0 && coin()) { c["configuration"].erase("blocksize"); done("no block size"); }
    }
    return what;
}
}
// C20/C29: what is stored does not depend on where: the same objects elsewhere are the same dataset,
// which can go on being used there
void w::moved(Ctx & ctx, const std::string & to, const std::function<void(const std::string &, const std::string &)> & move) {
    Store st(ctx, 0, 8);
    st.make("a", ctx.rng.next());
    {
        Quiet q;
        json at; at["k"] = 5; z::file(backend.root, z::A)->dataset("a")->writeAttrs(at.dump());
        move(backend.root + "/a", to);
    }
    // opened as a container of its own, or below its parent, which is nothing but a directory
    size_t slash = to.rfind('/');
    bool whole = slash == std::string::npos || slash == 0 || ctx.rng.chance(0.5);
    const std::string key = whole ? "" : to.substr(slash + 1);
    backend.root = whole ? to : to.substr(0, slash);
    ctx.say("moved to " + to + ", opened as '" + key + "' of " + backend.root);
    if(key != "a") { st.ds[key] = st.ds["a"]; st.ds.erase("a"); }
    st.verify(key, "wrong-data", "after it was moved to " + to);
    setFaultPolicy(ctx, IOF, 0.3);
    Obj & o = st.ds[key];
    const std::string doc = docOf(st.fmt, key);
    auto rewrite = [&](Rng r) {
        Quiet q;
        json j = fetchDoc(doc); std::string what = otherForm(st.fmt, o, j, r);
        storeDoc(doc, j, r);
        ctx.say(doc + " written anew" + (what.empty() ? "" : ": " + what));
        if(st.fmt == 0 && j.contains("compressionType")) o.meta.opts = z::file(backend.root, z::R)->open(key)->meta().opts;   // has no level
        st.verify(key, "wrong-data", "after " + doc + " was written anew (" + what + ")");
    };
    if(ctx.knob("rewrite", 0, ctx.rng.chance(0.6))) rewrite(Rng(ctx.rng.next()));
    int n = ctx.rng.range(1, 5);
    for(int i = 0; i < n; ++i) {
        Rng r(ctx.rng.next());
        if(!ctx.kept(i)) continue;
        scope(uint32_t(i + 1)); ++rec->ops;
        Region g = drawRegion(o, r.next()); std::string b = randomBytes(o, prod(g.shape), r.next(), r.range(0, 2));
        size_t c = r.below(o.nChunks()); z::Shape id = unravel(c, o.grid());
        int kind = r.range(0, 3), nt = r.range(1, 3);
        json at; at["n" + std::to_string(i)] = i;
        static const char * const kn[] = {"write ", "write chunk ", "remove chunk ", "attributes"};
        std::string text = kn[kind] + (kind == 0 ? shapeStr(g.off) + " " + shapeStr(g.shape) : kind < 3 ? shapeStr(id) : std::string());
        ctx.say(text);
        bool threw = false; std::string err;
        json docBefore; { Quiet q; docBefore = fetchDoc(doc); }
        {
            Arm arm;
            try {
                z::NodeP f = z::file(backend.root, z::A);
                z::DsetP d = f->open(key);
                if(kind == 0) d->write(g.off, g.shape, b.data(), nt);
                else if(kind == 1) { Obj t = o; Region cr = chunkRegion(o, id); setRegion(t, cr, randomBytes(o, prod(cr.shape), 77 + i, 1)); d->writeChunk(id, chunkBytes(t, id).data()); }
                else if(kind == 2) d->removeChunk(id);
                else f->dataset(key)->writeAttrs(at.dump());
            } catch(const std::exception & e) { NoFaults nf; threw = true; err = e.what(); }
        }
        Quiet q;
        if(threw && !firedInScope()) fail("spurious-failure", text + " at " + to + " throws " + err);
        if(threw) { probe("threw-after-fault"); break; }
        Region cr = chunkRegion(o, id);
        if(kind == 0) setRegion(o, g, b);
        else if(kind == 1) setRegion(o, cr, randomBytes(o, prod(cr.shape), 77 + i, 1));
        else if(kind == 2) { std::string fills; for(size_t k = 0; k < prod(cr.shape); ++k) fills += o.fill; setRegion(o, cr, fills); }
        st.verify(key, "wrong-data", "after " + text + " at " + to);
        json got = json::parse(z::file(backend.root, z::R)->dataset(key)->readAttrs());
        if(got.value("k", 0) != 5) fail("wrong-attributes", "after " + text + " at " + to + " the attributes are " + got.dump());
        if(kind == 3 && !got.contains("n" + std::to_string(i))) fail("wrong-attributes", "after " + text + " at " + to + " the attributes are " + got.dump());
        // the document keeps what z5 does not know, too
        json docAfter = fetchDoc(doc);
        for(json * j : {&docBefore, &docAfter}) { if(st.fmt >= 3) j->erase("attributes"); if(kind == 3) j->erase("n" + std::to_string(i)); }
        if(docBefore != docAfter) fail("metadata-changed", "after " + text + " " + doc + " is " + docAfter.dump() + " instead of " + docBefore.dump());
        rec->stateHash = storeState(); note(rec->stateHash);
        if(r.chance(0.3)) rewrite(Rng(r.next()));
    }
}
SIM_SCENARIO(moved29, "moved") {
    static const char * const places[] = {"/sim/x", "/sim/f/b", "/sim/other/place/of it", "/sim/f.d"};
    w::moved(ctx, places[ctx.knob("to", 0, long(ctx.rng.below(4)))], [](const std::string & from, const std::string & to) {
        size_t i = from.rfind('/');
        vfs::NodeP p = vfs::lookup(from.substr(0, i)), d = p->kids[from.substr(i + 1)];
        p->kids.erase(from.substr(i + 1));
        p = vfs::lookup("/sim");
        for(size_t a = 5;;) {
            size_t b = to.find('/', a); std::string name = to.substr(a, b == std::string::npos ? b : b - a);
            if(b == std::string::npos) { p->kids[name] = d; break; }
            if(!p->kids.count(name)) p->kids[name] = vfs::emptyDir();
            p = p->kids[name]; a = b + 1;
        }
    });
}
