// Damaged metadata and attribute documents (C28).
#include "users.h"
namespace {
// every place in a document
void places(const json & j, const json::json_pointer & at, std::vector<json::json_pointer> & out) {
    out.push_back(at);
    if(j.is_object()) for(auto it = j.begin(); it != j.end(); ++it) places(it.value(), at / it.key(), out);
    else if(j.is_array()) for(size_t i = 0; i < j.size(); ++i) places(j[i], at / i, out);
}
json strange(Rng & r) {
    switch(r.below(16)) {
    case 0: return nullptr; case 1: return -1; case 2: return 0; case 3: return 1; case 4: return uint64_t(1) << (8 + r.below(56));
    case 5: return -(int64_t(1) << r.below(63)); case 6: return 1e300; case 7: return 2.5; case 8: return r.pick(std::vector<const char *>{"", "big", "start", ".", "/", "v2", "default", "array", "NaN", "Infinity", "-Infinity", "nan"}); case 9: return r.pick(std::vector<const char *>{"zstd", "gzip", "raw", "crc32c", "bytes", "uint8", "float64", "<u2", ">u2", "C", "F"}); case 10: return json::array();
    case 11: return json::object(); case 12: return true; case 13: return json::array({1, -1, "x"}); case 14: return json{{"id", "blosc"}, {"name", "sharding_indexed"}}; default: return UINT64_MAX - r.below(4);
    }
}
std::string alter(json & j, Rng & r) {
    std::vector<json::json_pointer> ps; places(j, json::json_pointer(), ps);
    auto p = ps[r.below(ps.size())];
    json & v = j[p];
    std::string at = "'" + p.to_string() + "'";
    switch(r.below(8)) {
    case 0: case 1:
        if(p.empty()) break;
        { json & up = j[p.parent_pointer()]; if(up.is_object()) up.erase(p.back()); else up.erase(size_t(std::stoul(p.back()))); return at + " removed"; }
    case 2: if(v.is_number_integer()) { int64_t d[] = {1, -1, 7, -7}; v = v.get<int64_t>() + d[r.below(4)]; return at + " becomes " + v.dump(); } break;
    case 3: if(v.is_array()) { v.push_back(v.empty() || r.chance(0.3) ? json(1) : v[0]); return at + " becomes " + v.dump(); } break;
    case 4: if(v.is_string()) { std::string s = v; const int w = r.range(0, 3); if(w == 0 && s.size()) s.pop_back(); else if(w == 1 && s.size()) s[r.below(s.size())] = "x1-> F_"[r.below(7)]; else if(w == 2) s = r.pick(std::vector<const char *>{"x", "-", "1", "_", ">i4", ">f8", "F", "big", "start", "group", "array", "rectangular", "default", "v2", "gzip", "transpose"}); else s += "x"; v = s; return at + " becomes " + v.dump(); } break;
    case 5: if(v.is_object() || v.is_array()) { auto q = ps[r.below(ps.size())]; json w = j[q]; v = w; return at + " becomes " + w.dump().substr(0, 60); } break;
    }
    v = strange(r);
    return at + " becomes " + v.dump();
}
// shape-like fields: valid, or not to be opened
bool shapeOf(const json & j, z::Shape & s) {
    if(!j.is_array()) return false;
    s.clear();
    for(auto & e : j) { if(!e.is_number_unsigned() && !(e.is_number_integer() && e.get<int64_t>() >= 0)) return false; s.push_back(e.get<size_t>()); }
    return true;
}
json get(const json & j, const char * p) { json::json_pointer q(p); return j.is_structured() && j.contains(q) ? j.at(q) : json(); }
}
void w::documents(Ctx & ctx) {
    Store st(ctx, 0, 8);
    st.so.fill = ctx.rng.pick(std::vector<long>{0, 1, 3});
    Obj & o = st.make("a", ctx.rng.next(), 0.8);
    st.make("b", ctx.rng.next(), 0.8);
    const bool v3 = st.fmt >= 3, n5 = st.fmt == 0;
    const std::string docAttr = R"({"k":1,"s":"text","l":[1,2],"o":{"x":null}})";
    std::map<std::string, z::Meta> metas;
    std::map<std::string, json> attrs;           // what the nodes hold: "", "g", "g/d", "a", "b"
    {
        Quiet q;
        z::NodeP f = z::file(backend.root, z::A);
        f->createGroup("g", st.fmt ? zfmtOf(st.fmt) : 2);
        z::NodeP g = f->group("g");
        z::DsSpec s = o.spec; g->create("d", s);
        f->writeAttrs(docAttr); g->writeAttrs(docAttr); f->dataset("a")->writeAttrs(docAttr); f->dataset("b")->writeAttrs(docAttr); g->dataset("d")->writeAttrs(docAttr);
        attrs[""] = json::parse(f->readAttrs()); attrs["g"] = json::parse(g->readAttrs()); attrs["a"] = json::parse(f->dataset("a")->readAttrs()); attrs["b"] = json::parse(f->dataset("b")->readAttrs()); attrs["g/d"] = json::parse(g->dataset("d")->readAttrs());
        metas["a"] = st.open("a")->meta(); metas["b"] = st.open("b")->meta(); metas["g/d"] = g->open("d")->meta();
    }
    // the victim
    std::vector<std::string> all, docs;
    if(backend.stored) all = backend.stored(); else vfs::list(vfs::lookup(backend.root), "", all);
    for(auto & p : all) { std::string n = p.substr(p.rfind('/') + 1); if(n == ".zgroup" || n == ".zarray" || n == ".zattrs" || n == "zarr.json" || n == "attributes.json") docs.push_back(p); }
    std::sort(docs.begin(), docs.end());
    std::string victim = docs[ctx.rng.below(docs.size())];
    if(ctx.rng.chance(0.6)) for(auto & d : docs) if(d.size() >= 2 && d.find("/a/") != std::string::npos) { if(d.find("zattrs") == std::string::npos) victim = d; }
    const std::string path = victim[0] == '/' ? backend.root + victim : backend.root + "/" + victim;
    const bool isFile = !backend.fetch;
    if(isFile && !vfs::lookup(path)) fail("harness", "no file " + path);
    auto stored = [&] { return isFile ? *vfs::lookup(path)->data : backend.fetch(path); };
    std::string node = path.substr(backend.root.size()); node = node.substr(0, node.rfind('/')); if(node.size()) node = node.substr(1);
    const std::string name = path.substr(path.rfind('/') + 1);
    const bool holdsAttrs = name == "attributes.json" || name == ".zattrs" || name == "zarr.json";
    const bool holdsMeta = name != ".zattrs";
    const bool isData = node == "a" || node == "b" || node == "g/d";
    const std::string good = stored();
    const json was = json::parse(good);
    std::string bad = good, text;
    json now; bool parses = true, isObject = true;
    Rng r(ctx.rng.next());
    int kind = r.range(0, 9);
    switch(kind) {
    case 0: { size_t n = size_t(ctx.knob("length", 0, r.chance(0.15) ? 0 : long(r.below(good.size())))); bad.resize(n); text = "truncated to " + std::to_string(n) + " of " + std::to_string(good.size()) + " bytes"; break; }
    case 1: { size_t p = r.below(good.size()); bad[p] = char(bad[p] ^ (1 << r.below(8))); text = "a bit flipped at " + std::to_string(p); break; }
    case 2: { size_t p = r.below(good.size()), n = 1 + r.below(20); for(size_t i = p; i < std::min(good.size(), p + n); ++i) bad[i] = r.chance(0.5) ? '\0' : char(r.next()); text = "bytes overwritten at " + std::to_string(p); break; }
    case 3: { bad += r.chance(0.5) ? std::string("}") : std::string(1 + r.below(9), char(r.next())); text = "garbage appended"; break; }
    default: { now = was; int n = r.range(1, 3); text = "edited:";
        // the way compression was written by the first versions of n5
        if(n5 && isData && holdsMeta && now.contains("compression") && r.chance(0.15)) { now["compressionType"] = now["compression"]["type"]; now.erase("compression"); text += " old compression field;"; n = r.range(0, 1); }
        else if(!n5 && isData && holdsMeta && r.chance(0.1)) { now["fill_value"] = r.pick(std::vector<const char *>{"NaN", "Infinity", "-Infinity", "-infinity", "inf", "0"}); text += " fill value " + now["fill_value"].dump() + ";"; n = r.range(0, 1); } for(int i = 0; i < n; ++i) { json t = now; std::string e; try { e = alter(t, r); } catch(const std::exception &) { continue; } now = t; text += " " + e + ";"; } bad = r.chance(0.5) ? now.dump() : now.dump(4); break; }
    }
    try { now = json::parse(bad); } catch(const std::exception &) { parses = false; }
    // the stream parser stops behind the first value
    if(!parses) { try { std::istringstream in(bad); json t; in >> t; now = t; parses = true; } catch(const std::exception &) {} }
    isObject = parses && now.is_object();
    if(bad == good) { ctx.say("no damage"); return; }
    if(isFile) *vfs::lookup(path)->data = bad; else backend.store(path, bad);
    const std::string when = std::string(n5 ? "n5" : v3 ? "zarr v3" : "zarr v2") + ", " + (node.empty() ? "/" : node + "/") + name + " " + text;
    ctx.say(when);
    guardAlloc(true); allocLimit = 1 << 24;
    // what may be opened
    bool mustRefuse = false; z::Shape shape, chunks, shard; bool sharded = false;
    if(isData && holdsMeta) {
        if(!parses || !isObject) mustRefuse = true;
        else if(n5) { if(!shapeOf(get(now, "/dimensions"), shape) || !shapeOf(get(now, "/blockSize"), chunks)) mustRefuse = true; std::reverse(shape.begin(), shape.end()); std::reverse(chunks.begin(), chunks.end()); }
        else if(!v3) { if(!shapeOf(get(now, "/shape"), shape) || !shapeOf(get(now, "/chunks"), chunks)) mustRefuse = true; }
        else {
            if(!shapeOf(get(now, "/shape"), shape) || !shapeOf(get(now, "/chunk_grid/configuration/chunk_shape"), chunks)) mustRefuse = true;
            json c = get(now, "/codecs");
            if(c.is_array()) for(auto & k : c) if(k.is_object() && k.value("name", json()) == "sharding_indexed") { sharded = true; shard = chunks; if(!shapeOf(get(k, "/configuration/chunk_shape"), chunks)) mustRefuse = true; break; }
        }
        if(!mustRefuse && (shape.size() != chunks.size() || (sharded && (shard.empty() || shard.size() != chunks.size())))) mustRefuse = true;
        if(!mustRefuse) for(size_t k = 0; k < chunks.size(); ++k) if(!chunks[k] || (shard.size() && (shard[k] < chunks[k] || shard[k] % chunks[k]))) mustRefuse = true;
    }
    if(isData && holdsMeta && !mustRefuse) { // sizes and coordinates that do not fit 64 bits
        const z::Shape & o1 = shard.size() ? shard : chunks; size_t left = SIZE_MAX;
        for(size_t k = 0; k < o1.size(); ++k) { if(shape[k] > SIZE_MAX - o1[k] || o1[k] > left) mustRefuse = true; left /= o1[k]; }
    }
    std::string comp, why;
    if(isData && holdsMeta && !n5 && !mustRefuse) { json v = get(now, "/fill_value"); if(v.is_string() && v != "NaN" && v != "Infinity" && v != "-Infinity") mustRefuse = true; }
    if(isData && holdsMeta && !n5 && now.contains("zarr_format") && now["zarr_format"] != (v3 ? 3 : 2)) { mustRefuse = true; why = "format"; }
    if(isData && holdsMeta && !mustRefuse) {
        auto is = [&](const char * p, std::initializer_list<const char *> l) { json v = get(now, p); for(auto x : l) if(v == x) return true; why = p; return false; };
        static const std::map<std::string, std::string> cn = {{"raw", "raw"}, {"gzip", "gzip"}, {"bzip2", "bzip2"}, {"xz", "xz"}, {"lz4", "lz4"}, {"blosc", "blosc"}, {"zstd", "zstd"}},
            cz = {{"zlib", "zlib"}, {"gzip", "zlib"}, {"bz2", "bz2"}, {"lz4", "lz4"}, {"blosc", "blosc"}, {"zstd", "zstd"}}, c3 = {{"gzip", "zlib"}, {"blosc", "blosc"}, {"zstd", "zstd"}};
        auto name = [&](const std::map<std::string, std::string> & m, const json & n) { if(n.is_string() && m.count(n)) return m.at(n); mustRefuse = true; why = "compressor"; return std::string(); };
        if(n5) {
            if(!is("/dataType", {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "complex64", "complex128", "complex256"})) mustRefuse = true;
            comp = name(cn, now.contains("compression") ? get(now, "/compression/type") : get(now, "/compressionType"));
        } else if(!v3) {
            if(!is("/dtype", {"|i1", "<i2", "<i4", "<i8", "|u1", "<u2", "<u4", "<u8", "<f4", "<f8", "<c8", "<c16", "<c32"})) mustRefuse = true;
            if(now.contains("order") && !is("/order", {"C"})) mustRefuse = true;
            if(now.contains("dimension_separator") && !is("/dimension_separator", {".", "/"})) mustRefuse = true;
            if(now.contains("filters") && !now["filters"].is_null() && now["filters"].size()) { mustRefuse = true; why = "filters"; }
            if(get(now, "/compressor").is_null()) comp = "raw"; else comp = name(cz, get(now, "/compressor/id"));
        } else {
            if(!is("/data_type", {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "complex64", "complex128", "complex256"})) mustRefuse = true;
            if(!is("/node_type", {"array"}) || !is("/chunk_grid/name", {"regular"}) || !is("/chunk_key_encoding/name", {"default", "v2"})) mustRefuse = true;
            if(get(now, "/chunk_key_encoding").contains("configuration") && get(now, "/chunk_key_encoding/configuration").contains("separator") && !is("/chunk_key_encoding/configuration/separator", {".", "/"})) mustRefuse = true;
            json l = get(now, "/codecs"); int n = 0; bool bytes = false;
            if(shard.size()) {
                json c = get(l, "/0/configuration"), x = get(c, "/index_codecs");
                if(l.size() != 1 || (c.is_object() && c.value("index_location", json("end")) != "end") || x.size() != 2 || get(x, "/0/name") != "bytes" || get(x, "/0/configuration/endian") != "little" || get(x, "/1/name") != "crc32c") { mustRefuse = true; why = "sharding"; }
                l = get(c, "/codecs");
            }
            comp = "raw";
            if(l.is_array()) for(auto & c : l) {
                json k = get(c, "/name");
                if(k == "bytes") { bytes = true; json e = get(c, "/configuration/endian"); if(e == "big" && get(now, "/data_type") != "int8" && get(now, "/data_type") != "uint8") { mustRefuse = true; why = "endian"; } }
                else { comp = name(c3, k); if(n++) { mustRefuse = true; why = "two compressors"; } }
            }
            if(!bytes) { mustRefuse = true; why = "bytes codec"; }
        }
    }
    auto handle = [&](const std::string & p, z::Mode m) { z::NodeP r0 = z::file(backend.root, m); return p.empty() ? r0 : p == "g" ? r0->group("g") : p == "g/d" ? r0->group("g")->dataset("d") : r0->dataset(p); };
    auto openIt = [&](const std::string & p, z::Mode m) { z::NodeP r0 = z::file(backend.root, m); return p == "g/d" ? r0->group("g")->open("d") : r0->open(p); };
    int n = ctx.rng.range(3, 8);
    for(int i = 0; i < n; ++i) {
        Rng q(ctx.rng.next());
        if(!ctx.kept(i)) continue;
        scope(uint32_t(i + 1)); ++rec->ops;
        int op = q.range(0, 9);
        std::string what; bool threw = false; std::string msg;
        uint64_t before = storeState();
        bool mutates = false;
        try {
            if(op <= 3) {
                std::string p = isData && q.chance(0.8) ? node : q.pick(std::vector<std::string>{"a", "b", "g/d"});
                what = "open " + p;
                z::DsetP d = openIt(p, z::A);
                z::Meta m = d->meta();
                if(p != node || !holdsMeta) { if(!(m == metas[p])) fail("metadata-changed", when + ": " + what + " reports " + m.str()); }
                else {
                    if(mustRefuse) fail("damage-accepted", when + ": " + what + " succeeds and reports " + m.str() + " (" + why + ")");
                    const char * dt = n5 ? "dataType" : v3 ? "data_type" : "dtype";
                    if(m.compName != comp || (m.dtype == metas[p].dtype) != (now.value(dt, json()) == was[dt]) || m.isZarr == n5) fail("garbage-read", when + ": " + what + " reports " + m.str() + ", compressor " + m.compName);
                    if(!n5 && now.value(dt, json()) == was[dt] && now.value("fill_value", json()) == was["fill_value"] && m.fill != metas[p].fill) fail("garbage-read", when + ": " + what + " reports another fill value, " + m.str());
                    if(m.shape != shape || m.chunks != chunks || m.shard != shard) fail("garbage-read", when + ": " + what + " reports " + m.str());
                    ++rec->oracleChecks;
                }
                // small requests through what was opened
                Region g; size_t nd = m.shape.size(); bool empty = nd == 0;
                size_t chunkElems = 1; for(auto v : m.chunks) { if(v > (1u << 20) || chunkElems > (1u << 20)) chunkElems = size_t(1) << 40; else chunkElems *= v; }
                size_t units = 1; z::Shape id;
                for(size_t k = 0; k < nd; ++k) {
                    size_t ext = m.shape[k]; if(!ext) { empty = true; break; }
                    size_t w = std::min<size_t>(ext, 1 + q.below(4)), off = q.chance(0.7) ? q.below(std::min<size_t>(ext - w + 1, 16)) : ext - w;
                    g.off.push_back(off); g.shape.push_back(w); units *= 2; id.push_back(off / m.chunks[k]);
                }
                if(empty || nd > 6) continue;
                std::string buf(prod(g.shape) * 16, '\x01');
                int how = q.range(0, 5);
                what += " and " + std::string(how <= 1 ? "read" : how == 2 ? "write" : how == 3 ? "exists" : how == 4 ? "readChunk" : "writeChunk") + " " + shapeStr(g.off) + "+" + shapeStr(g.shape);
                mutates = how == 2 || how == 5;
                if(how <= 1) d->read(g.off, g.shape, &buf[0], 1 + int(q.below(2)));
                else if(how == 2) { if(p == node) d->write(g.off, g.shape, buf.data(), 1); }
                else if(how == 3) { d->chunkSize(id); if(d->exists(id) && isFile) { d->chunkShape(id, true); size_t v; d->varlen(id, v); } }
                else if(chunkElems <= (1u << 20)) {
                    std::string cb(chunkElems * 16, '\x02');
                    if(how == 4) { if(d->exists(id)) d->readChunk(id, &cb[0]); } else if(p == node) d->writeChunk(id, cb.data());
                }
            } else if(op <= 5) {
                std::string p = q.chance(0.7) ? node : q.pick(std::vector<std::string>{"", "g", "a", "b", "g/d"});
                what = "read attributes of '" + p + "'";
                std::string t = handle(p, z::R)->readAttrs();
                ++rec->oracleChecks;
                if(p == node && holdsAttrs) {
                    if(!parses) fail("damage-accepted", when + ": " + what + " returns " + t);
                    json want = n5 || name == ".zattrs" ? now : get(now, "/attributes");
                    if(isObject && name == "zarr.json" && want.is_object() && json::parse(t) != want) fail("garbage-read", when + ": " + what + " returns " + t);
                    if(isObject && name == ".zattrs" && json::parse(t) != want) fail("garbage-read", when + ": " + what + " returns " + t);
                } else if(p != node && json::parse(t) != attrs[p]) fail("attributes-wrong", when + ": " + what + " returns " + t);
            } else if(op == 6) {
                std::string p = q.chance(0.7) ? node : q.pick(std::vector<std::string>{"", "g", "a", "b", "g/d"});
                what = "write attributes of '" + p + "'"; mutates = true;
                handle(p, z::A)->writeAttrs("{\"new\":5}");
                ++rec->oracleChecks;
                if(p != node) attrs[p]["new"] = 5;
                else if(holdsAttrs) {
                    std::string after = stored();
                    if(!parses) fail("damage-accepted", when + ": " + what + " succeeds and stores " + after);
                    json j = json::parse(after), want = now;
                    if(isObject) { if(n5 || name == ".zattrs") want["new"] = 5; else want["attributes"]["new"] = 5; if(j != want) fail("document-damaged", when + ": " + what + " turns " + now.dump() + " into " + j.dump()); }
                    now = j; bad = after;
                }
            } else if(op == 7) {
                what = "list"; auto k = z::file(backend.root, z::R)->keys(); std::sort(k.begin(), k.end());
                if(k != std::vector<std::string>{"a", "b", "g"}) fail("wrong-listing", when + ": the file lists " + std::to_string(k.size()) + " children");
                k = z::file(backend.root, z::R)->group("g")->keys(); if(k != std::vector<std::string>{"d"}) fail("wrong-listing", when + ": the group lists " + std::to_string(k.size()) + " children");
            } else if(op == 8) {
                std::string p = q.pick(std::vector<std::string>{"a", "b", "g"});
                what = "isSubGroup " + p; bool y = z::file(backend.root, z::R)->isSubGroup(p);
                if((p != node) && y != (p == "g")) fail("wrong-probe", when + ": " + what + " says " + (y ? "yes" : "no"));
                if(p == node && !parses && !isData && v3 && false) fail("damage-accepted", when + ": " + what);
            } else {
                what = "group metadata"; std::string t = (q.chance(0.5) ? z::file(backend.root, z::R) : z::file(backend.root, z::R)->group("g"))->metadata();
            }
        } catch(const std::exception & e) { threw = true; msg = e.what(); }
        note(mix(uint64_t(op), threw));
        if(threw) {
            bool about = what.find(node.empty() ? "''" : node) != std::string::npos || op >= 7;
            if(!about) fail("spurious-failure", when + ": " + what + " throws: " + msg);
            if(storeState() != before && !(mutates && isData && op <= 3)) fail("failed-call-changed-store", when + ": " + what + " throws (" + msg + ") but changes the store");
        }
    }
    guardAlloc(false); allocLimit = 0;
    // nobody else is affected
    scope(100);
    if(node != "b") st.verify("b", "neighbour-changed", when);
    if(node != "a") st.verify("a", "neighbour-changed", when);
    Quiet q;
    for(auto & a : attrs) if(a.first != node) { json j = json::parse(handle(a.first, z::R)->readAttrs()); if(j != a.second) fail("neighbour-changed", when + ": the attributes of '" + a.first + "' are now " + j.dump()); }
    rec->stateHash = storeState(); note(rec->stateHash);
}
SIM_SCENARIO(c28, "documents") { w::documents(ctx); }
