#include "world.h"
#include <algorithm>
#include <cmath>
#include <sstream>
using namespace sim;
namespace w {
Backend backend;
static const char * kindName[NKIND] = {"write", "scalar", "writeChunk", "removeChunk", "read", "readChunk", "reopen", "writeAttrs", "removeAttr", "readAttrs",
    "protectedAttr", "createGroup", "createDataset", "createExisting", "remove", "recreateFile", "list", "open", "readOnlyTry"};

// ---------------------------------------------------------------- small helpers
z::Shape unravel(size_t i, const z::Shape & s) {
    z::Shape p(s.size());
    for(size_t d = s.size(); d-- > 0;) { p[d] = i % s[d]; i /= s[d]; }
    return p;
}
size_t ravel(const z::Shape & p, const z::Shape & s) {
    size_t i = 0;
    for(size_t d = 0; d < s.size(); ++d) i = i * s[d] + p[d];
    return i;
}
static size_t prod(const z::Shape & s) { size_t n = 1; for(auto v : s) n *= v; return n; }
void forRegion(const Region & r, const std::function<void(size_t, const z::Shape &)> & f) {
    z::Shape p = r.off;
    for(size_t i = 0, n = prod(r.shape); i < n; ++i) {
        f(i, p);
        for(size_t d = p.size(); d-- && ++p[d] == r.off[d] + r.shape[d]; ) p[d] = r.off[d];
    }
}
std::string getRegion(const Obj & o, const Region & r) {
    std::string out(prod(r.shape) * o.esz, 0);
    forRegion(r, [&](size_t i, const z::Shape & p) { memcpy(&out[i * o.esz], &o.buf[ravel(p, o.spec.shape) * o.esz], o.esz); });
    return out;
}
void setRegion(Obj & o, const Region & r, const std::string & b) {
    forRegion(r, [&](size_t i, const z::Shape & p) { memcpy(&o.buf[ravel(p, o.spec.shape) * o.esz], &b[i * o.esz], o.esz); });
    o.okStamp = 0;
}
Region chunkRegion(const Obj & o, const z::Shape & id) {
    Region r; r.off = id; r.shape = id;
    for(size_t d = 0; d < id.size(); ++d) {
        r.off[d] = id[d] * o.spec.chunks[d];
        r.shape[d] = std::min(o.spec.chunks[d], o.spec.shape[d] - r.off[d]);
    }
    return r;
}
bool regionIsFill(const Obj & o, const Region & r) {
    bool all = true;
    forRegion(r, [&](size_t, const z::Shape & p) { if(memcmp(&o.buf[ravel(p, o.spec.shape) * o.esz], o.fill.data(), o.esz)) all = false; });
    return all;
}
std::string chunkBytes(const Obj & o, const z::Shape & id) {
    Region r = chunkRegion(o, id);
    if(!o.spec.isZarr) return getRegion(o, r);
    std::string out;
    for(size_t i = 0, n = prod(o.spec.chunks); i < n; ++i) out += o.fill;
    z::Shape q;
    forRegion(r, [&](size_t, const z::Shape & p) {
        q = p; for(size_t d = 0; d < q.size(); ++d) q[d] -= r.off[d];
        memcpy(&out[ravel(q, o.spec.chunks) * o.esz], &o.buf[ravel(p, o.spec.shape) * o.esz], o.esz);
    });
    return out;
}
std::string randomBytes(const Obj & o, size_t n, uint64_t salt, int zeros) {
    std::string b(n * o.esz, 0);
    uint32_t M = o.esz == 1 ? 250 : 60000;
    for(size_t i = 0; i < n; ++i) {
        uint64_t h = mix(salt, i);
        uint32_t c = 1 + uint32_t(h % M);
        if(zeros == 2 || (zeros == 1 && (h >> 40 & 1))) c = 0;
        z::encode(o.spec.dtype, o.spec.fill, c, &b[i * o.esz]);
    }
    return b;
}
std::string shapeStr(const z::Shape & s) { std::string r = "("; for(size_t i = 0; i < s.size(); ++i) r += (i ? "," : "") + std::to_string(s[i]); return r + ")"; }
std::string specStr(const z::DsSpec & s) {
    std::ostringstream o;
    o << (s.isZarr ? "zarr v" + std::to_string(s.zfmt) : std::string("n5")) << " " << s.dtype << " shape " << shapeStr(s.shape) << " chunks " << shapeStr(s.chunks);
    if(s.shard.size()) o << " shard " << shapeStr(s.shard);
    o << " " << s.comp; if(s.level >= 0) o << ":" << s.level; if(s.codec.size()) o << ":" << s.codec;
    o << " fill " << s.fill; if(s.isZarr) { o << " delim " << s.delim; if(s.zfmt == 3) o << " " << s.enc; }
    return o.str();
}
int zfmtOf(int fmt) { return fmt <= 2 ? 2 : 3; }

void drawSpec(Rng & r, int fmt, z::DsSpec & s, const SpecOpt & o) {
    static const std::vector<std::string> dts = {"uint8", "int16", "uint32", "float32", "int64", "int8", "uint16", "int32", "uint64", "float64"};
    static const std::vector<std::string> cn5 = {"raw", "gzip", "blosc", "zstd", "lz4", "bzip2", "xz"}, cv2 = {"raw", "zlib", "blosc", "zstd", "lz4", "gzip", "bzip2"}, cv3 = {"raw", "gzip", "blosc", "zstd"};
    uint64_t a = r.next(), b = r.next(), c = r.next();
    s.dtype = dts[(o.dtype >= 0 ? uint64_t(o.dtype) : a) % dts.size()];
    s.isZarr = fmt > 0; s.zfmt = zfmtOf(fmt);
    if(o.huge && r.chance(0.7)) s.dtype = r.pick(std::vector<const char *>{"uint8", "uint16", "int16", "int8"});
    auto & comps = fmt == 0 ? cn5 : fmt <= 2 ? cv2 : cv3;
    s.comp = comps[(o.comp >= 0 ? uint64_t(o.comp) : b) % comps.size()];
    if(o.huge && fmt == 0 && r.chance(0.3)) s.comp = "xz";
    s.delim = fmt == 2 || fmt == 3 || fmt == 6 || fmt == 7 ? "/" : ".";
    s.enc = fmt == 5 || fmt == 6 || fmt == 8 ? "v2" : "default";
    if(s.comp == "blosc") { static const std::vector<std::string> cc = {"lz4", "zstd", "zlib", "blosclz", "lz4hc"}; s.codec = cc[r.below(5)]; s.level = r.range(1, 9); }
    else if(s.comp == "zstd" || s.comp == "gzip" || s.comp == "zlib" || s.comp == "bzip2" || s.comp == "xz") s.level = r.chance(0.5) ? -1 : r.range(1, 9);
    uint64_t fk = (o.fill >= 0 ? uint64_t(o.fill) : c) % 4;
    if(o.complex && (fmt == 1 || fmt == 2) && a >> 52 << 62 == 0) s.dtype = a >> 51 & 1 ? "complex64" : "complex128";
    bool fl = s.dtype[0] == 'f' || s.dtype[0] == 'c', uns = s.dtype[0] == 'u';
    s.fill = fk == 0 ? 0 : fl ? (fk == 1 ? 1.5 : fk == 2 ? std::nan("") : -INFINITY) : uns ? (fk == 1 ? 7 : fk == 2 ? 200 : 1) : (fk == 1 ? 7 : fk == 2 ? -3 : -128);
    // the extremes and what is not exactly a small integer
    if(fk == 1 && c >> 60 >= 8) {
        static const double big[] = {255, 65535, 4294967295., 18446744073709549568.}, small[] = {-128, -32768, -2147483648., -9223372036854775808.};
        int w = s.dtype == "complex64" ? 4 : int(z::elemSize(s.dtype)); w = w == 1 ? 0 : w == 2 ? 1 : w == 4 ? 2 : 3;
        s.fill = fl ? (c >> 59 & 1 ? 0.1 : w == 2 ? -1e30 : 1e300) : uns ? big[w] : c >> 59 & 1 ? small[w] : w == 3 ? 9007199254740993. : -small[w] - 1;
    }
    if(fl && fk == 3 && c >> 63) s.fill = INFINITY;
    int nd = r.range(1, std::min(3, o.maxDim));
    if(o.huge) {   // beyond the buffers the codecs and the clients work with
        const size_t esz = z::elemSize(s.dtype), k = size_t(r.range(200000, 900000)) / esz, w = r.chance(0.5) ? 1 : size_t(r.range(2, 50));
        s.shard.clear(); s.chunks = {k / w}; s.shape = {k / w * size_t(r.range(1, 2)) - size_t(r.below(100))};
        if(w > 1) { s.chunks.push_back(w); s.shape.push_back(w - size_t(r.below(2))); }
        if(fmt >= 7) { s.shard = s.chunks; s.shard[0] *= size_t(r.range(1, 2)); }
        return;
    }
    if(o.maxDim > 3 && !o.big && a >> 61 == 0) nd = r.range(4, o.maxDim);
    s.shape.clear(); s.chunks.clear(); s.shard.clear();
    size_t elems = 1, chunks = 1;
    for(int d = 0; d < nd; ++d) {
        size_t n, k;
        if(o.big) { n = size_t(r.range(20, nd == 1 ? 4000 : nd == 2 ? 70 : 20)); k = size_t(r.range(int(n) / 3 + 1, int(n) + 3)); }
        else {
            n = size_t(r.range(1, nd == 1 ? 40 : nd == 2 ? 14 : nd == 3 ? 7 : nd == 4 ? 4 : 3));
            k = size_t(r.range(1, int(std::min<size_t>(n + 2, 8))));
            if(nd > 3 && (n + k - 1) / k > 2) k = (n + 1) / 2;
            while((n + k - 1) / k > 4) ++k;
            if(nd == 3 && (n + k - 1) / k > 3) k = (n + 2) / 3;
        }
        s.shape.push_back(n); s.chunks.push_back(k);
        elems *= n; chunks *= (n + k - 1) / k;
    }
    if(fmt >= 7) for(int d = 0; d < nd; ++d) s.shard.push_back(s.chunks[d] * size_t(r.range(1, 3)));
}
void initObj(Obj & o, const z::DsSpec & s) {
    o.data = true; o.spec = s; o.attrs = json::object();
    if(!s.isZarr) o.spec.fill = 0;            // n5 has none: documented as ignored
    o.esz = z::elemSize(s.dtype);
    o.fill.assign(o.esz, 0);
    z::encode(s.dtype, o.spec.fill, 0, &o.fill[0]);
    o.buf.clear();
    for(size_t i = 0, n = o.elems(); i < n; ++i) o.buf += o.fill;
    o.okStamp = 0;
}
Region drawRegion(const Obj & o, uint64_t w) {
    Rng r(w);
    Region g;
    int style = r.range(0, 9);
    for(size_t d = 0; d < o.spec.shape.size(); ++d) {
        size_t n = o.spec.shape[d], k = o.spec.chunks[d], b, e;
        int st = style < 6 ? style : r.range(0, 5);
        if(st == 0) { b = 0; e = n; }
        else if(st <= 2) { size_t g0 = (n + k - 1) / k, x = r.below(g0), y = x + 1 + r.below(g0 - x); b = x * k; e = std::min(n, y * k); }
        else if(st == 3) { b = r.below(n); e = b + 1; }
        else { b = r.below(n); e = b + 1 + r.below(n - b); }
        g.off.push_back(b); g.shape.push_back(e - b);
    }
    return g;
}
static std::string regStr(const Region & r) { return shapeStr(r.off) + "+" + shapeStr(r.shape); }

void setFaultPolicy(Ctx & ctx, uint64_t kinds, double pFault) {
    Rng r(ctx.rng.next());
    bool on = r.chance(pFault);
    static const double rates[] = {0.002, 0.006, 0.02, 0.05, 0.15};
    faultPolicy.rate = rates[r.below(5)];
    faultPolicy.maxFaults = r.chance(0.4) ? 1 : r.range(2, 8);
    faultPolicy.minIo = r.chance(0.5) ? 0 : r.below(60);
    uint64_t m = 0;
    int n = 0; for(uint64_t k = kinds; k; k &= k - 1) ++n;
    if(r.chance(0.4)) m = kinds;
    else for(uint64_t k = kinds; k; k &= k - 1) if(r.chance(0.35)) m |= k & -k;
    if(!m) { uint64_t k = kinds; int w = int(r.below(uint64_t(n ? n : 1))); while(w-- > 0) k &= k - 1; m = k & -k; }
    faultPolicy.kinds = on ? m : 0;
    if(faultPolicy.kinds & bit(F_ENOMEM) && r.chance(0.5)) {
        // chosen by place: rare allocations fail as often as frequent ones
        static const int one[] = {2, 4, 8, 20, 50};
        allocSites = one[r.below(5)];
        faultPolicy.rate = r.chance(0.5) ? 1.0 : 0.2;
        if(r.chance(0.7)) faultPolicy.kinds = bit(F_ENOMEM);
    }
    for(int i = 0; i < F_COUNT; ++i) if(faultPolicy.kinds >> i & 1) rec->configured[i] = 1;
}

// ---------------------------------------------------------------- the engine
namespace {
struct Op { int kind; uint64_t a, b, c, d; };
struct Pending {                     // what the operation in flight may have changed
    enum What { NONE, DATA, DOC, CREATE, REMOVE } what = NONE;
    std::string path;
    std::string oldBuf, newBuf;      // DATA
    json oldDoc, newDoc;             // DOC
    bool dataset = false;            // CREATE
    z::DsSpec spec; z::Meta meta; bool haveMeta = false;
};
struct Act {
    std::string text;
    Pending p;
    std::function<void(z::NodeP root, z::DsetP ds)> run;
    bool needDs = false;
};
struct World {
    Ctx & ctx; const Cfg & cfg;
    std::map<std::string, Obj> objs;            // "" is the file itself
    int fmt = 0; bool isZarr = false; int zfmt = 2;
    z::NodeP fh;
    std::string opText; int opIndex = 0;
    SpecOpt so;
    long fullKnob = 0;
    bool threw = false; std::string what; uint64_t fired = 0, fullHits = 0;

    World(Ctx & c, const Cfg & g) : ctx(c), cfg(g) {}

    [[noreturn]] void bad(Sit s, uint32_t aspect, const char * cls, const std::string & msg) {
        if(cfg.report[s] & aspect) fail(cls, "after op " + std::to_string(opIndex) + " [" + opText + "]" + (threw ? " (threw: " + what + ")" : "") + ": " + msg);
        probe((std::string("abandoned-") + cls).c_str());
        finishOk();
    }
    void ok() { ++rec->oracleChecks; }

    static std::string parentOf(const std::string & p) { size_t i = p.rfind('/'); return i == std::string::npos ? "" : p.substr(0, i); }
    static std::string nameOf(const std::string & p) { size_t i = p.rfind('/'); return i == std::string::npos ? p : p.substr(i + 1); }
    std::vector<std::string> children(const std::string & p) const {
        std::vector<std::string> v;
        for(auto & o : objs) if(!o.first.empty() && parentOf(o.first) == p) v.push_back(nameOf(o.first));
        std::sort(v.begin(), v.end());
        return v;
    }
    std::vector<std::string> pathsOf(bool data) const { std::vector<std::string> v; for(auto & o : objs) if(o.second.data == data) v.push_back(o.first); return v; }
    z::NodeP groupNode(z::NodeP root, const std::string & p) const {
        if(p.empty()) return root;
        z::NodeP g = groupNode(root, parentOf(p));
        return g->group(nameOf(p));
    }
    z::NodeP node(z::NodeP root, const std::string & p) const {
        if(p.empty()) return root;
        auto it = objs.find(p);
        z::NodeP g = groupNode(root, parentOf(p));
        return it != objs.end() && it->second.data ? g->dataset(nameOf(p)) : g->group(nameOf(p));
    }
    uint64_t stamp(const std::string & p) {
        if(!backend.digest) return 0;
        uint64_t h = backend.digest(backend.root + (p.empty() ? "" : "/" + p));
        if(!backend.fs) return h | 1;
        // documents of the ancestors
        std::string q = p;
        while(!q.empty()) {
            q = parentOf(q);
            vfs::NodeP n = vfs::lookup(backend.root + (q.empty() ? "" : "/" + q));
            if(n) for(auto & k : n->kids) if(!k.second->dir) h = mix(h, hashBytes(k.second->data->data(), k.second->data->size()));
        }
        return h | 1;
    }

    // ------------------------------------------------------------ observation
    // checks one dataset; returns the bytes found
    void checkDataset(const std::string & p, Obj & o, Sit s, const Pending * pe, bool adopt) {
        NoPreempt np; NoFaults nf;
        z::DsetP d;
        try { d = groupNode(z::file(backend.root, z::R), parentOf(p))->open(nameOf(p)); }
        catch(const std::exception & e) { bad(s, A_META, "dataset-unreadable", "dataset '" + p + "' cannot be opened any more: " + e.what()); }
        try {
            z::Meta m = d->meta();
            if(!(m == o.meta)) bad(s, A_META, "metadata-changed", "dataset '" + p + "' reports " + m.str() + " instead of " + o.meta.str());
            ok();
            z::Shape g = o.grid();
            for(size_t i = 0, n = o.nChunks(); i < n; i += 1 + n / 3) {
                z::Shape id = unravel(i, g);
                auto & known = o.paths[shapeStr(id)];
                std::string cp = d->chunkPath(id);
                if(known.empty()) known = cp;
                else if(known != cp) bad(s, A_META, "chunk-address-changed", "chunk " + shapeStr(id) + " of '" + p + "' is now at " + cp + " instead of " + known);
            }
            bool tol = pe && pe->what == Pending::DATA && pe->path == p;
            std::string got(o.buf.size(), '\x5c');
            z::Shape zero(o.spec.shape.size(), 0);
            try { d->read(zero, o.spec.shape, &got[0], 1); }
            catch(const std::exception & e) { bad(s, A_DATA, "data-unreadable", "reading dataset '" + p + "' (" + specStr(o.spec) + ") throws: " + e.what()); }
            ok();
            if(!tol) {
                if(got != o.buf) {
                    size_t i = 0; while(got.compare(i * o.esz, o.esz, o.buf, i * o.esz, o.esz) == 0) ++i;
                    bad(s, A_DATA, pe && pe->path != p ? "other-data-changed" : "wrong-data", "dataset '" + p + "' (" + specStr(o.spec) + ") differs from the model first at " + shapeStr(unravel(i, o.spec.shape)));
                }
            } else {
                size_t n = o.nChunks();
                std::vector<char> isOld(n, 1), isNew(n, 1);
                for(size_t i = 0; i < o.elems(); ++i) {
                    z::Shape q = unravel(i, o.spec.shape);
                    for(size_t k = 0; k < q.size(); ++k) q[k] /= o.spec.chunks[k];
                    size_t c = ravel(q, g);
                    if(got.compare(i * o.esz, o.esz, pe->oldBuf, i * o.esz, o.esz)) isOld[c] = 0;
                    if(got.compare(i * o.esz, o.esz, pe->newBuf, i * o.esz, o.esz)) isNew[c] = 0;
                }
                bool anyOld = false, anyNew = false;
                for(size_t c = 0; c < n; ++c) {
                    if(!isOld[c] && !isNew[c]) bad(s, A_DATA, "neither-old-nor-new", "chunk " + shapeStr(unravel(c, g)) + " of dataset '" + p + "' (" + specStr(o.spec) + ") holds neither its old nor its new value");
                    if(!isNew[c]) anyOld = true;
                    if(!isOld[c]) anyNew = true;
                }
                if(anyOld && anyNew) probe("partly-written");
                if(adopt) { o.buf = got; o.okStamp = 0; }
            }
            if(!o.nanFill()) for(size_t i = 0, n = o.nChunks(); i < n; ++i) {
                z::Shape id = unravel(i, g);
                bool want = tol ? false : !regionIsFill(o, chunkRegion(o, id));
                bool have = d->exists(id);
                if(tol) { Obj t; t.spec = o.spec; t.esz = o.esz; t.fill = o.fill; t.buf = got; want = !regionIsFill(t, chunkRegion(t, id)); }
                if(have != want) bad(s, A_EXIST, "wrong-existence", "chunk " + shapeStr(id) + " of '" + p + "' " + (have ? "exists but holds only the fill value" : "does not exist but holds data"));
            }
            ok();
        }
        catch(const std::exception & e) { bad(s, A_DATA, "data-unreadable", "checking dataset '" + p + "' throws: " + e.what()); }
    }
    void checkAttrs(const std::string & p, Obj & o, Sit s, const Pending * pe, bool adopt) {
        NoPreempt np; NoFaults nf;
        json j;
        try { j = json::parse(node(z::file(backend.root, z::R), p)->readAttrs()); }
        catch(const std::exception & e) { bad(s, A_ATTR, "attributes-unreadable", "attributes of '" + p + "' cannot be read: " + e.what()); }
        if(p.empty() && !isZarr) {
            if(j.value("n5", "") != "2.0.0") bad(s, A_ATTR, "attributes-wrong", "n5 version of the file is gone: " + j.dump());
            j.erase("n5");
        }
        ok();
        if(pe && pe->what == Pending::DOC && pe->path == p) {
            if(j != pe->oldDoc && j != pe->newDoc) bad(s, A_ATTR, "neither-old-nor-new", "attributes of '" + p + "' are " + j.dump() + ", neither " + pe->oldDoc.dump() + " nor " + pe->newDoc.dump());
            if(adopt) o.attrs = j;
        } else if(j != o.attrs) bad(s, A_ATTR, "attributes-wrong", "attributes of '" + p + "' are " + j.dump() + " instead of " + o.attrs.dump());
    }
    void checkListing(const std::string & p, Sit s, const Pending * pe) {
        NoPreempt np; NoFaults nf;
        std::vector<std::string> want = children(p), got;
        try {
            z::NodeP r = z::file(backend.root, z::R), g = groupNode(r, p);
            if(!g->exists()) bad(s, A_LIST | A_CREATE | A_REMOVE, "object-lost", "group '" + p + "' does not exist any more");
            got = g->keys();
            std::sort(got.begin(), got.end());
            std::string opt;
            if(pe && (pe->what == Pending::CREATE || pe->what == Pending::REMOVE) && parentOf(pe->path) == p && !pe->path.empty()) opt = nameOf(pe->path);
            if(!opt.empty()) {
                got.erase(std::remove(got.begin(), got.end(), opt), got.end());
                want.erase(std::remove(want.begin(), want.end(), opt), want.end());
            }
            if(got != want) {
                std::string t; for(auto & k : got) t += " " + k; t += " instead of"; for(auto & k : want) t += " " + k;
                bad(s, A_LIST, "wrong-listing", "group '" + p + "' lists" + t);
            }
            ok();
            for(auto & k : want) {
                std::string c = p.empty() ? k : p + "/" + k;
                bool data = objs.at(c).data;
                if(!g->in(k)) bad(s, A_LIST, "wrong-listing", "'" + c + "' is not reported as a member");
                if(g->isSubGroup(k) == data) bad(s, A_LIST, "wrong-kind", "'" + c + "' is classified as " + (data ? "group" : "dataset"));
                z::NodeP n = data ? g->dataset(k) : g->group(k);
                if(!n->exists()) bad(s, A_LIST, "wrong-listing", "'" + c + "' is said not to exist");
                if(n->isZarr() != isZarr) bad(s, A_LIST, "wrong-kind", "'" + c + "' is classified as " + (isZarr ? "n5" : "zarr"));
            }
            for(std::string k : {"a", "zz", "b", "a.b", "attributes.json", "zarr.json", ".zgroup", ".zattrs"}) if(k != opt && g->in(k) != (std::find(want.begin(), want.end(), k) != want.end())) bad(s, A_LIST, "wrong-listing", "membership of '" + k + "' in '" + p + "' is wrong");
            ok();
        }
        catch(const std::exception & e) { bad(s, A_LIST, "listing-throws", "listing group '" + p + "' throws without a fault: " + e.what()); }
    }
    void verifyAll(Sit s, const Pending * pe = nullptr, bool adopt = true) {
        for(auto & kv : objs) {
            const std::string & p = kv.first; Obj & o = kv.second;
            if(pe && (pe->what == Pending::REMOVE || pe->what == Pending::CREATE) && (p == pe->path || p.compare(0, pe->path.size() + 1, pe->path + "/") == 0 || pe->path.empty())) continue;
            uint64_t st = stamp(p);
            bool target = pe && pe->path == p;
            if(!target && st && st == o.okStamp) continue;
            if(o.data) checkDataset(p, o, s, pe, adopt); else checkListing(p, s, pe);
            checkAttrs(p, o, s, pe, adopt);
            if(!target && s != S_CRASH) o.okStamp = st;
        }
        NoPreempt np; NoFaults nf;
        if(backend.foreign) { std::string e = backend.foreign(); if(!e.empty()) bad(s, A_DATA | A_REMOVE, "other-objects-changed", e); ok(); }
        if(objs.count("") && !(pe && pe->path.empty() && pe->what != Pending::DOC)) try {
            z::NodeP r = z::file(backend.root, z::R);
            if(!r->exists() || r->isZarr() != isZarr) bad(s, A_LIST | A_CREATE, "wrong-kind", "the file is classified wrongly");
        } catch(const std::exception & e) { bad(s, A_LIST | A_CREATE, "file-unreadable", std::string("probing the file throws: ") + e.what()); }
    }
    // a creation that did not return: absent, not openable, or exactly as requested; then cleanup
    void settleCreation(const Pending & p, Sit s, bool recreate) {
        NoPreempt np; NoFaults nf;
        try {
            z::NodeP r = z::file(backend.root, z::RP);
            if(p.path.empty()) { if(r->exists()) r->remove(); }
            else {
                z::NodeP g = groupNode(r, parentOf(p.path));
                std::string k = nameOf(p.path);
                bool there = g->in(k);
                if(there && p.dataset) {
                    z::DsetP d;
                    try { d = g->open(k); } catch(const std::exception &) { probe("half-created"); }
                    if(d) {
                        z::Meta m = d->meta();
                        if(p.haveMeta && !(m == p.meta)) bad(s, A_META | A_CREATE, "half-created-wrong", "interrupted creation of '" + p.path + "' opens as " + m.str() + " instead of " + p.meta.str());
                        Obj o; initObj(o, p.spec);
                        std::string got(o.buf.size(), '\x5c');
                        d->read(z::Shape(p.spec.shape.size(), 0), p.spec.shape, &got[0], 1);
                        if(got != o.buf) bad(s, A_CREATE, "half-created-wrong", "interrupted creation of '" + p.path + "' opens with data in it");
                    }
                }
                if(there) { if(p.dataset) g->dataset(k)->remove(); else g->group(k)->remove(); }
                if(g->in(k)) bad(s, A_REMOVE | A_CREATE, "not-removed", "'" + p.path + "' is still there after removing the remains of its creation");
            }
            ok();
        }
        catch(const std::exception & e) { bad(s, A_CREATE | A_RETRY, "cannot-clean-up", "removing what an interrupted creation of '" + p.path + "' left behind throws: " + e.what()); }
        (void) recreate;
    }

    // ------------------------------------------------------------ doing one operation
    void guarded(const std::function<void()> & f, bool capacity, uint64_t capW) {
        threw = false; what.clear();
        uint64_t f0 = rec->faults[F_FULL];
        if(capacity && backend.fs) vfs::capacity = vfs::used() + capW % 400;
        {
            Arm arm;
            try { f(); }
            catch(const std::exception & e) { NoFaults nf; threw = true; what = e.what(); }
            catch(...) { NoFaults nf; threw = true; what = "unknown exception"; }
        }
        vfs::capacity = 0;
        fullHits = rec->faults[F_FULL] - f0;
        fired = firedInScope() + fullHits;
        if(!allThreadsDone()) {
            fail("threads-left", "worker threads are still running after the call returned: " + opText);
        }
        noteStr(threw ? "threw" : "done");
    }
    void setupDs(Obj & o, const std::string & p) {
        if(!o.live) { NoPreempt np; NoFaults nf; o.live = groupNode(fh, parentOf(p))->open(nameOf(p)); }
    }

    bool makeAct(const Op & op, Act & a) {
        auto ds = pathsOf(true); auto gs = pathsOf(false);
        auto pickData = [&](uint64_t w) -> std::string { return ds[w % ds.size()]; };
        int nt = 1 + int(op.d % uint64_t(cfg.maxThreads)); if(nt == cfg.maxThreads && (op.d >> 20) % 3 == 0) nt = 1 + nt;
        int zeros = (op.d >> 8) % 8 == 0 ? 2 : (op.d >> 8) % 8 == 1 ? 1 : 0;
        switch(op.kind) {
        case WRITE: case SCALAR: {
            if(ds.empty()) return false;
            std::string p = pickData(op.a); Obj & o = objs[p];
            Region r = drawRegion(o, op.b);
            Obj n; n.spec = o.spec; n.esz = o.esz; n.fill = o.fill; n.buf = o.buf;
            a.needDs = true; a.p.what = Pending::DATA; a.p.path = p; a.p.oldBuf = o.buf;
            if(op.kind == WRITE) {
                std::string b = randomBytes(o, prod(r.shape), op.c, zeros);
                setRegion(n, r, b);
                a.run = [r, b, nt](z::NodeP, z::DsetP d) { d->write(r.off, r.shape, b.data(), nt); };
            } else {
                std::string v = randomBytes(o, 1, op.c, zeros);
                std::string b; for(size_t i = 0, k = prod(r.shape); i < k; ++i) b += v;
                setRegion(n, r, b);
                a.run = [r, v, nt](z::NodeP, z::DsetP d) { d->scalar(r.off, r.shape, v.data(), nt); };
            }
            a.p.newBuf = n.buf;
            a.text = std::string(kindName[op.kind]) + " " + p + " " + regStr(r) + " threads " + std::to_string(nt) + (zeros == 2 ? " (fill value)" : zeros ? " (part fill value)" : "");
            return true;
        }
        case WCHUNK: case RMCHUNK: {
            if(ds.empty()) return false;
            std::string p = pickData(op.a); Obj & o = objs[p];
            z::Shape id = unravel(op.b % o.nChunks(), o.grid());
            Obj n; n.spec = o.spec; n.esz = o.esz; n.fill = o.fill; n.buf = o.buf;
            Region r = chunkRegion(o, id);
            a.needDs = true; a.p.what = Pending::DATA; a.p.path = p; a.p.oldBuf = o.buf;
            setRegion(n, r, randomBytes(o, prod(r.shape), op.c, op.kind == RMCHUNK ? 2 : zeros));
            a.p.newBuf = n.buf;
            if(op.kind == WCHUNK) { std::string b = chunkBytes(n, id); a.run = [id, b](z::NodeP, z::DsetP d) { d->writeChunk(id, b.data()); }; }
            else a.run = [id](z::NodeP, z::DsetP d) { d->removeChunk(id); };
            a.text = std::string(kindName[op.kind]) + " " + p + " " + shapeStr(id) + (op.kind == WCHUNK && zeros == 2 ? " (fill value)" : "");
            return true;
        }
        case WATTR: case RMATTR: {
            auto it = objs.begin(); std::advance(it, long(op.a % objs.size()));
            std::string p = it->first; Obj & o = it->second;
            static const std::vector<std::string> keys = {"a", "b", "units", "x y", "shape", "attributes", "_", "zarr_format", "Z", "node", "", "a/b", "a~1b", "\xc3\xa4", "0"};
            Rng r(op.b);
            a.p.what = Pending::DOC; a.p.path = p; a.p.oldDoc = o.attrs; a.p.newDoc = o.attrs;
            if(op.kind == WATTR) {
                json j = json::object();
                int n = r.range(1, 3);
                for(int i = 0; i < n; ++i) {
                    json v;
                    switch(r.below(9)) { case 0: v = r.range(-5, 1000); break; case 6: v = nullptr; break; case 8: v = r.chance(0.5) ? json::object() : json::array(); break;
                        case 7: { static const std::vector<json> odd = {INT64_MIN, INT64_MAX, UINT64_MAX, (int64_t(1) << 53) + 1, 0.1, -1e300, 5e-324, 1.0, "q\"\\/\n\t\x7f", "\xe2\x98\x83", "", json::array({nullptr}), json{{"", json::array()}}}; v = odd[r.below(odd.size())]; break; } case 1: v = std::string(size_t(r.range(0, 30)), char('a' + r.below(26))); break; case 2: v = json::array({1, "x", r.range(0, 99)}); break;
                        case 3: v = json{{"k", r.range(0, 9)}, {"l", {{"m", nullptr}}}}; break; case 4: v = r.chance(0.5); break; default: v = double(r.range(0, 1000)) / 8; }
                    j[keys[r.below(keys.size())]] = v;
                }
                for(auto & e : j.items()) a.p.newDoc[e.key()] = e.value();
                std::string t = j.dump();
                a.run = [this, p, t](z::NodeP root, z::DsetP) { node(root, p)->writeAttrs(t); };
                a.text = "writeAttrs '" + p + "' " + t;
            } else {
                std::string k = o.attrs.empty() || r.chance(0.2) ? keys[r.below(keys.size())] : [&] { auto e = o.attrs.begin(); std::advance(e, long(r.below(o.attrs.size()))); return std::string(e.key()); }();
                a.p.newDoc.erase(k);
                a.run = [this, p, k](z::NodeP root, z::DsetP) { node(root, p)->removeAttr(k); };
                a.text = "removeAttr '" + p + "' " + k;
            }
            return true;
        }
        case CGROUP: case CDATA: {
            if(objs.size() > 7) return false;
            std::string g = gs[op.a % gs.size()];
            if(std::count(g.begin(), g.end(), '/') >= 2) g = "";
            static const std::vector<std::string> names = {"a", "ab", "a.b", "b", "0", "c", "a_0", "data"};
            std::string k; for(size_t i = 0; i < names.size(); ++i) { std::string t = names[(op.b + i) % names.size()]; if(!objs.count(g.empty() ? t : g + "/" + t)) { k = t; break; } }
            if(k.empty()) return false;
            a.p.what = Pending::CREATE; a.p.path = g.empty() ? k : g + "/" + k;
            int zf = zfmt;
            if(op.kind == CGROUP) {
                a.run = [this, g, k, zf](z::NodeP root, z::DsetP) { groupNode(root, g)->createGroup(k, zf); };
                a.text = "createGroup " + a.p.path;
            } else {
                Rng r(op.c);
                z::DsSpec s;
                int f = fmt <= 0 ? 0 : zfmt == 2 ? r.range(1, 2) : (cfg.plainOnly ? r.range(3, 6) : r.range(std::max(3, cfg.fmtLo), std::max(3, cfg.fmtHi)));
                if(r.chance(0.6)) f = fmt;
                SpecOpt o = so; o.big = cfg.bigChunks; o.huge = cfg.hugeChunks;
                drawSpec(r, f, s, o);
                a.p.dataset = true; a.p.spec = s;
                { // what it will report, learnt from a creation nobody disturbs
                    NoPreempt np; NoFaults nf;
                    a.p.meta = referenceMeta(s); a.p.haveMeta = true;
                }
                a.run = [this, g, k, s](z::NodeP root, z::DsetP) { created = groupNode(root, g)->create(k, s); };
                a.text = "createDataset " + a.p.path + " " + specStr(s);
            }
            return true;
        }
        case REMOVE: {
            std::vector<std::string> v; for(auto & o : objs) if(!o.first.empty()) v.push_back(o.first);
            if(v.empty()) return false;
            std::string p = v[op.a % v.size()];
            a.p.what = Pending::REMOVE; a.p.path = p; a.p.dataset = objs[p].data;
            bool viaDs = a.p.dataset && op.b % 3 == 0, viaUtil = a.p.dataset && op.b % 3 == 1;
            if(viaDs || viaUtil) {
                a.needDs = true;
                a.run = [viaUtil, nt](z::NodeP, z::DsetP d) { if(viaUtil) d->removeAll(nt); else d->remove(); };
            } else a.run = [this, p](z::NodeP root, z::DsetP) { node(root, p)->remove(); };
            a.text = "remove " + p + (viaDs ? " (dataset object)" : viaUtil ? " (parallel)" : "");
            return true;
        }
        case RFILE: {
            a.p.what = Pending::REMOVE; a.p.path = "";
            a.run = [](z::NodeP root, z::DsetP) { root->remove(); };
            a.text = "remove file";
            return true;
        }
        default: return false;
        }
    }
    z::DsetP created;
    // metadata of a dataset with this specification as a fresh handle reports it
    z::Meta referenceMeta(const z::DsSpec & s) {
        z::Meta m;
        {
            vfs::NodeP keep = vfs::root; bool cc = vfs::captureCrash; vfs::captureCrash = false;
            vfs::root = vfs::emptyDir();
            z::NodeP f = z::file(backend.root, z::A); f->createFile(s.isZarr, s.zfmt);
            z::DsetP d = f->create("r", s);
            m = d->meta();
            vfs::root = keep; vfs::captureCrash = cc;
        }
        if(m.shape != s.shape || m.chunks != s.chunks || m.shard != s.shard) bad(S_OK, A_META, "metadata-changed", "a new dataset reports " + m.str() + " for " + specStr(s));
        return m;
    }

    void crashChecks(const Act & a) {
        if(!backend.kills || !cfg.crash) return;
        std::vector<vfs::Snap> sn; sn.swap(vfs::snaps);
        std::vector<size_t> pickd;
        if(spec.replay) {
            for(size_t i = 0; i < sn.size(); ++i) if(spec.crash.set && sn[i].scope == spec.crash.scope && sn[i].point == spec.crash.point && sn[i].torn == spec.crash.torn) pickd.push_back(i);
        } else {
            size_t maxN = 8;
            if(sn.size() <= maxN) for(size_t i = 0; i < sn.size(); ++i) pickd.push_back(i);
            else { Rng r(mix(spec.seed, uint64_t(opIndex) * 31 + 7)); std::set<size_t> t; while(t.size() < maxN) t.insert(r.below(sn.size())); pickd.assign(t.begin(), t.end()); }
        }
        NoPreempt np; NoFaults nf;
        vfs::NodeP keep = vfs::root;
        std::map<std::string, Obj> saved = objs;      // live handles are shared, buffers copied
        bool sThrew = threw; std::string sWhat = what;
        for(size_t i : pickd) {
            scope(uint32_t(1000000 + opIndex * 10000 + int(i)));      // numbered independently: a replay looks at one of them only
            vfs::root = vfs::clone(sn[i].tree);
            rec->haveCrash = 1; rec->crashScope = sn[i].scope; rec->crashPoint = sn[i].point; rec->crashTorn = sn[i].torn;
            ++rec->crashPoints; ++rec->faults[F_CRASH];
            threw = true; what = "process killed after " + std::to_string(sn[i].point) + " store changes" + (sn[i].torn ? " inside a write" : "");
            for(auto & o : objs) { o.second.live.reset(); o.second.okStamp = 0; }
            verifyAll(S_CRASH, &a.p, true);
            afterFailure(a, S_CRASH, true);
            objs = saved;
        }
        rec->haveCrash = 0;
        vfs::root = keep;
        threw = sThrew; what = sWhat;
        scope(uint32_t(20000 + opIndex));
    }
    // after a failed (or killed) operation: it must be possible to do it again
    void afterFailure(const Act & a, Sit s, bool redo) {
        if(a.p.what == Pending::CREATE) settleCreation(a.p, s, true);
        if(!redo) {
            if(a.p.what == Pending::REMOVE) redo = true; else return;
        }
        NoPreempt np; NoFaults nf;
        z::NodeP root = z::file(backend.root, z::A);
        try {
            if(a.p.what == Pending::REMOVE) {
                // whatever is left can be removed
                if(a.p.path.empty()) { if(root->exists()) root->remove(); }
                else {
                    z::NodeP n = node(root, a.p.path);
                    if(n->exists()) n->remove();
                }
            } else {
                z::DsetP d;
                if(a.needDs) d = groupNode(root, parentOf(a.p.path))->open(nameOf(a.p.path));
                a.run(root, d);
            }
        } catch(const std::exception & e) { bad(s, A_RETRY, "not-recovered", std::string("doing it again without faults throws: ") + e.what()); }
        ok();
        applySuccess(a);
        verifyAll(s == S_CRASH ? S_CRASH : S_HARM);
    }
    // model changes of a completed operation
    void applySuccess(const Act & a) {
        switch(a.p.what) {
        case Pending::DATA: { Obj & o = objs[a.p.path]; o.buf = a.p.newBuf; o.okStamp = 0; break; }
        case Pending::DOC: { Obj & o = objs[a.p.path]; o.attrs = a.p.newDoc; o.okStamp = 0; break; }
        case Pending::CREATE: {
            Obj o; 
            if(a.p.dataset) { initObj(o, a.p.spec); o.meta = a.p.meta; }
            objs[a.p.path] = o;
            if(backend.made) backend.made(backend.root + "/" + a.p.path);
            objs[parentOf(a.p.path)].okStamp = 0;
            break;
        }
        case Pending::REMOVE: {
            if(a.p.path.empty()) {
                {
                    NoPreempt np; NoFaults nf;
                    try { if(z::file(backend.root, z::R)->exists()) bad(S_OK, A_REMOVE, "not-removed", "the file is still there"); ok(); }
                    catch(const std::exception & e) { bad(S_OK, A_REMOVE, "not-removed", std::string("probing the removed file throws: ") + e.what()); }
                    objs.clear(); objs[""] = Obj();
                    try { z::file(backend.root, z::A)->createFile(isZarr, zfmt); }
                    catch(const std::exception & e) { bad(S_OK, A_CREATE | A_RETRY, "cannot-recreate", std::string("creating the removed file again throws: ") + e.what()); }
                }
                break;
            }
            for(auto it = objs.begin(); it != objs.end();) if(it->first == a.p.path || it->first.compare(0, a.p.path.size() + 1, a.p.path + "/") == 0) it = objs.erase(it); else ++it;
            objs[parentOf(a.p.path)].okStamp = 0;
            break;
        }
        default: break;
        }
    }

    void mutate(const Op & op) {
        Act a;
        if(!makeAct(op, a)) return;
        opText = a.text; ctx.say(std::to_string(opIndex) + ": " + a.text);
        z::DsetP d;
        if(a.needDs) { Obj & o = objs[a.p.path]; setupDs(o, a.p.path); d = o.live; }
        created.reset();
        bool cap = cfg.full && fullKnob && faultPolicy.kinds && (op.d >> 32) % 3 == 0;
        if(cfg.crash && backend.kills) { vfs::snaps.clear(); vfs::captureCrash = true; }
        std::set<std::string> before; if(backend.fs && faultPolicy.kinds) before = strays();
        guarded([&] { a.run(fh, d); }, cap, op.d >> 40);
        vfs::captureCrash = false;
        // one thing failed, so cleaning up after it did not
        const bool single = backend.fs && threw && firedInScope() + (fullHits ? 1 : 0) == 1;
        std::set<std::string> after; if(single) after = strays();
        d.reset();
        if(a.p.what == Pending::REMOVE) for(auto & o : objs) o.second.live.reset();
        crashChecks(a);
        if(!threw) {
            applySuccess(a);
            if(a.p.what == Pending::CREATE && a.p.dataset) objs[a.p.path].live = created;
            created.reset();
            if(fired) probe("returned-despite-fault");
            verifyAll(fired ? S_ACK : S_OK);
            if(a.p.what == Pending::REMOVE && !a.p.path.empty()) checkGone(a, fired ? S_ACK : S_OK);
            return;
        }
        created.reset();
        if(!fired) bad(S_OK, A_SPUR, "spurious-failure", "throws although nothing failed: " + what);
        probe("threw-after-fault");
        verifyAll(S_HARM, &a.p);
        if(single) {
            for(auto & p : after) if(!before.count(p)) bad(S_HARM, A_DATA | A_ATTR | A_CREATE, "left-behind", "the unfinished file '" + p + "' stays in the store");
            ok();
        }
        afterFailure(a, S_HARM, op.c % 4 != 0);
    }
    // files that hold neither a chunk nor a document
    std::set<std::string> strays() {
        NoPreempt np; NoFaults nf;
        std::set<std::string> out;
        std::vector<std::string> all; vfs::list(vfs::lookup(backend.root), "", all);
        for(auto & p : all) {
            vfs::NodeP f = vfs::lookup(backend.root + (p[0] == '/' ? "" : "/") + p);
            if(!f || f->dir) continue;
            const std::string n = p.substr(p.rfind('/') + 1);
            if(n == ".zgroup" || n == ".zarray" || n == ".zattrs" || n == "zarr.json" || n == "attributes.json") continue;
            if(n[0] != '.' && n.find_first_not_of("0123456789.c") == std::string::npos) continue;
            out.insert(p);
        }
        return out;
    }
    void checkGone(const Act & a, Sit s) {
        NoPreempt np; NoFaults nf;
        try {
            z::NodeP g = groupNode(z::file(backend.root, z::R), parentOf(a.p.path));
            std::string k = nameOf(a.p.path);
            if(g->in(k) || g->dataset(k)->exists()) bad(s, A_REMOVE, "not-removed", "'" + a.p.path + "' is still there although its removal returned");
            ok();
        } catch(const std::exception & e) { bad(s, A_REMOVE, "not-removed", std::string("probing the removed name throws: ") + e.what()); }
        if(backend.remains ? backend.remains(backend.root + "/" + a.p.path) : bool(vfs::lookup(backend.root + "/" + a.p.path))) bad(s, A_REMOVE, "not-removed", "remains of '" + a.p.path + "' are in the store");
    }

    // requests that do not fit the dataset
    std::function<void()> badRequest(Obj & o, z::DsetP d, uint64_t b, uint64_t c) {
        const z::Shape & sh = o.spec.shape;
        size_t n = sh.size(), k = size_t(b >> 8) % n;
        int nt = 1 + int((b >> 16) % uint64_t(cfg.maxThreads));
        Region r = drawRegion(o, c);
        int what = int(b % 13);
        auto buf = std::make_shared<std::string>();
        z::Shape id;
        for(size_t g : o.grid()) id.push_back(g - 1);
        auto size = [o = &o](const z::Shape & s) { size_t m = o->esz; for(auto v : s) m *= v; return m; };
        switch(what) {
        case 0: case 1: case 2:               // outside of the array, the end overflowing or not
            switch((b >> 24) % 4) {
            case 0: r.off[k] = sh[k] - r.shape[k] + 1; break;
            case 1: r.off[k] = sh[k] + (b >> 32) % 20; break;
            case 2: r.off[k] = size_t(0) - r.shape[k] + (b >> 32) % r.shape[k]; break;
            default: r.shape[k] = sh[k] - r.off[k] + 1;
            }
            break;
        case 3: case 4: r.shape[k] = 0; break;
        case 5: case 6:
            if(n > 1 && b >> 24 & 1) { r.off.pop_back(); r.shape.pop_back(); }
            else { r.off.push_back(0); r.shape.push_back(1); }
            break;
        case 7: case 8: id[k] += 1 + (b >> 24) % 3; break;
        case 9: if(n > 1 && b >> 24 & 1) id.pop_back(); else id.push_back(0); break;
        case 10: if(!o.spec.isZarr) return nullptr; break;
        }
        static const char * names[] = {"write outside of the array", "read outside of the array", "fill outside of the array", "write of an empty region", "read of an empty region", "write with the wrong dimension", "read with the wrong dimension",
                                       "chunk write outside of the grid", "chunk read outside of the grid", "chunk access with the wrong dimension", "variable-length chunk write", "request with elements of another type", "request with elements of another type"};
        opText = std::string(names[what]);
        if(what < 7 || what > 10) {
            opText += " " + regStr(r) + " threads " + std::to_string(nt);
            buf->assign(std::min<size_t>(what > 10 ? size(r.shape) / o.esz * 8 : size(r.shape), 1 << 20) + 16, '\x21');
        } else {
            opText += " " + shapeStr(id);
            buf->assign(size(o.spec.chunks) + 16, '\x21');
        }
        switch(what) {
        case 0: case 3: case 5: return [=] { d->write(r.off, r.shape, buf->data(), nt); };
        case 1: case 4: case 6: return [=] { d->read(r.off, r.shape, &(*buf)[0], nt); };
        case 2: return [=] { d->scalar(r.off, r.shape, buf->data(), nt); };
        case 11: case 12: { int how = int((b >> 32) % 7), other = int((b >> 40) % 9); return [=] { d->wrongType(how, other, r.off, r.shape, &(*buf)[0], nt); }; }
        case 7: return [=] { d->writeChunk(id, buf->data()); };
        case 8: return [=] { d->readChunk(id, &(*buf)[0]); };
        case 9:
            switch((b >> 25) % 5) {
            case 0: return [=] { d->writeChunk(id, buf->data()); };
            case 1: return [=] { d->readChunk(id, &(*buf)[0]); };
            case 2: return [=] { d->exists(id); };
            case 3: return [=] { d->removeChunk(id); };
            default: return [=] { d->chunkShape(id, false); };
            }
        default: return [=] { d->writeChunk(id, buf->data(), true, 2); };
        }
    }
    // calls that must be refused and change nothing
    void illegal(const Op & op) {
        std::function<void()> f;
        auto gs = pathsOf(false), ds = pathsOf(true);
        if(op.kind == CEXIST) {
            auto it = objs.begin(); std::advance(it, long(op.a % objs.size()));
            std::string p = it->first;
            if(p.empty()) { bool zz = op.b % 2; int zf = op.b % 3 ? 2 : 3; f = [this, zz, zf] { fh->createFile(zz, zf); }; opText = "createFile over the existing one"; }
            else if(op.b % 2) { f = [this, p] { groupNode(fh, parentOf(p))->createGroup(nameOf(p), zfmt); }; opText = "createGroup over existing " + p; }
            else {
                Rng r(op.c); z::DsSpec s; drawSpec(r, fmt, s, so);
                f = [this, p, s] { groupNode(fh, parentOf(p))->create(nameOf(p), s); }; opText = "createDataset over existing " + p;
            }
        } else if(op.kind == BADREQ) {
            if(ds.empty()) return;
            std::string p = ds[op.a % ds.size()]; Obj & o = objs[p];
            setupDs(o, p);
            f = badRequest(o, o.live, op.b, op.c);
            if(!f) return;
            opText += " of " + p + " (" + specStr(o.spec) + ")";
        } else if(op.kind == BADMAKE) {
            Rng r(op.c); z::DsSpec s; drawSpec(r, fmt, s, so);
            std::string g = gs[op.a % gs.size()], k = "refused";
            size_t d = size_t(op.b >> 8) % s.shape.size();
            switch(op.b % 10) {
            case 0: s.chunks[d] = 0; break;
            case 1: s.chunks.push_back(1); break;
            case 2: s.chunks.pop_back(); break;
            case 3: s.dtype = op.b & 64 ? "float16" : "int"; break;
            case 4: s.comp = op.b & 64 ? "snappy" : ""; break;
            case 5: if(fmt >= 7) s.shard[d] = s.shard[d] * 2 + (s.chunks[d] > 1 ? 1 : 0), s.shard[d] -= s.chunks[d] > 1 ? 0 : s.shard[d]; else { if(fmt >= 3) return; s.shard = s.chunks; } break;
            case 6: if(fmt < 7) return; s.shard.push_back(s.shard[0]); break;
            case 7: if(!fmt) return; s.delim = op.b & 64 ? "x" : ""; break;
            case 8: if(fmt < 3) return; s.enc = op.b & 64 ? "v1" : ""; break;
            default: {    // sizes that do not fit 64 bits
                size_t e = fmt >= 7 ? s.shard[d] : s.chunks[d];
                if(op.b & 64 || s.shape.size() == 1) s.shape[d] = SIZE_MAX - (op.c >> 8) % e;
                else for(size_t i = 0; i < s.shape.size(); ++i) { size_t m = fmt >= 7 ? s.shard[i] / s.chunks[i] : 1; s.chunks[i] = size_t(1) << (i < 2 ? 34 : 2); if(fmt >= 7) s.shard[i] = s.chunks[i] * m; }
            }
            }
            f = [this, g, k, s] { groupNode(fh, g)->create(k, s); };
            opText = "create an impossible dataset in '" + g + "': variant " + std::to_string(op.b % 10) + " " + specStr(s);
        } else {     // BADATTR
            if(isZarr) return;
            static const std::vector<std::string> res = {"dimensions", "blockSize", "dataType", "compression", "compressionType"};
            std::string k = res[op.b % res.size()], p;
            bool rootN5 = ds.empty() || op.a % 4 == 0;
            if(rootN5) k = "n5"; else p = ds[op.a % ds.size()];
            bool rm = op.c % 2;
            f = [this, p, k, rm] { if(rm) node(fh, p)->removeAttr(k); else node(fh, p)->writeAttrs(json{{"ok", 1}, {k, 5}}.dump()); };
            opText = std::string(rm ? "remove" : "write") + " protected attribute '" + k + "' of '" + p + "'";
        }
        ctx.say(std::to_string(opIndex) + ": " + opText);
        uint64_t before = backend.digest ? backend.digest(backend.root) : 0;
        guarded(f, false, 0);
        if(!threw) {
            // a concurrently injected fault is no excuse
            bad(S_ILLEGAL, op.kind == CEXIST || op.kind == BADMAKE ? A_CREATE : op.kind == BADREQ ? A_DATA : A_ATTR, "not-refused", "must throw but returned");
        }
        ok();
        if(backend.digest && backend.digest(backend.root) != before) for(auto & o : objs) o.second.okStamp = 0;
        verifyAll(S_ILLEGAL);
    }

    // reading calls under faults
    void reading(const Op & op) {
        auto gs = pathsOf(false), ds = pathsOf(true);
        std::function<std::string()> f;      // empty: right
        int nt = 1 + int(op.d % uint64_t(cfg.maxThreads));
        if(op.kind == READ || op.kind == RCHUNK || op.kind == OPEN) {
            if(ds.empty()) return;
            std::string p = ds[op.a % ds.size()]; Obj & o = objs[p];
            if(op.kind == READ) {
                Region r = drawRegion(o, op.b);
                setupDs(o, p);
                opText = "read " + p + " " + regStr(r) + " threads " + std::to_string(nt);
                auto got = std::make_shared<std::string>(prod(r.shape) * o.esz, '\x5c');
                auto want = std::make_shared<std::string>(getRegion(o, r));
                z::DsetP d = o.live;
                f = [=, &o]() -> std::string {
                    d->read(r.off, r.shape, &(*got)[0], nt);
                    NoFaults nf;
                    if(*got != *want) { size_t i = 0; while((*got).compare(i * o.esz, o.esz, *want, i * o.esz, o.esz) == 0) ++i; return "returned wrong data, first at element " + std::to_string(i) + " of the region (" + specStr(o.spec) + ")"; }
                    return "";
                };
            } else if(op.kind == RCHUNK) {
                z::Shape id = unravel(op.b % o.nChunks(), o.grid());
                setupDs(o, p);
                bool there = o.nanFill() ? o.live->exists(id) : !regionIsFill(o, chunkRegion(o, id));
                std::string want = chunkBytes(o, id);
                z::DsetP d = o.live;
                int how = int(op.c % 4); bool byHeader = op.c >> 8 & 1; unsigned dim = unsigned((op.c >> 9) % id.size());
                opText = std::string(how == 3 ? "getChunkShape " : how == 0 || !there ? "chunkExists " : how == 1 ? "readChunk " : "checkVarlen ") + p + " " + shapeStr(id);
                z::Shape cs = chunkRegion(o, id).shape;
                size_t sz = prod(cs);
                f = [=]() -> std::string {
                    if(how == 3) {
                        z::Shape got = d->chunkShape(id, byHeader && there);
                        if(got != cs) return "says a chunk of shape " + shapeStr(cs) + " has shape " + shapeStr(got);
                        size_t e = d->chunkExtent(id, dim, byHeader && there), n = d->chunkSize(id);
                        return e != cs[dim] ? "says the extent in dimension " + std::to_string(dim) + " of a chunk of shape " + shapeStr(cs) + " is " + std::to_string(e) : n != sz ? "says a chunk of shape " + shapeStr(cs) + " has " + std::to_string(n) + " elements" : "";
                    }
                    if(how == 0 || !there) { bool e = d->exists(id); return e == there ? "" : e ? "reports an absent chunk as existing" : "reports a stored chunk as absent"; }
                    if(how == 1) {
                        std::string got(want.size(), '\x5c');
                        bool vl = d->readChunk(id, &got[0]);
                        NoFaults nf;
                        return vl ? "taken for a variable-length chunk" : got == want ? "" : "returned wrong data";
                    }
                    size_t n = 0; bool vl = d->varlen(id, n);
                    NoFaults nf;
                    return vl || n != sz ? "wrong variable-length answer " + std::to_string(vl) + " size " + std::to_string(n) : "";
                };
            } else {
                z::Meta m = o.meta; 
                opText = "open " + p;
                auto g = std::make_shared<z::NodeP>(groupNode(fh, parentOf(p)));
                f = [=]() -> std::string {
                    z::DsetP d = (*g)->open(nameOf(p));
                    NoFaults nf;
                    z::Meta k = d->meta();
                    return k == m ? "" : "opens as " + k.str() + " instead of " + m.str();
                };
            }
        } else if(op.kind == RATTR) {
            auto it = objs.begin(); std::advance(it, long(op.a % objs.size()));
            std::string p = it->first; json want = it->second.attrs;
            bool n5root = p.empty() && !isZarr;
            opText = "readAttrs '" + p + "'";
            f = [=, this]() -> std::string {
                std::string t = node(fh, p)->readAttrs();
                NoFaults nf;
                json j = json::parse(t);
                if(n5root) j.erase("n5");
                return j == want ? "" : "attributes read as " + j.dump() + " instead of " + want.dump();
            };
        } else {      // LIST
            std::string p = gs[op.a % gs.size()];
            int how = int(op.b % 5);
            auto kids = children(p);
            static const std::vector<std::string> probes = {"a", "ab", "a.b", "b", "0", "c", "a_0", "data", "nope"};
            std::string k = kids.size() && op.c % 4 ? kids[op.c % kids.size()] : probes[(op.c >> 8) % probes.size()];
            bool there = std::find(kids.begin(), kids.end(), k) != kids.end();
            std::string c = p.empty() ? k : p + "/" + k;
            bool data = there && objs[c].data;
            if(!there && (how >= 3 || (!backend.fs && how == 2))) how = 1;      // an object store has no n5 group markers: isSubGroup is for existing names
            static const char * nm[] = {"keys", "in", "isSubGroup", "isZarr", "exists"};
            opText = std::string(nm[how]) + " '" + p + "' " + (how ? k : "");
            bool zz = isZarr;
            f = [=, this]() -> std::string {
                z::NodeP g = groupNode(fh, p);
                if(how == 0) {
                    auto v = g->keys();
                    NoFaults nf;
                    std::sort(v.begin(), v.end());
                    if(v == kids) return "";
                    std::string t = "lists"; for(auto & x : v) t += " " + x; t += " instead of"; for(auto & x : kids) t += " " + x;
                    return t;
                }
                if(how == 1) return g->in(k) == there ? "" : "wrong membership";
                if(how == 2) return g->isSubGroup(k) == (there && !data) ? "" : "wrong kind";
                z::NodeP n = data ? g->dataset(k) : g->group(k);
                if(how == 3) return n->isZarr() == zz ? "" : "wrong format";
                return n->exists() ? "" : "said not to exist";
            };
        }
        ctx.say(std::to_string(opIndex) + ": " + opText);
        std::string err;
        guarded([&] { err = f(); }, false, 0);
        uint32_t asp = op.kind == LIST ? A_LIST : op.kind == RATTR ? A_ATTR : op.kind == OPEN ? A_META : A_READ | A_DATA;
        if(!threw) {
            if(!err.empty()) bad(fired ? S_ACK : S_OK, asp | A_READ, fired ? "wrong-answer-under-fault" : "wrong-answer", err);
            if(fired) probe("right-answer-under-fault");
            ok();
            return;
        }
        if(!fired) bad(S_OK, A_SPUR, "spurious-failure", "throws although nothing failed: " + what);
        probe("threw-after-fault");
        ok();
        // and works again without faults
        NoPreempt np; NoFaults nf;
        try { err = f(); } catch(const std::exception & e) { bad(S_HARM, A_RETRY, "not-recovered", std::string("still throws without faults: ") + e.what()); }
        if(!err.empty()) bad(S_HARM, asp | A_READ, "wrong-after-fault", err);
        ok();
    }

    // ------------------------------------------------------------ a whole run
    void go() {
        fmt = int(ctx.knob("fmt", cfg.fmtLo, ctx.rng.range(cfg.fmtLo, cfg.fmtHi)));
        isZarr = fmt > 0; zfmt = zfmtOf(fmt);
        bool mixed = ctx.rng.chance(0.4);
        long dt = ctx.rng.range(0, 9), cp = ctx.rng.chance(0.3) ? 0 : ctx.rng.range(0, 7), fl = ctx.rng.range(0, 3);
        so.dtype = ctx.knob("dtype", 0, mixed ? -1 : dt);
        so.complex = cfg.complex && ctx.knob("complex", 0, 1);
        so.comp = ctx.knob("comp", 0, mixed ? -1 : cp);
        so.fill = ctx.knob("fill", 0, mixed ? -1 : fl);
        fullKnob = ctx.knob("full", 0, ctx.rng.chance(0.5));
        vfs::dirSalt = uint64_t(ctx.knob("dirorder", 0, long(ctx.rng.below(1000))));
        setFaultPolicy(ctx, cfg.faultKinds, cfg.pFault);
        allocFaults = cfg.alloc && faultPolicy.kinds ? 1 : 0;
        if(allocFaults && ctx.knob("codecmem", 0, ctx.rng.chance(0.12))) { allocFaults = 2; faultPolicy.rate = 0.1; faultPolicy.minIo = 0; so.comp = fmt <= 2 ? std::vector<long>{1, 3, 5, 6}[size_t(cp) % 4] : cp % 2 ? 1 : 3; }
        int nOps = ctx.rng.range(cfg.minOps, cfg.maxOps);
        if(backend.fs && !backend.digest) backend.digest = [](const std::string & p) { return vfs::digest(vfs::lookup(p)); };
        std::vector<Op> ops;
        auto gen = [&](int k) { Op o; o.kind = k; o.a = ctx.rng.next(); o.b = ctx.rng.next(); o.c = ctx.rng.next(); o.d = ctx.rng.next(); ops.push_back(o); };
        for(int i = 0; i < cfg.startGroups; ++i) gen(CGROUP);
        for(int i = 0; i < cfg.startData; ++i) gen(CDATA);
        int tot = 0; for(int k = 0; k < NKIND; ++k) tot += cfg.weight[k];
        for(int i = 0; i < nOps; ++i) {
            int x = int(ctx.rng.below(uint64_t(tot))), k = 0;
            while(x >= cfg.weight[k]) { x -= cfg.weight[k]; ++k; }
            gen(k);
        }
        opText = "createFile";
        objs[""] = Obj();
        {
            NoPreempt np; NoFaults nf;
            fh = z::file(backend.root, z::A);
            fh->createFile(isZarr, zfmt);
        }
        ctx.say(std::string("file: ") + (isZarr ? "zarr v" + std::to_string(zfmt) : std::string("n5")));
        for(size_t i = 0; i < ops.size(); ++i) {
            if(!ctx.kept(int(i))) continue;
            scope(uint32_t(i + 1));
            opIndex = int(i);
            const Op & op = ops[i];
            switch(op.kind) {
            case READ: case RCHUNK: case OPEN: case RATTR: case LIST: reading(op); break;
            case BADATTR: case CEXIST: case BADREQ: case BADMAKE: illegal(op); break;
            case REOPEN: {
                opText = "reopen"; ctx.say(std::to_string(i) + ": reopen everything");
                for(auto & o : objs) o.second.live.reset();
                fh = z::file(backend.root, op.a % 2 ? z::A : z::RP);
                break;
            }
            default: mutate(op);
            }
            if(backend.digest) { rec->stateHash = mix(rec->stateHash, backend.digest(backend.root)); note(rec->stateHash); }
        }
        scope(9999);
        opText = "end of run"; threw = false;
        for(auto & o : objs) { o.second.okStamp = 0; o.second.live.reset(); }
        verifyAll(S_OK);
    }
};
}
void run(Ctx & ctx, const Cfg & cfg) {
    World * wd = new World(ctx, cfg);
    wd->go();
}
} // namespace w
