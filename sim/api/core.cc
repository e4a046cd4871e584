// Filesystem backend (real z5 code) behind the type-erased interface.
#include "api_int.h"
#include "z5/factory.hxx"
#include "z5/attributes.hxx"
#include "z5/metadata.hxx"
#include "z5/util/for_each.hxx"
#include <sstream>
#include <tuple>
namespace z {
using namespace z5;
std::string Meta::str() const {
    std::ostringstream o;
    auto p = [&](const char * n, const Shape & s) { o << n << "("; for(auto v : s) o << v << ","; o << ") "; };
    p("shape", shape); p("chunks", chunks); p("shard", shard);
    o << "dtype " << dtype << " comp " << compName << " " << opts << " zarr " << isZarr << " fill";
    for(unsigned char c : fill) o << " " << int(c);
    return o.str();
}
const RwOps * rwOps(int d) {
    switch(d) {
        case types::int8: return &opsI8; case types::int16: return &opsI16; case types::int32: return &opsI32; case types::int64: return &opsI64;
        case types::uint8: return &opsU8; case types::uint16: return &opsU16; case types::uint32: return &opsU32; case types::uint64: return &opsU64;
        case types::float32: return &opsF32; case types::float64: return &opsF64;
        case types::complex64: return &opsC64; case types::complex128: return &opsC128; default: return nullptr;
    }
}
static types::ShapeType st(const Shape & s) { return types::ShapeType(s.begin(), s.end()); }
static Shape sh(const types::ShapeType & s) { return Shape(s.begin(), s.end()); }
static FileMode mode(Mode m) {
    switch(m) { case R: return FileMode(FileMode::modes::r); case RP: return FileMode(FileMode::modes::r_p); case W: return FileMode(FileMode::modes::w); case WM: return FileMode(FileMode::modes::w_m); default: return FileMode(FileMode::modes::a); }
}
struct DsetI : Dset {
    std::unique_ptr<Dataset> d; const RwOps * ops;
    explicit DsetI(std::unique_ptr<Dataset> p) : d(std::move(p)) {
        if(!d) throw std::runtime_error("null dataset");
        ops = rwOps(int(d->getDtype()));
        if(!ops) throw std::runtime_error("harness: unknown type");
    }
    void write(const Shape & o, const Shape & s, const void * p, int n) override { ops->write(*d, o, s, p, n); }
    void read(const Shape & o, const Shape & s, void * p, int n) override { ops->read(*d, o, s, p, n); }
    void scalar(const Shape & o, const Shape & s, const void * p, int n) override { ops->scalar(*d, o, s, p, n); }
    void writeChunk(const Shape & id, const void * p, bool vl, size_t vs) override { d->writeChunk(st(id), p, vl, vs); }
    bool readChunk(const Shape & id, void * p) override { return d->readChunk(st(id), p); }
    bool exists(const Shape & id) override { return d->chunkExists(st(id)); }
    void removeChunk(const Shape & id) override { d->removeChunk(st(id)); }
    void remove() override { d->remove(); }
    bool varlen(const Shape & id, size_t & s) override { return d->checkVarlenChunk(st(id), s); }
    size_t chunkSize(const Shape & id) override { return d->getChunkSize(st(id)); }
    size_t chunkExtent(const Shape & id, unsigned i, bool h) override { return d->getChunkShape(st(id), i, h); }
    Shape chunkShape(const Shape & id, bool h) override { types::ShapeType r; d->getChunkShape(st(id), r, h); return sh(r); }
    Meta meta() override {
        Meta m; m.shape = sh(d->shape()); m.chunks = sh(d->defaultChunkShape()); m.shard = sh(d->shardShape());
        m.dtype = int(d->getDtype()); m.comp = int(d->getCompressor()); d->getCompressor(m.compName); m.isZarr = d->isZarr();
        ops->fill(*d, m.fill);
        types::CompressionOptions o; d->getCompressionOptions(o);
        for(auto & kv : o) { std::ostringstream s; s << kv.first << "="; std::visit([&](const auto & v) { s << v; }, kv.second); m.opts += s.str() + ";"; }
        return m;
    }
    void trivial(int n, bool sp, const void * v) override { ops->trivial(*d, n, sp, v); }
    void removeAll(int n) override;
    std::vector<std::string> unique(int n) override { std::vector<std::string> o; ops->unique(*d, n, o); return o; }
    std::map<std::string, size_t> uniqueCounts(int n) override { std::map<std::string, size_t> o; ops->counts(*d, n, o); return o; }
    // what a call is given has to stay as it is until the call ends
    template<class F, class... A> void unit(const F & f, int t, const Dataset & x, const A &... a) {
        if(&x != d.get()) sim::fail("wrong-dataset", "a call of a parallel loop is given another dataset");
        std::tuple<A...> was(a...);
        f(t, sh(a)...);
        if(was != std::tie(a...)) sim::fail("coordinates-changed", "the coordinates given to a call of a parallel loop changed while it was running");
    }
    void eachChunk(int n, const ChunkFn & f) override { util::parallel_for_each_chunk(*d, n, [&](int t, const Dataset & x, const types::ShapeType & c) { unit(f, t, x, c); }); }
    void eachChunkRoi(const Shape & b, const Shape & e, int n, const ChunkFn & f) override { util::parallel_for_each_chunk_in_roi(*d, st(b), st(e), n, [&](int t, const Dataset & x, const types::ShapeType & c) { unit(f, t, x, c); }); }
    void eachBlock(const Shape & bs, int n, const BlockFn & f) override { util::parallel_for_each_block(*d, st(bs), n, [&](int t, const Dataset & x, const types::ShapeType & b, const types::ShapeType & s) { unit(f, t, x, b, s); }); }
    void eachBlockRoi(const Shape & bs, const Shape & b, const Shape & e, int n, const BlockFn & f) override { util::parallel_for_each_block_in_roi(*d, st(bs), st(b), st(e), n, [&](int t, const Dataset & x, const types::ShapeType & bb, const types::ShapeType & s) { unit(f, t, x, bb, s); }); }
    void wrongType(int how, int k, const Shape & o, const Shape & s, void * p, int n) override {
        static const int all[] = {types::int8, types::int16, types::int32, types::int64, types::uint8, types::uint16, types::uint32, types::uint64, types::float32, types::float64};
        int i = 0; while(i < 9 && all[i] != int(d->getDtype())) ++i;
        const RwOps * w = rwOps(all[(i + 1 + k % 9) % 10]);
        if(how == 0) w->write(*d, o, s, p, n); else if(how == 1) w->read(*d, o, s, p, n); else if(how == 2) w->scalar(*d, o, s, p, n);
        else if(how == 3) { std::vector<std::string> u; w->unique(*d, n, u); }
        else if(how == 4) { std::map<std::string, size_t> u; w->counts(*d, n, u); }
        else w->trivial(*d, n, how == 6, p);
    }
    bool place(const Shape & id, const Shape & off, const Shape & shape, Shape & a, Shape & b, Shape & c) override {
        types::ShapeType x, y, z;
        bool r = d->chunking().getCoordinatesInRoi(st(id), st(off), st(shape), x, y, z);
        a = sh(x); b = sh(y); c = sh(z);
        return r;
    }
    std::string chunkPath(const Shape & id) override { fs::path p; d->chunkPath(st(id), p); return p.string(); }
};
} // namespace z
#include "z5/util/functions.hxx"
namespace z {
void DsetI::removeAll(int n) { util::removeDataset(*d, n); }

static std::string dump(const nlohmann::json & j) { return j.is_null() ? "{}" : j.dump(); }
#ifdef WITH_S3
namespace bk = z5::s3::handle;
#else
namespace bk = z5::filesystem::handle;
#endif
struct DataN : Node {
    bk::Dataset h;
    explicit DataN(const bk::Dataset & d) : h(d) {}
    bool exists() override { return h.exists(); }
    bool isZarr() override { return h.isZarr(); }
    void remove() override { h.remove(); }
    std::vector<std::string> keys() override { throw std::logic_error("dataset"); }
    bool in(const std::string &) override { throw std::logic_error("dataset"); }
    bool isSubGroup(const std::string &) override { throw std::logic_error("dataset"); }
    std::string readAttrs() override { nlohmann::json j; readAttributes(h, j); return dump(j); }
    void writeAttrs(const std::string & t) override { writeAttributes(h, nlohmann::json::parse(t)); }
    void removeAttr(const std::string & k) override { removeAttribute(h, k); }
    NodeP group(const std::string &) override { throw std::logic_error("dataset"); }
    NodeP dataset(const std::string &) override { throw std::logic_error("dataset"); }
    void createFile(bool, int) override { throw std::logic_error("dataset"); }
    void createGroup(const std::string &, int) override { throw std::logic_error("dataset"); }
    DsetP create(const std::string &, const DsSpec &) override { throw std::logic_error("dataset"); }
    DsetP open(const std::string &) override { throw std::logic_error("dataset"); }
    std::string metadata() override { throw std::logic_error("dataset"); }
};
template<class H> struct GroupN : Node {
    H h;
    explicit GroupN(const H & x) : h(x) {}
    bool exists() override { return h.exists(); }
    bool isZarr() override { return h.isZarr(); }
    void remove() override { h.remove(); }
    std::vector<std::string> keys() override { std::vector<std::string> o; h.keys(o); return o; }
    bool in(const std::string & k) override { return h.in(k); }
    bool isSubGroup(const std::string & k) override { return z5::isSubGroup(h, k); }
    std::string readAttrs() override { nlohmann::json j; readAttributes(h, j); return dump(j); }
    void writeAttrs(const std::string & t) override { writeAttributes(h, nlohmann::json::parse(t)); }
    void removeAttr(const std::string & k) override { removeAttribute(h, k); }
    NodeP group(const std::string & k) override { return std::make_shared<GroupN<bk::Group>>(bk::Group(h, k)); }
    NodeP dataset(const std::string & k) override { return std::make_shared<DataN>(bk::Dataset(h, k)); }
    void createFile(bool isZarr, int zfmt) override {
        if constexpr(std::is_same_v<H, bk::File>) z5::createFile(h, isZarr, zfmt); else throw std::logic_error("group");
    }
    void createGroup(const std::string & k, int zfmt) override { z5::createGroup(h, k, zfmt); }
    DsetP create(const std::string & k, const DsSpec & s) override {
        nlohmann::json opts = nlohmann::json::object();
        if(s.level >= 0) opts["level"] = s.level;
        if(s.isZarr && s.zfmt == 2 && (s.comp == "zlib" || s.comp == "gzip")) opts["useZlib"] = s.comp == "zlib";
        if(s.codec.size()) opts["codec"] = s.codec;
#ifndef WITH_S3
        if(s.dtype[0] == 'c') {
            // there is no name for complex types in createDataset: stored metadata is what makes them
            nlohmann::json j;
            { auto p = z5::createDataset(h, k, "float64", st(s.shape), st(s.chunks), s.comp, opts, s.fill, s.delim, s.zfmt, s.enc, st(s.shard)); }
            bk::Dataset dh(h, k);
            DatasetMetadata m; filesystem::readMetadata(dh, m);
            m.dtype = s.dtype == "complex64" ? types::complex64 : types::complex128;
            filesystem::writeMetadata(dh, m);
            return std::make_shared<DsetI>(openDataset(h, k));
        }
#endif
        auto p = z5::createDataset(h, k, s.dtype, st(s.shape), st(s.chunks), s.comp, opts, s.fill, s.delim, s.zfmt, s.enc, st(s.shard));
        return std::make_shared<DsetI>(std::move(p));
    }
    DsetP open(const std::string & k) override { return std::make_shared<DsetI>(openDataset(h, k)); }
    std::string metadata() override {
#ifdef WITH_S3
        throw std::logic_error("s3");
#else
        nlohmann::json j; filesystem::readMetadata(h, j); return dump(j);
#endif
    }
};
#ifdef WITH_S3
decltype(connection) connection;
NodeP file(const std::string & p, Mode m) {          // "bucket/name"
    size_t i = p.find('/');
    std::string e, r, k, s; bool anon;
    if(connection && connection(p, e, r, anon, k, s)) return std::make_shared<GroupN<bk::File>>(bk::File(p.substr(0, i), i == std::string::npos ? "" : p.substr(i + 1), mode(m), e, r, anon, k, s));
    return std::make_shared<GroupN<bk::File>>(bk::File(p.substr(0, i), i == std::string::npos ? "" : p.substr(i + 1), mode(m)));
}
#else
NodeP file(const std::string & p, Mode m) { return std::make_shared<GroupN<bk::File>>(bk::File(p, mode(m))); }
#endif
} // namespace z
