// Type-erased access to the z5 API, so that scenarios (uninstrumented) need no z5 headers and the
// same workloads drive both backends.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace z {
typedef std::vector<size_t> Shape;
enum Mode { R, RP, W, WM, A };                 // r, r+, w, w-, a
struct DsSpec {
    std::string dtype; Shape shape, chunks, shard;
    std::string comp = "raw"; long level = -1; std::string codec;
    double fill = 0; std::string delim = "."; std::string enc = "default";
    bool isZarr = true; int zfmt = 2;
};
struct Meta {
    Shape shape, chunks, shard; int dtype = -1; int comp = -1; std::string compName; std::string fill; bool isZarr = false; std::string opts;
    bool operator==(const Meta & o) const { return shape == o.shape && chunks == o.chunks && shard == o.shard && dtype == o.dtype && comp == o.comp && compName == o.compName && fill == o.fill && isZarr == o.isZarr && opts == o.opts; }
    std::string str() const;
};
typedef std::function<void(int, const Shape &)> ChunkFn;
typedef std::function<void(int, const Shape &, const Shape &)> BlockFn;
struct Dset {
    virtual ~Dset() {}
    virtual void write(const Shape & off, const Shape & shape, const void * data, int threads) = 0;
    virtual void read(const Shape & off, const Shape & shape, void * data, int threads) = 0;
    virtual void scalar(const Shape & off, const Shape & shape, const void * val, int threads) = 0;
    virtual void writeChunk(const Shape & id, const void * data, bool varlen = false, size_t varSize = 0) = 0;
    virtual bool readChunk(const Shape & id, void * out) = 0;
    virtual bool exists(const Shape & id) = 0;
    virtual void removeChunk(const Shape & id) = 0;
    virtual void remove() = 0;
    virtual bool varlen(const Shape & id, size_t & size) = 0;
    virtual size_t chunkSize(const Shape & id) = 0;
    virtual Shape chunkShape(const Shape & id, bool header) = 0;
    virtual size_t chunkExtent(const Shape & id, unsigned dim, bool header) = 0;
    virtual Meta meta() = 0;
    virtual void trivial(int threads, bool specific, const void * val) = 0;
    virtual void removeAll(int threads) = 0;
    virtual std::vector<std::string> unique(int threads) = 0;
    virtual std::map<std::string, size_t> uniqueCounts(int threads) = 0;
    virtual void eachChunk(int threads, const ChunkFn & f) = 0;
    virtual void eachChunkRoi(const Shape & b, const Shape & e, int threads, const ChunkFn & f) = 0;
    virtual void eachBlock(const Shape & bs, int threads, const BlockFn & f) = 0;
    virtual void eachBlockRoi(const Shape & bs, const Shape & b, const Shape & e, int threads, const BlockFn & f) = 0;
    virtual std::string chunkPath(const Shape & id) = 0;
    // the overlap of a chunk and a request: begin in the request, extent, begin in the chunk; whether it is the whole chunk
    virtual bool place(const Shape & id, const Shape & off, const Shape & shape, Shape & inRequest, Shape & extent, Shape & inChunk) { throw std::logic_error("not supported"); }
    // a request with elements of another type: 0 write, 1 read, 2 scalar, 3 unique, 4 with counts, 5 and 6 trivial chunks
    virtual void wrongType(int how, int other, const Shape & off, const Shape & shape, void * data, int threads) { throw std::logic_error("not supported"); }
};
typedef std::shared_ptr<Dset> DsetP;
// a file, group or dataset handle
struct Node {
    virtual ~Node() {}
    virtual bool exists() = 0;
    virtual bool isZarr() = 0;
    virtual void remove() = 0;
    virtual std::vector<std::string> keys() = 0;          // groups
    virtual bool in(const std::string & k) = 0;
    virtual bool isSubGroup(const std::string & k) = 0;
    virtual std::string readAttrs() = 0;                  // JSON text
    virtual void writeAttrs(const std::string & json) = 0;
    virtual void removeAttr(const std::string & key) = 0;
    virtual std::shared_ptr<Node> group(const std::string & key) = 0;
    virtual std::shared_ptr<Node> dataset(const std::string & key) = 0;      // handle only
    virtual void createFile(bool isZarr, int zfmt) = 0;
    virtual void createGroup(const std::string & key, int zfmt) = 0;
    virtual DsetP create(const std::string & key, const DsSpec & s) = 0;
    virtual DsetP open(const std::string & key) = 0;
    virtual std::string metadata() = 0;                    // group metadata as JSON text
};
typedef std::shared_ptr<Node> NodeP;
NodeP file(const std::string & path, Mode m);
// connection settings of a container in a bucket: endpoint, region, anonymous, access key, secret key; empty: none given
extern std::function<bool(const std::string & path, std::string & endpoint, std::string & region, bool & anon, std::string & access, std::string & secret)> connection;

size_t elemSize(const std::string & dtype);
// bijective small code -> element bytes; code 0 is the fill value
void encode(const std::string & dtype, double fill, uint32_t code, char * out);
} // namespace z
