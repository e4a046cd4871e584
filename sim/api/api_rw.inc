#include "api_int.h"
#include "z5/multiarray/array_access.hxx"
#include "z5/multiarray/broadcast.hxx"
#include "z5/util/functions.hxx"
namespace z {
using namespace z5;
template<class T> struct RwBase {
    static types::ShapeType st(const Shape & s) { return types::ShapeType(s.begin(), s.end()); }
    // Some calls use an array that is not C-contiguous: Fortran order, or a view into a larger array
    // whose other elements must stay untouched. Which ones depends on the region alone.
    struct Layout {
        types::ShapeType strides, shape; std::vector<char> buf; bool plain = true; size_t front = 0;
        static constexpr char guard = '\x6b';
        Layout(const Shape & o, const Shape & s) : shape(s.begin(), s.end()) {
            uint64_t h = 1469598103934665603ull;
            for(auto v : o) h = (h ^ v) * 1099511628211ull;
            for(auto v : s) h = (h ^ (v + 17)) * 1099511628211ull;
            h ^= h >> 31;
            if(h % 8 > 2) return;
            plain = false;
            const bool fortran = h % 8 != 0, gaps = h % 8 != 1;
            size_t step = gaps ? 1 + (h >> 8) % 3 : 1;
            strides.resize(s.size());
            for(size_t k = 0; k < s.size(); ++k) {
                size_t d = fortran ? k : s.size() - 1 - k;
                strides[d] = step;
                step *= s[d] + (gaps && (h >> (16 + k)) % 2 ? 1 + (h >> 24) % 2 : 0);
            }
            front = gaps ? (h >> 32) % 4 : 0;
            buf.assign((front + step + (gaps ? 3 : 0)) * sizeof(T), guard);
        }
        T * data() { return (T *) buf.data() + front; }
        template<class F> void each(const F & f) const {
            size_t n = 1; for(auto v : shape) n *= v;
            types::ShapeType i(shape.size(), 0);
            for(size_t k = 0; k < n; ++k) {
                size_t at = front; for(size_t d = 0; d < i.size(); ++d) at += i[d] * strides[d];
                f(k, at * sizeof(T));
                for(size_t d = i.size(); d-- > 0;) { if(++i[d] < shape[d]) break; i[d] = 0; }
            }
        }
        void load(const void * p) { each([&](size_t k, size_t at) { memcpy(&buf[at], (const char *) p + k * sizeof(T), sizeof(T)); }); }
        void store(void * p) { each([&](size_t k, size_t at) { memcpy((char *) p + k * sizeof(T), &buf[at], sizeof(T)); memset(&buf[at], guard, sizeof(T)); }); }
        bool intact() const { for(char c : buf) if(c != guard) return false; return true; }
    };
    static void write(const Dataset & d, const Shape & o, const Shape & s, const void * p, int n) {
        auto off = st(o);
        Layout l(o, s);
        if(l.plain) {
            multiarray::ConstArrayView<T> v = multiarray::makeView((const T *) p, st(s));
            multiarray::writeSubarray<T>(d, v, off.begin(), n);
            return;
        }
        l.load(p);
        multiarray::ConstArrayView<T> v(l.data(), l.shape, l.strides);
        multiarray::writeSubarray<T>(d, v, off.begin(), n);
    }
    static void read(const Dataset & d, const Shape & o, const Shape & s, void * p, int n) {
        auto off = st(o);
        Layout l(o, s);
        if(l.plain) {
            multiarray::ArrayView<T> v = multiarray::makeView((T *) p, st(s));
            multiarray::readSubarray<T>(d, v, off.begin(), n);
            return;
        }
        multiarray::ArrayView<T> v(l.data(), l.shape, l.strides);
        multiarray::readSubarray<T>(d, v, off.begin(), n);
        l.store(p);
        if(!l.intact()) sim::fail("wrote-outside-view", "reading a region changed elements of the destination array that do not belong to the requested view");
    }
    static void scalar(const Dataset & d, const Shape & o, const Shape & s, const void * p, int n) {
        auto off = st(o), sh = st(s);
        T v; memcpy(&v, p, sizeof v);
        multiarray::writeScalar<T>(d, off.begin(), sh.begin(), v, n);
    }
    static std::string str(const T & v) { return std::string((const char *) &v, sizeof v); }
    static void fill(const Dataset & d, std::string & s) { T v{}; d.getFillValue(&v); s = str(v); }
    static constexpr RwOps make() { return RwOps{write, read, scalar, nullptr, nullptr, nullptr, fill}; }
};
template<class T> struct Rw : RwBase<T> {
    using B = RwBase<T>; using B::str;
    static void trivial(const Dataset & d, int n, bool sp, const void * p) {
        T v{}; if(p) memcpy(&v, p, sizeof v);
        util::removeTrivialChunks<T>(d, n, sp, v);
    }
    static void unique(const Dataset & d, int n, std::vector<std::string> & out) {
        std::set<T> u; util::unique<T>(d, n, u);
        for(auto & v : u) out.push_back(str(v));
    }
    static void counts(const Dataset & d, int n, std::map<std::string, size_t> & out) {
        std::map<T, size_t> u; util::uniqueWithCounts<T>(d, n, u);
        for(auto & v : u) out[str(v.first)] += v.second;
    }
    static constexpr RwOps make() { return RwOps{B::write, B::read, B::scalar, trivial, unique, counts, B::fill}; }
};
}
