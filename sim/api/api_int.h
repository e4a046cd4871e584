#pragma once
#include "api.h"
#include "z5/dataset.hxx"
#include <string>
namespace sim { [[noreturn]] void fail(const char *, const std::string &); }
namespace z {
struct RwOps {
    void (*write)(const z5::Dataset &, const Shape &, const Shape &, const void *, int);
    void (*read)(const z5::Dataset &, const Shape &, const Shape &, void *, int);
    void (*scalar)(const z5::Dataset &, const Shape &, const Shape &, const void *, int);
    void (*trivial)(const z5::Dataset &, int, bool, const void *);
    void (*unique)(const z5::Dataset &, int, std::vector<std::string> &);
    void (*counts)(const z5::Dataset &, int, std::map<std::string, size_t> &);
    void (*fill)(const z5::Dataset &, std::string &);
};
const RwOps * rwOps(int dtype);
extern const RwOps opsI8, opsI16, opsI32, opsI64, opsU8, opsU16, opsU32, opsU64, opsF32, opsF64, opsC64, opsC128;
}
