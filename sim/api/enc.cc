#include "api.h"
#include <cstring>
namespace z {
size_t elemSize(const std::string & d) {
    if(d == "int8" || d == "uint8") return 1;
    if(d == "int16" || d == "uint16") return 2;
    if(d == "int32" || d == "uint32" || d == "float32") return 4;
    if(d == "complex128") return 16;
    return 8;
}
void encode(const std::string & d, double fill, uint32_t code, char * out) {
    size_t n = elemSize(d);
    if(d == "float32") { float v = code ? float(code) * 1.25f - 7.f : float(fill); if(code && v == float(fill)) v = 1e6f; memcpy(out, &v, 4); return; }
    if(d == "float64") { double v = code ? double(code) * 1.2345678901 - 7. : fill; memcpy(out, &v, 8); return; }
    if(d == "complex64") { float v[2] = {code ? float(code) * 1.25f - 7.f : float(fill), code ? float(code) * 3.f + 1.f : 0.f}; memcpy(out, v, 8); return; }
    if(d == "complex128") { double v[2] = {code ? double(code) * 1.2345678901 - 7. : fill, code ? double(code) * 3. + 0.1 : 0.}; memcpy(out, v, 16); return; }
    uint64_t f = d[0] == 'u' ? uint64_t(fill) : uint64_t(int64_t(fill));
    uint64_t v = f + uint64_t(code) * 0x9E3779B97F4A7C15ULL;      // odd multiplier: bijective modulo any width
    memcpy(out, &v, n);
}
}
