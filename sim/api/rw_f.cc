#include <complex>
#include "api_rw.inc"
namespace z { const RwOps opsC64 = RwBase<std::complex<float>>::make(), opsC128 = RwBase<std::complex<double>>::make(); }
