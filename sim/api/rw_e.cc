#include "api_rw.inc"
namespace z { const RwOps opsF32 = Rw<float>::make(), opsF64 = Rw<double>::make(); }
