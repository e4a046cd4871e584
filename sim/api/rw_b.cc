#include "api_rw.inc"
namespace z { const RwOps opsI32 = Rw<int32_t>::make(), opsI64 = Rw<int64_t>::make(); }
