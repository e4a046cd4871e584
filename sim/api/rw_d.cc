#include "api_rw.inc"
namespace z { const RwOps opsU32 = Rw<uint32_t>::make(), opsU64 = Rw<uint64_t>::make(); }
