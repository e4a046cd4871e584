#include "api_rw.inc"
namespace z { const RwOps opsU8 = Rw<uint8_t>::make(), opsU16 = Rw<uint16_t>::make(); }
