#include "api_rw.inc"
namespace z { const RwOps opsI8 = Rw<int8_t>::make(), opsI16 = Rw<int16_t>::make(); }
