// Filesystem scenarios built on the workload engine.
#include "world.h"
using namespace sim;
using namespace w;
static const uint64_t IOF = bit(F_EIO) | bit(F_ENOSPC) | bit(F_EACCES) | bit(F_EMFILE) | bit(F_EINTR) | bit(F_SHORT) | bit(F_CLOSE_LOSS) | bit(F_ESTALE);
static void go(Ctx & ctx, const char * name) { Cfg c; profile(ctx, c, name, IOF, true); run(ctx, c); }

SIM_SCENARIO(everything, "everything") { go(ctx, "everything"); }
SIM_SCENARIO(everythingcrash, "everything-crash") { go(ctx, "everything-crash"); }
SIM_SCENARIO(c01, "data-model") { go(ctx, "data-model"); }
SIM_SCENARIO(c01big, "data-model-big") { go(ctx, "data-model-big"); }
SIM_SCENARIO(c01huge, "data-model-huge") { go(ctx, "data-model-huge"); }
SIM_SCENARIO(c03, "acknowledged") { go(ctx, "acknowledged"); }
SIM_SCENARIO(c04, "failed-write") { go(ctx, "failed-write"); }
SIM_SCENARIO(c05, "crash") { go(ctx, "crash"); }
SIM_SCENARIO(c06, "read-fault") { go(ctx, "read-fault"); }
SIM_SCENARIO(c12, "progress") { go(ctx, "progress"); }
SIM_SCENARIO(c13, "attributes") { go(ctx, "attributes"); }
SIM_SCENARIO(c14, "metadata") { go(ctx, "metadata"); }
SIM_SCENARIO(c16, "creation") { go(ctx, "creation"); }
SIM_SCENARIO(c17, "removal") { go(ctx, "removal"); }
SIM_SCENARIO(c18, "listing") { go(ctx, "listing"); }
SIM_SCENARIO(c22, "no-memory") { go(ctx, "no-memory"); }
