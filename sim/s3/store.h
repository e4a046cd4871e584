// The simulated object store: a bucket is a flat sorted map of keys, kept as a node of the
// simulated file system so that snapshots, digests and kills work the same way.
#pragma once
#include "rt/sim.h"
namespace s3sim {
extern const char * bucket;                 // the bucket z5 works in
extern int pageSize;                        // keys per listing page (S3: up to 1000)
extern bool unknownLength;                  // GET answers carry no content length
extern uint64_t requests;
std::map<std::string, sim::vfs::NodeP> & objects();          // of the bucket, current state
void poke(const std::string & key, const std::string & data); // an object somebody else stored
uint64_t digest();
bool anyBelow(const std::string & prefix);
extern const uint64_t FAULTS;
// how a container is reached
struct Conn { std::string endpoint, region = "us-east-1"; bool anon = false; std::string access, secret; };
Conn drawConn(sim::Rng & r);
Conn differing(const Conn & c, int what);                            // in one of the settings
std::string speaker(const Conn & c);                                 // what the service sees
void account(const std::string & path, const Conn & c);              // from now on requests below this path come from there
}
