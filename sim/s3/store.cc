#include "store.h"
#include "aws/fake.h"
#include "rt/internal.h"
using namespace sim;
namespace s3sim {
const char * bucket = "bkt";
int pageSize = 1000;
bool unknownLength = false;
uint64_t requests = 0;
const uint64_t FAULTS = bit(F_NET_TIMEOUT_BEFORE) | bit(F_NET_TIMEOUT_AFTER) | bit(F_NET_503) | bit(F_NET_403) | bit(F_NET_TRUNC) | bit(F_NET_RESET) | bit(F_NET_PARTIAL);
static vfs::NodeP bucketNode() {
    auto & n = vfs::root->kids[bucket];
    if(!n) { n = vfs::emptyDir(); n->dir = true; }
    return n;
}
std::map<std::string, vfs::NodeP> & objects() { RT rt; return bucketNode()->kids; }
void poke(const std::string & key, const std::string & data) {
    RT rt;
    auto n = vfs::emptyDir(); n->dir = false; n->data = std::make_shared<std::string>(data);
    bucketNode()->kids[key] = n;
}
uint64_t digest() { return vfs::digest(bucketNode()); }
bool anyBelow(const std::string & p) {
    auto & m = objects();
    auto it = m.lower_bound(p);
    return it != m.end() && it->first.compare(0, p.size(), p) == 0;
}
static std::map<std::string, std::string> accounts;
Conn drawConn(Rng & r) {
    Conn c;
    c.endpoint = r.pick(std::vector<const char *>{"", "", "http://127.0.0.1:9000", "https://store.example", "play.example:9443"});
    c.region = r.pick(std::vector<const char *>{"us-east-1", "us-east-1", "eu-central-1", ""});
    c.anon = r.chance(0.25);
    if(r.chance(0.6)) { c.access = "AK" + std::to_string(r.below(3)); c.secret = "s" + std::to_string(r.below(3)); }
    return c;
}
Conn differing(const Conn & a, int what) {
    Conn c = a;
    switch(what % 5) {
    case 0: c.endpoint = a.endpoint.empty() ? "http://other.example" : ""; break;
    case 1: c.region = a.region + "x"; break;
    case 2: c.anon = !a.anon; break;
    case 3: c.access = a.access.empty() ? "other" : ""; break;
    default: c.secret = a.secret + "x"; break;
    }
    return c;
}
std::string speaker(const Conn & c) {
    std::string e = c.endpoint;
    if(e.empty()) e = "aws"; else if(e.find("://") == std::string::npos) e = "https://" + e;
    return e + ", region '" + c.region + "', " + (c.anon ? "anonymous" : c.access.empty() ? "ambient" : "key " + c.access + "/" + c.secret);
}
void account(const std::string & path, const Conn & c) { RT rt; accounts[path] = speaker(c); }
}
using namespace s3sim;
namespace fakes3 {
static thread_local std::string speaking;
void from(const std::string & who) { RT rt; speaking = who; }
// the request must come from the connection its container was opened with
static void check(const std::string & b, const std::string & key) {
    RT rt;
    if(accounts.empty()) return;
    const std::string at = b + "/" + key; bool any = false; std::string want;
    for(auto & a : accounts) if(a.first == b || at.compare(0, a.first.size() + 1, a.first + "/") == 0 || at == a.first) { if(a.second == speaking) return; any = true; want += " [" + a.second + "]"; }
    if(any) fail("wrong-connection", "a request for '" + key + "' is made on the connection [" + speaking + "], the container was opened with" + want);
}
typedef Aws::S3::S3Errors E;
static bool up = false;
void apiState(bool u) { up = u; }
void clientMade() { if(!up) fail("aws-api", "an S3 client is made before Aws::InitAPI"); probe("s3-client"); }
static Answer err(E e, int code, const char * m) { Answer a; a.error = int(e) + 1; a.code = code; a.message = m; return a; }
// one request: a chance to be preempted, then a chance to fail.  True: 'a' is the answer instead.
static uint32_t enter(uint64_t mask, uint64_t & param, uint64_t max, Answer & a, const std::string & b, const std::string & key) {
    check(b, key);
    if(!up) fail("aws-api", "a request is made outside Aws::InitAPI / ShutdownAPI");
    yieldPoint(1);
    stallPoint();
    ++requests;
    rec->ioOps = rec->ioOps + 1;
    if(vfs::root->kids.count(b) == 0 && b != bucket) { a = err(E::NO_SUCH_BUCKET, 404, "The specified bucket does not exist"); return F_COUNT; }
    uint32_t k = decideFault(mask | bit(F_NET_TIMEOUT_BEFORE) | bit(F_NET_503) | bit(F_NET_403) | bit(F_NET_RESET), param, max);
    switch(k) {
    case F_NET_TIMEOUT_BEFORE: a = err(E::REQUEST_TIMEOUT, 408, "simulated timeout, request not received"); break;
    case F_NET_TIMEOUT_AFTER: a = err(E::NETWORK_CONNECTION, -1, "simulated timeout, answer lost"); break;
    case F_NET_503: a = param % 2 ? err(E::SLOW_DOWN, 503, "simulated: Please reduce your request rate.") : err(E::INTERNAL_FAILURE, 500, "simulated: We encountered an internal error."); break;
    case F_NET_403: a = err(E::ACCESS_DENIED, 403, "simulated: Access Denied"); break;
    case F_NET_RESET: a = err(E::NETWORK_CONNECTION, -1, "simulated: connection reset"); break;
    }
    return k;
}
static vfs::NodeP find(const std::string & key) { auto & m = objects(); auto it = m.find(key); return it == m.end() ? nullptr : it->second; }

Answer get(const std::string & b, const std::string & key) {
    Answer a; uint64_t p = 0;
    vfs::NodeP n = find(key);
    size_t size = n ? n->data->size() : 0;
    uint32_t k = enter(!unknownLength && size ? bit(F_NET_TRUNC) : 0, p, size ? size - 1 : 0, a, b, key);
    if(k && k != F_NET_TRUNC) return a;
    n = find(key);                                    // others may have run in between
    if(!n) return err(E::NO_SUCH_KEY, 404, "The specified key does not exist.");
    a.body = *n->data; a.length = (long long)a.body.size();
    if(unknownLength) a.length = -1;
    if(k == F_NET_TRUNC) { if(a.body.empty()) a.length = 1; else a.body.resize(std::min<size_t>(p, a.body.size() - 1)); }
    return a;
}
Answer head(const std::string & b, const std::string & key) {
    Answer a; uint64_t p = 0;
    if(enter(0, p, 1, a, b, key)) return a;
    vfs::NodeP n = find(key);
    if(!n) return err(E::RESOURCE_NOT_FOUND, 404, "No response body.");
    a.length = (long long)n->data->size();
    return a;
}
Answer put(const std::string & b, const std::string & key, const std::string & body) {
    Answer a; uint64_t p = 0;
    uint32_t k = enter(bit(F_NET_TIMEOUT_AFTER), p, 1, a, b, key);
    if(k && k != F_NET_TIMEOUT_AFTER) return a;
    if(vfs::denyWrites) fail("store-changed", "PUT " + key + " although nothing may be written");
    if(key.size() > 1024) return err(E::INVALID_ACTION, 400, "Your key is too long");
    poke(key, body);
    vfs::mutated("put", key);
    return a;
}
Answer del(const std::string & b, const std::string & key) {
    Answer a; uint64_t p = 0;
    uint32_t k = enter(bit(F_NET_TIMEOUT_AFTER), p, 1, a, b, key);
    if(k && k != F_NET_TIMEOUT_AFTER) return a;
    if(vfs::denyWrites) fail("store-changed", "DELETE " + key + " although nothing may be written");
    if(objects().erase(key)) vfs::mutated("delete", key);
    return a;
}
Answer delMany(const std::string & b, const std::vector<std::string> & keys, bool quiet) {
    Answer a; uint64_t p = 0;
    if(keys.empty() || keys.size() > 1000) { probe("s3-bad-batch"); return err(E::INVALID_ACTION, 400, "The XML you provided was not well-formed"); }
    uint32_t k = enter(bit(F_NET_TIMEOUT_AFTER) | bit(F_NET_PARTIAL), p, 1u << 20, a, b, keys[0]);
    if(k && k != F_NET_TIMEOUT_AFTER && k != F_NET_PARTIAL) return a;
    if(vfs::denyWrites) fail("store-changed", "DELETE of several objects although nothing may be written");
    Rng r(p + 1);
    size_t must = r.below(keys.size());
    for(size_t i = 0; i < keys.size(); ++i) {
        if(k == F_NET_PARTIAL && (i == must || r.chance(0.4))) { a.failed.push_back({keys[i], r.chance(0.5) ? "InternalError" : "AccessDenied"}); continue; }
        if(objects().erase(keys[i])) vfs::mutated("delete", keys[i]);
        if(!quiet) a.deleted.push_back({keys[i], ""});
    }
    return a;
}
Answer list(const std::string & b, const std::string & prefix, const std::string & delimiter, const std::string & token, const std::string & startAfter, int maxKeys) {
    Answer a; uint64_t p = 0;
    if(enter(0, p, 1, a, b, prefix)) return a;
    int page = std::min(pageSize, maxKeys);
    auto & m = objects();
    // a token names the last key or rolled-up prefix given out
    std::string from = token.empty() ? startAfter : token.substr(1);
    auto it = from.empty() ? m.lower_bound(prefix) : m.upper_bound(from);
    auto below = [](const std::string & s, const std::string & pre) { return s.compare(0, pre.size(), pre) == 0; };
    if(!token.empty() && token[0] == 'p') while(it != m.end() && below(it->first, from)) ++it;
    if(it != m.end() && it->first < prefix) it = m.lower_bound(prefix);
    int n = 0; std::string last;
    while(it != m.end() && below(it->first, prefix)) {
        if(n >= page) { a.list.truncated = true; a.list.token = last; break; }
        size_t d = delimiter.empty() ? std::string::npos : it->first.find(delimiter, prefix.size());
        if(d == std::string::npos) { a.list.keys.push_back(it->first); a.list.sizes.push_back(it->second->data->size()); last = "k" + it->first; ++it; }
        else {
            std::string cp = it->first.substr(0, d + delimiter.size());
            a.list.prefixes.push_back(cp); last = "p" + cp;
            while(it != m.end() && below(it->first, cp)) ++it;
        }
        ++n;
    }
    if(a.list.truncated) probe("s3-listing-continued");
    return a;
}
}
namespace Aws { namespace S3 {
using namespace Model;
static S3Error toErr(const fakes3::Answer & a) {
    S3Error e(S3Errors(a.error - 1), "", a.message, a.code == -1 || a.code >= 500 || a.code == 408);
    e.SetResponseCode(Http::HttpResponseCode(a.code));
    return e;
}
GetObjectOutcome S3Client::GetObject(const GetObjectRequest & r) const {
    fakes3::from(who_);
    fakes3::Answer a = fakes3::get(r.GetBucket(), r.GetKey());
    if(a.error) return GetObjectOutcome(toErr(a));
    std::string body = a.body; long long len = a.length;
    if(r.RangeHasBeenSet()) {           // bytes=a-b, bytes=a-, bytes=-n
        const std::string & g = r.GetRange(); size_t e = g.find('='), d = g.find('-', e == std::string::npos ? 0 : e);
        if(e != std::string::npos && d != std::string::npos) {
            std::string x = g.substr(e + 1, d - e - 1), y = g.substr(d + 1);
            size_t lo = x.empty() ? body.size() - std::min<size_t>(body.size(), std::stoull(y)) : std::stoull(x), hi = x.empty() || y.empty() ? body.size() : std::min<size_t>(body.size(), std::stoull(y) + 1);
            if(lo >= body.size()) { fakes3::Answer q; q.error = int(S3Errors::INVALID_ACTION) + 1; q.code = 416; q.message = "The requested range is not satisfiable"; return GetObjectOutcome(toErr(q)); }
            body = body.substr(lo, hi - lo); len = len < 0 ? len : (long long)body.size();
        }
    }
    GetObjectResult res; res.len_ = len; res.body_ = std::make_shared<std::stringstream>(body);
    return GetObjectOutcome(std::move(res));
}
HeadObjectOutcome S3Client::HeadObject(const HeadObjectRequest & r) const {
    fakes3::from(who_);
    auto a = fakes3::head(r.GetBucket(), r.GetKey());
    if(a.error) return HeadObjectOutcome(toErr(a));
    HeadObjectResult res; res.SetContentLength(a.length);
    return HeadObjectOutcome(std::move(res));
}
PutObjectOutcome S3Client::PutObject(const PutObjectRequest & r) const {
    fakes3::from(who_);
    std::string body;
    if(r.GetBody()) { std::ostringstream o; o << r.GetBody()->rdbuf(); body = o.str(); }
    auto a = fakes3::put(r.GetBucket(), r.GetKey(), body);
    if(a.error) return PutObjectOutcome(toErr(a));
    return PutObjectOutcome(PutObjectResult());
}
DeleteObjectOutcome S3Client::DeleteObject(const DeleteObjectRequest & r) const {
    fakes3::from(who_);
    auto a = fakes3::del(r.GetBucket(), r.GetKey());
    if(a.error) return DeleteObjectOutcome(toErr(a));
    return DeleteObjectOutcome(DeleteObjectResult());
}
DeleteObjectsOutcome S3Client::DeleteObjects(const DeleteObjectsRequest & r) const {
    fakes3::from(who_);
    std::vector<std::string> keys; for(auto & o : r.GetDelete().GetObjects()) keys.push_back(o.GetKey());
    auto a = fakes3::delMany(r.GetBucket(), keys, r.GetDelete().GetQuiet());
    if(a.error) return DeleteObjectsOutcome(toErr(a));
    DeleteObjectsResult res; Vector<Error> e; Vector<DeletedObject> d;
    for(auto & f : a.failed) { Error x; x.SetKey(f.first); x.SetCode(f.second); x.SetMessage("simulated: " + f.second); e.push_back(x); }
    for(auto & f : a.deleted) { DeletedObject x; x.SetKey(f.first); d.push_back(x); }
    res.SetErrors(e); res.SetDeleted(d);
    return DeleteObjectsOutcome(std::move(res));
}
ListObjectsV2Outcome S3Client::ListObjectsV2(const ListObjectsV2Request & r) const {
    fakes3::from(who_);
    auto a = fakes3::list(r.GetBucket(), r.GetPrefix(), r.GetDelimiter(), r.ContinuationTokenHasBeenSet() ? r.GetContinuationToken() : "", r.GetStartAfter(), r.MaxKeysHasBeenSet() ? r.GetMaxKeys() : 1000);
    if(a.error) return ListObjectsV2Outcome(toErr(a));
    ListObjectsV2Result res; Vector<Object> o; Vector<CommonPrefix> c;
    for(size_t i = 0; i < a.list.keys.size(); ++i) { Object x; x.SetKey(a.list.keys[i]); x.SetSize((long long)a.list.sizes[i]); o.push_back(x); }
    for(auto & p : a.list.prefixes) { CommonPrefix x; x.SetPrefix(p); c.push_back(x); }
    res.SetKeyCount(int(o.size() + c.size())); res.SetContents(o); res.SetCommonPrefixes(c);
    res.SetIsTruncated(a.list.truncated); if(a.list.truncated) res.SetNextContinuationToken(a.list.token);
    return ListObjectsV2Outcome(std::move(res));
}
}}
