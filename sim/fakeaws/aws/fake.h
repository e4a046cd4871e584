// Stand-in for the parts of the AWS SDK z5 uses. The client's calls go to the simulated object
// store of sim/s3/store.cc, which is also where requests are delayed, lost and refused.
#pragma once
#include <cstdint>
#include <functional>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <set>

namespace fakes3 {
// one request and its answer, as plain data
struct Listing { std::vector<std::string> keys, prefixes; std::vector<size_t> sizes; bool truncated = false; std::string token; };
struct Answer {
    int error = 0;               // Aws::S3::S3Errors, 0: success
    int code = 200;
    std::string message;
    std::string body; long long length = 0; bool broken = false;      // broken: the body's stream fails at its end
    Listing list;
    std::vector<std::pair<std::string, std::string>> failed, deleted;  // DeleteObjects: key, code
};
Answer get(const std::string & bucket, const std::string & key);
Answer head(const std::string & bucket, const std::string & key);
Answer put(const std::string & bucket, const std::string & key, const std::string & body);
Answer del(const std::string & bucket, const std::string & key);
Answer delMany(const std::string & bucket, const std::vector<std::string> & keys, bool quiet);
Answer list(const std::string & bucket, const std::string & prefix, const std::string & delimiter, const std::string & token, const std::string & startAfter, int maxKeys);
void clientMade();
void from(const std::string & who);           // the connection the next request of this thread is made on
void apiState(bool up);
}

namespace Aws {
typedef std::string String;
typedef std::stringstream StringStream;
typedef std::iostream IOStream;
template<class T> using Vector = std::vector<T>;
template<class K, class V> using Map = std::map<K, V>;
template<class T> using Set = std::set<T>;
template<class T, class... A> std::shared_ptr<T> MakeShared(const char *, A &&... a) { return std::make_shared<T>(std::forward<A>(a)...); }
template<class T> using UniquePtr = std::unique_ptr<T>;

namespace Utils { namespace Logging {
enum class LogLevel : int { Off, Fatal, Error, Warn, Info, Debug, Trace };
class LogSystemInterface { public: virtual ~LogSystemInterface() {} };
class ConsoleLogSystem : public LogSystemInterface { public: explicit ConsoleLogSystem(LogLevel) {} ConsoleLogSystem(const char *, LogLevel) {} };
}}
struct LoggingOptions { Utils::Logging::LogLevel logLevel = Utils::Logging::LogLevel::Off; std::function<std::shared_ptr<Utils::Logging::LogSystemInterface>()> logger_create_fn; };
struct SDKOptions { LoggingOptions loggingOptions; };
inline void InitAPI(const SDKOptions &) { fakes3::apiState(true); }
inline void ShutdownAPI(const SDKOptions &) { fakes3::apiState(false); }

namespace Http {
enum class Scheme { HTTP, HTTPS };
enum class HttpResponseCode : int { REQUEST_NOT_MADE = -1, OK = 200, NO_CONTENT = 204, PARTIAL_CONTENT = 206, MOVED_PERMANENTLY = 301, BAD_REQUEST = 400, UNAUTHORIZED = 401, FORBIDDEN = 403, NOT_FOUND = 404, REQUEST_TIMEOUT = 408, CONFLICT = 409, PRECONDITION_FAILED = 412, TOO_MANY_REQUESTS = 429, INTERNAL_SERVER_ERROR = 500, BAD_GATEWAY = 502, SERVICE_UNAVAILABLE = 503, GATEWAY_TIMEOUT = 504 };
}
namespace Auth {
class AWSCredentials { public: AWSCredentials() {} AWSCredentials(const String & k, const String & s) : k_(k), s_(s) {} const String & GetAWSAccessKeyId() const { return k_; } const String & GetAWSSecretKey() const { return s_; } private: String k_, s_; };
class AWSCredentialsProvider { public: virtual ~AWSCredentialsProvider() {} virtual String who() const { return "unknown"; } };
class AnonymousAWSCredentialsProvider : public AWSCredentialsProvider { public: String who() const override { return "anonymous"; } };
class SimpleAWSCredentialsProvider : public AWSCredentialsProvider {
public:
    SimpleAWSCredentialsProvider(const String & k, const String & s) : c_(k, s) {} explicit SimpleAWSCredentialsProvider(const AWSCredentials & c) : c_(c) {}
    String who() const override { return "key " + c_.GetAWSAccessKeyId() + "/" + c_.GetAWSSecretKey(); }
private: AWSCredentials c_; };
class DefaultAWSCredentialsProviderChain : public AWSCredentialsProvider { public: String who() const override { return "ambient"; } };
}
namespace Client {
struct ClientConfigurationInitValues { bool shouldDisableIMDS = false; };
template<class E> class AWSError {
public:
    AWSError() {}
    AWSError(E t, const String & name, const String & m, bool retry) : type_(t), name_(name), message_(m), retry_(retry) {}
    E GetErrorType() const { return type_; }
    const String & GetMessage() const { return message_; }
    const String & GetExceptionName() const { return name_; }
    Http::HttpResponseCode GetResponseCode() const { return code_; }
    void SetResponseCode(Http::HttpResponseCode c) { code_ = c; }
    bool ShouldRetry() const { return retry_; }
private:
    E type_{}; String name_, message_; bool retry_ = false; Http::HttpResponseCode code_ = Http::HttpResponseCode::REQUEST_NOT_MADE;
};
}
struct NoResult {};
namespace Utils {
template<class R, class E> class Outcome {
public:
    Outcome() : ok_(false) {}
    Outcome(R && r) : r_(std::move(r)), ok_(true) {}
    Outcome(const R & r) : r_(r), ok_(true) {}
    Outcome(const E & e) : e_(e), ok_(false) {}
    bool IsSuccess() const { return ok_; }
    const R & GetResult() const { return r_; }
    R & GetResult() { return r_; }
    R && GetResultWithOwnership() { return std::move(r_); }
    const E & GetError() const { return e_; }
private:
    R r_; E e_; bool ok_;
};
}
namespace S3 {
enum class S3Errors { INCOMPLETE_SIGNATURE = 0, INTERNAL_FAILURE = 1, INVALID_ACTION = 2, ACCESS_DENIED = 15, RESOURCE_NOT_FOUND = 16, THROTTLING = 13, SERVICE_UNAVAILABLE = 17, SLOW_DOWN = 22, REQUEST_TIME_TOO_SKEWED = 23, SIGNATURE_DOES_NOT_MATCH = 21, REQUEST_TIMEOUT = 24, NETWORK_CONNECTION = 99, UNKNOWN = 100, BUCKET_ALREADY_EXISTS = 129, NO_SUCH_BUCKET = 134, NO_SUCH_KEY = 135, NO_SUCH_UPLOAD = 136 };
typedef Client::AWSError<S3Errors> S3Error;
class S3EndpointProvider {};
struct S3ClientConfiguration {
    S3ClientConfiguration() {}
    explicit S3ClientConfiguration(const Client::ClientConfigurationInitValues &) {}
    long connectTimeoutMs = 1000, requestTimeoutMs = 3000; String region, endpointOverride; Http::Scheme scheme = Http::Scheme::HTTPS; bool useVirtualAddressing = true; bool verifySSL = true; unsigned maxConnections = 25;
};
namespace Model {
#define FAKE_FIELD(C, T, N) \
    private: T N##_{}; bool N##Set_ = false; public: \
    const T & Get##N() const { return N##_; } bool N##HasBeenSet() const { return N##Set_; } \
    void Set##N(const T & v) { N##_ = v; N##Set_ = true; } C & With##N(const T & v) { Set##N(v); return *this; }
#define FAKE_BUCKETKEY(C) FAKE_FIELD(C, String, Bucket) FAKE_FIELD(C, String, Key)
class GetObjectRequest { FAKE_BUCKETKEY(GetObjectRequest) FAKE_FIELD(GetObjectRequest, String, Range) };
class HeadObjectRequest { FAKE_BUCKETKEY(HeadObjectRequest) };
class DeleteObjectRequest { FAKE_BUCKETKEY(DeleteObjectRequest) };
class PutObjectRequest { FAKE_BUCKETKEY(PutObjectRequest) FAKE_FIELD(PutObjectRequest, std::shared_ptr<IOStream>, Body) FAKE_FIELD(PutObjectRequest, long long, ContentLength) FAKE_FIELD(PutObjectRequest, String, ContentType) };
class ObjectIdentifier { FAKE_FIELD(ObjectIdentifier, String, Key) public: ObjectIdentifier() {} };
class Delete { FAKE_FIELD(Delete, Vector<ObjectIdentifier>, Objects) FAKE_FIELD(Delete, bool, Quiet) public: Delete & AddObjects(const ObjectIdentifier & o) { Objects_.push_back(o); return *this; } };
class DeleteObjectsRequest { FAKE_FIELD(DeleteObjectsRequest, String, Bucket) FAKE_FIELD(DeleteObjectsRequest, Model::Delete, Delete) };
class ListObjectsV2Request { FAKE_FIELD(ListObjectsV2Request, String, Bucket) FAKE_FIELD(ListObjectsV2Request, String, Prefix) FAKE_FIELD(ListObjectsV2Request, String, Delimiter) FAKE_FIELD(ListObjectsV2Request, String, ContinuationToken) FAKE_FIELD(ListObjectsV2Request, String, StartAfter) FAKE_FIELD(ListObjectsV2Request, int, MaxKeys) };
class Object { FAKE_FIELD(Object, String, Key) FAKE_FIELD(Object, long long, Size) };
class CommonPrefix { FAKE_FIELD(CommonPrefix, String, Prefix) };
class Error { FAKE_FIELD(Error, String, Key) FAKE_FIELD(Error, String, Code) FAKE_FIELD(Error, String, Message) };
class DeletedObject { FAKE_FIELD(DeletedObject, String, Key) };
class ListObjectsV2Result { FAKE_FIELD(ListObjectsV2Result, Vector<Object>, Contents) FAKE_FIELD(ListObjectsV2Result, Vector<CommonPrefix>, CommonPrefixes) FAKE_FIELD(ListObjectsV2Result, bool, IsTruncated) FAKE_FIELD(ListObjectsV2Result, String, NextContinuationToken) FAKE_FIELD(ListObjectsV2Result, int, KeyCount) FAKE_FIELD(ListObjectsV2Result, int, MaxKeys) };
class DeleteObjectsResult { FAKE_FIELD(DeleteObjectsResult, Vector<DeletedObject>, Deleted) FAKE_FIELD(DeleteObjectsResult, Vector<Error>, Errors) };
class DeleteObjectResult {};
class PutObjectResult {};
class HeadObjectResult { FAKE_FIELD(HeadObjectResult, long long, ContentLength) };
class GetObjectResult {
public:
    GetObjectResult() {}
    GetObjectResult(GetObjectResult &&) = default; GetObjectResult & operator=(GetObjectResult &&) = default;
    GetObjectResult(const GetObjectResult &) = default;
    long long GetContentLength() const { return len_; }
    IOStream & GetBody() const { return *body_; }
    long long len_ = 0; std::shared_ptr<IOStream> body_;
};
#undef FAKE_BUCKETKEY
#undef FAKE_FIELD
#define FAKE_OUTCOME(N) typedef Utils::Outcome<N##Result, S3Error> N##Outcome;
FAKE_OUTCOME(GetObject) FAKE_OUTCOME(PutObject) FAKE_OUTCOME(HeadObject) FAKE_OUTCOME(DeleteObject) FAKE_OUTCOME(DeleteObjects) FAKE_OUTCOME(ListObjectsV2)
#undef FAKE_OUTCOME
}
class S3Client {
public:
    S3Client(const std::shared_ptr<Auth::AWSCredentialsProvider> & p, std::shared_ptr<S3EndpointProvider>, const S3ClientConfiguration & c = S3ClientConfiguration()) {
        fakes3::clientMade();
        who_ = (c.endpointOverride.empty() ? String("aws") : (c.scheme == Http::Scheme::HTTP ? "http://" : "https://") + c.endpointOverride + (c.useVirtualAddressing ? " (virtual hosts)" : "")) + ", region '" + c.region + "', " + (p ? p->who() : "ambient");
    }
    Model::GetObjectOutcome GetObject(const Model::GetObjectRequest & r) const;
    Model::PutObjectOutcome PutObject(const Model::PutObjectRequest & r) const;
    Model::HeadObjectOutcome HeadObject(const Model::HeadObjectRequest & r) const;
    Model::DeleteObjectOutcome DeleteObject(const Model::DeleteObjectRequest & r) const;
    Model::DeleteObjectsOutcome DeleteObjects(const Model::DeleteObjectsRequest & r) const;
    Model::ListObjectsV2Outcome ListObjectsV2(const Model::ListObjectsV2Request & r) const;
private:
    String who_;
};
}
}
