// In-memory stand-in for the part of minio-cpp that acquire-zarr uses.
#pragma once
#include <list>
#include <map>
#include <mutex>
#include <string>
#include <vector>
namespace demo { // the store, and switches that make its requests fail
inline std::recursive_mutex mx;
inline std::map<std::string, std::string> objects;            // "bucket/key" -> data
inline std::map<std::string, std::map<unsigned, std::string>> uploads; // id -> parts
inline std::string bucket = "bucket";
inline bool fail_list = false, fail_put = false, fail_create = false, fail_part = false, fail_complete = false;
}
namespace minio {
namespace error {
class Error
{
    std::string m_;
  public:
    Error() = default;
    explicit Error(std::string m) : m_(std::move(m)) {}
    explicit operator bool() const { return !m_.empty(); }
    std::string String() const { return m_; }
};
}
namespace s3 {
struct Part
{
    unsigned int number = 0;
    std::string etag;
    std::string last_modified;
    size_t size = 0;
    Part() = default;
    explicit Part(unsigned int number, std::string etag) : number(number), etag(std::move(etag)) {}
};
struct Response
{
    int status_code = 200;
    std::string err;
    std::string code, message;
    explicit operator bool() const { return err.empty(); }
    error::Error Error() const { return error::Error(err); }
};
}
}
