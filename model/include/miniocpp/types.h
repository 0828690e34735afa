#pragma once
#include <list>
#include <string>
namespace minio {
namespace error {
class Error
{
    std::string m_;
  public:
    Error() = default;
    explicit Error(std::string m) : m_(std::move(m)) {}
    explicit operator bool() const { return !m_.empty(); }
    std::string String() const { return m_; }
};
}
namespace s3 {
struct Part
{
    unsigned int number = 0;
    std::string etag;
    std::string last_modified;
    size_t size = 0;
    Part() = default;
    explicit Part(unsigned int number, std::string etag) : number(number), etag(std::move(etag)) {}
};
struct Response
{
    int status_code = 200;
    std::string err;
    std::string code, message;
    explicit operator bool() const { return err.empty(); }
    error::Error Error() const { return error::Error(err); }
};
}
}
