#pragma once
#include <streambuf>
namespace minio {
namespace utils {
struct CharBuffer : std::streambuf
{
    CharBuffer(char* buf, size_t size) { this->setg(buf, buf, buf + size); }
};
}
}
