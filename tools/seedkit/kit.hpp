// Small helpers for the demonstrations: settings, reading files, checking.
#pragma once
#include "acquire.zarr.h"
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <iterator>
#include <string>
#include <vector>
#define REQUIRE(c)                                                             \
    do {                                                                       \
        if (!(c)) {                                                            \
            fprintf(stderr, "BROKEN: %s (line %d)\n", #c, __LINE__);           \
            fflush(nullptr);                                                   \
            _Exit(1);                                                          \
        }                                                                      \
    } while (0)
struct Stream
{
    ZarrStreamSettings s{};
    ZarrCompressionSettings comp{};
    ZarrS3Settings s3{};
    std::vector<ZarrDimensionProperties> dims;
    ZarrStream* h = nullptr;
    Stream(const char* path, ZarrVersion v, ZarrDataType t)
    {
        s.store_path = path;
        s.version = v;
        s.data_type = t;
    }
    void dim(const char* name, ZarrDimensionType type, uint32_t size, uint32_t chunk, uint32_t shard = 1)
    {
        dims.push_back({ name, type, size, chunk, shard });
    }
    bool create()
    {
        s.dimensions = dims.data();
        s.dimension_count = dims.size();
        h = ZarrStream_create(&s);
        return h != nullptr;
    }
    template<class T>
    bool append(const std::vector<T>& px)
    {
        size_t out = 0;
        return ZarrStream_append(h, px.data(), px.size() * sizeof(T), &out) == ZarrStatusCode_Success &&
               out == px.size() * sizeof(T);
    }
    void destroy()
    {
        ZarrStream_destroy(h);
        h = nullptr;
    }
};
inline std::string
slurp(const std::string& path)
{
    std::ifstream f(path, std::ios::binary);
    return { std::istreambuf_iterator<char>(f), {} };
}
