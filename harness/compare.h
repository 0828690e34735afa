// What two stores hold, compared piece by piece.
#pragma once
#include <map>
#include <stream.h>
#include <vps3.hpp>
namespace h {
typedef std::map<std::string, std::string> Contents;
inline Contents files_of(const std::string& root)
{
    Contents c;
    for (auto* n : vpenv::nodes)
        if (!n->dir && n->path.size() > root.size() && n->path.compare(0, root.size(), root) == 0 && n->path[root.size()] == '/') c[n->path.substr(root.size() + 1)] = vpenv::content(n);
    return c;
}
inline Contents objects_of(const std::string& root)
{
    Contents c;
    for (auto* o : vps3::objects)
        if (o->bucket == "bucket" && o->key.size() > root.size() && o->key.compare(0, root.size(), root) == 0 && o->key[root.size()] == '/') c[o->key.substr(root.size() + 1)] = o->data;
    return c;
}
inline bool is_shard(const std::string& path) { return path.compare(0, 10, "data/root/") == 0; }
inline uint64_t u64_in(const std::string& s, uint64_t at)
{
    uint64_t v = 0;
    for (unsigned i = 8; i-- > 0;) v = v << 8 | (unsigned char)s[at + i];
    return v;
}
inline void same_bytes(const char* a, const char* b, uint64_t n, const char* msg)
{
    for (uint64_t i = 0; i < n; ++i) vp_assert(a[i] == b[i], msg);
}
// the same chunks in the same slots, wherever in the file they are
inline void same_shard(const std::string& a, const std::string& b, uint64_t slots)
{
    const uint64_t n = slots * 16;
    vp_assert(a.size() >= n && b.size() >= n, "a shard ends in its index");
    for (uint64_t s = 0; s < slots; ++s) {
        const uint64_t ao = u64_in(a, a.size() - n + 16 * s), al = u64_in(a, a.size() - n + 16 * s + 8);
        const uint64_t bo = u64_in(b, b.size() - n + 16 * s), bl = u64_in(b, b.size() - n + 16 * s + 8);
        vp_assert((ao == ~0ull) == (bo == ~0ull), "the same chunks are in the shard");
        vp_assert(al == bl, "a chunk of the shard has the same length");
        if (ao == ~0ull) continue;
        vp_assert(ao <= a.size() - n && al <= a.size() - n - ao && bo <= b.size() - n && bl <= b.size() - n - bo, "an index entry lies in the file");
        same_bytes(a.data() + ao, b.data() + bo, al, "a chunk of the shard has the same bytes");
    }
}
inline void same_store(const Contents& a, const Contents& b, uint64_t slots)
{
    for (auto& x : a) vp_assert(b.count(x.first) == 1, "nothing is missing");
    for (auto& x : b) vp_assert(a.count(x.first) == 1, "there is nothing else");
    for (auto& x : a) {
        const std::string& y = b.at(x.first);
        if (is_shard(x.first)) same_shard(x.second, y, slots);
        else {
            vp_assert(x.second.size() == y.size(), "every file has the same size");
            same_bytes(x.second.data(), y.data(), y.size(), "every file has the same bytes");
        }
    }
}
} // namespace h
