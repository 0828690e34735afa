// Shared parts of the whole-stream harnesses: settings, data, and an
// independent reader of what ended up in the (model) store.
#pragma once
#include <acquire.zarr.h>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <vp.h>
#include <vpblosc.hpp>
#include <vpenv.hpp>

extern "C" unsigned vp_hw_threads; // answer of std::thread::hardware_concurrency()

namespace h {
struct Geo
{
    unsigned nd = 3;
    uint32_t arr[8] = {}, chunk[8] = {}, shard[8] = {};
    ZarrDimensionType type[8] = {};
    ZarrDataType dtype = ZarrDataType_uint8;
    ZarrVersion version = ZarrVersion_2;
    unsigned bpp() const
    {
        static const unsigned b[] = { 1, 2, 4, 8, 1, 2, 4, 8, 4, 8 };
        return b[dtype];
    }
    uint32_t rows() const { return arr[nd - 2]; }
    uint32_t cols() const { return arr[nd - 1]; }
    uint64_t frame_bytes() const { return (uint64_t)rows() * cols() * bpp(); }
    // frames per entry of the append dimension
    uint64_t inner_frames() const
    {
        uint64_t n = 1;
        for (unsigned i = 1; i + 2 < nd; ++i) n *= arr[i];
        return n;
    }
    uint64_t chunk_bytes() const
    {
        uint64_t n = bpp();
        for (unsigned i = 0; i < nd; ++i) n *= chunk[i];
        return n;
    }
    uint32_t chunks_along(unsigned i) const { return arr[i] / chunk[i] + (arr[i] % chunk[i] != 0); }
    uint32_t shards_along(unsigned i) const { return chunks_along(i) / shard[i] + (chunks_along(i) % shard[i] != 0); }
};
inline const char* dim_name(unsigned i)
{
    static const char* n[] = { "t", "c", "z", "y", "x", "w", "v", "u" };
    return n[i];
}
struct Settings
{
    ZarrStreamSettings s{};
    ZarrDimensionProperties d[8]{};
    ZarrCompressionSettings comp{};
    ZarrS3Settings s3{};
    explicit Settings(const Geo& g, const char* path = "/w/s")
    {
        for (unsigned i = 0; i < g.nd; ++i) {
            d[i].name = dim_name(i);
            d[i].type = g.type[i];
            d[i].array_size_px = g.arr[i];
            d[i].chunk_size_px = g.chunk[i];
            d[i].shard_size_chunks = g.shard[i];
        }
        s.store_path = path;
        s.dimensions = d;
        s.dimension_count = g.nd;
        s.data_type = g.dtype;
        s.version = g.version;
    }
};
inline void default_types(Geo& g)
{
    for (unsigned i = 0; i < g.nd; ++i) g.type[i] = ZarrDimensionType_Space;
    g.type[0] = ZarrDimensionType_Time;
    if (g.nd > 3) g.type[1] = ZarrDimensionType_Channel;
}
inline void world()
{
    vpenv::reset();
    vpenv::add_dir("/w");
    vp_hw_threads = 2;
}
// symbolic bytes
inline unsigned char* sym_bytes(const char* name, uint64_t n)
{
    unsigned char* p = (unsigned char*)malloc(n ? n : 1);
    for (uint64_t i = 0; i < n; ++i) p[i] = (unsigned char)vp_sym(name, 8);
    return p;
}
inline vpenv::Node* file(const std::string& p)
{
    vpenv::Node* n = vpenv::find(p);
    return n && !n->dir ? n : nullptr;
}
inline std::string num(uint64_t v)
{
    char b[24];
    int i = 24;
    do b[--i] = '0' + v % 10;
    while (v /= 10);
    return std::string(b + i, 24 - i);
}
// position (in the appended sequence) of the pixel at array coordinates c
inline uint64_t pixel_pos(const Geo& g, const uint64_t* c)
{
    uint64_t p = c[0];
    for (unsigned i = 1; i < g.nd; ++i) p = p * g.arr[i] + c[i];
    return p;
}
// visit all coordinates below n[], row-major
template<typename F>
inline void each(unsigned nd, const uint64_t* n, F f)
{
    for (unsigned i = 0; i < nd; ++i)
        if (!n[i]) return;
    uint64_t c[8] = {};
    for (;;) {
        f((const uint64_t*)c);
        unsigned i = nd;
        while (i > 0) {
            --i;
            if (++c[i] < n[i]) break;
            c[i] = 0;
            if (i == 0) return;
        }
        if (nd == 0) return;
    }
}
// the byte expected at byte offset `at` of chunk `cc`; data = appended bytes,
// nframes = number of complete frames
inline bool expected_byte(const Geo& g, const uint64_t* cc, uint64_t at, const unsigned char* data, uint64_t nframes, unsigned char& out)
{
    const unsigned b = g.bpp();
    uint64_t px = at / b, c[8];
    for (unsigned i = g.nd; i-- > 0;) {
        c[i] = cc[i] * g.chunk[i] + px % g.chunk[i];
        px /= g.chunk[i];
    }
    for (unsigned i = 1; i < g.nd; ++i)
        if (c[i] >= g.arr[i]) { out = 0; return false; }
    uint64_t pos = pixel_pos(g, c);
    if (pos >= nframes * g.rows() * g.cols()) { out = 0; return false; }
    out = data[pos * b + at % b];
    return true;
}

// ------------------------------------------------------------ geometry
// choose sizes: one path each; the append dimension's array size is left 0.  Arguments from `at` on:
// largest array, chunk, shard size of the inner dimensions, of the tile dimensions, and largest chunk and shard
// size of the append dimension
inline void choose_geo(Geo& g, int at)
{
    for (unsigned i = 0; i < g.nd; ++i) {
        const int k = at + (i + 2 >= g.nd ? 3 : 0);
        g.arr[i] = i ? (uint32_t)vp_choose("array", 1, vp_arg(k)) : 0;
        g.chunk[i] = (uint32_t)vp_choose("chunk", 1, vp_arg(i ? k + 1 : at + 6));
        g.shard[i] = g.version == ZarrVersion_3 ? (uint32_t)vp_choose("shard", 1, vp_arg(i ? k + 2 : at + 7)) : 1;
    }
    default_types(g);
}
inline ZarrStream* create(Settings& s) { return ZarrStream_create(&s.s); }
inline void append_all(ZarrStream* st, const unsigned char* px, uint64_t n)
{
    size_t out = 77;
    ZarrStatusCode rc = ZarrStream_append(st, px, n, &out);
    vp_assert(rc == ZarrStatusCode_Success, "append succeeds");
    vp_assert(out == n, "append reports all the bytes it was given");
}
// ------------------------------------------------------------ reading back
inline uint64_t entries(const Geo& g, uint64_t frames)
{
    const uint64_t p = g.inner_frames();
    return frames / p + (frames % p != 0);
}
// entries of the append dimension -> append chunks
inline uint64_t append_chunks(const Geo& g, uint64_t frames)
{
    const uint64_t e = entries(g, frames);
    return e / g.chunk[0] + (e % g.chunk[0] != 0);
}
// does the chunk hold at least one appended pixel?
inline bool has_data(const Geo& g, const uint64_t* cc, uint64_t frames)
{
    // its first frame in row-major order
    uint64_t f = cc[0] * g.chunk[0];
    for (unsigned i = 1; i + 2 < g.nd; ++i) f = f * g.arr[i] + cc[i] * g.chunk[i];
    return f < frames;
}
inline std::string join(const std::string& base, const uint64_t* c, unsigned from, unsigned nd)
{
    std::string p = base;
    for (unsigned i = from; i < nd; ++i) p += "/" + num(c[i]);
    return p;
}
// a compressed chunk: what the compressor was given
inline void expect_packed(const vpenv::Node* n, uint64_t base, uint64_t len, const Geo& g, const uint64_t* cc, const unsigned char* px, uint64_t frames)
{
    unsigned char head[32];
    vp_assert(len <= sizeof head, "a compressed chunk has the compressed length");
    for (uint64_t i = 0; i < len; ++i) head[i] = vpenv::byte_at(n, base + i);
    const vpblosc::Call* c = vpblosc::decode(head, len);
    vp_assert(c != nullptr, "a compressed chunk can be decoded");
    const uint64_t nb = g.chunk_bytes();
    vp_assert(c->nbytes == nb, "a compressed chunk decodes to a chunk");
    for (uint64_t at = 0; at < nb; ++at) {
        unsigned char want;
        const bool data = expected_byte(g, cc, at, px, frames, want);
        vp_assert(c->src[at] == want, data ? "an appended pixel is found at its place in its decoded chunk" : "bytes of a decoded chunk that were never appended are zero");
    }
}
inline void expect_chunk(const vpenv::Node* n, uint64_t base, const Geo& g, const uint64_t* cc, const unsigned char* px, uint64_t frames)
{
    const uint64_t nb = g.chunk_bytes();
    for (uint64_t at = 0; at < nb; ++at) {
        unsigned char want, got = vpenv::byte_at(n, base + at);
        const bool data = expected_byte(g, cc, at, px, frames, want);
        vp_assert(got == want, data ? "an appended pixel is found at its place in its chunk" : "bytes of a chunk that were never appended are zero");
    }
}
// the chunk files of a V2 array; returns how many there must be
inline uint64_t expect_v2(const std::string& root, const Geo& g, const unsigned char* px, uint64_t frames, bool packed = false)
{
    uint64_t n[8], count = 0;
    n[0] = append_chunks(g, frames);
    for (unsigned i = 1; i < g.nd; ++i) n[i] = g.chunks_along(i);
    each(g.nd, n, [&](const uint64_t* cc) {
        vpenv::Node* f = file(join(root, cc, 0, g.nd));
        vp_assert(f != nullptr, "every chunk has its file");
        ++count;
        if (packed) return expect_packed(f, 0, f->size, g, cc, px, frames);
        vp_assert(f->size == g.chunk_bytes(), "a chunk file has the size of a chunk");
        expect_chunk(f, 0, g, cc, px, frames);
    });
    return count;
}
inline uint64_t u64_at(const vpenv::Node* n, uint64_t pos)
{
    uint64_t v = 0;
    for (unsigned i = 8; i-- > 0;) v = v << 8 | vpenv::byte_at(n, pos + i);
    return v;
}
// the shard files of a V3 array; returns how many there must be
inline uint64_t expect_v3(const std::string& root, const Geo& g, const unsigned char* px, uint64_t frames, bool packed = false)
{
    const uint64_t layers = append_chunks(g, frames), nb = g.chunk_bytes();
    uint64_t n[8], count = 0, slots = 1;
    n[0] = layers / g.shard[0] + (layers % g.shard[0] != 0);
    for (unsigned i = 1; i < g.nd; ++i) n[i] = g.shards_along(i);
    for (unsigned i = 0; i < g.nd; ++i) slots *= g.shard[i];
    each(g.nd, n, [&](const uint64_t* sc) {
        vpenv::Node* f = file(join(root + "/c" + num(sc[0]), sc, 1, g.nd));
        vp_assert(f != nullptr, "every shard has its file");
        vp_assert(f->size >= slots * 16, "a shard file ends in an index of one entry per chunk slot");
        const uint64_t index = f->size - slots * 16;
        uint64_t from[64], to[64], k = 0, sum = 0;
        uint64_t in[8], s[8];
        for (unsigned i = 0; i < g.nd; ++i) s[i] = g.shard[i];
        uint64_t slot = 0;
        each(g.nd, s, [&](const uint64_t* ic) {
            uint64_t cc[8];
            bool exists = true;
            for (unsigned i = 0; i < g.nd; ++i) {
                cc[i] = sc[i] * g.shard[i] + ic[i];
                if (cc[i] >= (i ? g.chunks_along(i) : layers)) exists = false;
            }
            const uint64_t off = u64_at(f, index + slot * 16), len = u64_at(f, index + slot * 16 + 8);
            ++slot;
            const bool none = off == ~0ull && len == ~0ull;
            if (!exists) {
                vp_assert(none, "the slot of a chunk that was never written is marked so");
                return;
            }
            if (none) {
                vp_assert(!has_data(g, cc, frames), "a chunk that received data has an entry in the index");
                return;
            }
            vp_assert(packed || len == nb, "an index entry gives the length of its chunk");
            vp_assert(off <= index && len <= index - off, "an index entry lies in the file");
            for (uint64_t j = 0; j < k; ++j) vp_assert(off >= to[j] || off + len <= from[j], "index entries do not overlap");
            if (k < 64) {
                from[k] = off;
                to[k++] = off + len;
            }
            sum += len;
            if (packed) expect_packed(f, off, len, g, cc, px, frames);
            else expect_chunk(f, off, g, cc, px, frames);
        });
        (void)in;
        vp_assert(sum == index, "a shard file holds its chunks and its index and nothing else");
        ++count;
    });
    return count;
}
inline uint64_t files_below(const std::string& dir)
{
    uint64_t n = 0;
    for (auto* f : vpenv::nodes)
        if (!f->dir && f->path.size() > dir.size() && f->path.compare(0, dir.size(), dir) == 0 && f->path[dir.size()] == '/') ++n;
    return n;
}
} // namespace h
