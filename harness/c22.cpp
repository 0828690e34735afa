// What is stored of a compressed array.
#include <stream.h>
#include <vpblosc.hpp>
#include <vps3.hpp>
using namespace h;
namespace {
struct Asked { int clevel, shuffle; const char* codec; };
std::vector<bool> used;
unsigned char stored_byte(const vpenv::Node* f, const std::string* o, uint64_t at) { return f ? vpenv::byte_at(f, at) : (unsigned char)(*o)[at]; }
// one stored chunk, len bytes from base
void expect_compressed(const vpenv::Node* f, const std::string* o, uint64_t base, uint64_t len, const Geo& g, const uint64_t* cc, const unsigned char* px, uint64_t frames, const Asked& a)
{
    unsigned char head[64];
    vp_assert(len >= 16, "a stored chunk is an output of the compressor");
    for (uint64_t i = 0; i < 16; ++i) head[i] = stored_byte(f, o, base + i);
    const vpblosc::Call* c = vpblosc::decode(head, len);
    vp_assert(c != nullptr, "a stored chunk is exactly one output of the compressor, cut to its length");
    for (uint64_t i = 5; i < len; ++i) vp_assert(stored_byte(f, o, base + i) == (unsigned char)(0xC0 + i), "a stored chunk is exactly what the compressor gave");
    uint64_t idx = 0;
    while (vpblosc::calls[idx] != c) ++idx;
    if (used.size() < vpblosc::calls.size()) used.resize(vpblosc::calls.size());
    vp_assert(!used[idx], "every chunk is compressed on its own");
    used[idx] = true;
    vp_assert(c->clevel == a.clevel, "the level requested is used");
    vp_assert(c->shuffle == a.shuffle, "the shuffle requested is used");
    vp_assert(c->codec == a.codec, "the codec requested is used");
    vp_assert(c->typesize == g.bpp(), "the type size is that of a pixel");
    vp_assert(c->nbytes == g.chunk_bytes(), "all of the chunk is compressed, and no more");
    if (!px) return;
    for (uint64_t at = 0; at < c->nbytes; ++at) {
        unsigned char want;
        const bool data = expected_byte(g, cc, at, px, frames, want);
        vp_assert(c->src[at] == want, data ? "a compressed chunk decodes to the pixels appended" : "bytes of a chunk that were never appended decode to zero");
    }
}
uint64_t walk_v2(const std::string& root, const Geo& g, const unsigned char* px, uint64_t frames, const Asked& a, bool s3)
{
    uint64_t n[8], count = 0;
    n[0] = append_chunks(g, frames);
    for (unsigned i = 1; i < g.nd; ++i) n[i] = g.chunks_along(i);
    each(g.nd, n, [&](const uint64_t* cc) {
        const std::string p = join(root, cc, 0, g.nd);
        vpenv::Node* f = s3 ? nullptr : file(p);
        const vps3::Object* o = s3 ? vps3::find("bucket", p) : nullptr;
        vp_assert(f || o, "every chunk is stored");
        expect_compressed(f, o ? &o->data : nullptr, 0, f ? f->size : o->data.size(), g, cc, px, frames, a);
        ++count;
    });
    return count;
}
uint64_t walk_v3(const std::string& root, const Geo& g, const unsigned char* px, uint64_t frames, const Asked& a)
{
    const uint64_t layers = append_chunks(g, frames);
    uint64_t n[8], count = 0, slots = 1;
    n[0] = layers / g.shard[0] + (layers % g.shard[0] != 0);
    for (unsigned i = 1; i < g.nd; ++i) n[i] = g.shards_along(i);
    for (unsigned i = 0; i < g.nd; ++i) slots *= g.shard[i];
    each(g.nd, n, [&](const uint64_t* sc) {
        vpenv::Node* f = file(join(root + "/c" + num(sc[0]), sc, 1, g.nd));
        vp_assert(f && f->size >= slots * 16, "every shard is stored");
        const uint64_t index = f->size - slots * 16;
        uint64_t s[8], slot = 0, total = 0;
        for (unsigned i = 0; i < g.nd; ++i) s[i] = g.shard[i];
        each(g.nd, s, [&](const uint64_t* ic) {
            uint64_t cc[8];
            bool exists = true;
            for (unsigned i = 0; i < g.nd; ++i) {
                cc[i] = sc[i] * g.shard[i] + ic[i];
                if (cc[i] >= (i ? g.chunks_along(i) : layers)) exists = false;
            }
            const uint64_t off = u64_at(f, index + slot * 16), len = u64_at(f, index + slot * 16 + 8);
            ++slot;
            if (!exists) {
                vp_assert(off == ~0ull && len == ~0ull, "the slot of a chunk that was never written is marked so");
                return;
            }
            vp_assert(off <= index && len <= index - off, "an index entry gives the place of a compressed chunk");
            expect_compressed(f, nullptr, off, len, g, cc, px, frames, a);
            total += len;
            ++count;
        });
        vp_assert(total == index, "a shard holds its compressed chunks, cut to their lengths, and the index");
    });
    return count;
}
}
// args: version, pixel type, rows, columns, tile chunk, append chunk, shard, multiscale, s3, frames, lengths, faults, symbolic settings: 0 given, 1 all levels and shuffles
extern "C" void harness()
{
    world();
    const bool s3 = vp_arg(8);
    Geo g;
    g.version = (ZarrVersion)vp_arg(0);
    g.dtype = (ZarrDataType)vp_arg(1);
    g.arr[1] = vp_arg(2);
    g.arr[2] = vp_arg(3);
    g.chunk[0] = vp_arg(5);
    g.shard[0] = vp_arg(6);
    for (unsigned i = 1; i < 3; ++i) {
        g.chunk[i] = vp_arg(4) < g.arr[i] ? vp_arg(4) : g.arr[i];
        g.shard[i] = vp_arg(6) > 1 && g.chunks_along(i) > 1 ? 2 : 1;
    }
    default_types(g);
    vpblosc::reset();
    vpblosc::lengths = vp_arg(10);
    Settings s(g, s3 ? "s" : "/w/s");
    s.s.multiscale = vp_arg(7);
    if (s3) {
        vps3::reset();
        vps3::buckets.push_back("bucket");
        s.s3 = { "http://localhost:9000", "bucket", "id", "key" };
        s.s.s3_settings = &s.s3;
    }
    const uint64_t fb = g.frame_bytes(), frames = vp_choose("frames", 1, vp_arg(9));
    unsigned char* px = sym_bytes("px", frames * fb);
    s.comp.compressor = ZarrCompressor_Blosc1;
    s.comp.codec = ZarrCompressionCodec_BloscZstd;
    s.comp.level = 3;
    s.comp.shuffle = 2;
    if (vp_arg(12)) {
        s.comp.compressor = (ZarrCompressor)vp_choose("compressor", 0, ZarrCompressorCount - 1);
        s.comp.codec = s.comp.compressor ? (ZarrCompressionCodec)vp_choose("codec", ZarrCompressionCodec_BloscLZ4, ZarrCompressionCodecCount - 1) : ZarrCompressionCodec_None;
        s.comp.level = (uint8_t)vp_range("level", 0, 9);
        s.comp.shuffle = (uint8_t)vp_range("shuffle", 0, 2);
    }
    const ZarrCompressionSettings asked = s.comp;
    s.s.compression_settings = &s.comp;
    ZarrStream* st = create(s);
    vp_assert(st != nullptr, "a valid stream is created");
    s.comp = { ZarrCompressor_None, ZarrCompressionCodec_None, 77, 77 }; // the settings may be gone by now
    vpenv::fault_mask = vpenv::F_BLOSC;
    vpenv::fault_budget = vp_arg(11);
    bool bad = false;
    for (uint64_t f = 0; f < frames && !bad; ++f) {
        size_t out = 0;
        const ZarrStatusCode rc = ZarrStream_append(st, px + f * fb, fb, &out);
        vp_assert(!vpenv::faults_hit || rc != ZarrStatusCode_Success, "a compressor that fails is reported");
        vp_assert(vpenv::faults_hit || rc == ZarrStatusCode_Success, "append succeeds");
        bad = rc != ZarrStatusCode_Success;
    }
    ZarrStream_destroy(st);
    if (vpenv::faults_hit) {
        if (bad) vp_reach(2);
        return;
    }
    const Asked a = { asked.level, asked.shuffle, asked.codec == ZarrCompressionCodec_BloscZstd ? "zstd" : "lz4" };
    if (asked.compressor == ZarrCompressor_None) {
        vp_assert(vpblosc::calls.empty(), "nothing is compressed with no compressor selected");
        if (g.version == ZarrVersion_2) expect_v2("/w/s/0", g, px, frames);
        else expect_v3("/w/s/data/root/0", g, px, frames);
        vp_reach(3);
        return;
    }
    uint64_t count = 0;
    uint64_t nf = frames;
    for (unsigned level = 0;; ++level) {
        const std::string root = g.version == ZarrVersion_2 ? (s3 ? "s/" : "/w/s/") + num(level) : "/w/s/data/root/" + num(level);
        count += g.version == ZarrVersion_2 ? walk_v2(root, g, level ? nullptr : px, nf, a, s3) : walk_v3(root, g, level ? nullptr : px, nf, a);
        if (!vp_arg(7)) break;
        // one level down, if there is one
        bool shrank = false;
        for (unsigned i = 1; i < 3; ++i) {
            const uint32_t half = g.arr[i] / 2 + g.arr[i] % 2;
            if (half < g.chunk[i]) {
                shrank = true;
                g.chunk[i] = half;
            }
            g.arr[i] = half;
            if (g.chunks_along(i) < g.shard[i]) g.shard[i] = g.chunks_along(i);
        }
        g.shard[0] = 1;
        nf /= 2;
        if (!nf || shrank) break; // (how a level that is smaller than a chunk is stored is not at stake here)
    }
    if (!vp_arg(7)) vp_assert(count == vpblosc::calls.size(), "every chunk is compressed once");
    vp_observe(1, count);
    vp_reach(1);
}
