// An S3 object is exactly what was written to its sink.
#include <s3.connection.hh>
#include <s3.sink.hh>
#include <stream.h>
#include <vps3.hpp>
using namespace h;
static const uint64_t P = 5 << 20;
static const uint64_t lengths[] = { 0, 1, 3, 700, P - 2, P - 1, P, P + 1, 2 * P - 1, 2 * P, 2 * P + 1, 3 * P };
// args: writes, first and last length of the first write, first and last length of the others, faults, a write into what was sent already
extern "C" void harness()
{
    world();
    vps3::buckets.push_back("bucket");
    auto conns = std::make_shared<zarr::S3ConnectionPool>(1, "http://s3", "id", "key");
    const unsigned n = vp_arg(0);
    std::unique_ptr<zarr::Sink> sink = std::make_unique<zarr::S3Sink>("bucket", "dir/key", conns);
    uint64_t len[4], off[5] = {}, total = 0;
    for (unsigned i = 0; i < n; ++i) {
        len[i] = lengths[vp_choose("length", vp_arg(i ? 3 : 1), vp_arg(i ? 4 : 2))];
        total += len[i];
        off[i + 1] = total;
    }
    unsigned char* px = (unsigned char*)malloc(total + 1);
    memset(px, 0x5a, total + 1);
    // symbolic bytes at the ends of the writes and around the ends of the parts
    for (unsigned i = 0; i <= n; ++i)
        for (int k = -2; k < 2; ++k)
            if (off[i] + k < total) px[off[i] + k] = (unsigned char)vp_sym("byte", 8);
    for (uint64_t e = P; e < total + 2; e += P)
        for (int k = -2; k < 2; ++k)
            if (e + k < total) px[e + k] = (unsigned char)vp_sym("byte", 8);
    if (vp_arg(5)) {
        vpenv::fault_mask = vpenv::F_S3;
        vpenv::fault_budget = (unsigned)vp_arg(5);
    }
    bool told = false;
    for (unsigned i = 0; i < n; ++i) {
        unsigned char* piece = (unsigned char*)malloc(len[i] ? len[i] : 1); // exactly as long as announced
        memcpy(piece, px + off[i], len[i]);
        const bool ok = sink->write(off[i], std::span<const std::byte>((const std::byte*)piece, len[i]));
        free(piece); // (the caller may reuse its buffer at once)
        if (!ok) told = true;
        if (!vpenv::faults_hit) vp_assert(ok, "a write succeeds if the store accepts it");
        if (!ok) break;
    }
    if (vp_arg(6) && !told) { // what was sent already
        const uint64_t sent = total / P * P;
        uint64_t at = 0;
        switch (vp_choose("where", 0, 2)) {
        case 0: at = 0; break;
        case 1: at = sent / 2; break;
        default: at = sent - 1; break;
        }
        std::byte b[2] = {};
        vp_assert(sent > 0 && !sink->write(at, std::span<const std::byte>(b, 1 + (at & 1))), "data that was sent already is not rewritten silently");
        vp_reach(3);
    }
    const bool fin = zarr::finalize_sink(std::move(sink));
    if (!fin) told = true;
    vp_assert(told == (vpenv::faults_hit > 0), "a failed request is reported by the write or by the finalisation, and nothing else is");
    // the connection is back
    auto c = conns->get_connection();
    vp_assert(c != nullptr, "the connection is returned");
    conns->return_connection(std::move(c));
    vps3::Object* o = vps3::find("bucket", "dir/key");
    if (vpenv::faults_hit) {
        vp_reach(2);
        free(px);
        return;
    }
    if (total == 0) {
        vp_assert(!o || o->data.empty(), "nothing written, nothing stored");
        free(px);
        return;
    }
    vp_assert(o != nullptr, "the object is there");
    vp_assert(o->data.size() == total, "the object has as many bytes as were written");
    vp_assert(memcmp(o->data.data(), px, total) == 0, "the object has the bytes that were written");
    vp_assert(vps3::objects.size() == 1, "there is no other object");
    vp_assert(o->puts + o->completes == 1, "the object is put or completed once");
    for (auto* u : vps3::uploads) {
        vp_assert(u->completes == 1, "every upload that was begun is completed, once");
        for (uint64_t k = 0; k < u->parts.size(); ++k) {
            vp_assert(u->parts[k].number == k + 1, "parts are numbered from one without gaps");
            const uint64_t size = u->parts[k].data.size();
            vp_assert(k + 1 == u->parts.size() ? size > 0 : size >= P && size == u->parts[0].data.size(), "every part but the last has the part size");
        }
    }
    vp_assert(vps3::uploads.size() <= 1, "there is one upload at most");
    vp_reach(1);
    free(px);
}
