// The same bytes, cut up in any way, give the same dataset.
#include <stream.h>
using namespace h;
// args: version, rows, cols, type, multiscale, pieces, longest piece (0: frame size + 1), append chunk, shard, tile chunk
extern "C" void harness()
{
    world();
    Geo g;
    g.version = (ZarrVersion)vp_arg(0);
    g.nd = 3;
    g.arr[1] = vp_arg(1);
    g.arr[2] = vp_arg(2);
    g.dtype = (ZarrDataType)vp_arg(3);
    g.chunk[0] = vp_arg(7);
    g.shard[0] = vp_arg(8);
    for (unsigned i = 1; i < 3; ++i) {
        g.chunk[i] = vp_arg(9) < g.arr[i] ? vp_arg(9) : g.arr[i];
        g.shard[i] = 1;
    }
    default_types(g);
    const uint64_t fb = g.frame_bytes(), pieces = vp_arg(5), longest = vp_arg(6) ? vp_arg(6) : fb + 1;
    unsigned char* px = sym_bytes("px", pieces * longest);
    Settings a(g, "/w/s"), b(g, "/w/r");
    a.s.multiscale = b.s.multiscale = vp_arg(4);
    ZarrStream* st = create(a);
    ZarrStream* whole = create(b);
    vp_assert(st != nullptr && whole != nullptr, "a valid stream is created");
    uint64_t total = 0, frames = 0;
    for (uint64_t i = 0; i < pieces; ++i) {
        const uint64_t n = vp_choose("piece", 0, longest);
        unsigned char* piece = (unsigned char*)malloc(n ? n : 1); // exactly as long as announced
        memcpy(piece, px + total, n);
        append_all(st, piece, n);
        free(piece); // no part of it may be used later
        total += n;
        for (; frames < total / fb; ++frames) append_all(whole, px + frames * fb, fb);
    }
    ZarrStream_destroy(st);
    ZarrStream_destroy(whole);
    // both stores hold the same files with the same contents
    uint64_t na = 0, nb = 0;
    for (auto* n : vpenv::nodes) {
        if (n->dir) continue;
        if (n->path.compare(0, 5, "/w/r/") == 0) ++nb;
        if (n->path.compare(0, 5, "/w/s/") != 0) continue;
        ++na;
        vpenv::Node* m = file("/w/r/" + n->path.substr(5));
        vp_assert(m != nullptr, "cut up differently, the data is stored in the same files");
        vp_assert(m->size == n->size, "cut up differently, the files have the same size");
        const char last = n->path.back();
        if (last < '0' || last > '9') { // metadata
            vp_assert(vpenv::content(m) == vpenv::content(n), "cut up differently, the metadata is the same");
            continue;
        }
        for (uint64_t i = 0; i < n->size; ++i) vp_assert(vpenv::byte_at(m, i) == vpenv::byte_at(n, i), "cut up differently, the files have the same contents");
    }
    vp_assert(na == nb, "cut up differently, the data is stored in as many files");
    if (g.version == ZarrVersion_2) expect_v2("/w/s/0", g, px, frames);
    else expect_v3("/w/s/data/root/0", g, px, frames);
    vp_observe(1, frames);
    if (total % fb && frames) vp_reach(1);
    free(px);
}
