// Chunks in shards.
#include <dims.h>
// args: mode, dimensions, max chunks along a dimension, max shard size, chunk size
//   mode 0: shard and slot are the row-major positions, and within bounds
//   mode 1: two chunks of one shard never share a slot
extern "C" void harness()
{
    const unsigned mode = vp_arg(0), nd = vp_arg(1);
    Dims d;
    d.nd = nd;
    d.t = ZarrDataType_uint8;
    for (unsigned i = 0; i < nd; ++i) {
        d.s[i] = vp_range("shard", 1, vp_arg(3));
        d.c[i] = vp_arg(4);
        d.a[i] = vp_range("array", 1, vp_arg(2) * vp_arg(4));
        if (vp_arg(5) & 1) d.s[i] = vp_concretize(d.s[i]);
        if (vp_arg(5) & 2) d.a[i] = vp_concretize(d.a[i]);
    }
    ArrayDimensions dims = d.make();
    const uint64_t mem = d.chunks_in_memory();
    const uint64_t most = vp_arg(6);
    if (mode == 0) {
        // chunks are numbered over the whole shard: layer after layer of the append dimension
        uint64_t k = vp_range("chunk_index", 0, most);
        vp_assume(k < mem * d.s[0]);
        uint64_t r = k, co[8];
        for (unsigned i = nd - 1; i > 0; --i) {
            co[i] = r % d.chunks(i);
            r /= d.chunks(i);
        }
        co[0] = r;
        uint64_t shard = 0, slot = co[0];
        for (unsigned i = 1; i < nd; ++i) {
            shard = shard * d.shards(i) + co[i] / d.s[i];
            slot = slot * d.s[i] + co[i] % d.s[i];
        }
        uint64_t gs = dims.shard_index_for_chunk(k), gi = dims.shard_internal_index(k);
        vp_observe(1, gs);
        vp_observe(2, gi);
        vp_assert(gs == shard, "the shard is the one covering the chunk");
        vp_assert(gs < dims.number_of_shards(), "the shard exists");
        vp_assert(gi == slot, "the slot is the chunk's row-major position in the shard");
        vp_assert(gi < dims.chunks_per_shard(), "the slot exists");
    } else {
        uint64_t k = vp_range("first", 0, most), l = vp_range("second", 0, most);
        vp_assume(k < l);
        vp_assume(l < mem * d.s[0]);
        uint64_t a = dims.shard_index_for_chunk(k), b = dims.shard_index_for_chunk(l);
        uint64_t p = dims.shard_internal_index(k), q = dims.shard_internal_index(l);
        vp_observe(1, a);
        vp_observe(2, q);
        vp_assert(a != b || p != q, "two chunks never share a slot of a shard");
    }
    vp_reach(1);
}
