// Chunk, shard and byte counts.
#include <dims.h>
static unsigned pick_bpp(ZarrDataType t)
{
    Dims d;
    d.t = t;
    return d.bpp();
}
// args: mode, dimensions, max size, ...
extern "C" void harness()
{
    const unsigned mode = vp_arg(0), nd = vp_arg(1);
    if (mode == 0) { // one dimension, any 32-bit size; chunk size in a window
        ZarrDimension d("x", ZarrDimensionType_Space, 0, 0, 0);
        const uint64_t a = vp_range("array", vp_arg(2), vp_arg(3)), c = vp_range("chunk", vp_arg(4), vp_arg(5));
        d.array_size_px = a;
        d.chunk_size_px = c;
        bool threw = false;
        uint64_t n = 0;
        try {
            n = zarr::chunks_along_dimension(d);
        } catch (const std::exception&) {
            threw = true;
        }
        vp_assert(threw == (c == 0), "a zero chunk size, and only that, is refused");
        if (!threw) {
            vp_observe(1, n);
            // n = ceil(a / c), said without dividing
            vp_assert(n * c >= a, "the chunks cover the array");
            vp_assert(n == 0 ? a == 0 : (n - 1) * c < a, "no chunk is superfluous");
            vp_reach(1);
        } else
            vp_reach(2);
    } else if (mode == 1) { // shards along one dimension
        ZarrDimension d("x", ZarrDimensionType_Space, 0, 0, 0);
        const uint64_t a = vp_range("array", vp_arg(2), vp_arg(3)), s = vp_range("shard", vp_arg(4), vp_arg(5));
        const uint64_t c = vp_arg(6);
        d.array_size_px = a;
        d.chunk_size_px = c;
        d.shard_size_chunks = s;
        uint64_t n = zarr::shards_along_dimension(d), k = c == 1 ? a : a / c + (a % c ? 1 : 0);
        vp_observe(1, n);
        if (s == 0) {
            vp_assert(n == 0, "a zero shard size gives no shards");
            vp_reach(2);
        } else {
            vp_assert(n * s >= k, "the shards cover the chunks");
            vp_assert(n == 0 ? k == 0 : (n - 1) * s < k, "no shard is superfluous");
            vp_reach(1);
        }
    } else if (mode == 2) { // totals
        Dims d = sym_dims(0, nd, vp_arg(2), vp_arg(2), vp_arg(3));
        d.t = (ZarrDataType)vp_choose("dtype", 0, 9);
        ArrayDimensions dims = d.make();
        uint64_t mem = 1, sh = 1, per = 1, bytes = d.bpp();
        for (unsigned i = 0; i < nd; ++i) {
            if (i) {
                mem *= d.chunks(i);
                sh *= d.shards(i);
            }
            per *= d.s[i];
            bytes *= d.c[i];
        }
        vp_assert(dims.ndims() == nd, "number of dimensions");
        vp_assert(dims.number_of_chunks_in_memory() == mem, "chunks buffered = product over all dimensions but the first");
        vp_assert(dims.number_of_shards() == sh, "shards = product over all dimensions but the first");
        vp_assert(dims.chunks_per_shard() == per, "chunks per shard = product of the shard sizes");
        vp_assert(dims.bytes_per_chunk() == bytes, "bytes per chunk = product of the chunk sizes and the pixel size");
        vp_assert(zarr::bytes_of_frame(dims, d.t) == d.a[nd - 1] * d.a[nd - 2] * d.bpp(), "bytes per frame");
        vp_assert(zarr::bytes_of_type(d.t) == d.bpp(), "bytes per pixel");
        vp_observe(1, dims.bytes_per_chunk());
        vp_reach(1);
    } else if (mode == 3) { // byte totals for large sizes
        Dims d;
        d.nd = nd;
        d.t = (ZarrDataType)vp_choose("dtype", 0, 9);
        for (unsigned i = 0; i < nd; ++i) {
            d.s[i] = 1;
            d.a[i] = d.c[i] = vp_arg(2 + i) + vp_range("size+", 0, 15);
        }
        ArrayDimensions dims = d.make();
        uint64_t bytes = d.bpp();
        for (unsigned i = 0; i < nd; ++i) bytes *= d.c[i];
        vp_assert(dims.bytes_per_chunk() == bytes, "bytes per chunk beyond 32 bits");
        vp_assert(zarr::bytes_of_frame(dims, d.t) == d.a[nd - 1] * d.a[nd - 2] * d.bpp(), "bytes per frame beyond 32 bits");
        vp_observe(1, bytes);
        vp_reach(1);
    } else if (mode == 5) { // counts beyond 16 bits; argument 2: the shard sizes are the large ones
        Dims d;
        d.nd = nd;
        uint64_t mem = 1, sh = 1, per = 1;
        for (unsigned i = 0; i < nd; ++i) {
            const uint64_t big = vp_arg(3 + i) + vp_range("size+", 0, 15);
            d.c[i] = vp_choose("chunk", 1, 2);
            d.a[i] = vp_arg(2) ? 5 : big;
            d.s[i] = vp_arg(2) ? big : vp_choose("shard", 1, 2);
            if (i) {
                mem *= d.chunks(i);
                sh *= d.shards(i);
            }
            per *= d.s[i];
        }
        vp_assume(mem >> 32 == 0 & sh >> 32 == 0 & per >> 32 == 0);
        ArrayDimensions dims = d.make();
        vp_assert(dims.number_of_chunks_in_memory() == mem, "chunks buffered = product over all dimensions but the first");
        vp_assert(dims.number_of_shards() == sh, "shards = product over all dimensions but the first");
        vp_assert(dims.chunks_per_shard() == per, "chunks per shard = product of the shard sizes");
        vp_observe(1, mem);
        vp_reach(1);
    } else { // every value of the type code
        const uint64_t k = vp_choose("code", 0, 35);
        uint32_t t = k < 32 ? k : k == 32 ? 255 : k == 33 ? 256 : k == 34 ? 0x80000000u : 0xffffffffu;
        bool threw = false;
        uint64_t n = 0;
        try {
            n = zarr::bytes_of_type((ZarrDataType)t);
        } catch (const std::exception&) {
            threw = true;
        }
        vp_assert(threw == (t >= ZarrDataTypeCount), "an unknown pixel type, and only that, is refused");
        if (!threw) {
            vp_assert(n == pick_bpp((ZarrDataType)t), "bytes per pixel");
            vp_reach(1);
        } else
            vp_reach(2);
        vp_observe(1, n);
    }
}
