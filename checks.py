"""The cases of every property: harness, parameters, bounds."""

COMMON_ASSUMPTIONS = [
    "memory allocation succeeds",
    "the runtime library parts in model/rt_*.cpp behave as the C++ standard says; everything templated or inline in libstdc++ and nlohmann/json is executed from its real source",
]
CHECKS = {}


def case(name, args=(), **kw):
    return dict(name=name, args=list(args), **kw)


T = ("thorough",)
Q = ("quick", "thorough")

# ------------------------------------------------------------------ C01
W = 4096
CHECKS["C01"] = dict(
    harness="c01.cpp",
    bounds="regime 0: 3-8 dimensions, all array and chunk sizes symbolic in 1..N, frame number symbolic in 0..F (per case: N, F in its name); "
           "regime 1: sizes anywhere in 32 bits in windows of 2-3 around given bases, frame numbers in windows of 64 around 0, whole periods, 2^31, 2^32; "
           "regime 2: given sizes whose products pass 2^32, frame numbers in windows of 16 around every corner of the first two chunks and of the arrays",
    outside="sizes and frame numbers between the windows; more than 8 dimensions",
    cases=[
        case("nd3-size255-frame65535", [0, 3, 255, 255, 65535]),
        case("nd4-size15-frame1023", [0, 4, 15, 15, 1023]),
        case("nd5-size4-frame127", [0, 5, 4, 4, 127]),
        case("nd6-size3-frame63", [0, 6, 3, 3, 63]),
        case("nd7-size2-frame31", [0, 7, 2, 2, 31]),
        case("nd8-size2-frame63", [0, 8, 2, 2, 63]),
        case("wide-nd3", [1, 3, 0, 2, 63, 1, 0xfffe, 100, 64, 70000, 256]),
        case("wide-nd4-divisor", [1, 4, 0, 1, 63, 1, 0x10000, 0x10000, 0xffff, 64, 64, 64, 64]),
        case("wide-nd4-array32", [1, 4, 0, 1, 63, 1, 3, 0xfffffffd, 0x40000000, 64, 64, 64, 64]),
        case("wide-nd4-tile32", [1, 4, 0, 1, 63, 1, 3, 5, 2, 0xfffffffd, 0x7fffffff, 0xfffffffd, 0xfffffff0]),
        case("wide-nd5", [1, 5, 0, 1, 63, 1, 7, 1000, 300, 70000, 0x8000, 128, 100, 128, 100]),
        case("corner-nd4", [2, 4, 0, 1, 15, 1, 7, 1000, 300, 64, 64, 64, 64]),
        case("corner-nd5", [2, 5, 0, 0, 15, 1, 7, 70000, 1000, 70000, 999, 64, 64, 64, 64]),
        case("corner-nd6", [2, 6, 0, 0, 15, 1, 3, 3000, 1000, 3000, 700, 3000, 1500, 64, 64, 64, 64]),
        case("corner-nd7", [2, 7, 0, 0, 15, 1, 2, 3000, 1000, 2, 2, 300, 70, 3000, 1500, 64, 64, 64, 64]),
    ],
)
CHECKS["C28"] = dict(
    harness="c28.cpp", reach=[1, 2],
    bounds="strings of 0..6 (quick) or 0..9 (thorough) bytes, every byte value symbolic; C locale",
    outside="longer strings",
    cases=[case("len6", [6], tiers=("quick",)), case("len9", [9], tiers=T)],
)
# ------------------------------------------------------------------ C02
CHECKS["C02"] = dict(
    harness="c02.cpp", reach=[1],
    bounds="mode 0: 3-6 dimensions, sizes and frame number symbolic up to the case's bounds; mode 1: two frames symbolic; "
           "mode 2: sizes in windows of 2-3 around bases up to 2^32, frame numbers in windows of 64 around 0, periods, 2^31, 2^32; "
           "mode 3: given sizes whose products pass 2^32, frame numbers in windows of 16 around every corner of the first two chunks and of the arrays",
    outside="other geometries, more than 7 dimensions, chunks of 2^63 bytes and more",
    cases=[
        case("nd3-size15", [0, 3, 15, 15, 255]),
        case("nd4-size7", [0, 4, 7, 7, 127]),
        case("nd5-size3", [0, 5, 3, 3, 63]),
        case("nd6-size2", [0, 6, 2, 2, 31]),
        case("share-nd3", [1, 3, 7, 7, 31]),
        case("share-nd4", [1, 4, 3, 3, 15]),
        case("share-nd5", [1, 5, 2, 2, 15]),
        case("wide-nd3", [2, 3, 0, 1, 63, 1, 0xfffe, 64, 64, 64, 64]),
        case("wide-nd4", [2, 4, 0, 1, 63, 1, 0x10000, 0x10000, 0xffff, 3000, 2000, 3000, 2000]),
        case("wide-nd5", [2, 5, 0, 1, 63, 1, 500, 300, 100, 70000, 0x800, 256, 256, 256, 255]),
        case("corner-nd4", [3, 4, 0, 1, 15, 1, 7, 1000, 300, 64, 64, 64, 64]),
        case("corner-nd5", [3, 5, 0, 0, 15, 1, 7, 70000, 1000, 70000, 999, 64, 64, 64, 64]),
        case("corner-nd6", [3, 6, 0, 0, 15, 1, 3, 3000, 1000, 3000, 700, 3000, 1500, 64, 64, 64, 64]),
        case("corner-nd7", [3, 7, 0, 0, 15, 1, 2, 3000, 1000, 2, 2, 300, 70, 3000, 1500, 64, 64, 64, 64]),
        case("nd3-size31", [0, 3, 31, 31, 255], tiers=T),
    ],
)
# ------------------------------------------------------------------ C03
CHECKS["C03"] = dict(
    harness="c03.cpp", reach=[1],
    bounds="counts along one dimension: array sizes all of 32 bits with chunk (shard) sizes 0..15, 2^31-16..2^31-1, 2^32-256..2^32-1 and both of 8 bits (10 bits thorough); "
           "totals: 3-8 dimensions, all sizes symbolic up to the case's bound, every pixel type; byte totals: windows of 16 around sizes up to 40000 x 2^20, counts: windows of 16 around sizes with products up to 2^32; "
           "pixel type codes 0..31, 255, 256, 2^31, 2^32-1",
    outside="the other pairs of array and chunk size",
    cases=[
        case("chunks-small", [0, 1, 0, 0xffffffff, 0, 15], reach=[1, 2]),
        case("chunks-mid", [0, 1, 0, 0xffffffff, 0x7ffffff0, 0x7fffffff]),
        case("chunks-large", [0, 1, 0xff000000, 0xffffffff, 0xffffff00, 0xffffffff]),
        case("chunks-8bit", [0, 1, 0, 0xff, 0, 0xff], reach=[1, 2]),
        case("chunks-10bit", [0, 1, 0, 0x3ff, 0, 0x3ff], reach=[1, 2], tiers=T),
        case("shards-small", [1, 1, 0, 0xffffffff, 0, 15, 1], reach=[1, 2]),
        case("shards-large", [1, 1, 0xff000000, 0xffffffff, 0xffffff00, 0xffffffff, 1]),
        case("shards-16", [1, 1, 0, 0xffff, 0, 255, 7], reach=[1, 2]),
        case("totals-nd3", [2, 3, 63, 7]),
        case("totals-nd4", [2, 4, 15, 7]),
        case("totals-nd6", [2, 6, 3, 3]),
        case("totals-nd8", [2, 8, 2, 2]),
        case("bytes-nd3", [3, 3, 3000, 40000, 0xfffff]),
        case("bytes-nd4", [3, 4, 300, 7, 40000, 0xfffff]),
        case("counts-nd3", [5, 3, 0, 5, 65520, 65520]),
        case("counts-nd4", [5, 4, 0, 5, 3, 900, 1000]),
        case("counts-per-shard", [5, 3, 1, 300, 1000, 3000]),
        case("counts-per-shard-nd4", [5, 4, 1, 1, 70000, 1, 3000]),
        case("types", [4, 1], reach=[1, 2]),
    ],
)
# ------------------------------------------------------------------ C04
CHECKS["C04"] = dict(
    harness="c04.cpp", reach=[1],
    bounds="3-8 dimensions; array sizes up to (chunks x chunk size) of the case, shard sizes and chunk index symbolic; cases with flags enumerate shard and/or array sizes, one path each",
    outside="more chunks along a dimension than the case's bound (7), more than 8 dimensions",
    cases=[
        case("nd3-symbolic", [0, 3, 7, 7, 1, 0, 127]),
        case("nd4-symbolic", [0, 4, 3, 3, 1, 0, 127]),
        case("nd3-ragged", [0, 3, 4, 3, 3, 3, 127]),
        case("nd5-each", [0, 5, 2, 2, 1, 3, 127]),
        case("nd6-each", [0, 6, 2, 2, 1, 3, 127]),
        case("nd7-each", [0, 7, 2, 2, 1, 3, 255]),
        case("nd8-each", [0, 8, 2, 1, 1, 3, 255]),
        case("nd3-share", [1, 3, 5, 3, 1, 3, 127]),
        case("nd4-share", [1, 4, 3, 2, 1, 3, 127]),
        case("nd6-share", [1, 6, 2, 2, 1, 3, 63]),
    ],
)
# ------------------------------------------------------------------ C05, C06
LONG = ["--path-steps", "6000000000"]
STORE_BOUNDS = ("every geometry within the case's limits (largest array, chunk%s size of the inner and the tile dimensions, largest chunk%s size of the append "
                "dimension), any number of frames up to the case's limit, pixel types as given, every pixel byte symbolic; two pool threads, one schedule; some large geometries and "
                "frame counts beyond 16 bits, one each, whose pixels derive from two symbolic bytes")
CHECKS["C05"] = dict(
    harness="store.cpp",
    bounds=STORE_BOUNDS % ("", ""),
    outside="larger sizes and frame counts (the index computations are decided for those by C01-C04), more than 8 (V3: 7) dimensions",
    cases=[
        case("nd3", [2, 3, 1, 1, 1, 4, 3, 1, 3, 1, 0, 7, 0, 0]),
        case("nd3-types", [2, 3, 1, 1, 1, 2, 2, 1, 2, 1, 1, 3, 1, 9]),
        case("nd4", [2, 4, 3, 3, 1, 2, 2, 1, 2, 1, 1, 7, 0, 0]),
        case("nd5", [2, 5, 2, 2, 1, 2, 1, 1, 2, 1, 1, 9, 0, 0]),
        case("nd6", [2, 6, 2, 2, 1, 1, 1, 1, 2, 1, 1, 9, 0, 0]),
        case("nd7", [2, 7, 2, 2, 1, 1, 1, 1, 1, 1, 16, 17, 0, 0]),
        case("nd8", [2, 8, 2, 1, 1, 1, 1, 1, 1, 1, 33, 33, 0, 0]),
        case("long", [2, 3, 1, 1, 1, 1, 2, 1, 2, 1, 9, 25, 0, 1]),
        case("wide-tiles", [2, 3, 1, 1, 1, 7, 4, 1, 1, 1, 1, 2, 1, 1]),
        case("packed", [2, 3, 1, 1, 1, 4, 3, 1, 3, 1, 0, 4, 0, 0, 2]),
        case("packed-nd4", [2, 4, 3, 2, 1, 2, 1, 1, 2, 1, 1, 5, 0, 1, 2]),
        case("multi", [2, 3, 1, 1, 1, 3, 2, 1, 2, 1, 0, 5, 0, 0, 1]),
        case("multi-packed", [2, 3, 1, 1, 1, 2, 2, 1, 2, 1, 0, 5, 0, 0, 3]),
        case("70000-frames", [2, 0, 1, 1, 70000, 1, 1, 1, 1, 1, 70000, 4001, 0], harness="long.cpp", opts=LONG),
        case("70001-frames-packed", [2, 0, 1, 1, 100, 1, 1, 1, 1, 1, 70001, 5000, 2], harness="long.cpp", opts=LONG),
        case("large-frame", [2, 0, 300, 300, 1, 300, 300, 1, 1, 1, 2, 1, 0], harness="long.cpp", opts=LONG),
        case("400-chunks", [2, 0, 40, 40, 1, 2, 2, 1, 1, 1, 2, 2, 0], harness="long.cpp", opts=LONG),
        case("large-frames", [2, 9, 257, 513, 3, 64, 100, 2, 2, 2, 5, 2, 0], harness="long.cpp", opts=LONG),
    ],
)
CHECKS["C06"] = dict(
    harness="store.cpp",
    bounds=STORE_BOUNDS % (", shard", " and shard"),
    outside="larger sizes and frame counts (the index computations are decided for those by C01-C04), more than 8 (V3: 7) dimensions",
    cases=[
        case("nd3", [3, 3, 1, 1, 1, 3, 2, 2, 2, 3, 0, 7, 0, 0]),
        case("nd3-types", [3, 3, 1, 1, 1, 2, 1, 2, 2, 2, 1, 3, 1, 9]),
        case("nd4", [3, 4, 3, 2, 2, 2, 1, 2, 2, 2, 1, 7, 0, 0]),
        case("nd5", [3, 5, 2, 1, 2, 2, 1, 1, 2, 2, 1, 9, 0, 0]),
        case("nd6", [3, 6, 2, 1, 2, 1, 1, 1, 2, 2, 1, 5, 0, 0]),
        case("nd7", [3, 7, 2, 1, 2, 1, 1, 1, 1, 1, 17, 17, 0, 0]),
        case("long", [3, 3, 1, 1, 1, 1, 2, 1, 2, 3, 9, 25, 0, 1]),
        case("ragged-shards", [3, 3, 1, 1, 1, 5, 1, 3, 1, 2, 1, 3, 0, 0]),
        case("packed", [3, 3, 1, 1, 1, 3, 2, 2, 2, 2, 0, 5, 0, 0, 2]),
        case("packed-nd4", [3, 4, 2, 2, 2, 2, 1, 2, 1, 2, 1, 5, 0, 0, 2]),
        case("multi", [3, 3, 1, 1, 1, 3, 2, 2, 1, 2, 0, 5, 0, 0, 1]),
        case("multi-packed", [3, 3, 1, 1, 1, 2, 2, 2, 2, 1, 0, 5, 0, 0, 3]),
        case("70001-frames-packed", [3, 0, 1, 1, 300, 1, 1, 2, 1, 1, 70001, 5000, 2], harness="long.cpp", opts=LONG),
        case("301-layers", [3, 1, 1, 2, 1, 1, 1, 300, 1, 2, 301, 7, 0], harness="long.cpp", opts=LONG),
        case("400-slots", [3, 0, 40, 40, 1, 2, 2, 2, 20, 20, 3, 2, 0], harness="long.cpp", opts=LONG),
        case("large-frames-packed", [3, 0, 300, 299, 2, 100, 128, 1, 1, 2, 3, 1, 2], harness="long.cpp", opts=LONG),
        case("large-frames", [3, 9, 257, 513, 3, 64, 100, 2, 2, 2, 5, 2, 0], harness="long.cpp", opts=LONG),
    ],
)
# ------------------------------------------------------------------ C07
CHECKS["C07"] = dict(
    harness="c07.cpp",
    bounds="every geometry and frame count within the case's limits, all ten pixel types, both codecs, compressor on and off, levels 0..9 and every shuffle mode; "
           "three-dimensional multiscale streams of up to 9 frames",
    outside="larger sizes; multiscale streams of more than three dimensions; levels that received no frames",
    cases=[
        case("v2-nd3", [2, 3, 1, 1, 1, 3, 2, 1, 3, 1, 0, 10, 0, 0, 0, 0, 1]),
        case("v2-nd4", [2, 4, 3, 2, 1, 2, 1, 1, 2, 1, 1, 10, 0, 0, 0, 0, 1]),
        case("v2-nd5", [2, 5, 2, 2, 1, 1, 1, 1, 2, 1, 1, 9, 0, 0, 0, 0, 1]),
        case("v2-types", [2, 3, 1, 1, 1, 1, 1, 1, 2, 1, 1, 3, 0, 9, 1, 0, 1]),
        case("v2-levels", [2, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 9, 0, 1]),
        case("v2-long", [2, 3, 1, 1, 1, 1, 1, 1, 4, 1, 95, 105, 0, 0, 0, 0, 1]),
        case("v2-multi", [2, 3, 1, 1, 1, 4, 3, 1, 3, 1, 1, 9, 0, 0, 0, 1, 1]),
        case("v3-nd3", [3, 3, 1, 1, 1, 2, 2, 2, 3, 3, 0, 10, 0, 0, 0, 0, 1]),
        case("v3-nd4", [3, 4, 3, 2, 2, 1, 1, 2, 2, 2, 1, 10, 0, 0, 0, 0, 1]),
        case("v3-types", [3, 3, 1, 1, 1, 1, 1, 1, 2, 2, 1, 5, 0, 9, 1, 0, 1]),
        case("v3-levels", [3, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 9, 0, 1]),
        case("v3-multi", [3, 3, 1, 1, 1, 4, 2, 1, 2, 2, 1, 9, 0, 0, 0, 1, 1]),
    ],
)
# ------------------------------------------------------------------ C08
CHECKS["C08"] = dict(
    harness="c08.cpp",
    bounds="frames of 2 to 6 bytes, up to 5 pieces of any size from 0 to the case's limit (more than one frame, in some cases several), every byte symbolic; V2 and V3, with and without multiscale",
    outside="longer frames and more pieces; pieces of several chunks",
    cases=[
        case("v2-frame2", [2, 1, 2, 0, 0, 5, 4, 2, 1, 1]),
        case("v2-frame3", [2, 3, 1, 0, 0, 4, 7, 1, 1, 2]),
        case("v2-frame4-u16", [2, 2, 1, 1, 0, 3, 13, 2, 1, 1]),
        case("v2-multi", [2, 2, 2, 0, 1, 4, 5, 1, 1, 2]),
        case("v3-frame2", [3, 1, 2, 0, 0, 5, 4, 2, 2, 1]),
        case("v3-frame3", [3, 3, 1, 0, 0, 4, 7, 1, 2, 2]),
        case("v3-multi", [3, 2, 3, 0, 1, 3, 9, 1, 2, 2]),
        case("v2-long-piece", [2, 1, 2, 0, 0, 3, 15, 3, 1, 2]),
    ],
)
# ------------------------------------------------------------------ C09
F_OPEN, F_WRITE, F_MKDIR, F_S3, F_BLOSC, F_REMOVE = 1, 2, 4, 8, 16, 32
CHECKS["C09"] = dict(
    harness="c09.cpp", reach=[1, 2, 3],
    bounds="streams of 2-4 frames of up to 3x4 pixels, both versions, one and several chunks and shards, multiscale, compressed, on disk and on S3; single frames of two chunks of 5.3 MB, which are uploaded in parts; any one storage operation failing (any two in some cases): every open, directory, write, request, removal or compression; "
           "every write passed straight on, as those of 1024 bytes and more are",
    outside="longer streams; a write that is still buffered when the last append returns (small metadata): destroying a stream has no status to report it by",
    cases=[
        case("v2", [2, 2, 4, 2, 1, 1, 0, 0, 0, 2, 1, F_OPEN | F_WRITE | F_MKDIR, 1, 0, 0, 0]),
        case("v2-batch", [2, 2, 2, 2, 1, 1, 0, 0, 0, 2, 3, F_OPEN | F_WRITE | F_MKDIR, 1, 0, 0, 0]),
        case("v2-two", [2, 2, 2, 2, 2, 1, 0, 0, 0, 2, 1, F_OPEN | F_WRITE | F_MKDIR, 2, 0, 0, 0]),
        case("v2-multiscale", [2, 2, 3, 2, 1, 1, 1, 0, 0, 4, 2, F_OPEN | F_WRITE | F_MKDIR, 1, 0, 0, 0]),
        case("v2-existing", [2, 2, 2, 2, 1, 1, 0, 0, 0, 1, 1, F_REMOVE | F_MKDIR | F_OPEN, 1, 1, 0, 0]),
        case("v2-compressed", [2, 2, 4, 2, 1, 1, 0, 1, 0, 2, 1, F_BLOSC | F_WRITE, 1, 0, 0, 0], reach=[1, 2, 3]),
        case("v2-buffered", [2, 2, 2, 2, 1, 1, 0, 0, 0, 2, 1, F_OPEN | F_WRITE | F_MKDIR, 1, 0, 1, 0]),
        case("v3", [3, 2, 4, 2, 1, 2, 0, 0, 0, 2, 1, F_OPEN | F_WRITE | F_MKDIR, 1, 0, 0, 0]),
        case("v3-chunk2", [3, 2, 2, 1, 2, 1, 0, 0, 0, 4, 1, F_OPEN | F_WRITE | F_MKDIR, 1, 0, 0, 0]),
        case("v3-two", [3, 2, 2, 2, 1, 2, 0, 0, 0, 2, 1, F_OPEN | F_WRITE | F_MKDIR, 2, 0, 0, 0]),
        case("v3-multiscale", [3, 2, 3, 2, 1, 1, 1, 0, 0, 4, 2, F_OPEN | F_WRITE | F_MKDIR, 1, 0, 0, 0]),
        case("v3-compressed", [3, 2, 4, 2, 1, 2, 0, 1, 0, 2, 1, F_BLOSC | F_WRITE, 1, 0, 0, 0], reach=[1, 2, 3]),
        case("v2-any", [2, 2, 4, 2, 1, 1, 1, 1, 0, 4, 1, 63, 100, 1, 0, 0]),
        case("v3-any", [3, 2, 4, 2, 1, 2, 1, 1, 0, 4, 1, 63, 100, 1, 0, 0]),
        case("v2-wide", [2, 4, 6, 2, 2, 1, 1, 0, 0, 6, 3, 7, 2, 0, 0, 0]),
        case("v3-wide", [3, 4, 6, 2, 2, 2, 1, 0, 0, 6, 3, 7, 2, 0, 0, 0]),
        case("v3-long", [3, 2, 2, 2, 1, 3, 0, 0, 0, 8, 1, 7, 3, 0, 0, 0]),
        case("s3-any", [3, 2, 4, 2, 1, 2, 1, 1, 1, 4, 1, 63, 100, 0, 0, 0]),
        case("v2-threads", [2, 2, 2, 2, 1, 1, 0, 0, 0, 2, 1, F_OPEN | F_WRITE | F_MKDIR, 1, 0, 0, 1]),
        case("v3-threads", [3, 2, 4, 2, 1, 2, 0, 0, 0, 2, 1, F_OPEN | F_WRITE | F_MKDIR, 1, 0, 0, 1]),
        case("s3-v2", [2, 2, 4, 2, 1, 1, 0, 0, 1, 2, 1, F_S3, 1, 0, 0, 0]),
        case("s3-v3", [3, 2, 4, 2, 1, 2, 0, 0, 1, 3, 1, F_S3, 1, 0, 0, 0]),
        case("s3-multiscale", [2, 2, 2, 1, 1, 1, 1, 0, 1, 4, 1, F_S3, 1, 0, 0, 0]),
        case("s3-v2-parts", [2, 2300, 4600, 2300, 1, 1, 0, 0, 1, 1, 1, F_S3, 2, 0, 0, 0], opts=LONG),
        case("s3-v3-parts", [3, 2300, 4600, 2300, 1, 2, 0, 0, 1, 1, 1, F_S3, 2, 0, 0, 0], opts=LONG),
    ],
)
# ------------------------------------------------------------------ C10
CHECKS["C10"] = dict(
    harness="c10.cpp",
    bounds="two to four writes of up to 3 bytes (and of 600, 1100 and 1200 bytes, which bypass the buffer), every byte symbolic, offsets symbolic in windows of up to 2048 at 0, 2^31, 2^32 and 2^62; "
           "any one operating-system write refused in the fault cases; the byte at any position (symbolic) compared",
    outside="more writes; offsets between the windows",
    cases=[
        case("two-small", [2, 3, 15, 0, 1, 0]),
        case("three-small", [3, 3, 15, 0, 1, 0]),
        case("four-small", [4, 2, 7, 0, 1, 0]),
        case("wide-31", [2, 2, 15, 0x7ffffff8, 1, 0]),
        case("wide-32", [2, 2, 15, 0xfffffff8, 1, 0]),
        case("wide-62", [2, 2, 15, 0x4000000000000000, 1, 0]),
        case("direct", [2, 2, 2047, 0, 600, 0]),
        case("faults", [3, 2, 3, 0, 1, 1], reach=[1, 2]),
        case("faults-direct", [3, 1, 3, 0, 1100, 1], reach=[1, 2]),
    ],
)
# ------------------------------------------------------------------ C11
CHECKS["C11"] = dict(
    harness="c11.cpp",
    bounds="one or two calls of up to 3 buffers of up to 3 bytes (and 40, 1023, 1024 and 1025 buffers), every byte symbolic, offsets symbolic in windows of up to 64 at 0, 2^31, 2^32, 2^40 and 2^62; "
           "refused opens and writes and short writes at any point",
    outside="more calls on one file; offsets between the windows; the Windows implementation",
    cases=[
        case("one", [1, 3, 3, 0, 63, 0, 0]),
        case("two", [2, 2, 2, 0, 15, 0, 0]),
        case("wide-31", [1, 2, 2, 0x7ffffff0, 31, 0, 0]),
        case("wide-32", [1, 2, 2, 0xfffffff0, 31, 0, 0]),
        case("wide-40", [1, 2, 2, 0x10000000000, 31, 0, 0]),
        case("wide-62", [1, 2, 2, 0x4000000000000000, 31, 0, 0]),
        case("forty", [1, 0, 2, 0x80000000, 7, 0, 40]),
        case("iov-1023", [1, 0, 1, 0, 1, 0, 1023]),
        case("iov-1024", [1, 0, 1, 0, 1, 0, 1024]),
        case("iov-1025", [1, 0, 1, 0, 1, 0, 1025], reach=[]),
        case("refused", [2, 2, 2, 0, 3, 5, 0], reach=[1, 2, 3]),
        case("short", [1, 2, 3, 0, 3, 2, 0], reach=[1, 3]),
        case("short-two", [2, 2, 2, 0, 3, 2, 0], reach=[1, 3]),
    ],
)
# ------------------------------------------------------------------ C15, C27
CHECKS["C15"] = dict(
    harness="c15.cpp", reach=[1],
    bounds="3 to 5 dimensions, every number of parts along each up to the case's limits (up to 12, so that coordinates have two digits), five base paths, with and without the prefix, "
           "in a new, an existing and a partly filled place; the bytes that tell the sinks apart symbolic; files and S3 objects; one schedule (C27 has the others)",
    outside="more parts and dimensions; other base paths",
    cases=[
        case("nd3", [3, 1, 3, 3, 1, 4, 0]),
        case("nd4", [4, 2, 2, 2, 1, 1, 0]),
        case("nd5", [5, 2, 2, 2, 1, 0, 0]),
        case("two-digits", [3, 1, 2, 12, 1, 0, 0]),
        case("two-digits-high", [4, 2, 11, 1, 1, 0, 0]),
        case("errors", [3, 1, 2, 2, 0, 6, 0], reach=[1, 2]),
        case("errors-nd4", [4, 1, 1, 1, 0, 6, 0], reach=[1, 2]),
        case("s3-nd3", [3, 1, 3, 3, 0, 5, 1], reach=[1, 2]),
        case("s3-nd4", [4, 2, 2, 2, 1, 0, 1]),
    ],
)
CHECKS["C27"] = dict(
    harness="c27.cpp", reach=[1, 2],
    bounds="data sinks in up to 2x2 positions and the metadata sinks of both versions; any one or two refused creations of a file or directory, a file or directory of the wrong kind in the way anywhere; "
           "one or two pool threads, every schedule with at most the case's number of preemptions (switches away from a thread that could go on), all switches at blocking points free",
    outside="more threads, files and preemptions",
    cases=[
        case("data-1x2", [0, 1, 2, 5, 1, 1, 0, 2, 0], threads=True),
        case("data-2x1", [0, 2, 1, 5, 1, 1, 0, 2, 0], threads=True),
        case("data-2x2-1thread", [0, 2, 2, 5, 2, 1, 0, 1, 0], threads=True),
        case("data-2x2", [0, 2, 2, 5, 2, 0, 0, 2, 0], threads=True),
        case("data-3threads", [0, 1, 3, 5, 1, 0, 0, 3, 0], threads=True),
        case("data-1x2-deeper", [0, 1, 2, 5, 1, 2, 0, 2, 0], threads=True, tiers=T),
        case("v2", [1, 0, 0, 5, 1, 1, 0, 2, 0], threads=True),
        case("v3", [2, 0, 0, 5, 1, 1, 0, 2, 0], threads=True),
        case("data-obstacle-file", [0, 2, 2, 0, 0, 0, 0, 2, 1], threads=True),
        case("data-obstacle-dir", [0, 2, 1, 0, 0, 0, 0, 2, 2], threads=True),
        case("v2-obstacle-file", [1, 0, 0, 0, 0, 0, 0, 2, 1], threads=True),
        case("v2-obstacle-dir", [1, 0, 0, 0, 0, 0, 0, 2, 2], threads=True),
        case("v3-obstacle-dir", [2, 0, 0, 0, 0, 0, 0, 2, 2], threads=True),
    ],
)
# ------------------------------------------------------------------ C12, C13, C14
POOL_BOUNDS = ("pools asked for 0..3 and 2^32-1 threads on hardware of 0..3; up to 4 jobs handed over by the caller, by other jobs or by a second thread; "
               "every schedule with at most the case's number of preemptions (switches away from a thread that could go on), all switches at blocking points free; woken waiter free; spurious wake-ups (each counting as a preemption) in the cases named so")
POOL_OUT = "more threads, jobs and preemptions; jobs that throw"


def pool_cases(prop):
    def k(name, way, jobs, asked, hw, pre, fails=0, extra=0, spurious=0, **kw):
        return case(name, [prop, way, jobs, asked, hw, pre, fails, extra, spurious], threads=True, **kw)
    f = prop == 13
    r = dict(reach=[1, 2]) if f else {}
    out = [
        k("stop-1thread", 0, 4, 1, 4, 3, 15 if f else 0, **r),
        k("stop-2threads", 0, 3, 2, 4, 2, 7 if f else 0, **r),
        k("stop-2threads-deep", 0, 2, 2, 2, 4, 1 if f else 0, **r),
        k("stop-3threads", 0, 2, 3, 3, 2, 3 if f else 0, **r),
        k("none-asked", 0, 2, 0, 4, 2, 1 if f else 0, **r),
        k("too-many-asked", 0, 1, 4294967295, 2, 3, 1 if f else 0, **r),
        k("no-hardware", 0, 2, 2, 0, 2, 1 if f else 0, **r),
        k("destroy-1thread", 1, 3, 1, 2, 3, 7 if f else 0, **r),
        k("destroy-2threads", 1, 2, 2, 2, 3, 3 if f else 0, **r),
        k("nested", 2, 2, 2, 2, 2, 8 if f else 0, 2, **r),
        k("nested-1thread", 2, 2, 1, 2, 3, 2 if f else 0, 1, **r),
        k("concurrent-push", 3, 1, 2, 2, 2, 3 if f else 0, 1, **r),
        k("concurrent-push-1thread", 3, 1, 1, 2, 3, 3 if f else 0, 2, **r),
        k("idle-then-work", 5, 2, 2, 2, 2, 1 if f else 0, **r),
        k("no-job", 0, 0, 2, 2, 4),
        k("spurious-1thread", 0, 2, 1, 2, 3, 1 if f else 0, 0, 1, **r),
        k("spurious-2threads", 0, 2, 2, 2, 2, 1 if f else 0, 0, 1, **r),
        k("stop-4jobs", 0, 4, 2, 2, 2, 15 if f else 0, tiers=T, **r),
        k("stop-3threads-deep", 0, 3, 3, 3, 2, 3 if f else 0, tiers=T, **r),
        k("destroy-2threads-deep", 1, 3, 2, 2, 3, 3 if f else 0, tiers=T, **r),
        k("spurious-2threads-deep", 0, 2, 2, 2, 4, 1 if f else 0, 0, 1, tiers=T, **r),
    ]
    return out


for _p in (12, 13, 14):
    CHECKS["C%d" % _p] = dict(harness="pool.cpp", bounds=POOL_BOUNDS, outside=POOL_OUT, cases=pool_cases(_p))
# ------------------------------------------------------------------ C16
CHECKS["C16"] = dict(
    harness="c16.cpp",
    bounds="3 to 6 dimensions of every type, names with any ASCII character (symbolic) in any position, twelve custom documents and documents with a symbolic key and number, no or some frames, "
           "multiscale streams of up to 4 levels with every geometry within the case's limits, file system and S3",
    outside="names that are not ASCII; multiscale streams to which too few frames were appended to fill every level (their empty levels have no array document), or of more than 4 dimensions",
    cases=[
        case("v2-custom", [2, 3, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 0]),
        case("v3-custom", [3, 3, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 0]),
        case("v2-custom-symbolic", [2, 3, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 2, 0, 0]),
        case("v3-custom-symbolic", [3, 3, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 2, 0, 0], tiers=T),
        case("v2-nd4", [2, 4, 2, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 0, 0]),
        case("v3-nd6", [3, 6, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0]),
        case("v2-names-0", [2, 3, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 1]),
        case("v3-names-2", [3, 3, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 3]),
        case("v2-multi", [2, 3, 1, 1, 1, 4, 2, 1, 2, 1, 1, 16, 0, 0, 0], reach=[1, 2]),
        case("v3-multi", [3, 3, 1, 1, 1, 4, 2, 2, 1, 2, 1, 16, 0, 0, 0], reach=[1, 2]),
        case("v2-multi-wide", [2, 3, 1, 1, 1, 6, 1, 1, 1, 1, 1, 16, 0, 0, 0], reach=[1, 2]),
        case("s3-v2", [2, 3, 1, 1, 1, 2, 1, 1, 1, 1, 1, 4, 1, 1, 0]),
        case("s3-v3", [3, 3, 1, 1, 1, 2, 1, 1, 1, 1, 1, 4, 1, 1, 0]),
    ],
)
# ------------------------------------------------------------------ C17
CHECKS["C17"] = dict(
    harness="c17.cpp", reach=[1, 2],
    bounds="version, pixel type, compressor, codec, dimension types: all 32-bit codes; level and shuffle: all 8-bit codes; 0 to 5 dimensions; sizes 0, 1, 2 (append size and V2 shard size: all of 32 bits); "
           "text fields: null, empty, blank, and every text of one or two bytes; bucket names of 0 to 66 characters; custom metadata: every ASCII text of up to two characters and 25 documents; "
           "parent directories missing, files, and with every permission bit; everything invalid at once",
    outside="longer texts and documents; two streams in one place",
    cases=[
        case("codes-0", [0, 2]),
        case("compression-v2", [1, 2]),
        case("compression-v3", [1, 3]),
        case("dims-v2-0", [2, 2, 3, 0]),
        case("dims-v2-2", [2, 2, 3, 2]),
        case("dims-v3-0", [2, 3, 3, 0]),
        case("dims-v3-1", [2, 3, 4, 1]),
        case("dims-v3-2", [2, 3, 3, 2]),
        case("name-0", [3, 2, 0]),
        case("name-2", [3, 3, 2]),
        case("s3-endpoint", [4, 2, 0]),
        case("s3-key", [4, 3, 1]),
        case("s3-secret", [4, 2, 2]),
        case("s3-bucket", [5, 3, 66]),
        case("custom", [6, 2]),
        case("custom-v3", [6, 3]),
        case("custom-1", [7, 2, 1]),
        case("custom-2", [7, 3, 2]),
        case("parent", [8, 3]),
        case("nothing", [9, 2]),
        case("all", [10, 2]),
    ],
)
# ------------------------------------------------------------------ C20, C21
CHECKS["C20"] = dict(
    harness="c20.cpp", reach=[1],
    bounds="up to four contiguous writes of 0, 1, 3, 700 bytes and of 1 to 3 parts of 5 MiB give or take up to 2 bytes; the bytes next to the ends of writes and parts symbolic; "
           "any one or two requests refused; writes into what was sent already",
    outside="other lengths, more writes, more than 10000 parts",
    cases=[
        case("small", [4, 0, 3, 0, 3, 0, 0]),
        case("one", [1, 0, 11, 0, 0, 0, 0]),
        case("two", [2, 1, 11, 1, 11, 0, 0]),
        case("three", [3, 4, 7, 4, 7, 0, 0]),
        case("around", [3, 4, 6, 1, 3, 0, 0]),
        case("sent", [2, 6, 8, 1, 4, 0, 1], reach=[1, 3]),
        case("fail-small", [2, 0, 3, 0, 3, 1, 0], reach=[1, 2]),
        case("fail-large", [2, 3, 8, 3, 8, 1, 0], reach=[1, 2]),
        case("fail-three", [3, 5, 6, 2, 6, 1, 0], reach=[1, 2]),
        case("fail-twice", [2, 5, 10, 3, 6, 2, 0], reach=[1, 2], tiers=T),
        case("four", [4, 4, 7, 4, 7, 0, 0], tiers=T),
    ],
)
CHECKS["C21"] = dict(
    harness="c21.cpp", reach=[1],
    bounds="up to four users of up to three connections, taking one up to three times; users that keep theirs until everyone has one; users waiting while all connections are out, which are then given back one right after the other; users writing one-part and three-part objects through sinks with up to two requests refused; "
           "one to four attempts to connect, any of which fail; every schedule with at most the case's number of preemptions, all switches at blocking points free; spurious wake-ups in the cases named so",
    outside="more users, connections and preemptions; destroying the pool while someone waits",
    cases=[
        case("take-2-of-1", [0, 2, 1, 2, 3, 0, 0, 0], threads=True),
        case("take-3-of-1", [0, 3, 1, 1, 3, 0, 0, 0], threads=True),
        case("take-3-of-2", [0, 3, 2, 1, 2, 0, 0, 0], threads=True),
        case("take-3-of-2-again", [0, 3, 2, 2, 1, 0, 0, 0], threads=True),
        case("take-2-of-3", [0, 2, 3, 2, 3, 0, 0, 0], threads=True),
        case("spurious", [0, 3, 1, 1, 2, 0, 0, 1], threads=True),
        case("keep-2", [1, 2, 2, 1, 3, 0, 0, 0], threads=True),
        case("keep-3", [1, 3, 3, 1, 2, 0, 0, 0], threads=True),
        case("waiting-2-for-2", [4, 2, 2, 1, 4, 0, 0, 0], threads=True),
        case("waiting-1-for-1", [4, 1, 1, 1, 3, 0, 0, 0], threads=True),
        case("waiting-3-for-2", [4, 3, 2, 1, 2, 0, 0, 0], threads=True),
        case("waiting-3-for-3", [4, 3, 3, 2, 1, 0, 0, 0], threads=True),
        case("waiting-spurious", [4, 2, 2, 1, 2, 0, 0, 1], threads=True),
        case("sinks-2-of-1", [2, 2, 1, 0, 2, 1, 0, 0], threads=True, reach=[1, 2]),
        case("sinks-3-of-2", [2, 3, 2, 0, 1, 1, 0, 0], threads=True, reach=[1, 2]),
        case("sinks-parts", [2, 2, 1, 0, 0, 2, 10485761, 0], threads=True, reach=[1, 2]),
        case("make", [3, 0, 4, 0, 0, 0, 0, 0], reach=[1, 2]),
        case("take-3-of-1-deep", [0, 3, 1, 2, 3, 0, 0, 0], threads=True),
        case("take-4-of-2", [0, 4, 2, 1, 2, 0, 0, 0], threads=True),
        case("take-4-of-2-deep", [0, 4, 2, 1, 3, 0, 0, 0], threads=True, tiers=T),
        case("take-3-of-2-deep", [0, 3, 2, 2, 3, 0, 0, 0], threads=True, tiers=T),
        case("waiting-4-for-2-deep", [4, 4, 2, 1, 2, 0, 0, 0], threads=True, tiers=T),
        case("waiting-3-for-3-deep", [4, 3, 3, 2, 2, 0, 0, 0], threads=True, tiers=T),
        case("sinks-3-of-1", [2, 3, 1, 0, 2, 2, 0, 0], threads=True, reach=[1, 2], tiers=T),
    ],
)
# ------------------------------------------------------------------ C18
CHECKS["C18"] = dict(
    harness="c18.cpp", reach=[1],
    bounds="three-dimensional multiscale streams of up to 5x5 pixels and 9 frames, all ten pixel types; every pixel symbolic over all its values in the cases of integer types up to 32 bits, every n-th pixel in the others; "
           "floating-point pixels small integers times a power of two (so that every way to compute a mean is exact)",
    outside="larger frames; floating-point rounding and overflow of sums of 64-bit floating-point pixels; more than three dimensions",
    cases=[
        case("u8", [2, 0, 3, 3, 1, 1, 1, 4, 1, 0, 1, 0, 0]),
        case("u8-v3", [3, 0, 3, 3, 1, 1, 2, 4, 1, 0, 0, 0, 0]),
        case("i8", [2, 4, 2, 2, 1, 1, 1, 2, 4, 0, 0, 1, 3]),
        case("u16", [2, 1, 3, 2, 1, 1, 1, 3, 3, 0, 0, 0, 0]),
        case("i16", [3, 5, 2, 3, 1, 1, 2, 2, 12, 0, 1, 1, 3]),
        case("u32", [2, 2, 2, 3, 1, 1, 1, 2, 3, 0, 0, 0, 0]),
        case("i32", [2, 6, 3, 2, 1, 1, 1, 2, 12, 0, 0, 1, 3]),
        case("u64", [2, 3, 2, 2, 1, 1, 1, 2, 8, 0, 0, 1, 3]),
        case("i64", [3, 7, 2, 2, 1, 1, 1, 2, 8, 0, 0, 1, 3]),
        case("f32", [2, 8, 3, 3, 1, 1, 1, 2, 3, 0, 0, 0, 0]),
        case("f32-large", [2, 8, 2, 2, 1, 1, 1, 2, 3, 124, 0, 0, 0]),
        case("f64", [2, 9, 3, 3, 1, 1, 1, 2, 3, 0, 0, 0, 0]),
    ],
)
# ------------------------------------------------------------------ C19
CHECKS["C19"] = dict(
    harness="c19.cpp", reach=[1, 2],
    bounds="one level: 3-5 dimensions, every array size up to 255 (31, 7), chunk size up to 63 (15, 3) and shard size up to 7 (3), every type, pixel type, level, codec level, with and without a bucket and compression; "
           "one dimension with any 32-bit array size and chunk sizes 1..7, or both in windows of 16 around 2^16, 2^31 and 2^32; "
           "pyramids of one dimension of any size of 12 bits (32 thorough) with chunk sizes up to 3, to their end",
    outside="chunk sizes of 0 (refused when a stream is created); other pairs of large array and chunk sizes",
    cases=[
        case("nd3", [0, 3, 255, 63, 7]),
        case("nd4", [0, 4, 31, 15, 3]),
        case("nd5", [0, 5, 7, 3, 3], tiers=T),
        case("append", [1, 3, 0, 0, 0xffffffff, 1, 7, 0, 3]),
        case("wide", [1, 3, 2, 1, 0xffffffff, 1, 7, 0, 3]),
        case("wide-16", [1, 4, 1, 0xfff8, 0x10007, 0x7ff8, 0x8007, 1, 3]),
        case("wide-31", [1, 3, 1, 0x7ffffff8, 0x80000007, 0x3ffffff8, 0x40000007, 1, 3]),
        case("wide-32", [1, 3, 2, 0xfffffff0, 0xffffffff, 0x7ffffff8, 0xffffffff, 1, 2]),
        case("pyramid-12", [2, 3, 12, 3]),
        case("pyramid-nd4", [2, 4, 8, 3]),
        case("pyramid-32", [2, 3, 32, 2], tiers=T),
    ],
)
# ------------------------------------------------------------------ C22
CHECKS["C22"] = dict(
    harness="c22.cpp", reach=[1],
    bounds="streams of up to 5 frames of up to 3x4 pixels, both versions, ragged chunks, one and several chunks and shards, every pixel symbolic; all codecs, levels and shuffles; compressed lengths chosen among the shortest, half, the chunk's own and the longest; "
           "any one compression failing",
    outside="larger frames; what c-blosc does (a stand-in that returns identifiable output takes its place); the contents of lower resolution levels (C18)",
    cases=[
        case("v2", [2, 0, 3, 3, 2, 2, 1, 0, 0, 5, 0, 0, 0]),
        case("v2-u16", [2, 1, 2, 3, 2, 1, 1, 0, 0, 3, 0, 0, 0]),
        case("v2-f64", [2, 9, 2, 2, 1, 2, 1, 0, 0, 3, 0, 0, 0]),
        case("v3", [3, 0, 3, 3, 2, 2, 2, 0, 0, 5, 0, 0, 0]),
        case("v3-u32", [3, 2, 2, 3, 1, 1, 3, 0, 0, 4, 0, 0, 0]),
        case("v2-settings", [2, 1, 2, 2, 2, 1, 1, 0, 0, 2, 0, 0, 1], reach=[1, 3]),
        case("v3-settings", [3, 1, 2, 2, 1, 1, 2, 0, 0, 2, 0, 0, 1], reach=[1, 3]),
        case("v2-lengths", [2, 0, 4, 4, 4, 2, 1, 0, 0, 4, 4, 0, 0]),
        case("v3-lengths", [3, 0, 2, 8, 4, 2, 2, 0, 0, 4, 4, 0, 0]),
        case("v2-multiscale", [2, 0, 4, 4, 1, 1, 1, 1, 0, 4, 0, 0, 0]),
        case("v3-multiscale", [3, 1, 4, 4, 2, 1, 2, 1, 0, 4, 0, 0, 0]),
        case("v2-s3", [2, 0, 3, 3, 2, 2, 1, 0, 1, 3, 0, 0, 0]),
        case("v2-faults", [2, 0, 2, 3, 2, 1, 1, 0, 0, 3, 0, 1, 0], reach=[1, 2]),
        case("v3-faults", [3, 0, 2, 3, 2, 1, 2, 1, 0, 4, 0, 1, 0], reach=[1, 2]),
    ],
)
# ------------------------------------------------------------------ C23
CHECKS["C23"] = dict(
    harness="c23.cpp", reach=[1],
    bounds="every 32-bit status code and sequences of four 32-bit log levels; sequences of four operations on a dimension array: destroying, creating with counts 0..2, 3..5 and every count from 2^45 up, and with null settings; "
           "every combination of null arguments of append, any byte count with them, in sequences of three; streams of both versions, with and without S3, compression and lower resolution levels, with any one or two storage operations or compressions failing",
    outside="dimension counts of 6 to 2^45 (whether they can be allocated depends on the machine); running out of memory elsewhere; dangling pointers",
    cases=[
        case("messages", [0], reach=[1, 2]),
        case("levels", [1, 4], reach=[1, 2, 3]),
        case("levels-long", [1, 5], reach=[1, 2, 3], tiers=T),
        case("dimension-arrays", [2, 4], reach=[1, 2, 3, 4]),
        case("dimension-arrays-long", [2, 6], reach=[1, 2, 3, 4], tiers=T),
        case("append-v2", [3, 2], reach=[1, 2]),
        case("append-v3", [3, 3], reach=[1, 2]),
        case("fail-v2", [4, 2, 0, 0, 0, 63, 1], reach=[1, 2, 3]),
        case("fail-v3", [4, 3, 0, 0, 0, 63, 1], reach=[1, 2, 3]),
        case("fail-v2-all", [4, 2, 0, 1, 1, 63, 1], reach=[1, 2, 3]),
        case("fail-v3-all", [4, 3, 0, 1, 1, 63, 1], reach=[1, 2, 3]),
        case("fail-v2-s3", [4, 2, 1, 0, 0, 63, 1], reach=[1, 2, 3]),
        case("fail-v3-s3", [4, 3, 1, 0, 0, 63, 1], reach=[1, 2, 3]),
        case("fail-v2-twice", [4, 2, 0, 0, 0, 63, 2], reach=[1, 2, 3], tiers=T),
        case("fail-v3-twice", [4, 3, 0, 0, 0, 63, 2], reach=[1, 2, 3], tiers=T),
    ],
)
# ------------------------------------------------------------------ C24
_LOG = ["--log-real"]
CHECKS["C24"] = dict(
    harness="c24.cpp", reach=[1],
    bounds="sequences of three operations, setting any of the 2^32 levels or logging at one of the four message levels a text of up to two characters (any bytes but NUL) in four forms; "
           "two and three threads logging one or two messages each at every level, on every schedule with at most the case's number of preemptions; "
           "streams of both versions at every log level, with any one storage operation failing",
    outside="longer texts and sequences; setting the level while other threads log (the level is not atomic); the time stamp; messages at level none",
    cases=[
        case("steps", [0, 2, 2, 1], opts=_LOG, reach=[1, 2, 3, 4]),
        case("steps-long", [0, 3, 1, 1], opts=_LOG, reach=[1, 2, 3, 4]),
        case("2-threads", [1, 2, 1, 3, 0], opts=_LOG, threads=True),
        case("2-threads-again", [1, 2, 2, 2, 1], opts=_LOG, threads=True),
        case("2-threads-errors", [1, 2, 2, 2, 3], opts=_LOG, threads=True),
        case("2-threads-none", [1, 2, 1, 2, 4], opts=_LOG, threads=True),
        case("3-threads", [1, 3, 1, 2, 0], opts=_LOG, threads=True),
        case("v2-none", [2, 2, 4, 63, 0, 0], opts=_LOG, reach=[1, 2]),
        case("v3-none", [2, 3, 4, 63, 1, 0], opts=_LOG, reach=[1, 2]),
        case("v2-error", [2, 2, 3, 63, 1, 0], opts=_LOG, reach=[1, 2]),
        case("v3-warning", [2, 3, 2, 63, 0, 0], opts=_LOG, reach=[1, 2]),
        case("v2-debug", [2, 2, 0, 63, 0, 0], opts=_LOG, reach=[1, 2]),
        case("v2-s3-none", [2, 2, 4, 63, 0, 1], opts=_LOG, reach=[1, 2]),
        case("v3-s3-error", [2, 3, 3, 63, 0, 1], opts=_LOG, reach=[1, 2]),
    ],
)
# ------------------------------------------------------------------ C25
CHECKS["C25"] = dict(
    harness="c25.cpp", reach=[1],
    bounds="streams of three to five dimensions with all sizes up to the case's; streams of fixed sizes with data appended in up to three pieces of any lengths, with and without lower resolution levels, compression, S3, a store in the place, "
           "custom metadata, all ten pixel types; any one storage operation failing at any point (any two or any number in the cases named so); two streams created, used and destroyed in any order; 16 kinds of settings that are refused; "
           "schedules: all orders of the workers' jobs where threads block (and one preemption in thorough)",
    outside="larger streams; other schedules; running out of memory (assumed not to happen); calls with dangling pointers; use of a stream from several threads",
    cases=[
        case("sizes-nd3-v2", [0, 2, 3, 1, 1, 1, 3, 3, 1, 2, 1, 3, 0]),
        case("sizes-nd3-v3", [0, 3, 3, 1, 1, 1, 3, 2, 2, 2, 2, 3, 0]),
        case("sizes-nd4-v2", [0, 2, 4, 3, 2, 1, 2, 2, 1, 2, 1, 4, 0]),
        case("sizes-nd4-v3", [0, 3, 4, 2, 2, 2, 2, 2, 2, 1, 2, 3, 0]),
        case("sizes-nd5-v3", [0, 3, 5, 2, 2, 1, 2, 1, 1, 1, 1, 3, 0]),
        case("sizes-multi-v2", [0, 2, 3, 1, 1, 1, 3, 2, 1, 2, 1, 4, 1]),
        case("sizes-multi-v3", [0, 3, 3, 1, 1, 1, 3, 2, 2, 1, 1, 4, 1]),
        case("pieces-v2", [1, 2, 2, 3, 2, 2, 1, 0, 2, 3, 0, 0, 0, 1]),
        case("pieces-v3", [1, 3, 2, 3, 2, 1, 2, 0, 2, 3, 0, 0, 0, 1]),
        case("pieces-multi-v2", [1, 2, 3, 3, 1, 1, 1, 1, 4, 2, 0, 0, 0, 8]),
        case("pieces-all-v3", [1, 3, 2, 3, 2, 1, 2, 27, 2, 2, 0, 0, 0, 5]),
        case("fail-v2", [1, 2, 2, 4, 2, 1, 1, 24, 2, 2, 63, 1, 0, 0], reach=[1, 2, 3]),
        case("fail-v3", [1, 3, 2, 4, 2, 1, 2, 24, 2, 2, 63, 1, 0, 0], reach=[1, 2, 3]),
        case("fail-v2-all", [1, 2, 2, 4, 2, 1, 1, 27, 4, 1, 63, 1, 0, 1], reach=[1, 2, 3]),
        case("fail-v3-all", [1, 3, 2, 4, 2, 1, 2, 27, 4, 1, 63, 1, 0, 1], reach=[1, 2, 3]),
        case("fail-s3-v2", [1, 2, 2, 4, 2, 1, 1, 21, 2, 1, 63, 1, 0, 0], reach=[1, 2, 3]),
        case("fail-s3-v3", [1, 3, 2, 4, 2, 1, 2, 22, 2, 1, 63, 1, 0, 0], reach=[1, 2, 3]),
        case("fail-twice-v2", [1, 2, 2, 2, 2, 1, 1, 0, 2, 1, 63, 2, 0, 0], reach=[1, 2, 3]),
        case("fail-twice-v3", [1, 3, 2, 2, 2, 1, 1, 0, 2, 1, 63, 2, 0, 0], reach=[1, 2, 3]),
        case("two-v2", [2, 2, 0]),
        case("two-v3", [2, 3, 1]),
        case("two-s3", [2, 3, 4]),
        case("refused-v2", [3, 2]),
        case("refused-v3", [3, 3]),
        case("threads-v2", [1, 2, 2, 2, 2, 1, 1, 0, 1, 1, 0, 0, 1, 0], threads=True),
        case("threads-v3", [1, 3, 2, 2, 2, 1, 1, 0, 1, 1, 0, 0, 1, 0], threads=True),
    ],
)
# ------------------------------------------------------------------ C26
CHECKS["C26"] = dict(
    harness="c26.cpp", reach=[1],
    bounds="happens-before race detection on every memory access of streams of both versions with two workers (three in thorough), two to four chunks, plain, downsampled, compressed and on S3, with any one or two operations failing: every order of the jobs where threads block over the whole life, "
           "and in addition one preemption anywhere in one append; sinks and metadata created and written in parallel; the thread pool with up to four jobs, failing jobs, jobs handing over jobs and a second submitter; up to three users of up to two connections; concurrent vectorised writes: each with the case's number of preemptions at synchronisation points",
    outside="more workers, jobs and preemptions; weaker memory orders than sequential consistency of atomics; the C library and the operating system",
    cases=[
        case("v2-create", [0, 2, 1, 2, 1, 0, 1, 1000, 0, 7, 1, 2], threads=True, reach=[1, 2]),
        case("v3-create", [0, 3, 1, 2, 1, 0, 1, 1000, 0, 7, 1, 2], threads=True, reach=[1, 2]),
        case("v2-destroy", [0, 2, 1, 2, 1, 0, 1, 1001, 1, 0, 0, 2], threads=True),
        case("v3-destroy", [0, 3, 1, 2, 1, 0, 1, 1001, 1, 0, 0, 2], threads=True),
        case("v2-append", [0, 2, 1, 2, 1, 0, 2, 2, 1, 0, 0, 2], threads=True),
        case("v3-append", [0, 3, 1, 2, 1, 0, 2, 2, 1, 0, 0, 2], threads=True),
        case("v2-fail", [0, 2, 1, 2, 1, 0, 1, 1, 0, 63, 2, 2], threads=True, reach=[1, 2]),
        case("v3-fail", [0, 3, 1, 2, 1, 0, 1, 1, 0, 63, 2, 2], threads=True, reach=[1, 2]),
        case("v2-fail-both", [0, 2, 1, 2, 1, 0, 1, 1, 1, 66, 2, 2], threads=True, reach=[1, 2]),
        case("v3-fail-both", [0, 3, 1, 2, 1, 0, 1, 1, 1, 66, 2, 2], threads=True, reach=[1, 2]),
        case("compressed-fail-both", [0, 2, 1, 2, 1, 2, 1, 1, 1, 80, 2, 2], threads=True, reach=[1, 2]),
        case("sinks-fail-both", [1, 0, 2, 1, 1, 65, 2, 2], threads=True, reach=[1, 2]),
        case("metadata-fail-both", [1, 1, 0, 0, 1, 65, 2, 2], threads=True, reach=[1, 2]),
        case("v2-compressed", [0, 2, 1, 2, 1, 2, 1, 1, 0, 16, 1, 2], threads=True, reach=[1, 2]),
        case("v3-compressed", [0, 3, 1, 2, 1, 2, 1, 1, 0, 16, 1, 2], threads=True, reach=[1, 2]),
        case("v2-multi", [0, 2, 1, 2, 1, 1, 2, 2, 0, 0, 0, 2], threads=True),
        case("v3-multi", [0, 3, 1, 2, 1, 1, 2, 2, 0, 0, 0, 2], threads=True),
        case("v2-s3", [0, 2, 1, 2, 1, 4, 1, 1, 0, 8, 1, 2], threads=True, reach=[1, 2]),
        case("v3-s3", [0, 3, 1, 2, 1, 4, 1, 1, 0, 8, 1, 2], threads=True, reach=[1, 2]),
        case("sinks", [1, 0, 1, 2, 1, 0, 0, 2], threads=True),
        case("sinks-fail", [1, 0, 2, 1, 0, 7, 1, 2], threads=True, reach=[1, 2]),
        case("metadata-v2", [1, 1, 0, 0, 1, 7, 1, 2], threads=True, reach=[1, 2]),
        case("metadata-v3", [1, 2, 0, 0, 1, 7, 1, 2], threads=True, reach=[1, 2]),
        case("pool", [2, 3, 2, 2, 5, 0, 0], threads=True),
        case("pool-nested", [2, 2, 2, 2, 0, 0, 2], threads=True),
        case("pool-two", [2, 2, 2, 1, 5, 2, 0], threads=True),
        case("connections", [3, 2, 1, 2, 0, 0], threads=True),
        case("connections-fail", [3, 3, 2, 0, 1, 0], threads=True),
        case("connections-parts", [3, 2, 2, 1, 0, 10485761], threads=True),
        case("vectors", [4, 2, 2, 2], threads=True),
        case("vectors-3", [4, 3, 1, 1], threads=True),
        case("v2-whole", [0, 2, 1, 2, 1, 0, 1, 0, 0, 0, 0, 2], threads=True, tiers=T),
        case("v3-whole", [0, 3, 1, 2, 1, 0, 1, 0, 0, 0, 0, 2], threads=True, tiers=T),
        case("v2-compressed-deep", [0, 2, 1, 2, 1, 2, 1, 1, 1, 16, 1, 2], threads=True, reach=[1, 2], tiers=T),
        case("sinks-4", [1, 0, 2, 2, 1, 0, 0, 2], threads=True, tiers=T),
        case("sinks-fail-deep", [1, 0, 2, 1, 1, 7, 1, 2], threads=True, reach=[1, 2], tiers=T),
        case("connections-deep", [3, 3, 2, 1, 1, 0], threads=True, tiers=T),
        case("v2-3-workers", [0, 2, 1, 3, 1, 0, 1, 1, 0, 0, 0, 3], threads=True, tiers=T),
    ],
)
# ------------------------------------------------------------------ C30
CHECKS["C30"] = dict(
    harness="c30.cpp",
    bounds="a stream run on one worker and again on two or three, one append (or the creation, or the destruction) of the second run on every schedule of workers and caller, with no preemption "
           "(context switches where a thread blocks or ends) or one; 1-2 frames of 1x2 and 2x2 pixels, every byte symbolic; both versions, multiscale, compressed (the model compressor's output depends on its arguments only), S3",
    outside="larger streams, more workers, more preemptions; schedules of several calls at once",
    assumptions=["a schedule choice is a symbolic variable with one explored successor per feasible value"],
    cases=[
        case("v2", [2, 1, 2, 1, 1, 1, 0, 1, 1, 1, 2], threads=True),
        case("v2-creation", [2, 1, 2, 1, 1, 1, 0, 1, 1000, 0, 2], threads=True),
        case("v2-destruction", [2, 1, 2, 1, 1, 1, 0, 1, 1001, 1, 2], threads=True),
        case("v2-2x2", [2, 2, 2, 1, 1, 1, 0, 1, 1, 0, 2], threads=True),
        case("v2-packed", [2, 1, 2, 1, 1, 1, 2, 1, 1, 0, 2], threads=True),
        case("v2-everything-s3", [2, 1, 2, 1, 1, 1, 7, 2, 2, 0, 2], threads=True),
        case("v3", [3, 1, 2, 1, 1, 2, 0, 2, 1, 1, 2], threads=True),
        case("v3-creation", [3, 1, 2, 1, 1, 2, 0, 1, 1000, 0, 2], threads=True),
        case("v3-destruction", [3, 1, 2, 1, 1, 2, 0, 1, 1001, 1, 2], threads=True),
        case("v3-packed", [3, 1, 2, 1, 1, 2, 2, 2, 1, 0, 2], threads=True),
        case("v3-packed-2", [3, 1, 2, 1, 1, 2, 2, 2, 2, 0, 2], threads=True),
        case("v3-s3", [3, 1, 2, 1, 1, 2, 4, 2, 2, 0, 2], threads=True),
        case("v3-multi", [3, 1, 2, 1, 1, 1, 1, 2, 2, 0, 2], threads=True),
        case("v2-packed-1", [2, 1, 2, 1, 1, 1, 2, 1, 1, 1, 2], threads=True, tiers=T, max_time=600),
        case("v3-packed-1", [3, 1, 2, 1, 1, 2, 2, 2, 1, 1, 2], threads=True, tiers=T, max_time=600),
        case("v2-2x2-three", [2, 2, 2, 1, 1, 1, 0, 1, 1, 0, 3], threads=True, tiers=T, max_time=600),
    ],
)
# ------------------------------------------------------------------ C31
CHECKS["C31"] = dict(
    harness="c31.cpp",
    bounds="every geometry and frame count within the case's limits, all pixel types in one case, every pixel byte symbolic, trailing incomplete frames; both versions, multiscale, compressed (the model compressor's "
           "output depends on its arguments only), custom metadata; frames of 2350x2350 pixels, whose chunks and shards are uploaded in parts (a sixteenth of the bytes symbolic)",
    outside="larger geometries; the object store is the model of vps3.hpp",
    cases=[
        case("v2", [2, 3, 1, 1, 1, 3, 2, 1, 2, 1, 3, 0, 0, 0, 0]),
        case("v2-types", [2, 3, 1, 1, 1, 2, 1, 1, 1, 1, 2, 0, 9, 0, 1]),
        case("v2-nd4", [2, 4, 2, 2, 1, 2, 1, 1, 2, 1, 4, 1, 1, 0, 0]),
        case("v2-packed", [2, 3, 1, 1, 1, 2, 2, 1, 2, 1, 3, 0, 1, 18, 0]),
        case("v2-multi", [2, 3, 1, 1, 1, 3, 2, 1, 1, 1, 4, 0, 0, 1, 1]),
        case("v3", [3, 3, 1, 1, 1, 3, 2, 2, 1, 2, 3, 0, 0, 0, 0]),
        case("v3-types", [3, 3, 1, 1, 1, 2, 1, 2, 1, 1, 2, 0, 9, 0, 1]),
        case("v3-nd4", [3, 4, 2, 2, 2, 2, 1, 2, 1, 1, 3, 1, 1, 0, 0]),
        case("v3-packed", [3, 3, 1, 1, 1, 2, 2, 2, 1, 2, 3, 0, 1, 18, 0]),
        case("v3-multi", [3, 3, 1, 1, 1, 3, 2, 1, 1, 1, 4, 0, 0, 1, 1]),
        case("v3-multi-packed", [3, 3, 1, 1, 1, 2, 2, 1, 1, 1, 4, 0, 0, 19, 0]),
        case("v2-parts", [2, 3, 2350, 2300, 1, 0, 0, 0, 1, 1, 1, 0, 0, 0, 0, 1], opts=LONG),
        case("v3-parts", [3, 3, 2350, 2300, 2, 0, 0, 0, 1, 1, 1, 0, 0, 0, 0, 1], opts=LONG),
        case("v3-wide", [3, 3, 1, 1, 1, 4, 2, 2, 2, 2, 4, 0, 1, 16, 1], tiers=T, max_time=700),
        case("v2-nd5", [2, 5, 2, 2, 1, 2, 1, 1, 2, 1, 5, 1, 1, 16, 1], tiers=T, max_time=700),
    ],
)
# ------------------------------------------------------------------ C32
CHECKS["C32"] = dict(
    harness="c32.cpp",
    bounds="one geometry; the place is empty, a directory, a file, or a store of either version; the path written in four ways; 12 neighbouring files and directories with names like the store's, objects and buckets likewise; "
           "both versions, multiscale, compressed, S3; any one or two storage operations failing in some cases",
    outside="other contents and paths (paths with .. among them); symbolic links",
    cases=[
        case("v2", [2, 1, 0, 0, 2], reach=[1, 2]),
        case("v3", [3, 1, 0, 0, 2], reach=[1, 2]),
        case("v2-packed", [2, 2, 0, 0, 1], reach=[1, 2]),
        case("v3-packed", [3, 3, 0, 0, 4], reach=[1, 2]),
        case("v2-faults", [2, 2, 63, 1, 1], reach=[1, 2]),
        case("v3-faults", [3, 0, 63, 1, 1], reach=[1, 2]),
        case("v2-faults-two", [2, 0, 63, 2, 1], reach=[1, 2]),
        case("v3-faults-two", [3, 0, 63, 2, 1], reach=[1, 2]),
        case("v2-s3", [2, 4, 0, 0, 2]),
        case("v3-s3", [3, 5, 0, 0, 2]),
        case("v2-s3-faults", [2, 4, 63, 1, 1]),
        case("v3-s3-faults", [3, 4, 63, 1, 1]),
    ],
)
# ------------------------------------------------------------------ C33
CHECKS["C33"] = dict(
    harness="c33.cpp",
    bounds="two streams of different geometry and pixel type, 2-4 frames each, passed whole or in halves, every byte symbolic, every order of their calls; both versions, multiscale, compressed, S3, custom metadata",
    outside="more streams; calls made from several threads at once",
    cases=[
        case("v2-v3", [2, 3, 0, 0, 2, 0, 1]),
        case("v2-v3-three", [2, 3, 8, 8, 3, 0, 1]),
        case("v2-v3-packed", [2, 3, 3, 3, 2, 0, 1]),
        case("v3-v3-s3", [3, 3, 6, 0, 2, 0, 1]),
        case("v3-v2-s3", [3, 2, 7, 13, 2, 0, 1]),
        case("v3-v3", [3, 3, 0, 0, 3, 0, 1]),
        case("v2-v2-s3", [2, 2, 2, 4, 3, 0, 1]),
        case("v2-v2", [2, 2, 1, 1, 4, 0, 1]),
        case("v2-v3-halves", [2, 3, 1, 2, 2, 0, 2]),
        case("v3-v2-halves-s3", [3, 2, 4, 4, 2, 0, 2]),
    ],
)
# ------------------------------------------------------------------ C34
CHECKS["C34"] = dict(
    harness="c33.cpp",
    bounds="one geometry, 3-5 frames cut in every way into calls, at half and quarter frames too, every byte symbolic; all that is passed is overwritten with symbolic bytes and released when the call returns; both versions, multiscale, compressed, S3, custom metadata",
    outside="other geometries (C25 decides the use of released memory for those)",
    cases=[
        case("v2", [2, 0, 0, 0, 5, 1, 2]),
        case("v3", [3, 0, 8, 0, 5, 1, 2]),
        case("v2-everything", [2, 0, 11, 0, 4, 1, 2]),
        case("v3-everything", [3, 0, 11, 0, 4, 1, 2]),
        case("v2-s3", [2, 0, 15, 0, 3, 1, 2]),
        case("v3-s3", [3, 0, 15, 0, 3, 1, 2]),
        case("v2-quarters", [2, 1, 0, 0, 3, 1, 4]),
        case("v3-quarters", [3, 0, 2, 0, 3, 1, 4]),
        case("v3-s3-packed", [3, 0, 14, 0, 4, 1, 2]),
    ],
)
# ------------------------------------------------------------------ C29, C35
_PY = ["pybind11 and Python are a model (model/include/pybind11): objects, keyword arguments, conversions with their range checks, properties, bound vectors, arrays with strides"]
CHECKS["C29"] = dict(
    harness="py.cpp", assumptions=_PY,
    bounds="arrays of 1-4 axes, 1-5 entries each, every stride of -4..4 elements on every axis (gaps, overlaps, backwards, any order), elements of 1, 2, 4 and 8 bytes, every byte symbolic; "
           "every 32-bit status and every number of bytes taken; whole stores from transposed arrays, both versions, multiscale, S3",
    outside="larger arrays and strides; Python itself, pybind11 and NumPy; object arrays and arrays of another byte order",
    cases=[
        case("axes1-8bytes", [5, 1, 5, 4, 8, 0]),
        case("axes2-1byte", [5, 2, 5, 3, 1, 0]),
        case("axes2-2bytes", [5, 2, 4, 4, 2, 0]),
        case("axes3-1byte", [5, 3, 3, 3, 1, 0]),
        case("axes3-4bytes", [5, 3, 2, 4, 4, 0]),
        case("axes4-1byte", [5, 4, 2, 2, 1, 0]),
        case("refused-1byte", [5, 2, 3, 2, 1, 1]),
        case("refused-8bytes", [5, 1, 2, 1, 8, 1]),
        case("store-v2", [6, 2, 0]),
        case("store-v3", [6, 3, 0]),
        case("store-v2-multi", [6, 2, 1]),
        case("store-v3-multi", [6, 3, 1]),
        case("store-v2-s3", [6, 2, 2]),
        case("store-v3-s3-multi", [6, 3, 3]),
        case("axes3-wide", [5, 3, 4, 4, 2, 0], tiers=T, max_time=700),
        case("axes4-wide", [5, 4, 3, 3, 1, 0], tiers=T, max_time=700),
    ],
)
CHECKS["C35"] = dict(
    harness="py.cpp", assumptions=_PY,
    bounds="every number setting given any 64-bit integer; texts of up to 6 (read back) or 2 (handed over) bytes, every byte value but 0 symbolic; 1-3 dimensions with every 32-bit size symbolic, every kind, type, version, "
           "compressor, codec, level and shuffle; given as keywords or one by one, dimensions in a new list or appended to the stream's; creation taken or refused; secrets of up to 12 characters",
    outside="longer texts, more dimensions; Python itself and pybind11; values of another Python type than the setting's (but for a number given as a text)",
    cases=[
        case("numbers", [0]),
        case("texts", [1, 6]),
        case("names", [2]),
        case("dimensions-1", [3, 1, 3, 0]),
        case("dimensions-2", [3, 2, 2, 0]),
        case("dimensions-3", [3, 3, 0, 0]),
        case("stream", [3, 1, 2, 1]),
        case("s3-compression", [3, 1, 2, 2]),
        case("shown", [4, 12]),
        case("defaults", [7]),
        case("dimensions-5", [3, 5, 0, 3], tiers=T),
        case("stream-long", [3, 2, 5, 1], tiers=T, max_time=700),
    ],
)
# ------------------------------------------------------------------ C36
CHECKS["C36"] = dict(
    harness="c36.cpp",
    bounds="every geometry within the case's limits, 4-6 frames passed one, two or three at a time, every byte symbolic; a crash at any of the storage operations that follow the first finished layer, "
           "or any one failing operation, with or without another append after it; both versions, multiscale (highest resolution only), compressed, S3; two pool threads, one schedule",
    outside="other geometries and frame counts; operations torn apart by the crash; data the operating system has been given but has not written to the disk; the array metadata, which stays in a buffer until the stream is destroyed",
    cases=[
        case("v2", [2, 0, 0, 6, 1, 3, 2, 1, 1, 2, 2, 1, 2, 1]),
        case("v3", [3, 0, 0, 6, 1, 3, 2, 1, 1, 2, 2, 2, 2, 2]),
        case("v2-nd4", [2, 1, 0, 8, 3, 4, 2, 2, 1, 2, 1, 1, 2, 1]),
        case("v3-nd4-s3", [3, 6, 0, 8, 1, 4, 2, 1, 2, 1, 1, 1, 2, 2]),
        case("v2-s3", [2, 4, 0, 5, 1, 3, 1, 1, 1, 2, 2, 1, 2, 1]),
        case("v2-crash", [2, 3, 1, 6, 1, 3, 2, 1, 1, 2, 2, 1, 2, 1], reach=[1, 2]),
        case("v2-crash-s3", [2, 4, 1, 4, 1, 3, 2, 1, 1, 2, 2, 1, 2, 1], reach=[1, 2]),
        case("v2-crash-nd4", [2, 0, 1, 5, 2, 4, 2, 2, 1, 1, 1, 1, 2, 1], reach=[1, 2]),
        case("v3-crash", [3, 0, 1, 6, 3, 3, 1, 1, 1, 2, 2, 2, 2, 2], reach=[1, 2]),
        case("v3-crash-multi", [3, 3, 1, 6, 2, 3, 1, 1, 1, 2, 2, 2, 2, 2], reach=[1, 2]),
        case("v3-crash-nd4", [3, 2, 1, 6, 1, 4, 2, 2, 2, 1, 1, 1, 1, 2], reach=[1, 2]),
        case("v3-crash-s3", [3, 4, 1, 5, 1, 3, 1, 1, 1, 2, 2, 1, 2, 2], reach=[1, 2]),
        case("v2-faults", [2, 1, 63, 4, 1, 3, 2, 1, 1, 2, 2, 1, 2, 1], reach=[1, 3]),
        case("v3-faults", [3, 0, 63, 4, 1, 3, 1, 1, 1, 2, 2, 2, 2, 2], reach=[1, 3]),
        case("v3-faults-s3", [3, 6, 63, 4, 1, 3, 1, 1, 1, 2, 2, 2, 2, 2], reach=[1, 3]),
        case("v3-crash-big", [3, 3, 1, 6, 2, 3, 2, 1, 1, 2, 2, 2, 2, 2], reach=[1, 2], tiers=T, max_time=700),
        case("v3-faults-big", [3, 4, 63, 6, 1, 3, 2, 1, 1, 2, 2, 2, 2, 2], reach=[1, 3], tiers=T, max_time=700),
    ],
)
# ------------------------------------------------------------------ C37
CHECKS["C37"] = dict(
    harness="c37.cpp",
    bounds="every geometry within the case's limits, 4-8 rounds (some geometries: 30-100) of as many frames as finish a layer at every level, passed whole or in halves; nothing fails, or every operation of one kind fails from the second round on; "
           "both versions, multiscale, compressed, S3; two pool threads, one schedule; of the heap, two blocks and 600 bytes more or less are let pass",
    outside="growth that begins later or comes to less than three blocks and 600 bytes over the rounds; other geometries",
    cases=[
        case("v2", [2, 0, 0, 8, 3, 2, 1, 1, 2, 2, 1, 2, 1, 1]),
        case("v3", [3, 0, 0, 8, 3, 2, 1, 1, 2, 2, 2, 2, 2, 1]),
        case("v2-packed-halves", [2, 2, 0, 8, 3, 2, 1, 1, 2, 2, 1, 2, 1, 0]),
        case("v2-multi", [2, 3, 0, 5, 3, 1, 1, 1, 3, 2, 2, 1, 1, 1]),
        case("v3-multi-s3", [3, 5, 0, 5, 3, 1, 1, 1, 2, 2, 1, 1, 2, 1]),
        case("v2-s3", [2, 4, 0, 8, 3, 2, 1, 1, 2, 2, 1, 2, 1, 0]),
        case("v2-nd4", [2, 0, 0, 8, 4, 2, 2, 1, 1, 1, 1, 2, 1, 1]),
        case("v3-nd4", [3, 2, 0, 8, 4, 2, 2, 1, 1, 1, 1, 2, 2, 1]),
        case("v2-many", [2, 0, 0, 100, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        case("v3-many", [3, 2, 0, 100, 3, 1, 1, 1, 1, 1, 1, 1, 2, 1]),
        case("v2-many-multi-s3", [2, 5, 0, 30, 3, 1, 1, 1, 2, 1, 1, 1, 1, 1]),
        case("v2-many-no-write", [2, 0, 2, 100, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        case("v2-many-no-open", [2, 0, 1, 100, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        case("v2-many-no-compressing", [2, 2, 16, 100, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        case("v3-many-no-requests", [3, 4, 8, 40, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        case("v2-no-open", [2, 0, 1, 8, 3, 1, 1, 1, 2, 2, 1, 2, 1, 1]),
        case("v2-no-mkdir", [2, 0, 4, 8, 3, 1, 1, 1, 2, 2, 1, 2, 1, 1]),
        case("v3-no-write", [3, 0, 2, 8, 3, 1, 1, 1, 2, 2, 1, 2, 2, 1]),
        case("v2-no-compressing", [2, 2, 16, 8, 3, 1, 1, 1, 2, 2, 1, 2, 1, 1]),
        case("v2-no-requests", [2, 4, 8, 8, 3, 1, 1, 1, 2, 2, 1, 2, 1, 1]),
        case("v3-no-requests", [3, 4, 8, 8, 3, 1, 1, 1, 2, 2, 1, 2, 2, 1]),
    ],
)
