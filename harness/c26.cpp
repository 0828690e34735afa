// Shared state: every access is ordered.
#include <latch>
#include <s3.connection.hh>
#include <sinks.h>
#include <thread>
#include <vectorized.file.writer.hh>
#include <vps3.hpp>
using namespace h;
// args: way 0 streams: version, rows, columns, shard, bits (1 multiscale, 2 compressed, 4 S3), frames, the append that is explored (0: all, and creation
//             and destruction; 1000: creation; 1001: destruction), preemptions, what may fail, how often, workers
//       way 1 creating sinks: what, parts, parts, preemptions, faults, budget, threads
//       way 2 the pool: jobs, threads, preemptions, failing jobs, second submitter's jobs, jobs handing over jobs
//       way 3 connections: users, connections, preemptions, faults, bytes beyond the first
//       way 4 vectorised writes: threads, writes each, preemptions
static void stream()
{
    Geo g;
    g.version = (ZarrVersion)vp_arg(1);
    g.arr[1] = vp_arg(2);
    g.arr[2] = vp_arg(3);
    for (unsigned i = 0; i < 3; ++i) {
        g.chunk[i] = 1;
        g.shard[i] = vp_arg(4);
    }
    default_types(g);
    Settings s(g);
    const unsigned bits = vp_arg(5);
    s.s.multiscale = bits & 1;
    if (bits & 2) {
        s.comp = { ZarrCompressor_Blosc1, ZarrCompressionCodec_BloscLZ4, 1, 1 };
        s.s.compression_settings = &s.comp;
    }
    if (bits & 4) {
        vps3::buckets.push_back("bucket");
        s.s3 = { "http://s3", "bucket", "id", "key" };
        s.s.s3_settings = &s.s3;
        s.s.store_path = "s";
    }
    vp_hw_threads = vp_arg(11);
    const uint64_t frames = vp_arg(6), only = vp_arg(7), fb = g.frame_bytes();
    const int preempt = vp_arg(8);
    unsigned char* px = sym_bytes("px", fb * frames);
    vpenv::direct_limit = 1;
    const unsigned faults = vp_arg(9);
    if (!(faults & vpenv::F_ALWAYS)) vpenv::fault_mask = faults;
    vpenv::fault_budget = vp_arg(10);
    vp_sched(!only || only == 1000, preempt, 1);
    ZarrStream* st = ZarrStream_create(&s.s);
    vp_sched(!only, preempt, 1);
    bool ok = st;
    for (uint64_t f = 0; st && f < frames; ++f) {
        size_t out;
        if (only) vp_sched(f + 1 == only, preempt, 1);
        if (f + 1 == only) vpenv::fault_mask = faults;
        ok &= ZarrStream_append(st, px + f * fb, fb, &out) == ZarrStatusCode_Success;
    }
    vp_sched(!only || only == 1001, preempt, 1);
    ZarrStream_destroy(st);
    vp_sched(0, 0, 0);
    vp_assert(ok || vpenv::faults_hit, "everything succeeds when nothing fails");
    if (!ok) vp_reach(2);
    if (ok && !vpenv::faults_hit && !(bits & 7) && g.version == 2) expect_v2("/w/s/0", g, px, frames);
    free(px);
}
static void creating()
{
    const unsigned what = vp_arg(1);
    auto dims = lattice_dims(3);
    const uint64_t parts[3] = { 77, vp_arg(2), vp_arg(3) };
    auto fn = [&](const ZarrDimension& d) -> size_t { return parts[dim_no(d)]; };
    vp_hw_threads = vp_arg(7);
    std::vector<std::unique_ptr<zarr::Sink>> sinks;
    std::unordered_map<std::string, std::unique_ptr<zarr::Sink>> meta;
    vpenv::fault_mask = vp_arg(5);
    vpenv::fault_budget = vp_arg(6);
    bool ok = false;
    vp_sched(1, vp_arg(4), 1);
    {
        unsigned told = 0;
        std::mutex m;
        auto pool = std::make_shared<zarr::ThreadPool>(vp_arg(7), [&](const std::string&) {
            std::scoped_lock l(m);
            ++told;
        });
        zarr::SinkCreator creator(pool, nullptr);
        try {
            ok = what == 0 ? creator.make_data_sinks("/w/a", dims.get(), fn, sinks) : creator.make_metadata_sinks(what + 1, "/w/a", meta);
        } catch (const std::exception&) {
        }
        if (ok) { // written by workers, then closed here
            const std::byte b{ 7 };
            std::latch done(sinks.size());
            for (auto& s : sinks)
                pool->push_job([&](std::string&) {
                    const bool r = s->write(0, std::span<const std::byte>(&b, 1));
                    done.count_down();
                    return r;
                });
            done.wait();
            for (auto& s : sinks) zarr::finalize_sink(std::move(s));
        }
    }
    vp_sched(0, 0, 0);
    vp_assert(ok || vpenv::faults_hit, "everything succeeds when nothing fails");
    if (!ok) vp_reach(2);
}
static void pooled()
{
    const unsigned jobs = vp_arg(1), extra = vp_arg(5), nested = vp_arg(6);
    vp_hw_threads = vp_arg(2);
    vp_sched(1, vp_arg(3), 1);
    {
        unsigned results[8] = {}; // each written by one job, read when the pool has stopped
        unsigned told = 0;
        std::mutex m;
        zarr::ThreadPool pool(vp_arg(2), [&](const std::string&) {
            std::scoped_lock l(m);
            ++told;
        });
        const auto give = [&](unsigned i) {
            const unsigned v = i + 1; // seen by the job
            unsigned* at = results + i;
            return pool.push_job([=, &pool, &results](std::string& err) {
                *at = v;
                if (i < nested) pool.push_job([&results, i](std::string&) { results[7 - i] = results[i]; return true; });
                if (vp_arg(4) >> i & 1) {
                    err = "a message that is longer than what fits into a short string";
                    return false;
                }
                return true;
            });
        };
        std::thread other;
        if (extra) other = std::thread([&] {
            for (unsigned i = 0; i < extra; ++i) give(jobs + i);
        });
        for (unsigned i = 0; i < jobs; ++i) give(i);
        if (vp_choose("wait", 0, 1) && other.joinable()) other.join();
        if (vp_choose("stop", 0, 1)) { // otherwise the pool goes with its jobs queued or running
            pool.await_stop();
            for (unsigned i = 0; i < jobs; ++i) vp_assert(results[i] == i + 1, "a job's results are seen when the pool has stopped");
        }
        if (other.joinable()) other.join();
    }
    vp_sched(0, 0, 0);
}
static void connections()
{
    vps3::buckets.push_back("bucket");
    auto pool = std::make_shared<zarr::S3ConnectionPool>(vp_arg(2), "http://s3", "id", "key");
    vpenv::fault_mask = vpenv::F_S3;
    vpenv::fault_budget = vp_arg(4);
    vp_sched(1, vp_arg(3), 1);
    {
        std::thread t[3];
        for (unsigned u = 0; u < vp_arg(1); ++u)
            t[u] = std::thread([&, u] {
                const char key[2] = { (char)('a' + u), 0 };
                std::unique_ptr<zarr::Sink> s = std::make_unique<zarr::S3Sink>("bucket", key, pool);
                const std::byte b{ (unsigned char)u };
                s->write(0, std::span<const std::byte>(&b, 1));
                if (vp_arg(5)) {
                    std::vector<std::byte> more(vp_arg(5));
                    s->write(1, more);
                }
                zarr::finalize_sink(std::move(s));
            });
        for (auto& x : t)
            if (x.joinable()) x.join();
        pool.reset();
    }
    vp_sched(0, 0, 0);
    vp_assert(vps3::live_clients == 0, "the connections are closed");
}
static void vectorised()
{
    const unsigned threads = vp_arg(1), writes = vp_arg(2);
    {
        zarr::VectorizedFileWriter w("/w/v");
        vp_sched(1, vp_arg(3), 1);
        std::thread t[3];
        for (unsigned u = 0; u < threads; ++u)
            t[u] = std::thread([&, u] {
                for (unsigned k = 0; k < writes; ++k) {
                    std::vector<std::vector<std::byte>> buf(2, std::vector<std::byte>(2, std::byte(16 * u + k + 1)));
                    std::vector<std::span<std::byte>> spans(buf.begin(), buf.end());
                    vp_assert(w.write_vectors(spans, (u * writes + k) * 4), "a write succeeds");
                }
            });
        for (auto& x : t)
            if (x.joinable()) x.join();
        vp_sched(0, 0, 0);
    }
    const auto* f = file("/w/v");
    vp_assert(f != nullptr && f->size == 4 * threads * writes, "everything has been written");
    for (unsigned i = 0; i < 4 * threads * writes; ++i)
        vp_assert(vpenv::byte_at(f, i) == 16 * (i / 4 / writes) + i / 4 % writes + 1, "everything has been written at its place");
}
extern "C" void harness()
{
    world();
    switch (vp_arg(0)) {
        case 0: stream(); break;
        case 1: creating(); break;
        case 2: pooled(); break;
        case 3: connections(); break;
        case 4: vectorised(); break;
    }
    vp_reach(1);
}
