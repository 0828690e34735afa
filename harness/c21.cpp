// Connections to the object store: never shared, lost or waited for in vain.
#include <latch>
#include <s3.connection.hh>
#include <s3.sink.hh>
#include <stream.h>
#include <thread>
#include <vps3.hpp>
using namespace h;
// args: way, users, connections, rounds, preemptions, faults, parts, spurious wake-ups
// way 0: users take and give back; 1: all keep theirs until everyone has one; 2: users write through sinks; 3: making the pool; 4: all are out and given back while users wait
namespace {
struct Slot
{
    zarr::S3Connection* c;
    unsigned held;
};
Slot slots[8];
unsigned nslots, out, limit;
Slot& slot(zarr::S3Connection* c)
{
    for (unsigned i = 0; i < nslots; ++i)
        if (slots[i].c == c) return slots[i];
    vp_assert(nslots < 8, "(table of connections)");
    slots[nslots] = { c, 0 };
    return slots[nslots++];
}
void took(zarr::S3Connection* c)
{
    vp_assert(c != nullptr, "a connection is handed out");
    vpenv::Guard g;
    Slot& s = slot(c);
    vp_assert(++s.held == 1, "a connection is in the hands of one user at a time");
    vp_assert(++out <= limit, "not more connections are out than there are");
}
void gives(zarr::S3Connection* c)
{
    vpenv::Guard g;
    Slot& s = slot(c);
    --s.held;
    --out;
}
// the pool holds exactly n different connections
void all_back(zarr::S3ConnectionPool& p, unsigned n)
{
    std::vector<std::unique_ptr<zarr::S3Connection>> c;
    for (unsigned i = 0; i < n; ++i) {
        c.push_back(p.get_connection()); // a lost connection makes this wait for ever
        vp_assert(c.back() != nullptr, "every connection is back in the pool");
        for (unsigned k = 0; k < i; ++k) vp_assert(c[k] != c.back(), "every connection is there once");
    }
    vp_assert(vps3::live_clients == n, "the pool has as many connections as proved valid");
    for (auto& x : c) p.return_connection(std::move(x));
}
}
extern "C" void harness()
{
    world();
    vps3::buckets.push_back("bucket");
    const unsigned way = vp_arg(0), users = vp_arg(1), n = limit = vp_arg(2), rounds = vp_arg(3);
    if (way == 3) { // n attempts, some of which fail
        vpenv::fault_mask = vpenv::F_S3;
        vpenv::fault_budget = n;
        std::unique_ptr<zarr::S3ConnectionPool> p;
        try {
            p = std::make_unique<zarr::S3ConnectionPool>(n, "http://s3", "id", "key");
        } catch (const std::exception&) {
        }
        const unsigned bad = vpenv::faults_hit;
        vpenv::fault_budget = 0;
        vp_assert((p != nullptr) == (bad < n), "a pool is made exactly if there is a valid connection");
        if (p) {
            all_back(*p, n - bad);
            all_back(*p, n - bad);
            vp_reach(1);
        } else {
            vp_assert(vps3::live_clients == 0, "no connection is left over");
            vp_reach(2);
        }
        p.reset();
        vp_assert(vps3::live_clients == 0, "a pool closes its connections");
        return;
    }
    auto pool = std::make_shared<zarr::S3ConnectionPool>(n, "http://s3", "id", "key");
    std::latch everyone(users);
    unsigned failed[4] = {};
    unsigned char byte[4];
    for (unsigned i = 0; i < users; ++i) byte[i] = (unsigned char)vp_sym("byte", 8);
    if (vp_arg(5)) {
        vpenv::fault_mask = vpenv::F_S3;
        vpenv::fault_budget = vp_arg(5);
    }
    vp_sched(vp_arg(7) ? 2 : 1, vp_arg(4), 0);
    {
        std::vector<std::unique_ptr<zarr::S3Connection>> held;
        for (unsigned i = 0; way == 4 && i < n; ++i) held.push_back(pool->get_connection());
        std::vector<std::thread> t;
        for (unsigned u = 0; u < users; ++u)
            t.emplace_back([&, u] {
                if (way == 4) everyone.count_down();
                if (way == 2) {
                    const char key[2] = { (char)('a' + u), 0 };
                    std::unique_ptr<zarr::Sink> s = std::make_unique<zarr::S3Sink>("bucket", key, pool);
                    const std::byte b{ byte[u] };
                    bool ok = s->write(0, std::span<const std::byte>(&b, 1));
                    if (vp_arg(6)) { // several parts
                        std::vector<std::byte> big(vp_arg(6));
                        ok = s->write(1, big) && ok;
                    }
                    ok = zarr::finalize_sink(std::move(s)) && ok;
                    if (!ok) ++failed[u];
                    return;
                }
                for (unsigned r = 0; r < rounds; ++r) {
                    auto c = pool->get_connection();
                    took(c.get());
                    if (way == 1) everyone.arrive_and_wait();
                    else vp_assert(c->bucket_exists("bucket"), "the connection can be used");
                    gives(c.get());
                    pool->return_connection(std::move(c));
                }
            });
        if (way == 4) {
            everyone.wait();
            for (auto& c : held) pool->return_connection(std::move(c));
        }
        for (auto& x : t) x.join();
    }
    vp_sched(0, 0, 0);
    vpenv::fault_budget = 0;
    all_back(*pool, n);
    if (way == 2) {
        unsigned f = 0;
        for (unsigned u = 0; u < users; ++u) {
            f += failed[u];
            const char key[2] = { (char)('a' + u), 0 };
            vps3::Object* o = vps3::find("bucket", key);
            if (!failed[u]) vp_assert(o && o->data.size() == 1 + vp_arg(6) && (unsigned char)o->data[0] == byte[u], "every sink's object is stored");
        }
        vp_assert((f > 0) == (vpenv::faults_hit > 0), "a failed request is reported, and nothing else is");
        if (f) vp_reach(2);
    }
    vp_reach(1);
}
