// A file sink puts every write where it belongs.
#include <file.sink.hh>
#include <stream.h>
using namespace h;
// args: writes, longest write, largest offset step, offset base, length multiplier, faults
extern "C" void harness()
{
    world();
    const unsigned n = vp_arg(0);
    // a file that is already there must be truncated
    if (vp_choose("exists", 0, 1)) {
        vpenv::Node* o = vpenv::add_file("/w/f");
        unsigned char* junk = (unsigned char*)malloc(64);
        memset(junk, 0xee, 64);
        vpenv::write_record(o, 0, junk, 64);
    }
    uint64_t off[8], len[8];
    unsigned char* data[8];
    {
        std::unique_ptr<zarr::Sink> sink = std::make_unique<zarr::FileSink>("/w/f");
        vpenv::Node* f = file("/w/f");
        vp_assert(f && f->size == 0, "creating a file sink truncates the file");
        if (vp_arg(5)) {
            vpenv::fault_mask = vpenv::F_WRITE;
            vpenv::fault_budget = 1;
        }
        bool told = false;
        for (unsigned i = 0; i < n; ++i) {
            off[i] = vp_arg(3) + vp_range("offset", 0, vp_arg(2));
            len[i] = vp_choose("length", 0, vp_arg(1)) * vp_arg(4);
            data[i] = (unsigned char*)malloc(len[i] ? len[i] : 1);
            for (uint64_t k = 0; k < len[i]; ++k) data[i][k] = vp_arg(4) > 1 && k % 97 ? (unsigned char)k : (unsigned char)vp_sym("byte", 8);
            const bool ok = sink->write(off[i], std::span<const std::byte>((const std::byte*)data[i], len[i]));
            if (!ok) told = true;
            if (!vpenv::faults_hit) vp_assert(ok, "a write succeeds if the system accepts it");
            // the caller may reuse its buffer at once
            unsigned char* keep = (unsigned char*)malloc(len[i] ? len[i] : 1);
            memcpy(keep, data[i], len[i]);
            free(data[i]);
            data[i] = keep;
        }
        const bool fin = zarr::finalize_sink(std::move(sink));
        if (!fin) told = true;
        vp_assert(told == (vpenv::faults_hit > 0), "a refused write is reported by the write or by the finalisation, and nothing else is");
        if (vpenv::faults_hit) {
            vp_reach(2);
            return;
        }
        vp_assert(fin, "finalisation succeeds");
        vp_assert(sink == nullptr || vp_arg(5), "a finalised sink is gone");
    }
    vp_assert(vpenv::open_handles == 0, "the file is closed");
    vpenv::Node* f = file("/w/f");
    vp_assert(f != nullptr, "the file is there");
    // any byte of the file: the last write that covered it, or zero
    uint64_t end = 0;
    for (unsigned i = 0; i < n; ++i) {
        const uint64_t e = len[i] ? off[i] + len[i] : 0;
        end = e > end ? e : end;
    }
    vp_assert(f->size == end, "the file ends with the last byte written");
    const uint64_t p = vp_arg(3) + vp_range("position", 0, vp_arg(2) + vp_arg(1) * vp_arg(4) + 1);
    unsigned want = 0;
    for (unsigned i = 0; i < n; ++i)
        for (uint64_t k = 0; k < len[i]; ++k) {
            const unsigned hit = -(unsigned)(p == off[i] + k);
            want = (want & ~hit) | (data[i][k] & hit);
        }
    vp_assert(vpenv::byte_sel(f, p) == want, "every byte of the file is the one written last at its offset");
    // no byte elsewhere
    for (auto& w : f->log) vp_assert(w.off >= vp_arg(3) && w.off + w.n <= end, "nothing is written elsewhere");
    vp_assert(zarr::finalize_sink(nullptr), "finalising no sink succeeds");
    vp_reach(1);
}
