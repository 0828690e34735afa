// A vectorised write.
#include <stream.h>
#include <vectorized.file.writer.hh>
using namespace h;
extern "C" unsigned vp_short_writes;
// args: calls, most buffers, longest buffer, offset base, offset window, faults (1 refused writes, 2 short writes, 4 refused open), buffer count (fixed, 0: choose)
extern "C" void harness()
{
    world();
    const unsigned calls = vp_arg(0);
    const uint64_t faults = vp_arg(5);
    const bool was = vp_choose("exists", 0, 1);
    if (was) { // earlier contents stay
        vpenv::Node* o = vpenv::add_file("/w/f");
        unsigned char* junk = (unsigned char*)malloc(4);
        memset(junk, 0xee, 4);
        vpenv::write_record(o, vp_arg(3), junk, 4);
    }
    if (faults & 3) vpenv::fault_mask |= vpenv::F_WRITE;
    if (faults & 4) vpenv::fault_mask |= vpenv::F_OPEN;
    vpenv::fault_budget = 1;
    vp_short_writes = faults & 2 ? 1 : 0;
    uint64_t off[4], len[4];
    unsigned char* all[4];
    bool sure = true;
    {
        zarr::VectorizedFileWriter* w = nullptr;
        bool threw = false;
        try {
            w = new zarr::VectorizedFileWriter("/w/f");
        } catch (const std::exception&) {
            threw = true;
        }
        vp_assert(threw == (vpenv::faults_hit > 0), "a file that cannot be opened is reported when the writer is made, and nothing else is");
        if (threw) {
            vp_assert(vpenv::open_handles == 0, "no file stays open");
            vp_reach(2);
            return;
        }
        for (unsigned c = 0; c < calls; ++c) {
            off[c] = vp_arg(3) + vp_range("offset", 0, vp_arg(4));
            const uint64_t nb = vp_arg(6) ? vp_arg(6) : vp_choose("buffers", 0, vp_arg(1));
            std::vector<std::span<std::byte>> v;
            len[c] = 0;
            all[c] = (unsigned char*)malloc(nb * vp_arg(2) + 1);
            for (uint64_t b = 0; b < nb; ++b) {
                const uint64_t n = vp_arg(6) ? vp_arg(2) : vp_choose("length", 0, vp_arg(2));
                unsigned char* p = (unsigned char*)malloc(n ? n : 1);
                for (uint64_t k = 0; k < n; ++k) {
                    p[k] = vp_arg(6) > 8 && b % 101 ? (unsigned char)(b + k) : (unsigned char)vp_sym("byte", 8);
                    all[c][len[c]++] = p[k];
                }
                v.emplace_back((std::byte*)p, n);
            }
            const unsigned hits = vpenv::faults_hit, before = file("/w/f")->log.size();
            const bool ok = w->write_vectors(v, off[c]);
            uint64_t done = 0; // bytes stored by this call
            vpenv::Node* f = file("/w/f");
            for (size_t i = before; i < f->log.size(); ++i) done += f->log[i].n;
            if (ok) vp_assert(done >= len[c], "true is returned only if all the bytes were written");
            if (!ok) {
                vp_assert(done < len[c] || (!len[c] && vpenv::faults_hit > hits), "false is returned only if something was not written");
                sure = false;
                vp_reach(3);
            }
            if (!ok && !faults && nb <= 1024) vp_assert(false, "a vectorised write succeeds if the system accepts it");
        }
        delete w;
    }
    vp_assert(vpenv::open_handles == 0, "the file is closed when the writer goes away");
    if (!sure) return;
    vpenv::Node* f = file("/w/f");
    uint64_t end = was ? vp_arg(3) + 4 : 0, most = 0;
    for (unsigned c = 0; c < calls; ++c) {
        const uint64_t e = len[c] ? off[c] + len[c] : 0;
        end = e > end ? e : end;
        most = len[c] > most ? len[c] : most;
    }
    vp_assert(f->size == end, "the file ends with the last byte written");
    const uint64_t p = vp_arg(3) + vp_range("position", 0, vp_arg(4) + most + 1);
    unsigned want = was && p - vp_arg(3) < 4 ? 0xee : 0;
    for (unsigned c = 0; c < calls; ++c)
        for (uint64_t k = 0; k < len[c]; ++k) {
            const unsigned hit = -(unsigned)(p == off[c] + k);
            want = (want & ~hit) | (all[c][k] & hit);
        }
    vp_assert(vpenv::byte_sel(f, p) == want, "the buffers are in the file in order at the offset, and nothing else changed");
    for (auto& w : f->log) vp_assert(w.off >= vp_arg(3) && w.off + w.n <= end, "nothing is written elsewhere");
    vp_reach(1);
}
