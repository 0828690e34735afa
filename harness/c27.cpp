// Creating files and directories in parallel: every failure is told.
#include <sinks.h>
using namespace h;
// args: what (0 data sinks, 1 metadata V2, 2 metadata V3), parts of the last two dimensions, faults, fault budget, preemptions, race, threads,
//       obstacle (1: a file in the way of a directory, 2: a directory in the way of a file)
extern "C" void harness()
{
    world();
    const unsigned what = vp_arg(0);
    auto dims = lattice_dims(3);
    uint64_t parts[6] = { 77, vp_arg(1), vp_arg(2) };
    auto fn = [&](const ZarrDimension& d) -> size_t { return parts[dim_no(d)]; };
    vp_hw_threads = vp_arg(7);
    std::vector<std::string> dirs, files;
    bool blocked = false;
    if (what == 0) {
        for (unsigned i = 0; i < parts[1]; ++i) {
            dirs.push_back("/w/a/" + num(i));
            for (unsigned j = 0; j < parts[2]; ++j) files.push_back("/w/a/" + num(i) + "/" + num(j));
        }
    } else if (what == 1) {
        dirs = { "/w/a/0" };
        files = { "/w/a/.zattrs", "/w/a/.zgroup", "/w/a/0/.zattrs", "/w/a/acquire.json" };
    } else {
        dirs = { "/w/a/meta" };
        files = { "/w/a/zarr.json", "/w/a/meta/root.group.json", "/w/a/meta/acquire.json" };
    }
    if (vp_arg(8)) {
        const bool asdir = vp_arg(8) == 2;
        const auto& l = asdir ? files : dirs;
        const uint64_t k = vp_choose("obstacle", 0, l.size()); // the last: none
        if (k < l.size()) {
            vpenv::add_dir("/w/a");
            if (asdir) {
                std::string p = l[k];
                while (p.size() > 4) p.pop_back();
                vpenv::make_dirs(l[k].data(), l[k].size());
            } else
                vpenv::add_file(l[k]);
            blocked = true;
        }
    }
    const unsigned dirs0 = vpenv::dirs_created;
    bool ok = false, threw = false;
    unsigned told = 0;
    std::vector<std::unique_ptr<zarr::Sink>> sinks;
    std::unordered_map<std::string, std::unique_ptr<zarr::Sink>> meta;
    {
        auto pool = std::make_shared<zarr::ThreadPool>(vp_arg(7), [&](const std::string&) { ++told; });
        vpenv::fault_mask = vp_arg(3);
        vpenv::fault_budget = vp_arg(4);
        vp_sched(1, vp_arg(5), vp_arg(6));
        zarr::SinkCreator creator(pool, nullptr);
        try {
            ok = what == 0 ? creator.make_data_sinks("/w/a", dims.get(), fn, sinks) : creator.make_metadata_sinks(what + 1, "/w/a", meta);
        } catch (const std::exception&) {
            threw = true;
        }
        pool->await_stop();
        vp_sched(0, 0, 0);
    }
    const bool failed = blocked || vpenv::faults_hit > 0;
    vp_assert(!(ok && failed), "a file or directory that could not be created is reported");
    vp_assert(ok || failed, "success is reported if everything was created");
    if (!failed) {
        vp_assert(told == 0, "no failure is reported to the error handler if there is none");
        for (auto& p : files) vp_assert(file(p) != nullptr, "every file is there");
        if (what == 0) {
            vp_assert(sinks.size() == files.size(), "there is a sink for every file");
            for (size_t i = 0; i < sinks.size(); ++i) {
                vp_assert(sinks[i] != nullptr, "every sink is there");
                const unsigned char b = (unsigned char)vp_sym("byte", 8);
                vp_assert(sinks[i]->write(0, std::span<const std::byte>((const std::byte*)&b, 1)), "every sink is usable");
                vp_assert(zarr::finalize_sink(std::move(sinks[i])), "every sink can be finalised");
                vp_assert(vpenv::byte_at(file(files[i]), 0) == b, "the sink belongs to its file");
            }
        } else {
            vp_assert(meta.size() == files.size(), "there is a sink for every document");
            for (auto& p : files) {
                auto it = meta.find(p.substr(5));
                vp_assert(it != meta.end() && it->second != nullptr, "every document has its sink");
                const unsigned char b = (unsigned char)vp_sym("byte", 8);
                vp_assert(it->second->write(0, std::span<const std::byte>((const std::byte*)&b, 1)), "every sink is usable");
                vp_assert(zarr::finalize_sink(std::move(it->second)), "every sink can be finalised");
                vp_assert(vpenv::byte_at(file(p), 0) == b, "the sink belongs to its file");
            }
        }
        vp_reach(1);
    } else
        vp_reach(2);
    sinks.clear();
    meta.clear();
    vp_assert(vp_threads() == 1 && vpenv::open_handles == 0, "nothing is left open or running");
    (void)dirs0;
    (void)threw;
}
