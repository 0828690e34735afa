// The thread pool on every schedule.
#include <stream.h>
#include <thread.pool.hh>
using namespace h;
// args: property (12, 13, 14), way (see below), jobs, threads asked for, hardware threads, preemptions, jobs that may fail (bit mask), second thread's jobs, spurious wake-ups
// way 0: stop, then destroy; 1: destroy only; 2: jobs hand over jobs; 3: a second thread hands over jobs while the pool is stopped;
//     4: stop twice, from two threads; 5: no job, idle for a while, then jobs
namespace {
struct Rec
{
    unsigned started = 0, done = 0, told = 0;
    bool accepted = false, fails = false, silent = false; // silent: fails without a message
    char mark = 0;
    uint32_t effect = 0; // what the job adds to the total
};
Rec rec[12];
unsigned strange, njobs, unnamed;
uint32_t total;
std::mutex work; // something a job may have to wait for
zarr::ThreadPool* pool;
bool offer(unsigned i, int nested);
bool body(unsigned i, std::string& err, int nested)
{
    {
        vpenv::Guard g;
        ++rec[i].started;
    }
    {
        std::scoped_lock l(work);
    }
    if (nested >= 0) offer(nested, -1);
    if (!rec[i].fails) err = "all is well";
    else if (!rec[i].silent) {
        err = "job ";
        err += (char)('A' + i);
        err += rec[i].mark;
    }
    {
        vpenv::Guard g;
        ++rec[i].done;
        total += rec[i].effect;
    }
    return !rec[i].fails;
}
bool offer(unsigned i, int nested)
{
    const bool ok = pool->push_job([i, nested](std::string& err) { return body(i, err, nested); });
    vpenv::Guard g;
    rec[i].accepted = ok;
    return ok;
}
void handler(const std::string& msg)
{
    vpenv::Guard g;
    if (msg.empty()) ++unnamed;
    else if (msg.size() == 6 && msg.compare(0, 4, "job ") == 0 && (unsigned char)(msg[4] - 'A') < njobs && rec[msg[4] - 'A'].fails) {
        Rec& r = rec[msg[4] - 'A'];
        vp_assert(vp_arg(0) != 13 || msg[5] == r.mark, "the error handler gets the message the job produced");
        vp_assert(vp_arg(0) != 13 || r.done == 1, "the error handler is called after the job");
        ++r.told;
    } else
        ++strange;
}
void reported(const char* msg)
{
    unsigned silent = 0;
    for (unsigned i = 0; i < njobs; ++i) {
        vp_assert(rec[i].told == (rec[i].fails && !rec[i].silent && rec[i].done ? 1u : 0u), msg);
        if (rec[i].silent && rec[i].done) ++silent;
    }
    vp_assert(unnamed == silent, msg);
}
}
extern "C" void harness()
{
    world();
    const uint64_t what = vp_arg(0), way = vp_arg(1);
    const unsigned jobs = vp_arg(2);
    vp_hw_threads = vp_arg(4);
    const unsigned asked = vp_arg(3), most = vp_hw_threads ? vp_hw_threads : 1;
    const unsigned threads = asked < 1 ? 1 : asked > most ? most : asked;
    const unsigned extra = vp_arg(7);
    njobs = jobs + extra;
    strange = unnamed = 0;
    total = 0;
    for (unsigned i = 0; i < 12; ++i) rec[i] = Rec();
    for (unsigned i = 0; i < njobs; ++i)
        if (vp_arg(6) >> i & 1) {
            const unsigned f = vp_choose("fails", 0, 2);
            rec[i].fails = f != 0;
            rec[i].silent = f == 2;
            rec[i].mark = (char)vp_sym("mark", 8);
        }
    if (what == 12)
        for (unsigned i = 0; i < njobs; ++i) rec[i].effect = (uint32_t)vp_sym("effect", 32);
    bool late = false;
    {
        vp_sched(vp_arg(8) ? 2 : 1, vp_arg(5), 0);
        auto p = std::make_unique<zarr::ThreadPool>(asked, [](const std::string& m) { handler(m); });
        pool = p.get();
        if (what == 12 && vp_symbolic()) vp_assert(vp_threads() == 1 + threads, "the pool has at least one and at most the hardware's number of threads");
        std::thread other;
        switch (way) {
            case 2:
                for (unsigned i = 0; i < jobs; ++i) offer(i, i < extra ? (int)(jobs + i) : -1);
                break;
            case 3:
                other = std::thread([&] {
                    for (unsigned i = jobs; i < njobs; ++i) offer(i, -1);
                });
                for (unsigned i = 0; i < jobs; ++i) offer(i, -1);
                break;
            case 5:
                for (unsigned i = 0; i < 3; ++i) std::this_thread::yield();
                if (what == 14 && vp_symbolic()) vp_assert(vp_threads() == 1 + threads, "idle workers do not finish");
                [[fallthrough]];
            default:
                for (unsigned i = 0; i < jobs; ++i) {
                    const bool ok = offer(i, -1);
                    if (what == 12) vp_assert(ok, "a pool that was not stopped accepts jobs");
                }
                break;
        }
        if (way == 4) other = std::thread([&] { late = true; });
        if (way != 1) {
            p->await_stop();
            if (way == 3 && other.joinable()) other.join();
            if (way == 4 && other.joinable()) other.join();
            if (what == 12) {
                for (unsigned i = 0; i < njobs; ++i) {
                    if (rec[i].accepted) vp_assert(rec[i].started == 1 && rec[i].done == 1, "an accepted job has run exactly once when the pool has stopped");
                    else vp_assert(rec[i].started == 0, "a job that was not accepted is never run");
                }
                uint32_t want = 0;
                for (unsigned i = 0; i < njobs; ++i)
                    if (rec[i].accepted) want += rec[i].effect;
                vp_assert(total == want, "what has been done is what the accepted jobs do, each once");
                bool ran = false;
                const bool ok = p->push_job([&ran](std::string&) { return ran = true; });
                vp_assert(!ok, "a stopped pool refuses jobs");
                p->await_stop();
                vp_assert(!ran, "a refused job is never run");
            }
            if (what == 13)
                reported("every failing job is reported exactly once before the pool has stopped, others are not");
            if (what == 14) {
                if (vp_symbolic()) vp_assert(vp_threads() == 1, "no thread is left when the pool has stopped");
                p->await_stop();
            }
        }
        p.reset();
        if (what == 14) {
            if (vp_symbolic()) vp_assert(vp_threads() == 1 || way == 3, "no thread is left when the pool is destroyed");
            for (unsigned i = 0; i < njobs; ++i) vp_assert(rec[i].started == rec[i].done, "no job is left running when the pool is destroyed");
        }
        if (other.joinable()) other.join();
        vp_sched(0, 0, 0);
    }
    // also when the pool is only destroyed
    if (what == 12)
        for (unsigned i = 0; i < njobs; ++i) vp_assert(rec[i].started <= 1 && rec[i].started == rec[i].done && (rec[i].accepted || !rec[i].started), "no job is run twice, given up halfway, or run without having been accepted");
    if (what == 13) {
        reported("every job that failed is reported exactly once, others are not");
        vp_assert(strange == 0, "the error handler is called for failing jobs only");
        for (unsigned i = 0; i < njobs && way != 1; ++i) vp_assert(!rec[i].accepted || rec[i].done == 1, "a failing job does not keep others from running");
    }
    vp_reach(1);
    for (unsigned i = 0; i < njobs; ++i)
        if (rec[i].fails) vp_reach(2);
    (void)late;
}
