// Replaces tbb::parallel_for and tbb::parallel_sort by a seeded scheduler on plain threads: the range is cut at
// random places, the pieces are dealt to the threads at random and each thread runs its pieces in random order
// with random delays.  Everything it may do, TBB may do.  Used for the race detector (which does not understand
// the scheduler inside libtbb) and to explore schedules.
#ifndef VF_SCHED_H
#define VF_SCHED_H
#include <oneapi/tbb.h>
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <cstdint>
#include <cstdlib>
#include <exception>
#include <functional>
#include <mutex>
#include <random>
#include <thread>
#include <time.h>
#include <unordered_set>
#include <vector>

namespace vf __attribute__((visibility("default")))
{
struct Pool
{
    std::mutex m;
    std::condition_variable go, fin;
    std::vector<std::thread> threads;
    std::function<void(int)> job;
    uint64_t gen = 0;
    int active = 0, pending = 0;
    std::atomic<int> arrived {0};
    uint64_t seed = 88172645463325252ULL;
    std::atomic<bool> busy {false};
    uint64_t loops = 0, split = 0, pieces = 0, sorts = 0;
    std::unordered_set<uint64_t> schedules;
    int delays = 1;

    uint64_t next()
    {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        return seed * 2685821657736338717ULL;
    }

    void worker(int id)
    {
        uint64_t seen = 0;
        for (;;)
        {
            {
                std::unique_lock<std::mutex> l(m);
                go.wait(l, [&] { return gen != seen && id < active; });
                seen = gen;
            }
            barrier();
            job(id);
            std::lock_guard<std::mutex> l(m);
            if (--pending == 0)
            {
                fin.notify_one();
            }
        }
    }

    // Nobody starts working before everybody is ready: no thread's work is ordered before another's.
    void barrier()
    {
        arrived.fetch_add(1, std::memory_order_acq_rel);
        while (arrived.load(std::memory_order_acquire) < active)
        {
            std::this_thread::yield();
        }
    }

    void run(int n, std::function<void(int)> f)
    {
        {
            std::lock_guard<std::mutex> l(m);
            while (int(threads.size()) < n - 1)
            {
                int id = int(threads.size()) + 1;
                threads.emplace_back([this, id] { worker(id); });
            }
            job = std::move(f);
            arrived.store(0, std::memory_order_relaxed);
            active = n;
            pending = n - 1;
            ++gen;
        }
        go.notify_all();
        barrier();
        job(0);
        std::unique_lock<std::mutex> l(m);
        fin.wait(l, [&] { return pending == 0; });
        active = 0;
    }
};

inline Pool& pool()
{
    static Pool* p = new Pool;
    return *p;
}

inline thread_local int inside = 0;

inline void pause(unsigned int r)
{
    switch (r % 8)
    {
    case 0:
        std::this_thread::yield();
        break;
    case 1: {
        for (volatile unsigned int k = 0; k < (r >> 8) % 3000; k = k + 1) {}
        break;
    }
    case 2: {
        struct timespec t = {0, long((r >> 8) % 20000)};
        nanosleep(&t, nullptr);
        break;
    }
    default:
        break;
    }
}

template<typename Range, typename Body> void run_pieces(std::vector<Range>& pieces, const Body& body)
{
    Pool& P = pool();
    bool nested = inside != 0 || P.busy.exchange(true);
    if (nested)
    {
        for (auto& r : pieces)
        {
            body(r);
        }
        return;
    }
    P.loops++;
    P.pieces += pieces.size();
    int n = int(tbb::global_control::active_value(tbb::global_control::max_allowed_parallelism));
    n = std::max(1, std::min(n, 16));
    n = std::min<int>(n, int(pieces.size()));
    std::vector<std::vector<int>> plan(n);
    std::vector<unsigned int> delay(pieces.size());
    for (size_t i = pieces.size(); i > 1; --i)
    {
        std::swap(pieces[i - 1], pieces[P.next() % i]);
    }
    for (size_t i = 0; i < pieces.size(); ++i)
    {
        // (each thread gets at least one piece)
        plan[i < size_t(n) ? i : P.next() % n].push_back(int(i));
        delay[i] = P.delays ? unsigned(P.next()) : 7;
    }
    std::vector<int> order(pieces.size());
    std::atomic<int> clock {0};
    std::vector<std::exception_ptr> err(n);
    auto work = [&](int id) {
        inside = 1;
        try
        {
            for (int i : plan[id])
            {
                pause(delay[i]);
                order[clock.fetch_add(1, std::memory_order_relaxed)] = i * 64 + id;
                body(pieces[i]);
            }
        }
        catch (...)
        {
            err[id] = std::current_exception();
        }
        inside = 0;
    };
    if (n == 1)
    {
        work(0);
    }
    else
    {
        P.split++;
        P.run(n, work);
    }
    uint64_t h = 1469598103934665603ULL ^ pieces.size();
    for (int o : order)
    {
        h = (h ^ uint64_t(o + 1)) * 1099511628211ULL;
    }
    if (n > 1 && P.schedules.size() < 2000000)
    {
        P.schedules.insert(h);
    }
    P.busy = false;
    for (auto& e : err)
    {
        if (e)
        {
            std::rethrow_exception(e);
        }
    }
}

template<typename I> std::vector<I> cuts(I a, I b, size_t grain, size_t most)
{
    Pool& P = pool();
    std::vector<I> c {a, b};
    if (inside == 0 && b > a && most > 1)
    {
        size_t k = P.next() % most;
        for (size_t i = 0; i < k; ++i)
        {
            c.push_back(a + I(P.next() % uint64_t(b - a)));
        }
        std::sort(c.begin(), c.end());
        c.erase(std::unique(c.begin(), c.end()), c.end());
        if (grain > 1)
        {
            std::vector<I> d {a};
            for (auto x : c)
            {
                if (size_t(x - d.back()) >= grain && size_t(b - x) >= grain)
                {
                    d.push_back(x);
                }
            }
            d.push_back(b);
            c = d;
        }
    }
    return c;
}

inline size_t most()
{
    size_t n = tbb::global_control::active_value(tbb::global_control::max_allowed_parallelism);
    return n <= 1 ? 6 : 4 * n + 2;
}

template<typename I, typename Body, typename... Partitioner>
void vf_parallel_for(const tbb::blocked_range<I>& r, const Body& body, Partitioner&&... /*unused*/)
{
    if (r.empty())
    {
        return;
    }
    auto c = cuts(r.begin(), r.end(), r.grainsize(), most());
    std::vector<tbb::blocked_range<I>> p;
    for (size_t i = 0; i + 1 < c.size(); ++i)
    {
        p.emplace_back(c[i], c[i + 1], r.grainsize());
    }
    run_pieces(p, body);
}

template<typename I, typename J, typename Body, typename... Partitioner>
void vf_parallel_for(const tbb::blocked_range2d<I, J>& r, const Body& body, Partitioner&&... /*unused*/)
{
    if (r.empty())
    {
        return;
    }
    size_t k = std::max<size_t>(2, size_t(most() / 3));
    auto c = cuts(r.rows().begin(), r.rows().end(), r.rows().grainsize(), k);
    auto d = cuts(r.cols().begin(), r.cols().end(), r.cols().grainsize(), k);
    std::vector<tbb::blocked_range2d<I, J>> p;
    for (size_t i = 0; i + 1 < c.size(); ++i)
    {
        for (size_t j = 0; j + 1 < d.size(); ++j)
        {
            p.emplace_back(c[i], c[i + 1], r.rows().grainsize(), d[j], d[j + 1], r.cols().grainsize());
        }
    }
    run_pieces(p, body);
}

template<typename A, typename B, typename C, typename Body, typename... Partitioner>
void vf_parallel_for(const tbb::blocked_range3d<A, B, C>& r, const Body& body, Partitioner&&... /*unused*/)
{
    std::vector<tbb::blocked_range3d<A, B, C>> p {r};
    while (pool().next() % 8 != 0)
    {
        size_t i = pool().next() % p.size();
        if (p[i].is_divisible())
        {
            tbb::blocked_range3d<A, B, C> half(p[i], tbb::split());
            p.push_back(half);
        }
    }
    run_pieces(p, body);
}

template<typename Index, typename Body, typename... Partitioner>
std::enable_if_t<std::is_integral<Index>::value> vf_parallel_for(Index a, Index b, const Body& body, Partitioner&&... /*unused*/)
{
    vf_parallel_for(tbb::blocked_range<Index>(a, b), [&](const tbb::blocked_range<Index>& r) {
        for (Index i = r.begin(); i != r.end(); ++i)
        {
            body(i);
        }
    });
}

// parallel_sort is not stable and splits depend on scheduling: any order of equal elements may come out
template<typename It, typename Cmp> void vf_parallel_sort(It a, It b, const Cmp& c)
{
    Pool& P = pool();
    if (inside == 0)
    {
        P.sorts++;
        for (auto n = b - a; n > 1; --n)
        {
            std::swap(*(a + (n - 1)), *(a + P.next() % n));
        }
    }
    std::sort(a, b, c);
}
template<typename It> void vf_parallel_sort(It a, It b)
{
    vf_parallel_sort(a, b, std::less<>());
}
} // namespace vf

namespace tbb {
using vf::vf_parallel_for;
using vf::vf_parallel_sort;
} // namespace tbb

extern "C" {
__attribute__((visibility("default"), used, weak)) void vf_shim_seed(uint64_t s, int delays)
{
    vf::pool().seed = s * 2 + 1;
    vf::pool().delays = delays;
}
__attribute__((visibility("default"), used, weak)) void vf_shim_stats(uint64_t* out)
{
    auto& p = vf::pool();
    out[0] = p.loops;
    out[1] = p.split;
    out[2] = p.pieces;
    out[3] = p.schedules.size();
    out[4] = p.sorts;
    out[5] = tbb::global_control::active_value(tbb::global_control::max_allowed_parallelism);
}
}

#define parallel_for vf_parallel_for
#define parallel_sort vf_parallel_sort
#endif
