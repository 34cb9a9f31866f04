// Core of the monitoring engine: randomness, failure reporting, statistics.
#pragma once
#include <algorithm>
#include <atomic>
#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <mutex>
#include <sched.h>
#include <string>
#include <sys/resource.h>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vt {

using u8  = std::uint8_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i64 = std::int64_t;

inline u64 mix(u64 x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

struct rng
{
    u64 s;
    explicit rng(u64 seed = 1)
        : s{mix(seed)}
    {}
    u64 next() { return mix(s += 0x9e3779b97f4a7c15ull); }
    // uniform in [0, n)
    u64 below(u64 n) { return n ? next() % n : 0; }
    u64 range(u64 lo, u64 hi) { return lo + below(hi - lo + 1); }
    bool chance(u64 num, u64 den) { return below(den) < num; }
    // biased to small numbers, boundaries and the full range
    u64 size(u64 max)
    {
        switch (below(8)) {
        case 0: return std::min<u64>(max, below(4));
        case 1: return max - std::min<u64>(max, below(4));
        case 2: {
            // around a power of two
            u64 p = u64{1} << below(12);
            u64 v = p + below(5);
            v     = v >= 2 ? v - 2 : 0;
            return std::min(max, v);
        }
        case 3: return std::min<u64>(max, below(40));
        default: return below(max + 1);
        }
    }
    template <typename C>
    auto& pick(C& c)
    {
        return c[below(c.size())];
    }
};

// ---------------------------------------------------------------- status

// A small file-backed record of the case in progress, so that the driver
// can tell which case was running when a sanitizer ended the process.
struct status_t
{
    u64 iter;
    u64 op;
    char text[240];
};

// What this thread is at; the main thread's is in the file.
inline status_t*& thread_status()
{
    thread_local status_t* p = nullptr;
    return p;
}
inline status_t& status()
{
    if (auto t = thread_status())
        return *t;
    static status_t* p = [] {
        if (auto f = std::getenv("VT_STATUS")) {
            int fd = ::open(f, O_RDWR | O_CREAT, 0644);
            if (fd >= 0 && ::ftruncate(fd, sizeof(status_t)) == 0) {
                void* m = ::mmap(nullptr, sizeof(status_t), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                ::close(fd);
                if (m != MAP_FAILED)
                    return static_cast<status_t*>(m);
            }
        }
        static status_t dummy{};
        return &dummy;
    }();
    return *p;
}

inline void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void note(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(status().text, sizeof(status().text), fmt, ap);
    va_end(ap);
}

// A failed monitor: report and end the process.  The driver turns this
// into a VIOLATION (or KNOWN-FINDING) line.
// `kind` is a short stable tag of what failed.
[[noreturn]] inline void fail(const char* kind, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
[[noreturn]] inline void fail(const char* kind, const char* fmt, ...)
{
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    static std::atomic<bool> once{false};
    if (!once.exchange(true)) {
        std::printf("@FAIL %s iter=%" PRIu64 " op=%" PRIu64 " [%s] %s\n", kind, status().iter, status().op, status().text, buf);
        std::fflush(stdout);
    }
    ::_exit(99);
}

#define VT_CHECK(cond, kind, ...)                                              \
    do {                                                                       \
        if (!(cond))                                                           \
            ::vt::fail(kind, __VA_ARGS__);                                     \
    } while (0)

// ----------------------------------------------------------------- stats

struct stats_t
{
    std::map<std::string, u64> counters;
    std::map<std::string, u64> maxima;
    std::unordered_set<u64> distinct;
    std::vector<std::string> samples;
    std::size_t cap = 400000;
    u64 overflow    = 0;

    void add(const char* n, u64 k = 1) { counters[n] += k; }
    void max(const char* n, u64 k)
    {
        auto& m = maxima[n];
        if (k > m)
            m = k;
    }
    // a distinct, non-trivial case or state that was seen
    void see(u64 h)
    {
        if (distinct.size() < cap)
            distinct.insert(h);
        else if (!distinct.count(h))
            ++overflow;
    }
    void merge(const stats_t& o)
    {
        for (auto& c : o.counters)
            counters[c.first] += c.second;
        for (auto& c : o.maxima)
            max(c.first.c_str(), c.second);
        for (auto h : o.distinct)
            see(h);
        for (auto& s : o.samples)
            sample(s);
    }
    // the 64th, 4096th, ... call, so that samples are not all alike
    u64 sampled = 0;
    bool sampling() { return samples.size() < 3 && ++sampled == u64(1) << (6 * samples.size() + 6); }
    void sample(std::string s)
    {
        if (samples.size() < 3)
            samples.push_back(std::move(s));
    }
    void dump()
    {
        for (auto& c : counters)
            std::printf("@STAT %s %" PRIu64 "\n", c.first.c_str(), c.second);
        for (auto& c : maxima)
            std::printf("@MAX %s %" PRIu64 "\n", c.first.c_str(), c.second);
        rusage ru;
        if (!getrusage(RUSAGE_SELF, &ru))
            std::printf("@MAX peak_memory_mb %ld\n", ru.ru_maxrss / 1024);
        for (auto& s : samples)
            std::printf("@SAMPLE %s\n", s.c_str());
        if (auto f = std::getenv("VT_DISTINCT")) {
            if (auto fp = std::fopen(f, "wb")) {
                for (auto h : distinct)
                    std::fwrite(&h, sizeof h, 1, fp);
                std::fclose(fp);
            }
        } else {
            std::printf("@STAT distinct_local %zu\n", distinct.size());
        }
        std::printf("@DONE\n");
        std::fflush(stdout);
    }
};

inline stats_t*& thread_stats()
{
    thread_local stats_t* p = nullptr;
    return p;
}
inline stats_t& stats()
{
    if (auto t = thread_stats())
        return *t;
    static stats_t s;
    return s;
}


inline u64 hash_bytes(const void* p, std::size_t n, u64 h = 0xcbf29ce484222325ull)
{
    auto b = static_cast<const u8*>(p);
    for (std::size_t i = 0; i < n; ++i)
        h = (h ^ b[i]) * 0x100000001b3ull;
    return mix(h);
}
template <typename T>
u64 hash_vec(const std::vector<T>& v, u64 h = 7)
{
    return hash_bytes(v.data(), v.size() * sizeof(T), h ^ v.size());
}

// ----------------------------------------------------------------- chaos

// Random delays at points where threads interact; off unless set up.
struct chaos_t
{
    u64 s    = 0; // 0: off
    u64 hits = 0;
    unsigned mask = 15;
    // what "another thread" does at such a point (single threaded
    // simulation of an interleaving), if set
    void (*hook)(void*) = nullptr;
    void* ctx           = nullptr;
};
inline chaos_t& chaos_state()
{
    thread_local chaos_t c;
    return c;
}
inline void chaos()
{
    auto& c = chaos_state();
    if (c.hook) {
        c.hook(c.ctx);
        return;
    }
    if (!c.s)
        return;
    c.s    = mix(c.s);
    auto k = c.s & 1023;
    if (k & c.mask)
        return;
    ++c.hits;
    switch ((c.s >> 20) & 7) {
    case 0:
    case 1: ::sched_yield(); break;
    case 2: ::usleep(1 + (c.s >> 30) % 40); break;
    default:
        for (volatile unsigned i = 0; i < ((c.s >> 30) & 511); i = i + 1)
            ;
    }
}

// ------------------------------------------------------------------ args

struct args_t
{
    u64 seed  = 1;
    u64 iters = 100;
    u64 from  = 0; // first iteration
    u64 only  = ~u64{0};
    u64 ops   = 0;
    std::string mode;
    bool deadline_hit = false;
    double max_s      = 1e9;
    double t0         = now();

    static double now()
    {
        struct timespec ts;
        ::clock_gettime(CLOCK_MONOTONIC, &ts);
        return ts.tv_sec + ts.tv_nsec * 1e-9;
    }

    args_t(int argc, char** argv)
    {
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto eq       = a.find('=');
            auto k        = a.substr(0, eq);
            auto v        = eq == std::string::npos ? "" : a.substr(eq + 1);
            if (k == "seed") seed = std::stoull(v);
            else if (k == "iters") iters = std::stoull(v);
            else if (k == "from") from = std::stoull(v);
            else if (k == "only") only = std::stoull(v);
            else if (k == "ops") ops = std::stoull(v);
            else if (k == "mode") mode = v;
            else if (k == "max_s") max_s = std::stod(v);
            else { std::fprintf(stderr, "bad argument %s\n", a.c_str()); std::exit(2); }
        }
    }

    // Runs fn(rng, iteration) for every iteration; bounded by count, the
    // deadline is a safety net that is reported when hit.
    template <typename Fn>
    void run(Fn&& fn)
    {
        auto one = [&](u64 i) {
            status().iter = i;
            status().op   = 0;
            rng r{seed * 0x100000001b3ull + i};
            fn(r, i);
            stats().add("iterations");
        };
        if (only != ~u64{0}) {
            one(only);
            return;
        }
        for (u64 i = from; i < from + iters; ++i) {
            if (now() - t0 > max_s) {
                stats().add("stopped_by_deadline");
                break;
            }
            one(i);
        }
    }
};

} // namespace vt
