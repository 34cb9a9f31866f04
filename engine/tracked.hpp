// Instrumented element types, fault injection.
#pragma once
#include "core.hpp"
#include <new>
#include <string>
#include <type_traits>

#if defined(__cpp_exceptions)
#define VT_THROW(x) throw x
#else
#define VT_THROW(x) std::abort()
#endif

namespace vt {

// ------------------------------------------------------- fault injection

struct injected
{
    const char* where;
};

// Counts the fault points that are passed; throws at number `at` (from 1).
struct fault_t
{
    bool armed = false;
    u64 at     = 0;
    u64 seen   = 0;
    u64 fired  = 0;
    // which kinds of point count
    bool on_alloc = true, on_copy = true, on_move = false, on_fn = true, on_hash = true, on_eq = true;
    const char* where = "";

    void arm(u64 k)
    {
        armed = true;
        at    = k;
        seen  = 0;
        fired = 0;
        where = "";
    }
    void disarm() { armed = false; }
    void point(bool enabled, const char* w)
    {
        if (!armed || !enabled)
            return;
        if (++seen == at) {
            ++fired;
            where = w;
            VT_THROW(injected{w});
        }
    }
    void point_alloc()
    {
        if (!armed || !on_alloc)
            return;
        if (++seen == at) {
            ++fired;
            where = "alloc";
            VT_THROW(std::bad_alloc{});
        }
    }
};
inline fault_t& fault()
{
    static fault_t f;
    return f;
}
struct no_faults
{
    bool save = fault().armed;
    no_faults() { fault().armed = false; }
    ~no_faults() { fault().armed = save; }
};

// ------------------------------------------------------ tracked elements

struct life_t
{
    std::atomic<i64> live{0};
    std::atomic<u64> constructed{0}, destroyed{0}, copies{0}, moves{0};
};
inline life_t& life()
{
    static life_t l;
    return l;
}

// While set, elements in a moved-from state may be copied (staying so).
inline bool& moved_ok()
{
    static bool b = false;
    return b;
}
struct tolerate_moved
{
    tolerate_moved(bool on) { moved_ok() = on; }
    ~tolerate_moved() { moved_ok() = false; }
};

constexpr u32 ALIVE = 0xa11fe000u, MOVED = 0x0e5ca9edu, DEAD = 0xdeadc0deu;

// `Move`: may moves throw?  `Align`, `Pad`: layout variations.
template <std::size_t Pad = 0, std::size_t Align = 8, bool MoveThrows = false>
struct alignas(Align) tracked
{
    u64 val;
    const tracked* self;
    u32 state;
    unsigned char pad[Pad + 1];

    void born()
    {
        if (reinterpret_cast<std::uintptr_t>(this) % Align != 0)
            fail("misaligned", "element constructed at %p, alignment %zu", (void*) this, Align);
        self  = this;
        state = ALIVE;
        std::memset(pad, int(val & 0xff), sizeof pad);
        life().live.fetch_add(1, std::memory_order_relaxed);
        life().constructed.fetch_add(1, std::memory_order_relaxed);
    }
    static void usable(const tracked& o, const char* what, bool allow_moved)
    {
        if (o.state == DEAD)
            fail("dead-element", "%s of an element that was destroyed", what);
        if (o.state != ALIVE && o.state != MOVED)
            fail("raw-element", "%s of storage that holds no element (state %08x)", what, o.state);
        if (o.self != &o)
            fail("relocated-element", "%s of an element that was moved bytewise", what);
        if (!allow_moved && o.state == MOVED && !moved_ok())
            fail("moved-element", "%s of a moved-from element", what);
    }
    tracked()
        : val{0}
    {
        fault().point(fault().on_copy, "default-ctor");
        born();
    }
    tracked(u64 v)
        : val{v}
    {
        born();
    }
    tracked(const tracked& o)
        : val{o.val}
    {
        usable(o, "copy", false);
        fault().point(fault().on_copy, "copy-ctor");
        life().copies.fetch_add(1, std::memory_order_relaxed);
        auto st = o.state;
        born();
        state = st;
    }
    tracked(tracked&& o) noexcept(!MoveThrows)
        : val{o.val}
    {
        usable(o, "move", false);
        if (MoveThrows)
            fault().point(fault().on_move, "move-ctor");
        life().moves.fetch_add(1, std::memory_order_relaxed);
        auto st = o.state;
        born();
        state   = st;
        o.state = MOVED;
    }
    tracked& operator=(const tracked& o)
    {
        usable(*this, "assignment", true);
        usable(o, "copy-assignment", false);
        fault().point(fault().on_copy, "copy-assign");
        life().copies.fetch_add(1, std::memory_order_relaxed);
        val   = o.val;
        state = o.state;
        std::memset(pad, int(val & 0xff), sizeof pad);
        return *this;
    }
    tracked& operator=(tracked&& o) noexcept(!MoveThrows)
    {
        usable(*this, "assignment", true);
        usable(o, "move-assignment", false);
        if (MoveThrows)
            fault().point(fault().on_move, "move-assign");
        life().moves.fetch_add(1, std::memory_order_relaxed);
        val   = o.val;
        state = o.state;
        std::memset(pad, int(val & 0xff), sizeof pad);
        o.state = MOVED; // also when assigned to itself, as std::string
        return *this;
    }
    ~tracked()
    {
        usable(*this, "destruction", true);
        state = DEAD;
        self  = nullptr;
        life().live.fetch_sub(1, std::memory_order_relaxed);
        life().destroyed.fetch_add(1, std::memory_order_relaxed);
    }
    u64 get() const
    {
        usable(*this, "read", false);
        for (auto c : pad)
            if (c != (unsigned char) (val & 0xff))
                fail("scribbled-element", "element bytes overwritten");
        return val;
    }
    bool operator==(const tracked& o) const
    {
        usable(o, "comparison", false);
        usable(*this, "comparison", false);
        fault().point(fault().on_eq, "eq");
        return val == o.val;
    }
    bool operator!=(const tracked& o) const { return !(*this == o); }
    bool operator<(const tracked& o) const { return get() < o.get(); }
};

// ------------------------------------------- uniform view of element types

template <typename T>
struct elem
{
    static T make(u64 v) { return static_cast<T>(v); }
    static u64 get(const T& x) { return static_cast<u64>(x); }
    static u64 norm(u64 v) { return static_cast<u64>(static_cast<T>(v)); }
    static constexpr bool tracked_type = false;
};
template <>
struct elem<std::string>
{
    static std::string make(u64 v)
    {
        auto s = std::to_string(v);
        if (v % 3 == 0)
            s = std::string(40, '0') + s; // beyond the small buffer
        return s;
    }
    static u64 get(const std::string& s) { return s.empty() ? 0 : std::stoull(s); }
    static u64 norm(u64 v) { return v; }
    static constexpr bool tracked_type = false;
};
template <std::size_t P, std::size_t A, bool M>
struct elem<tracked<P, A, M>>
{
    using T = tracked<P, A, M>;
    static T make(u64 v) { return T{v}; }
    static u64 get(const T& x) { return x.get(); }
    static u64 norm(u64 v) { return v; }
    static constexpr bool tracked_type = true;
};
template <>
struct elem<long double>
{
    static long double make(u64 v) { return v; }
    static u64 get(const long double& x) { return static_cast<u64>(x); }
    static u64 norm(u64 v) { return v & 0xffffffffffffffffull; }
    static constexpr bool tracked_type = false;
};
struct pod3 // odd size, alignment 1
{
    unsigned char b[3];
    bool operator==(const pod3& o) const { return !std::memcmp(b, o.b, 3); }
    bool operator!=(const pod3& o) const { return !(*this == o); }
};
template <>
struct elem<pod3>
{
    static pod3 make(u64 v) { return {{(u8) v, (u8) (v >> 8), (u8) (v >> 16)}}; }
    static u64 get(const pod3& x) { return x.b[0] | u64(x.b[1]) << 8 | u64(x.b[2]) << 16; }
    static u64 norm(u64 v) { return v & 0xffffff; }
    static constexpr bool tracked_type = false;
};
// as dynamic values are: made of anything, and of lists of themselves
struct greedy
{
    u64 v = 0, depth = 0; // how many lists it is wrapped in
    static greedy of(u64 v)
    {
        greedy g;
        g.v = v;
        return g;
    }
    greedy() = default;
    greedy(const greedy&) = default;
    greedy(greedy&&) = default;
    greedy& operator=(const greedy&) = default;
    greedy& operator=(greedy&&) = default;
    greedy(std::initializer_list<greedy> l)
        : v{l.size() == 1 ? l.begin()->v : 0}
        , depth{l.size() == 1 ? l.begin()->depth + 1 : 1000}
    {}
    template <typename U, typename = std::enable_if_t<!std::is_same<std::decay_t<U>, greedy>::value>>
    greedy(U&&) : depth{1u << 30}
    {}
    friend bool operator==(const greedy& a, const greedy& b) { return a.v == b.v && a.depth == b.depth; }
    friend bool operator!=(const greedy& a, const greedy& b) { return !(a == b); }
};
template <>
struct elem<greedy>
{
    static greedy make(u64 v) { return greedy::of(norm(v)); }
    static u64 get(const greedy& x) { return x.v + (x.depth << 32); }
    static u64 norm(u64 v) { return v & 0xffffffff; }
    static constexpr bool tracked_type = false;
};

} // namespace vt

namespace std {
template <>
struct hash<vt::greedy>
{
    std::size_t operator()(const vt::greedy& x) const { return vt::mix(x.v); }
};
template <std::size_t P, std::size_t A, bool M>
struct hash<vt::tracked<P, A, M>>
{
    std::size_t operator()(const vt::tracked<P, A, M>& x) const { return vt::mix(x.get()); }
};
} // namespace std
