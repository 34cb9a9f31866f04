// Ranges as users may give them to constructors: iterators that can be read
// once only, or several times, ended by another iterator or by a sentinel,
// that make their elements when they are read, and that can fail.
#pragma once
#include "core.hpp"
#include <iterator>

namespace vt {

struct range_end
{
    std::size_t n;
};

// F makes the element at a position; Cat is the category of the iterator
template <typename F, typename Cat>
struct range_it
{
    using value_type        = decltype(std::declval<const F&>()(std::size_t{}));
    using reference         = value_type;
    using pointer           = const value_type*;
    using difference_type   = std::ptrdiff_t;
    using iterator_category = Cat;
    static constexpr bool once = std::is_same<Cat, std::input_iterator_tag>::value;

    struct shared
    {
        const F* f;
        std::size_t n, at;
    };
    shared* s;
    std::size_t i;

    value_type operator*() const
    {
        VT_CHECK(i < s->n, "range", "reads an iterator at %zu of %zu", i, s->n);
        VT_CHECK(!once || i == s->at, "range", "reads an input iterator at %zu after it was at %zu", i, s->at);
        return (*s->f)(i);
    }
    range_it& operator++()
    {
        VT_CHECK(i < s->n, "range", "moves an iterator past the end of %zu", s->n);
        VT_CHECK(!once || i == s->at, "range", "moves an input iterator at %zu after it was at %zu", i, s->at);
        s->at = ++i;
        return *this;
    }
    struct proxy
    {
        value_type v;
        value_type operator*() { return std::move(v); }
    };
    auto operator++(int)
    {
        if constexpr (once) {
            proxy p{**this};
            ++*this;
            return p;
        } else {
            auto old = *this;
            ++*this;
            return old;
        }
    }
    friend bool operator==(const range_it& a, const range_it& b) { return a.i == b.i; }
    friend bool operator!=(const range_it& a, const range_it& b) { return a.i != b.i; }
    friend bool operator==(const range_it& a, range_end b) { return a.i == b.n; }
    friend bool operator!=(const range_it& a, range_end b) { return a.i != b.n; }
    friend bool operator==(range_end b, const range_it& a) { return a.i == b.n; }
    friend bool operator!=(range_end b, const range_it& a) { return a.i != b.n; }
};

// C from the n elements that f makes, by one of the kinds of ranges
template <typename C, bool Forward, typename F>
C from_range(std::size_t n, const F& f, unsigned how)
{
    using fwd = range_it<F, std::forward_iterator_tag>;
    typename fwd::shared s{&f, n, 0};
    stats().add("ranges");
    if constexpr (!Forward) {
        using inp = range_it<F, std::input_iterator_tag>;
        typename inp::shared q{&f, n, 0};
        if (how % 4 == 0)
            return C(inp{&q, 0}, inp{nullptr, n});
        if (how % 4 == 1)
            return C(inp{&q, 0}, range_end{n});
    }
    if (how % 2 == 0)
        return C(fwd{&s, 0}, fwd{&s, n});
    return C(fwd{&s, 0}, range_end{n});
}

} // namespace vt
