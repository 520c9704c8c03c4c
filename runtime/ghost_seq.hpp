// Ghost sequences: sequence Tag has n(Tag) elements, n unbounded, element k is item{value(k), k}.
// Iterators are obligations: dereferencing at or past the end, incrementing past the end, or using
// an outdated copy of a single-pass iterator is a failure.
#pragma once
#include "vf.hpp"
#include <compare>
#include <functional>
#include <iterator>
#include <ranges>

namespace gs {
    enum cat { single_pass, input_copy, forward, random };

    enum { tags = 3 };
    template<int Tag> inline std::uint64_t n = 0;
    template<int Tag> inline std::uint64_t first = 0;      // where the traversal starts (not 0: the state after some steps)
    template<int Tag> inline std::uint64_t head = 0;       // position of a single-pass sequence

    template<int Tag> inline std::uint64_t value(std::uint64_t k) {
        return vf_uf(Tag == 0 ? "elem" : Tag == 1 ? "elem1" : "elem2", k);
    }

    // the last comparisons that came out false (witnesses for the postconditions)
    inline std::uint64_t neq_a, neq_b, eq_a, eq_b, nless_a, nless_b, diff_a, diff_b;
    inline void seq_reset() { head<0> = head<1> = 0; first<0> = first<1> = 0; neq_a = neq_b = eq_a = eq_b = nless_a = nless_b = diff_a = diff_b = ~std::uint64_t{0}; }

    struct item_t {
        std::uint64_t v, i;
        int tag = 0;
        static std::uint64_t val(int t, std::uint64_t k) { return t == 0 ? value<0>(k) : t == 1 ? value<1>(k) : value<2>(k); }
        static std::uint64_t count(int t) { return t == 0 ? n<0> : t == 1 ? n<1> : n<2>; }
        void check() const { vf_assert(i < count(tag) && v == val(tag, i), "predicates and comparators are only applied to elements of the range"); }
        friend bool operator==(item_t const &a, item_t const &b) noexcept {
            a.check(); b.check();
            bool const r = a.v == b.v;
            if (r) { eq_a = a.i; eq_b = b.i; } else { neq_a = a.i; neq_b = b.i; }
            return r;
        }
        friend auto operator<=>(item_t const &a, item_t const &b) noexcept {
            a.check(); b.check();
            bool const r = a.v < b.v;
            if (!r) { nless_a = a.i; nless_b = b.i; }
            if (a.v != b.v) { diff_a = a.i; diff_b = b.i; }
            return r ? std::strong_ordering::less : a.v == b.v ? std::strong_ordering::equal : std::strong_ordering::greater;
        }
    };
    template<int> using item = item_t;

    struct end_t {};

    template<int Tag, cat C>
    struct iter {
        using value_type = item<Tag>;
        using difference_type = std::ptrdiff_t;
        using reference = item<Tag>;
        using pointer = void;
        using iterator_concept = std::conditional_t<C == random, std::random_access_iterator_tag, std::conditional_t<C == forward, std::forward_iterator_tag, std::input_iterator_tag>>;
        using iterator_category = std::input_iterator_tag;

        std::uint64_t pos = 0;

        iter() = default;
        explicit iter(std::uint64_t p) : pos{p} {}

        item<Tag> operator*() const {
            vf_assert(pos < n<Tag>, "the range is only read within its bounds");
            if constexpr (C == single_pass) vf_assert(pos == head<Tag>, "only the current element of a single-pass range is read");
            return {value<Tag>(pos), pos, Tag};
        }
        iter &operator++() {
            vf_assert(pos < n<Tag>, "the range is only traversed within its bounds");
            if constexpr (C == single_pass) { vf_assert(pos == head<Tag>, "a single-pass range is advanced once per element"); ++head<Tag>; }
            ++pos;
            return *this;
        }
        iter operator++(int) { auto c = *this; ++*this; return c; }
        friend bool operator==(iter const &a, iter const &b) requires (C >= input_copy) { return a.pos == b.pos; }
        friend bool operator==(iter const &a, end_t) {
            if constexpr (C == single_pass) vf_assert(a.pos == head<Tag>, "only the current position of a single-pass range is compared");
            return a.pos == n<Tag>;
        }
        iter &operator--() requires (C == random) { vf_assert(pos > 0, "the range is only traversed within its bounds"); --pos; return *this; }
        iter operator--(int) requires (C == random) { auto c = *this; --*this; return c; }
        iter &operator+=(std::ptrdiff_t d) requires (C == random) { pos += static_cast<std::uint64_t>(d); vf_assert(pos <= n<Tag>, "the range is only traversed within its bounds"); return *this; }
        iter &operator-=(std::ptrdiff_t d) requires (C == random) { return *this += -d; }
        friend iter operator+(iter a, std::ptrdiff_t d) requires (C == random) { a += d; return a; }
        friend iter operator+(std::ptrdiff_t d, iter a) requires (C == random) { a += d; return a; }
        friend iter operator-(iter a, std::ptrdiff_t d) requires (C == random) { a -= d; return a; }
        friend std::ptrdiff_t operator-(iter const &a, iter const &b) requires (C == random) { return static_cast<std::ptrdiff_t>(a.pos - b.pos); }
        item<Tag> operator[](std::ptrdiff_t d) const requires (C == random) { return *(*this + d); }
        friend auto operator<=>(iter const &a, iter const &b) requires (C == random) { return a.pos <=> b.pos; }
    };

    // a single-pass iterator that holds the element it refers to (like std::istream_iterator): references to it
    // are overwritten when it advances. It cannot be copied (like the iterators of std::views::istream)
    template<int Tag>
    struct stash_iter {
        using value_type = item<Tag>;
        using difference_type = std::ptrdiff_t;
        using reference = item<Tag> const &;
        using iterator_concept = std::input_iterator_tag;

        std::uint64_t pos = 0;
        item<Tag> cur{};

        stash_iter(stash_iter &&) = default;
        stash_iter &operator=(stash_iter &&) = default;
        explicit stash_iter(std::uint64_t p) : pos{p}, cur{value<Tag>(p), p, Tag} {}
        reference operator*() const {
            vf_assert(pos < n<Tag>, "the range is only read within its bounds");
            vf_assert(pos == head<Tag>, "only the current element of a single-pass range is read");
            return cur;
        }
        stash_iter &operator++() {
            vf_assert(pos < n<Tag>, "the range is only traversed within its bounds");
            vf_assert(pos == head<Tag>, "a single-pass range is advanced once per element");
            ++head<Tag>;
            ++pos;
            cur.v = value<Tag>(pos);
            cur.i = pos;
            return *this;
        }
        void operator++(int) { ++*this; }
        friend bool operator==(stash_iter const &a, end_t) {
            vf_assert(a.pos == head<Tag>, "only the current position of a single-pass range is compared");
            return a.pos == n<Tag>;
        }
    };
    template<int Tag>
    struct stash_seq : std::ranges::view_base {
        auto begin() const { head<Tag> = first<Tag>; return stash_iter<Tag>{first<Tag>}; }
        auto end() const { return end_t{}; }
    };

    // sized sequences end with an iterator, the others with a sentinel
    template<int Tag, cat C>
    struct seq : std::ranges::view_base {
        auto begin() const { head<Tag> = first<Tag>; return iter<Tag, C>{first<Tag>}; }
        auto end() const {
            if constexpr (C == random) return iter<Tag, C>{n<Tag>};
            else return end_t{};
        }
    };
} // namespace gs
template<int T, gs::cat C> inline constexpr bool std::ranges::enable_borrowed_range<gs::seq<T, C>> = true;
