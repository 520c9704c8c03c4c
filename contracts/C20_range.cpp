// C20: range(start, stop, step) for integral types.
// A range_iterator is a triple (current, stop, step) with step != 0, and every such triple is what
// range(current, stop, step) constructs: the contracts below quantify over all triples, so they hold in
// every state an iteration reaches (each operation's effect is stated as "the state is now that of the
// rest of the sequence", observed through next(), next_back() and remaining()).
//@ assume: integral types of up to 64 bits; std::size_t has 64 bits
//@ trusted: std::optional, std::exchange and std::ranges::subrange are verified along (libstdc++ source)
//@ thorough-only: (u8_i8|u64_i64|i8_i64|i64_u8)_.*
//@ thorough-only: (i8_i8|i32_i32|u32_i32)_(nth|skip|advance|back_state|view|reverse)
#include "vf.hpp"
#include <dice/template-library/ranges.hpp>
namespace dtl = dice::template_library;

namespace {
    using u64 = std::uint64_t;
    using u128 = unsigned __int128;
    using i128 = __int128;
    // natively: values around the interesting points, not uniform ones
    template<typename T> T pick(char const *n) {
        T v = vf::any<T>(n);
        return v;
    }
    template<typename T, typename S> struct spec {
        T start, stop; S step;
        u64 D, M, N;                                            // distance, step width, number of elements
        bool up;
        void lemma(u64 i) const { if (N != 0) { vf_lemma_mul(i, N - 1, M); vf_lemma_distrib(i, 1, M); vf_lemma_distrib(i, N - 1 - i, M); } }
        void shifted(u64 i) const { vf_lemma_div(i, M); }       // what is left after i elements has i elements less
        bool is_nth(T v, u64 i) const {                         // v == start + i*step, exactly
            u128 const off = static_cast<u128>(i) * static_cast<u128>(M);
            i128 const d = up ? static_cast<i128>(v) - static_cast<i128>(start) : static_cast<i128>(start) - static_cast<i128>(v);
            return d >= 0 && static_cast<u128>(d) == off;
        }
    };
    template<typename T, typename S> spec<T, S> any_range() {
        vf::reset();
        vf_flag_set("products", 1);
        spec<T, S> r;
        r.start = pick<T>("start");
        r.stop = pick<T>("stop");
        r.step = pick<S>("step");
        vf_assume(r.step != 0);
        r.up = r.step > 0;
        r.M = r.up ? static_cast<u64>(r.step) : u64{0} - static_cast<u64>(r.step);
        if (r.up) r.D = r.start < r.stop ? static_cast<u64>(r.stop) - static_cast<u64>(r.start) : 0;
        else r.D = r.start > r.stop ? static_cast<u64>(r.start) - static_cast<u64>(r.stop) : 0;
        // exactly the N with: element N-1 is before stop, element N is not
        if (r.D == 0) r.N = 0;
        else r.N = (r.D - 1) / r.M + 1;
        return r;
    }
    template<typename T, typename S> using it_t = dtl::ranges_algo_detail::range_iterator<T, S>;

    template<typename T, typename S> void n_is_the_count() {   // the specification itself
        auto r = any_range<T, S>();
        if (r.N == 0) return;
        vf_assert(static_cast<u128>(r.N - 1) * r.M < r.D, "specification: the last element lies before stop");
        vf_assert(static_cast<u128>(r.N - 1) * r.M + r.M >= r.D, "specification: the element after the last one does not");
    }
    template<typename T, typename S> void c_next() {
        auto r = any_range<T, S>();
        it_t<T, S> it{r.start, r.stop, r.step};
        r.shifted(1);
        auto const a = it.next();
        vf_assert(a.has_value() == (r.D > 0), "next: has a value iff an element is left");
        vf_assert(!a || *a == r.start, "next: returns the first element left");
        auto const b = it.next();
        vf_assert(b.has_value() == (r.D > r.M), "next: then continues with start + step iff that lies before stop");
        vf_assert(!b || r.is_nth(*b, 1), "next: the element after start is start + step");
        if (!b) vf_assert(!it.next(), "next: stays at the end");
        vf_cover(b ? "two" : a ? "one" : "none");
    }
    template<typename T, typename S> void c_remaining() {
        auto r = any_range<T, S>();
        it_t<T, S> it{r.start, r.stop, r.step};
        r.shifted(1);
        vf_assert(it.remaining() == r.N, "remaining: number of elements left");
        if (it.next()) { auto const left = it.remaining(); vf_assert(left == r.N - 1, "next: one element less is left"); }
        else vf_assert(it.remaining() == 0, "next: nothing left at the end");
    }
    template<typename T, typename S> void c_nth() {
        auto r = any_range<T, S>();
        it_t<T, S> it{r.start, r.stop, r.step};
        r.shifted(1);
        u64 const i = vf_any_u64("off");
        r.lemma(i);
        r.shifted(i + 1);
        auto const a = it.nth(i);
        vf_assert(a.has_value() == (i < r.N), "nth: has a value iff there are more than off elements left");
        vf_assert(!a || r.is_nth(*a, i), "nth: returns the element at the offset");
        if (a) { auto const left = it.remaining(); vf_assert(left == r.N - 1 - i, "nth: continues after the element returned"); }
        else vf_assert(it.remaining() == 0, "nth: nothing left when skipping to the end");
        if (a && i + 1 < r.N) {
            r.lemma(i + 1);
            auto const b = it.next();
            vf_assert(b && (r.up ? static_cast<i128>(*b) - static_cast<i128>(*a) : static_cast<i128>(*a) - static_cast<i128>(*b)) == static_cast<i128>(r.M), "nth: the element after the one returned follows");
            vf_cover("next after nth");
        } else vf_assert(!it.next(), "nth: nothing follows the last element");
    }
    template<typename T, typename S> void c_next_back() {
        auto r = any_range<T, S>();
        it_t<T, S> it{r.start, r.stop, r.step};
        r.shifted(1);
        r.lemma(r.N - 1);
        auto const a = it.next_back();
        vf_assert(a.has_value() == (r.N > 0), "next_back: has a value iff an element is left");
        vf_assert(!a || r.is_nth(*a, r.N - 1), "next_back: returns the last element left");
        if (!a) { vf_assert(!it.next_back() && it.remaining() == 0, "next_back: stays at the end"); return; }
        // the rest is range(start, last, step): all elements but the last
        auto const f = it.next();
        vf_assert(f.has_value() == (r.N > 1) && (!f || *f == r.start), "next_back: leaves the first element, unless it was the only one");
        vf_cover(f ? "rest" : "single");
    }
    template<typename T, typename S> void c_back_state() {       // which triple next_back leaves behind
        auto r = any_range<T, S>();
        it_t<T, S> it{r.start, r.stop, r.step};
        r.shifted(1);
        r.lemma(r.N - 1);
        r.lemma(r.N - 2);
        r.shifted(r.N - 1);
        auto const a = it.next_back();
        if (!a) return;
        auto const left = it.remaining();
        vf_assert(left == r.N - 1, "next_back: one element less is left");
        if (r.N > 1) {
            auto const b = it.next_back();
            vf_assert(b && r.is_nth(*b, r.N - 2), "next_back: continues with the element before the last");
            vf_cover("second");
        } else vf_assert(!it.next_back(), "next_back: ends after the first element");
    }
    template<typename T, typename S> void c_nth_back() {
        auto r = any_range<T, S>();
        it_t<T, S> it{r.start, r.stop, r.step};
        r.shifted(1);
        u64 const i = vf_any_u64("off");
        r.lemma(r.N - 1 - i);
        r.shifted(r.N - 1 - i);
        auto const a = it.nth_back(i);
        vf_assert(a.has_value() == (i < r.N), "nth_back: has a value iff there are more than off elements left");
        vf_assert(!a || r.is_nth(*a, r.N - 1 - i), "nth_back: returns the element at the offset from the back");
        if (a) vf_assert(it.remaining() == r.N - 1 - i, "nth_back: what is left ends before the element returned");
        else vf_assert(it.remaining() == 0, "nth_back: nothing left when skipping to the end");
    }
    template<typename T, typename S> void c_view() {
        auto r = any_range<T, S>();
        auto const v = dtl::range(r.start, r.stop, r.step);
        vf_assert(v.size() == r.N && v.empty() == (r.N == 0) && static_cast<bool>(v) == (r.N != 0), "view: size, empty and bool agree with the sequence");
        if (r.N == 0) {
            vf_assert(v.begin() == v.end() && v.rbegin() == v.rend() && v.reversed().empty(), "view: an empty range has no elements in either direction");
            return;
        }
        r.lemma(r.N - 1);
        vf_assert(v.front() == r.start, "view: front is the first element");
        vf_assert(r.is_nth(v.back(), r.N - 1), "view: back is the last element");
        u64 const i = vf_any_u64("off");
        vf_assume(i < r.N);
        r.lemma(i);
        vf_assert(r.is_nth(v[i], i), "view: indexing returns the element at the offset");
        vf_cover("non-empty");
    }
    template<typename T, typename S> void c_iterate() {
        auto r = any_range<T, S>();
        auto const v = dtl::range(r.start, r.stop, r.step);
        vf_assume(r.N != 0);
        auto it = v.begin();
        vf_assert(it != v.end() && *it == r.start, "iteration: starts with the first element");
        ++it;
        vf_assert((it == v.end()) == (r.D <= r.M), "iteration: ends where start + step does not lie before stop");
        if (it != v.end()) vf_assert(r.is_nth(*it, 1), "iteration: continues with start + step");
    }
    template<typename T, typename S> void c_skip() {
        auto r = any_range<T, S>();
        auto const v = dtl::range(r.start, r.stop, r.step);
        vf_assume(r.N != 0);
        auto again = v.begin();
        vf_assert(again != v.end() && *again == r.start, "iteration: begin() starts over");
        u64 const i = vf_any_u64("off");
        r.lemma(i);
        r.lemma(i - 1);
        r.shifted(1);
        r.shifted(i);
        again += i;
        vf_assert((again != v.end()) == (i < r.N), "iteration: += stays within the range iff the offset does");
        if (again != v.end()) vf_assert(r.is_nth(*again, i), "iteration: += moves to the element at the offset");
    }
    template<typename T, typename S> void c_reverse() {
        auto r = any_range<T, S>();
        auto const v = dtl::range(r.start, r.stop, r.step);
        vf_assume(r.N != 0);
        r.lemma(r.N - 1);
        r.shifted(r.N - 1);
        if (r.N > 1) r.lemma(r.N - 2);
        auto rev = v.reversed();
        auto it = rev.begin();
        vf_assert(it != rev.end() && r.is_nth(*it, r.N - 1), "reversed: starts with the last element");
        T const last = *it;
        ++it;
        vf_assert((it != rev.end()) == (r.N > 1), "reversed: ends after the first element");
        if (it != rev.end()) vf_assert((r.up ? static_cast<i128>(last) - static_cast<i128>(*it) : static_cast<i128>(*it) - static_cast<i128>(last)) == static_cast<i128>(r.M), "reversed: continues with the previous element");
    }
    template<typename T, typename S> void c_advance() {
        auto r = any_range<T, S>();
        auto v = dtl::range(r.start, r.stop, r.step);
        u64 const i = vf_any_u64("off");
        r.lemma(i);
        r.lemma(i - 1);
        r.shifted(i);
        auto &w = v.advance(i);
        vf_assert(&w == &v, "advance: returns the view");
        vf_assert(v.size() == (i < r.N ? r.N - i : 0), "advance: drops the first elements");
        if (i < r.N) vf_assert(r.is_nth(v.front(), i), "advance: the rest starts with the element at the offset");
    }
    template<typename T, typename S> void c_short() {            // the one and two argument forms
        vf::reset();
        T const a = pick<T>("start"), b = pick<T>("stop");
        auto const v = dtl::range(a, b);
        auto const w = dtl::range(b);
        u64 const n = a < b ? static_cast<u64>(b) - static_cast<u64>(a) : 0;
        vf_assert(v.size() == n && (n == 0 ? v.begin() == v.end() : *v.begin() == a && v.front() == a && v.back() == static_cast<T>(b - 1)), "range(start, stop) counts from start to stop");
        u64 const m = T{0} < b ? static_cast<u64>(b) : 0;
        vf_assert(w.size() == m && (m == 0 ? w.begin() == w.end() : *w.begin() == T{0} && w.back() == static_cast<T>(b - 1)), "range(stop) counts from 0 to stop");
        u64 const i = vf_any_u64("off");
        if (i < n) vf_assert(static_cast<i128>(v[i]) == static_cast<i128>(a) + static_cast<i128>(i), "range(start, stop) counts in steps of one");
        if (i < m) vf_assert(static_cast<u64>(w[i]) == i, "range(stop) counts in steps of one");
    }
    template<typename T, typename S> void c_zero() {
        vf::reset();
        T const a = pick<T>("start"), b = pick<T>("stop");
        bool thrown = false;
        try { auto v = dtl::range(a, b, S{0}); (void) v; } catch (std::invalid_argument const &) { thrown = true; }
        vf_assert(thrown, "step zero throws std::invalid_argument");
    }
}
#define ALL(N, T, S) \
    VF_HARNESS(N##_spec) { n_is_the_count<T, S>(); } \
    VF_HARNESS(N##_next) { c_next<T, S>(); } \
    VF_HARNESS(N##_remaining) { c_remaining<T, S>(); } \
    VF_HARNESS(N##_nth) { c_nth<T, S>(); } \
    VF_HARNESS(N##_next_back) { c_next_back<T, S>(); } \
    VF_HARNESS(N##_back_state) { c_back_state<T, S>(); } \
    VF_HARNESS(N##_nth_back) { c_nth_back<T, S>(); } \
    VF_HARNESS(N##_view) { c_view<T, S>(); } \
    VF_HARNESS(N##_iterate) { c_iterate<T, S>(); } \
    VF_HARNESS(N##_skip) { c_skip<T, S>(); } \
    VF_HARNESS(N##_reverse) { c_reverse<T, S>(); } \
    VF_HARNESS(N##_advance) { c_advance<T, S>(); } \
    VF_HARNESS(N##_zero) { c_zero<T, S>(); }
ALL(i8_i8, std::int8_t, std::int8_t)
ALL(u8_i8, std::uint8_t, std::int8_t)
ALL(i32_i32, int, int)
ALL(u32_i32, unsigned, int)
ALL(i64_i64, std::int64_t, std::int64_t)
ALL(u64_u64, std::uint64_t, std::uint64_t)
ALL(u64_i64, std::uint64_t, std::int64_t)
ALL(i8_i64, std::int8_t, std::int64_t)
ALL(i64_u8, std::int64_t, std::uint8_t)
VF_HARNESS(i8_short) { c_short<std::int8_t, std::int8_t>(); }
VF_HARNESS(i32_short) { c_short<int, int>(); }
VF_HARNESS(u32_short) { c_short<unsigned, unsigned>(); }
VF_HARNESS(i64_short) { c_short<std::int64_t, std::int64_t>(); }
VF_HARNESS(u64_short) { c_short<std::uint64_t, std::uint64_t>(); }
