// C21: adapters over next()-style iterators, on sequences of unbounded length.
// The state of an adapted iterator is (the rest of the underlying sequence, the current element, whether the
// next one has been peeked); the contracts quantify over all of these states.
//@ assume: a next()-style iterator is fused: once next()/next_back()/nth()/nth_back() has returned nullopt it keeps doing so
//@ assume: copies of a copyable next()-style iterator are independent and equivalent
//@ bounded: bounded_loop_.*: whole iterations over at most 4 elements (8 in the thorough tier); one step from every state is proved in *_increment, *_begin, *_rbegin
//@ trusted: std::optional, std::function and std::ranges::subrange are verified along (libstdc++ source)
#include "ghost_seq.hpp"
#include <dice/template-library/next_to_range.hpp>
#ifdef VF_THOROUGH
#define VF_LOOP_MAX 8
#else
#define VF_LOOP_MAX 4
#endif
namespace dtl = dice::template_library;

namespace {
    using u64 = std::uint64_t;
    using item = gs::item<0>;
    u64 F, B, K;                                               // the underlying sequence is elements [F, B)

    item at(u64 i) { vf_assert(i < gs::n<0>, "elements are produced within the bounds of the sequence"); return {gs::value<0>(i), i, 0}; }

    // what the user supplies: elements [f, b), consumed from both ends
    struct core {
        using value_type = item;
        u64 f, b;
        core() : f{F}, b{B} {}
        core(u64 f, u64 b) : f{f}, b{b} {}
    };
    struct only_next : core { using core::core; std::optional<item> next() { if (f == b) return std::nullopt; return at(f++); } };
    struct both : only_next { using only_next::only_next; std::optional<item> next_back() { if (f == b) return std::nullopt; return at(--b); } };
    struct full : both {
        using both::both;
        std::optional<item> nth(std::size_t off) { if (off >= b - f) { f = b; return std::nullopt; } f += off; return at(f++); }
        std::optional<item> nth_back(std::size_t off) { if (off >= b - f) { b = f; return std::nullopt; } b -= off; return at(--b); }
        std::size_t remaining() const noexcept { return b - f; }
    };
    struct move_only : full {
        using full::full;
        move_only(move_only &&) = default;
        move_only &operator=(move_only &&) = default;
        move_only(move_only const &) = delete;
    };
    struct move_only_next : only_next {
        using only_next::only_next;
        move_only_next(move_only_next &&) = default;
        move_only_next &operator=(move_only_next &&) = default;
        move_only_next(move_only_next const &) = delete;
    };
    u64 len_max() { return vf_symbolic_run() ? (u64{1} << 32) : 48; }
    void setup() {
        vf::reset();
        gs::seq_reset();
        F = vf_any_range("f", 0, len_max());                     // elements before, in and behind the range
        B = F + vf_any_range("elements", 0, len_max());
        gs::n<0> = B + vf_any_range("behind", 0, len_max());
    }
    constexpr bool fwd = true, bwd = false;
    // element k of what the adapted iterator visits, k < B - F
    template<bool D> u64 nth_index(u64 k) { return D ? F + k : B - 1 - k; }
    template<bool D, typename I> void is_at(I const &it, u64 k, char const *what) {
        vf_assert((it == std::default_sentinel) == (k >= B - F) && (std::default_sentinel == it) == (k >= B - F), what);
        if (k < B - F && it != std::default_sentinel) {
            item const x = *it;
            vf_assert(x.i == nth_index<D>(k) && it->i == x.i && x.v == gs::value<0>(x.i), what);
        }
    }
    template<bool D, typename S> struct pick { using type = dtl::next_to_iter<S>; };
    template<typename S> struct pick<bwd, S> { using type = dtl::next_back_to_reverse_iter<S>; };
    template<bool D, typename S> using iter_of = typename pick<D, S>::type;

    // every state: [F, B) left to visit (the first of them current), the next one peeked or not
    template<bool D, typename I> void maybe_peek(I &it) {
        if (vf_any_bool("peeked")) {
            auto const &p = it.peek();
            vf_assert(p.has_value() == (1 < B - F && F < B), "peek: returns the value that follows, if there is one");
            if (p) vf_assert(p->i == nth_index<D>(1), "peek: returns the value that follows");
            is_at<D>(it, 0, "peek: does not move");
            if (vf_any_bool("peeked again")) {
                auto const &q = it.peek();
                vf_assert(q.has_value() == p.has_value() && (!q || q->i == nth_index<D>(1)), "peek: again returns the same value");
            }
            vf_cover("peeked");
        }
    }
    template<bool D, typename S> void c_construct() {
        setup();
        iter_of<D, S> it{};
        is_at<D>(it, 0, "construction: the first element is current");
        iter_of<D, S> it2{F, B};
        is_at<D>(it2, 0, "construction: the first element is current");
        if constexpr (std::is_copy_constructible_v<S>) {
            iter_of<D, S> copy1(it);
            iter_of<D, S> copy2{std::as_const(it)};
            iter_of<D, S> copy3 = it;
            is_at<D>(copy1, 0, "copy: stands where the original stands");
            is_at<D>(copy2, 0, "copy: stands where the original stands");
            is_at<D>(copy3, 0, "copy: stands where the original stands");
            is_at<D>(it, 0, "copy: the original is left alone");
            if (F < B) { ++copy1; is_at<D>(copy1, 1, "copy: iterates on its own"); is_at<D>(it, 0, "copy: the original is left alone"); }
        }
        iter_of<D, S> moved{std::move(it2)};
        is_at<D>(moved, 0, "move: stands where the original stood");
        if constexpr (std::is_copy_constructible_v<S>) { S s; iter_of<D, S> it3{s}; is_at<D>(it3, 0, "construction: the first element is current"); vf_assert(s.f == F && s.b == B, "construction: the source is left alone"); }
    }
    template<bool D, typename S> void c_increment() {
        setup();
        iter_of<D, S> it{};
        maybe_peek<D>(it);
        vf_assume(F < B);
        auto &r = ++it;
        vf_assert(&r == &it, "++: returns the iterator");
        is_at<D>(it, 1, "++: the following element becomes current");
        if (B - F > 1) {
            if (vf_any_bool("peek after")) {
                auto const &p = it.peek();
                vf_assert(p.has_value() == (2 < B - F) && (!p || p->i == nth_index<D>(2)), "++: the rest of the sequence follows");
            }
            ++it;
            is_at<D>(it, 2, "++: the rest of the sequence follows");
        }
    }
    template<bool D, typename S> void c_postincrement() {
        setup();
        iter_of<D, S> it{};
        maybe_peek<D>(it);
        vf_assume(F < B);
        if constexpr (std::is_copy_constructible_v<S>) {
            auto old = it++;
            is_at<D>(it, 1, "++: the following element becomes current");
            is_at<D>(old, 0, "it++: returns the previous position");
            ++old;
            is_at<D>(old, 1, "it++: the copy returned iterates on its own");
            is_at<D>(it, 1, "it++: the copy returned iterates on its own");
            if (B - F > 1) { ++it; is_at<D>(it, 2, "it++: the rest of the sequence follows"); }
        } else {
            it++;
            is_at<D>(it, 1, "++: the following element becomes current");
        }
    }
    template<bool D, typename S> void c_advance() {
        setup();
        iter_of<D, S> it{};
        maybe_peek<D>(it);
        u64 const i = vf_any_range("off", 0, 2 * len_max());
        auto &r = it += i;
        vf_assert(&r == &it, "+=: returns the iterator");
        is_at<D>(it, i, "+= n: as n increments");
        if (i < B - F) {
            if (vf_any_bool("peek after")) {
                auto const &p = it.peek();
                vf_assert(p.has_value() == (i + 1 < B - F) && (!p || p->i == nth_index<D>(i + 1)), "+= n: the rest of the sequence follows");
            }
            ++it;
            is_at<D>(it, i + 1, "+= n: the rest of the sequence follows");
            vf_cover("within");
        }
    }
    template<bool D, typename S> void c_plus() {
        setup();
        iter_of<D, S> it{};
        maybe_peek<D>(it);
        u64 const i = vf_any_range("off", 0, 2 * len_max());
        auto c = it + i;
        is_at<D>(c, i, "+ n: as n increments of a copy");
        is_at<D>(it, 0, "+ n: leaves the iterator alone");
        if (F < B) { ++it; is_at<D>(it, 1, "+ n: leaves the iterator alone"); }
        if (i < B - F) { ++c; is_at<D>(c, i + 1, "+ n: the rest of the sequence follows"); }
    }
    // ------------------------------------------------------------ ranges and views
    template<typename R> void c_begin() {
        setup();
        R const r{F, B};
        auto a = r.begin();
        is_at<fwd>(a, 0, "begin: the first element is current");
        if (F < B) {
            ++a;
            auto b = r.begin();
            is_at<fwd>(b, 0, "begin: starts over, whatever other iterators did");
            is_at<fwd>(a, 1, "begin: iterators are independent");
            ++b; 
            is_at<fwd>(b, 1, "begin: iterators are independent");
            is_at<fwd>(a, 1, "begin: iterators are independent");
        }
        auto c = r.cbegin();
        is_at<fwd>(c, 0, "cbegin: the first element is current");
        vf_assert((r.begin() == r.end()) == (F == B) && (r.cbegin() == r.cend()) == (F == B), "end: reached at once by an empty range only");
        R const def{};
        is_at<fwd>(def.begin(), 0, "begin: the first element is current");
    }
    template<typename R> void c_rbegin() {
        setup();
        R const r{F, B};
        auto a = r.rbegin();
        is_at<bwd>(a, 0, "rbegin: the last element is current");
        if (F < B) {
            ++a;
            is_at<bwd>(a, 1, "rbegin: continues with the element before");
            auto b = r.rbegin();
            is_at<bwd>(b, 0, "rbegin: starts over, whatever other iterators did");
            is_at<fwd>(r.begin(), 0, "begin: starts over, whatever reverse iterators did");
        }
        vf_assert((r.rbegin() == r.rend()) == (F == B), "rend: reached at once by an empty range only");
        if constexpr (requires { r.crbegin(); }) { is_at<bwd>(r.crbegin(), 0, "crbegin: the last element is current"); vf_assert((r.crbegin() == r.crend()) == (F == B), "crend: reached at once by an empty range only"); }
        auto rev = r.reversed();
        if (F < B) {
            auto it = rev.begin();
            is_at<bwd>(it, 0, "reversed: starts with the last element");
            ++it;
            is_at<bwd>(it, 1, "reversed: continues with the element before");
        } else vf_assert(rev.begin() == rev.end(), "reversed: empty iff the range is");
    }
    template<typename R> void c_size() {
        setup();
        R const r{F, B};
        vf_assert(r.size() == B - F && r.empty() == (F == B) && static_cast<bool>(r) == (F < B), "size, empty and bool agree with the sequence");
    }
    template<typename R> void c_view() {
        setup();
        R const r{F, B};
        vf_assume(F < B);
        item const f = r.front(), b = r.back();
        vf_assert(f.i == F && f.v == gs::value<0>(F), "front: the first element");
        vf_assert(b.i == B - 1 && b.v == gs::value<0>(B - 1), "back: the last element");
        u64 const i = vf_any_range("off", 0, len_max());
        vf_assume(i < B - F);
        item const x = r[i];
        vf_assert(x.i == F + i && x.v == gs::value<0>(F + i), "[]: the element at the offset");
        vf_assert(r.size() == B - F, "front, back and [] leave the view alone");
        is_at<fwd>(r.begin(), 0, "front, back and [] leave the view alone");
    }
    template<typename R> void c_view_advance() {
        setup();
        R r{F, B};
        u64 const i = vf_any_range("off", 0, 2 * len_max());
        auto &s = r.advance(i);
        vf_assert(&s == &r, "advance: returns the view");
        vf_assert(r.size() == (i < B - F ? B - F - i : 0), "advance: drops the first elements");
        if (i < B - F) {
            vf_assert(r.front().i == F + i && r.back().i == B - 1, "advance: the remaining elements are the last ones");
            is_at<fwd>(r.begin(), i, "advance: the remaining elements are the last ones");
        }
        if (i <= B - F) {                                       // advancing further
            u64 const j = vf_any_range("off2", 0, 3);
            r.advance(j);
            vf_assert(r.size() == (i + j < B - F ? B - F - i - j : 0), "advance: drops the first elements");
        }
    }
    // all elements, in order, once each
    template<bool D, typename R> void c_loop(R const &r) {
        u64 count = 0;
        vf_assume(B - F <= (VF_LOOP_MAX));
        if constexpr (D) { for (auto &&x : r) { vf_assert(count < B - F && x.i == nth_index<D>(count), "iteration: visits the elements in order, once each"); ++count; } }
        else { for (auto &&x : r.reversed()) { vf_assert(count < B - F && x.i == nth_index<D>(count), "reversed: visits the elements in reverse order, once each"); ++count; } }
        vf_assert(count == B - F, "iteration: visits all elements");
    }
}
#define ITER(N, S) \
    VF_HARNESS(N##_construct) { c_construct<fwd, S>(); } \
    VF_HARNESS(N##_increment) { c_increment<fwd, S>(); } \
    VF_HARNESS(N##_postincrement) { c_postincrement<fwd, S>(); }
#define RITER(N, S) \
    VF_HARNESS(N##_rconstruct) { c_construct<bwd, S>(); } \
    VF_HARNESS(N##_rincrement) { c_increment<bwd, S>(); } \
    VF_HARNESS(N##_rpostincrement) { c_postincrement<bwd, S>(); }
ITER(only_next, only_next) ITER(both, both) ITER(full, full) ITER(move_only, move_only) ITER(move_only_next, move_only_next)
RITER(both, both) RITER(full, full) RITER(move_only, move_only)
VF_HARNESS(full_advance) { c_advance<fwd, full>(); }
VF_HARNESS(full_radvance) { c_advance<bwd, full>(); }
VF_HARNESS(move_only_advance) { c_advance<fwd, move_only>(); }
VF_HARNESS(move_only_radvance) { c_advance<bwd, move_only>(); }
VF_HARNESS(full_plus) { c_plus<fwd, full>(); }
VF_HARNESS(full_rplus) { c_plus<bwd, full>(); }
#define RANGE(N, R) \
    VF_HARNESS(N##_begin) { c_begin<R>(); }
#define RRANGE(N, R) RANGE(N, R) VF_HARNESS(N##_rbegin) { c_rbegin<R>(); }
RANGE(range_only_next, dtl::next_to_range<only_next>)
RANGE(range_move_only_next, dtl::next_to_range<move_only_next>)
RANGE(view_only_next, dtl::next_to_view<only_next>)
RRANGE(range_both, dtl::next_to_range<both>)
RRANGE(range_full, dtl::next_to_range<full>)
RRANGE(range_move_only, dtl::next_to_range<move_only>)
RRANGE(view_both, dtl::next_to_view<both>)
RRANGE(view_full, dtl::next_to_view<full>)
VF_HARNESS(range_size) { c_size<dtl::next_to_range<full>>(); }
VF_HARNESS(view_size) { c_size<dtl::next_to_view<full>>(); }
VF_HARNESS(view_access) { c_view<dtl::next_to_view<full>>(); }
VF_HARNESS(view_advance) { c_view_advance<dtl::next_to_view<full>>(); }
VF_HARNESS(bounded_loop_range) { setup(); c_loop<fwd>(dtl::next_to_range<only_next>{F, B}); }
VF_HARNESS(bounded_loop_range_move_only) { setup(); c_loop<fwd>(dtl::next_to_range<move_only>{F, B}); }
VF_HARNESS(bounded_loop_view) { setup(); c_loop<fwd>(dtl::next_to_view<full>{F, B}); }
VF_HARNESS(bounded_loop_view_reversed) { setup(); c_loop<bwd>(dtl::next_to_view<full>{F, B}); }
VF_HARNESS(bounded_loop_range_reversed) { setup(); c_loop<bwd>(dtl::next_to_range<both>{F, B}); }
