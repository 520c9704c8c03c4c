// C23: lexicographical_compare_three_way, unique and remove_element, on sequences of unbounded length.
//@ assume: comparators, projections and predicates passed by the user are pure
//@ trusted: std::unordered_set / std::set insertion (contract: insert(x).second iff no equivalent element was inserted before); std::views::filter is verified along (libstdc++ source)
//@ bounded: bounded_.*: whole traversal of at most 3 (quick) or 5 (thorough) elements
#include "ghost_seq.hpp"
#include <dice/template-library/ranges.hpp>
namespace dtl = dice::template_library;
using item = gs::item<0>;
template<> struct std::hash<item> { std::size_t operator()(item const &x) const { return x.v & 3; } };

namespace {
#ifdef VF_THOROUGH
    constexpr std::uint64_t bound = 5;
#else
    constexpr std::uint64_t bound = 3;
#endif
    std::uint64_t X(std::uint64_t k) { return gs::value<0>(k); }
    std::uint64_t Y(std::uint64_t k) { return gs::value<1>(k); }
    std::uint64_t K;
    std::uint64_t len_max() { return vf_symbolic_run() ? (std::uint64_t{1} << 32) : 48; }
    void setup(std::uint64_t max = 0) {                        // max: a bounded run
        vf::reset();
        gs::seq_reset();
        gs::n<0> = vf::len("len");
        gs::n<1> = vf::len("len1");
        if (max) vf_assume(gs::n<0> <= max);
        else vf::inductive();
        K = vf_any_range("k", 0, len_max());
        vf_index(K);
        vf_index(gs::n<0>);
    }

    // ------------------------------------------------------------ lexicographical_compare_three_way
    std::uint64_t W, Wb;                                       // the comparison that decided
    bool witnessed;
    template<typename CAT, typename ORD> struct cmp {           // ORD: (u64, u64) -> CAT
        template<typename A, typename B> CAT operator()(A const &a, B const &b) const {
            a.check(); b.check();
            CAT const r = ORD{}(a.v, b.v);
            if (r != 0) { W = a.i; Wb = b.i; witnessed = true; }
            return r;
        }
    };
    struct strong { std::strong_ordering operator()(std::uint64_t a, std::uint64_t b) const { return a < b ? std::strong_ordering::less : a == b ? std::strong_ordering::equal : std::strong_ordering::greater; } };
    std::uint64_t key(std::uint64_t v) { return vf_uf("key", v); }
    struct weak { std::weak_ordering operator()(std::uint64_t a, std::uint64_t b) const { return key(a) < key(b) ? std::weak_ordering::less : key(a) == key(b) ? std::weak_ordering::equivalent : std::weak_ordering::greater; } };
    // anything: an arbitrary relation, incomparable pairs included
    struct partial { std::partial_ordering operator()(std::uint64_t a, std::uint64_t b) const {
        std::uint64_t const r = vf_uf("rel", vf_uf("rel1", a) + b) & 3;
        return r == 0 ? std::partial_ordering::equivalent : r == 1 ? std::partial_ordering::less : r == 2 ? std::partial_ordering::greater : std::partial_ordering::unordered;
    } };
    template<typename CAT, typename ORD, typename A> void lex(A a) {
        setup();
        vf_index(gs::n<1>);
        ORD ord;
        W = Wb = ~std::uint64_t{0}; witnessed = false;
        vf_fact(ord(X(K), Y(K)) == 0);
        auto const r = a();
        vf_static(std::is_same_v<decltype(r), CAT const>);
        std::uint64_t const n = gs::n<0>, m = gs::n<1>;
        if (witnessed) {
            vf_assert(W == Wb && W < n && W < m, "lexicographical_compare_three_way: compares elements at the same position");
            vf_assert(r == ord(X(W), Y(W)) && r != 0, "lexicographical_compare_three_way: result is the order of the first differing elements");
            vf_assert(!(K < W) || ord(X(K), Y(K)) == 0, "lexicographical_compare_three_way: elements before the deciding ones are equal");
            vf_cover("differing element");
        } else {
            vf_assert(r == (n <=> m), "lexicographical_compare_three_way: a proper prefix is less, equal sequences are equal");
            vf_assert(!(K < n && K < m) || ord(X(K), Y(K)) == 0, "lexicographical_compare_three_way: no differing element before the end");
            vf_cover("prefix");
        }
    }
    template<typename A> void lex_default(A a) {
        lex<std::strong_ordering, strong>([&] {
            auto r = a();
            if (gs::diff_a != ~std::uint64_t{0}) { W = gs::diff_a; Wb = gs::diff_b; witnessed = true; }
            return r;
        });
    }
    template<int T, gs::cat C> gs::seq<T, C> S() { return {}; }
    struct proj0 { auto operator()(gs::item<0> const &x) const { return x; } };
    struct kcmp {  // compares what the projections returned
        std::strong_ordering operator()(std::pair<std::uint64_t, std::uint64_t> const &a, std::pair<std::uint64_t, std::uint64_t> const &b) const {
            auto const r = strong{}(a.first, b.first);
            if (r != 0) { W = a.second; Wb = b.second; witnessed = true; }
            return r;
        }
    };
    struct pa { std::pair<std::uint64_t, std::uint64_t> operator()(gs::item<0> const &x) const { x.check(); return {x.v ^ 5, x.i}; } };
    struct pb { std::pair<std::uint64_t, std::uint64_t> operator()(gs::item<1> const &x) const { x.check(); return {x.v + 1, x.i}; } };
    struct projected { std::strong_ordering operator()(std::uint64_t a, std::uint64_t b) const { return strong{}(a ^ 5, b + 1); } };
}
VF_HARNESS(lex_range) { lex_default([] { return dtl::lexicographical_compare_three_way(S<0, gs::forward>(), S<1, gs::forward>()); }); }
VF_HARNESS(lex_iters) { lex_default([] { auto a = S<0, gs::forward>(); auto b = S<1, gs::random>(); return dtl::lexicographical_compare_three_way(a.begin(), a.end(), b.begin(), b.end()); }); }
VF_HARNESS(lex_input) { lex_default([] { return dtl::lexicographical_compare_three_way(S<0, gs::single_pass>(), S<1, gs::single_pass>()); }); }
VF_HARNESS(lex_weak) { lex<std::weak_ordering, weak>([] { return dtl::lexicographical_compare_three_way(S<0, gs::forward>(), S<1, gs::forward>(), cmp<std::weak_ordering, weak>{}); }); }
VF_HARNESS(lex_partial) { lex<std::partial_ordering, partial>([] { return dtl::lexicographical_compare_three_way(S<0, gs::forward>(), S<1, gs::forward>(), cmp<std::partial_ordering, partial>{}); }); }
VF_HARNESS(lex_partial_iters) { lex<std::partial_ordering, partial>([] { auto a = S<0, gs::single_pass>(); auto b = S<1, gs::forward>(); return dtl::lexicographical_compare_three_way(a.begin(), a.end(), b.begin(), b.end(), cmp<std::partial_ordering, partial>{}); }); }
VF_HARNESS(lex_projected) { lex<std::strong_ordering, projected>([] { return dtl::lexicographical_compare_three_way(S<0, gs::forward>(), S<1, gs::forward>(), kcmp{}, pa{}, pb{}); }); }
VF_HARNESS(lex_projected_iters) { lex<std::strong_ordering, projected>([] { auto a = S<0, gs::forward>(); auto b = S<1, gs::forward>(); return dtl::lexicographical_compare_three_way(a.begin(), a.end(), b.begin(), b.end(), kcmp{}, pa{}, pb{}); }); }

// ---------------------------------------------------------------- remove_element
namespace {
    std::uint64_t got_k, next_min;                             // element K was yielded; smallest index allowed next
    std::uint64_t V;
    bool P(std::uint64_t k) { return (vf_uf("pred", k) & 1) != 0; }
    struct pred { bool operator()(item const &x, std::uint64_t v) const { x.check(); vf_assert(v == V, "remove_element: the predicate is given the value to remove"); return P(x.i); } };
    struct eqv { bool operator()(item const &x, std::uint64_t v) const { x.check(); return x.v == v; } };
    template<typename R> void consume(R &&r) {
        for (auto &&x : r) {
            item const e = x;
            e.check();
            vf_assert(e.i >= next_min, "elements are yielded in order, once each");
            next_min = e.i + 1;
            if (e.i == K) got_k = 1;
        }
    }
    // One step of the traversal, from every state it can be in: begin() on what is left from position p,
    // then one increment. Elements of [p, end) up to the one yielded are decided; the rest is the next step.
    std::uint64_t at_end, yielded;
    template<typename I, typename S> void look(I const &it, S const &e) {
        at_end = it == e;
        if (!at_end) {
            item const x = *it;
            x.check();
            vf_assert(x.i >= next_min, "elements are yielded in order, once each");
            yielded = x.i;
        } else yielded = gs::n<0>;
    }
    template<typename R, typename B, typename F> void steps(R &&r, B before, F decided) {
        before();
        auto it = r.begin();
        look(it, r.end());
        decided(next_min, yielded, at_end);
        if (!at_end) {
            next_min = yielded + 1;
            before();
            ++it;
            look(it, r.end());
            decided(next_min, yielded, at_end);
            vf_cover("step");
        }
    }
    template<typename F, typename A> void removal(F keep, A a) {
        setup();
        V = vf_any_u64("value");
        got_k = next_min = 0;
        vf_value(1); vf_value(0);
        vf_fact(keep(K));
        gs::first<0> = next_min = vf_any_range("p", 0, len_max());
        vf_assume(next_min <= gs::n<0>);
        a([&] { vf_fact(K < next_min || !keep(K)); }, [&](std::uint64_t lo, std::uint64_t hi, bool end) {
            vf_assert((K < lo) | (K >= hi) | !keep(K), "remove_element: only elements that match are left out");
            vf_assert((K != hi) | end | keep(K), "remove_element: elements that match are not yielded");
        });
    }
    template<typename F, typename A> void removal_all(F keep, A a) {
        setup(bound);
        V = vf_any_u64("value");
        got_k = next_min = 0;
        a();
        vf_assert((got_k == 1) == (K < gs::n<0> && keep(K)), "remove_element: yields exactly the elements that do not match");
        vf_cover(got_k ? "kept" : "dropped");
    }
    bool kept_v(std::uint64_t k) { return X(k) != V; }
    bool kept_p(std::uint64_t k) { return !P(k); }
}
VF_HARNESS(remove_element) { removal(kept_v, [](auto b, auto d) { steps(S<0, gs::forward>() | dtl::remove_element(V, eqv{}), b, d); }); }
VF_HARNESS(remove_element_pred) { removal(kept_p, [](auto b, auto d) { steps(S<0, gs::forward>() | dtl::remove_element(V, pred{}), b, d); }); }
VF_HARNESS(remove_element_input) { removal(kept_p, [](auto b, auto d) { steps(S<0, gs::single_pass>() | dtl::remove_element(V, pred{}), b, d); }); }
VF_HARNESS(bounded_remove_element) { removal_all(kept_v, [] { consume(S<0, gs::forward>() | dtl::remove_element(V, eqv{})); }); }
VF_HARNESS(bounded_remove_element_pred) { removal_all(kept_p, [] { consume(S<0, gs::forward>() | dtl::remove_element(V, pred{})); }); }

// ---------------------------------------------------------------- unique
namespace {
    using uset = std::unordered_set<item>;
    struct ord : item {};
    bool operator<(ord const &a, ord const &b) { a.check(); b.check(); return a.v < b.v; }
    struct ord_iter : gs::iter<0, gs::forward> {
        using base = gs::iter<0, gs::forward>;
        using base::base;
        using value_type = ord; using reference = ord;
        ord operator*() const { return ord{base::operator*()}; }
        ord_iter &operator++() { base::operator++(); return *this; }
        ord_iter operator++(int) { auto c = *this; ++*this; return c; }
        friend bool operator==(ord_iter const &a, ord_iter const &b) { return a.pos == b.pos; }
        friend bool operator==(ord_iter const &a, gs::end_t e) { return static_cast<base const &>(a) == e; }
    };
    struct ord_seq : std::ranges::view_base { auto begin() const { return ord_iter{gs::first<0>}; } auto end() const { return gs::end_t{}; } };
    using oset = std::set<ord>;
    std::uint64_t J, dup_k, next_seen;                               // J < K; the earlier equal element found for K; the elements offered are those below next_seen
    std::uint64_t asked, forgotten;                                        // 2 + the answer, if the last element was only looked up; elements below forgotten are not in the set any more
    // is an element equal to that at i in the set? Decided once per element, in the order of the elements
    bool ghost_decide(std::uint64_t i) {
        bool const fresh = vf_any_bool("fresh");
        if (fresh) vf_assume((J < forgotten) | (J >= i) | (X(i) != X(J)));
        else {
            std::uint64_t const w = vf_any_u64("duplicate of");
            vf_assume((forgotten <= w) & (w < i) & (X(w) == X(i)));  // every index below i was offered before: see "visited in order"
            if (i == K) dup_k = w;
        }
        vf_assert(i == next_seen, "unique: looks at every element once, in order");
        next_seen = i + 1;
        return fresh;
    }
    bool ghost_contains(std::uint64_t i) {
        if (asked && i + 1 == next_seen) return asked == 2;
        if (asked == 3) forgotten = next_seen;                  // a new element was not inserted: nothing is relied on
        bool const fresh = ghost_decide(i);
        asked = 2 + fresh;
        return !fresh;
    }
    bool ghost_insert(std::uint64_t i) {
        bool fresh;
        if (asked) { fresh = !ghost_contains(i); asked = 0; }
        else fresh = ghost_decide(i);
        return fresh;
    }
    std::uint64_t ghost_size() { std::uint64_t const n = vf_any_u64("distinct"); vf_assume(n <= next_seen && (n != 0) == (next_seen > forgotten)); return n; }
    void ghost_clear() { forgotten = next_seen; asked = 0; }
}
#ifndef VF_NATIVE
#define STUB extern "C" __attribute__((used)) inline
#define ON_USET(NAME) vfs__ZNSt13unordered_setIN2gs6item_tESt4hashIS1_ESt8equal_toIS1_ESaIS1_EE##NAME
#define ON_CUSET(NAME) vfs__ZNKSt13unordered_setIN2gs6item_tESt4hashIS1_ESt8equal_toIS1_ESaIS1_EE##NAME
#define ON_OSET(NAME) vfs__ZNSt3setIN12_GLOBAL__N_13ordESt4lessIS1_ESaIS1_EE##NAME
#define ON_COSET(NAME) vfs__ZNKSt3setIN12_GLOBAL__N_13ordESt4lessIS1_ESaIS1_EE##NAME
namespace { alignas(16) char a_node[64]; template<typename I> I found(I end, bool in) { if (in) { void *p = a_node; static_assert(sizeof end == sizeof p); __builtin_memcpy(static_cast<void *>(&end), &p, sizeof p); } return end; } }
#define ON_SET(SET, ON, ONC, ELEM, PAIR) \
    STUB std::pair<SET::iterator, bool> ON(7emplaceIJS1_EEESt4pairI##PAIR##bEDpOT_)(SET *, ELEM &x) { bool const f = ghost_insert(x.i); return {found(SET::iterator{}, true), f}; } \
    STUB std::pair<SET::iterator, bool> ON(7emplaceIJRS1_EEESt4pairI##PAIR##bEDpOT_)(SET *, ELEM &x) { bool const f = ghost_insert(x.i); return {found(SET::iterator{}, true), f}; } \
    STUB std::pair<SET::iterator, bool> ON(7emplaceIJRKS1_EEESt4pairI##PAIR##bEDpOT_)(SET *, ELEM const &x) { bool const f = ghost_insert(x.i); return {found(SET::iterator{}, true), f}; } \
    STUB std::pair<SET::iterator, bool> ON(6insertEOS1_)(SET *, ELEM &x) { bool const f = ghost_insert(x.i); return {found(SET::iterator{}, true), f}; } \
    STUB std::pair<SET::iterator, bool> ON(6insertERKS1_)(SET *, ELEM const &x) { bool const f = ghost_insert(x.i); return {found(SET::iterator{}, true), f}; } \
    STUB SET::iterator ON(4findERKS1_)(SET *s, ELEM const &x) { return found(s->end(), ghost_contains(x.i)); } \
    STUB SET::const_iterator ONC(4findERKS1_)(SET const *s, ELEM const &x) { return found(s->end(), ghost_contains(x.i)); } \
    STUB bool ONC(8containsERKS1_)(SET const *, ELEM const &x) { return ghost_contains(x.i); } \
    STUB std::size_t ONC(5countERKS1_)(SET const *, ELEM const &x) { return ghost_contains(x.i); } \
    STUB std::size_t ONC(4sizeEv)(SET const *) { return ghost_size(); } \
    STUB bool ONC(5emptyEv)(SET const *) { return ghost_size() == 0; } \
    STUB std::size_t ON(5eraseERKS1_)(SET *, ELEM const &) { ghost_clear(); return 1; } \
    STUB void ON(5clearEv)(SET *) { ghost_clear(); }
ON_SET(uset, ON_USET, ON_CUSET, item, NSt8__detail14_Node_iteratorIS1_Lb1ELb1EEE)
ON_SET(oset, ON_OSET, ON_COSET, ord, St23_Rb_tree_const_iteratorIS1_E)
STUB std::size_t vfs__ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(std::__detail::_Prime_rehash_policy const *, std::size_t) { return 1; }
#endif
namespace {
    void uniq_setup(std::uint64_t max = 0) {
        setup(max);
        J = vf_any_range("j", 0, len_max());
        vf_assume(J < K);
        vf_index(J);
        vf_fact(X(J) != X(K));
        next_seen = next_min = got_k = forgotten = asked = 0;
        dup_k = ~std::uint64_t{0};
        vf_value(1); vf_value(0);
    }
    void skipped(std::uint64_t lo, std::uint64_t hi) {
        if (vf_symbolic_run()) vf_assert((K < lo) | (K >= hi) | ((dup_k < K) & (X(dup_k) == X(K))), "unique: a skipped element equals an earlier element");
        else if (K >= lo && K < hi) {
            bool any = false;
            for (std::uint64_t i = 0; i < K; ++i) any |= X(i) == X(K);
            vf_assert(any, "unique: a skipped element equals an earlier element");
        }
    }
    template<typename A> void uniq(A a) {
        uniq_setup();
        if (vf_symbolic_run()) gs::first<0> = vf_any_range("p", 0, len_max());
        vf_assume(gs::first<0> <= gs::n<0>);
        next_min = next_seen = gs::first<0>;                    // the elements before p have been inserted
        a([&] {
            vf_candidate(+[] { return asked != 3; });
            vf_candidate(+[] { return !(K >= next_min && K < next_seen) || (dup_k < K && X(dup_k) == X(K)); });
        }, [&](std::uint64_t lo, std::uint64_t hi, bool end) {
            skipped(lo, hi);
            vf_assert((K != hi) | end | (X(J) != X(K)), "unique: a yielded element differs from every earlier element");
            vf_assert(!vf_symbolic_run() || next_seen == (end ? hi : hi + 1), "unique: the elements looked at are those before the next step");
        });
    }
    template<typename A> void uniq_all(A a) {
        uniq_setup(bound);
        a();
        if (got_k) vf_assert(K < gs::n<0> && X(J) != X(K), "unique: a yielded element differs from every earlier element");
        else skipped(0, gs::n<0>);
        vf_cover(got_k ? "kept" : "dropped");
    }
}
VF_HARNESS(unique_call) { uniq([](auto b, auto d) { steps(dtl::unique(S<0, gs::forward>()), b, d); }); }
VF_HARNESS(unique_pipe) { uniq([](auto b, auto d) { steps(S<0, gs::single_pass>() | dtl::unique, b, d); }); }
VF_HARNESS(unique_ordered) { uniq([](auto b, auto d) { steps(ord_seq{} | dtl::unique, b, d); }); }
VF_HARNESS(bounded_unique_call) { uniq_all([] { consume(dtl::unique(S<0, gs::forward>())); }); }
VF_HARNESS(bounded_unique_pipe) { uniq_all([] { consume(S<0, gs::single_pass>() | dtl::unique); }); }
VF_HARNESS(bounded_unique_ordered) { uniq_all([] { consume(ord_seq{} | dtl::unique); }); }
