// C22: the range predicates decide exactly what they claim, on sequences of unbounded length.
//@ assume: user predicates are pure: their result is a function of the element(s) they are given
#include "ghost_seq.hpp"
#include <dice/template-library/ranges.hpp>
namespace dtl = dice::template_library;
using item = gs::item<0>;

namespace {
    // the two sides of "r == forall k < n. P(k)": an arbitrary k for one direction, a witness for the other
    std::uint64_t wit_false, wit_true;
    bool P(std::uint64_t k) { return (vf_uf("pred", k) & 1) != 0; }
    struct pred {
        bool operator()(item x) const {
            x.check();
            bool const r = P(x.i);
            if (r) wit_true = x.i; else wit_false = x.i;
            return r;
        }
    };
    std::uint64_t K;
    void setup() {
        vf::reset();
        gs::seq_reset();
        gs::n<0> = vf::len("len");
        wit_false = wit_true = ~std::uint64_t{0};
        vf::inductive();
        K = vf_any_range("k", 0, vf_symbolic_run() ? (std::uint64_t{1} << 32) : 48);
        vf_index(K);
        vf_index(gs::n<0>);
        vf_fact(P(K));
        vf_function(&gs::value<0>);
    }
    bool inside(std::uint64_t w) { return w < gs::n<0>; }

    template<typename A> void all_true(A a) {
        setup();
        bool const r = a();
        if (r) vf_assert(!(K < gs::n<0>) || P(K), "all_of: true only if every element satisfies the predicate");
        else vf_assert(inside(wit_false) && !P(wit_false), "all_of: false only if some element does not satisfy the predicate");
        vf_cover(r ? "true" : "false");
    }
    template<typename A> void any_true(A a) {
        setup();
        bool const r = a();
        if (!r) vf_assert(!(K < gs::n<0>) || !P(K), "any_of: false only if no element satisfies the predicate");
        else vf_assert(inside(wit_true) && P(wit_true), "any_of: true only if some element satisfies the predicate");
        vf_cover(r ? "true" : "false");
    }
    template<gs::cat C> gs::seq<0, C> S() { return {}; }
}

#define EACH(NAME, CHECK, FN) \
    VF_HARNESS(NAME##_range) { CHECK([] { return FN(S<gs::forward>(), pred{}); }); } \
    VF_HARNESS(NAME##_iters) { CHECK([] { auto s = S<gs::forward>(); return FN(s.begin(), s.end(), pred{}); }); } \
    VF_HARNESS(NAME##_pipe) { CHECK([] { return S<gs::forward>() | FN(pred{}); }); } \
    VF_HARNESS(NAME##_input) { CHECK([] { return FN(S<gs::single_pass>(), pred{}); }); } \
    VF_HARNESS(NAME##_input_pipe) { CHECK([] { return S<gs::single_pass>() | FN(pred{}); }); } \
    VF_HARNESS(NAME##_stash) { CHECK([] { return FN(gs::stash_seq<0>{}, pred{}); }); } \
    VF_HARNESS(NAME##_random) { CHECK([] { return FN(S<gs::random>(), pred{}); }); }

namespace { template<typename A> void none_true(A a) { any_true([&] { return !a(); }); } }
EACH(all_of, all_true, dtl::all_of)
EACH(any_of, any_true, dtl::any_of)
EACH(none_of, none_true, dtl::none_of)

// ---------------------------------------------------------------- all_equal
namespace {
    std::uint64_t X(std::uint64_t k) { return gs::value<0>(k); }
    // an arbitrary binary predicate
    bool rel(std::uint64_t a, std::uint64_t b) { return (vf_uf("rel", vf_uf("rel1", a) + b) & 1) != 0; }
    std::uint64_t rel_a, rel_b;
    struct rel_pred {
        bool operator()(item const &a, item const &b) const {
            a.check(); b.check();
            bool const r = rel(a.v, b.v);
            if (!r) { rel_a = a.i; rel_b = b.i; }
            return r;
        }
    };
    template<typename A> void all_equal_true(A a) {
        setup();
        vf_fact(X(K) == X(0));
        bool const r = a();
        if (r) vf_assert(!(K < gs::n<0>) || X(K) == X(0), "all_equal: true only if all elements are equal");
        else vf_assert(inside(gs::neq_a) && inside(gs::neq_b) && X(gs::neq_a) != X(gs::neq_b), "all_equal: false only if two elements differ");
        vf_cover(r ? "true" : "false");
    }
    template<typename A> void all_equal_rel(A a) {
        setup();
        rel_a = rel_b = ~std::uint64_t{0};
        vf_fact(K == 0 || rel(X(K), X(0)));
        bool const r = a();
        if (r) vf_assert(!(K > 0 && K < gs::n<0>) || rel(X(K), X(0)), "all_equal: true only if the predicate relates every element to the first");
        else vf_assert(inside(rel_a) && rel_b == 0 && !rel(X(rel_a), X(rel_b)), "all_equal: false only if the predicate does not relate some element to the first");
        vf_cover(r ? "true" : "false");
    }
}
#define EACH_CAT(NAME, CHECK, FN) \
    VF_HARNESS(NAME##_range) { CHECK([] { return FN(S<gs::forward>()); }); } \
    VF_HARNESS(NAME##_iters) { CHECK([] { auto s = S<gs::forward>(); return FN(s.begin(), s.end()); }); } \
    VF_HARNESS(NAME##_pipe) { CHECK([] { return S<gs::forward>() | FN(); }); } \
    VF_HARNESS(NAME##_input) { CHECK([] { return FN(S<gs::single_pass>()); }); } \
    VF_HARNESS(NAME##_input_iters) { CHECK([] { auto s = S<gs::single_pass>(); return FN(s.begin(), s.end()); }); } \
    VF_HARNESS(NAME##_input_pipe) { CHECK([] { return S<gs::single_pass>() | FN(); }); } \
    VF_HARNESS(NAME##_stash) { CHECK([] { return FN(gs::stash_seq<0>{}); }); } \
    VF_HARNESS(NAME##_stash_iters) { CHECK([] { gs::stash_seq<0> s; return FN(s.begin(), s.end()); }); } \
    VF_HARNESS(NAME##_random) { CHECK([] { return FN(S<gs::random>()); }); }
EACH_CAT(all_equal, all_equal_true, dtl::all_equal)
VF_HARNESS(all_equal_pred_range) { all_equal_rel([] { return dtl::all_equal(S<gs::forward>(), rel_pred{}); }); }
VF_HARNESS(all_equal_pred_iters) { all_equal_rel([] { auto s = S<gs::forward>(); return dtl::all_equal(s.begin(), s.end(), rel_pred{}); }); }
VF_HARNESS(all_equal_pred_pipe) { all_equal_rel([] { return S<gs::forward>() | dtl::all_equal(rel_pred{}); }); }
VF_HARNESS(all_equal_pred_input) { all_equal_rel([] { return dtl::all_equal(S<gs::single_pass>(), rel_pred{}); }); }

// ---------------------------------------------------------------- is_sorted_unique
namespace {
    std::uint64_t key(std::uint64_t v) { return vf_uf("key", v); }       // an arbitrary projection: its order is an arbitrary strict weak order
    template<typename LESS> struct cmp {
        bool operator()(item const &a, item const &b) const {
            a.check(); b.check();
            bool const r = LESS{}(a.v, b.v);
            if (!r) { rel_a = a.i; rel_b = b.i; }
            return r;
        }
    };
    struct by_value { bool operator()(std::uint64_t a, std::uint64_t b) const { return a < b; } };
    struct by_key { bool operator()(std::uint64_t a, std::uint64_t b) const { return key(a) < key(b); } };
    struct by_desc { bool operator()(std::uint64_t a, std::uint64_t b) const { return a > b; } };
    std::uint64_t proj_calls_ok;
    struct proj { std::uint64_t operator()(item const &a) const { a.check(); return key(a.v); } };
    struct dproj { std::uint64_t operator()(item const &a) const { a.check(); return a.v; } };

    template<typename LESS, bool WITNESS, typename A> void sorted(A a) {
        setup();
        rel_a = rel_b = ~std::uint64_t{0};
        LESS less;
        vf_index(K + 1);
        vf_fact(less(X(K), X(K + 1)));
        bool const r = a();
        if (r) vf_assert(!(K + 1 < gs::n<0>) || less(X(K), X(K + 1)), "is_sorted_unique: true only if every element is less than its successor");
        else if constexpr (WITNESS) vf_assert(rel_a < rel_b && inside(rel_b) && !less(X(rel_a), X(rel_b)), "is_sorted_unique: false only if some element is not less than a later one");
        vf_cover(r ? "true" : "false");
    }
    template<typename A> void sorted_default(A a) {
        setup();
        vf_index(K + 1);
        vf_fact(X(K) < X(K + 1));
        bool const r = a();
        if (r) vf_assert(!(K + 1 < gs::n<0>) || X(K) < X(K + 1), "is_sorted_unique: true only if every element is less than its successor");
        else vf_assert(gs::nless_a < gs::nless_b && inside(gs::nless_b) && !(X(gs::nless_a) < X(gs::nless_b)), "is_sorted_unique: false only if some element is not less than a later one");
        vf_cover(r ? "true" : "false");
    }
}
EACH_CAT(is_sorted_unique, sorted_default, dtl::is_sorted_unique)
VF_HARNESS(is_sorted_unique_cmp_range) { sorted<by_key, true>([] { return dtl::is_sorted_unique(S<gs::forward>(), cmp<by_key>{}); }); }
VF_HARNESS(is_sorted_unique_cmp_iters) { sorted<by_key, true>([] { auto s = S<gs::forward>(); return dtl::is_sorted_unique(s.begin(), s.end(), cmp<by_key>{}); }); }
VF_HARNESS(is_sorted_unique_cmp_pipe) { sorted<by_desc, true>([] { return S<gs::forward>() | dtl::is_sorted_unique(cmp<by_desc>{}); }); }
VF_HARNESS(is_sorted_unique_cmp_input) { sorted<by_desc, true>([] { return dtl::is_sorted_unique(S<gs::single_pass>(), cmp<by_desc>{}); }); }
VF_HARNESS(is_sorted_unique_proj_range) { sorted<by_key, false>([] { return dtl::is_sorted_unique(S<gs::forward>(), std::ranges::less{}, proj{}); }); }
VF_HARNESS(is_sorted_unique_proj_pipe) { sorted<by_desc, false>([] { return S<gs::forward>() | dtl::is_sorted_unique(std::ranges::greater{}, dproj{}); }); }

// ---------------------------------------------------------------- empty / non_empty
namespace { template<typename A, typename B> void emptiness(A a, B b) {
    setup();
    bool const r = a(), q = b();
    vf_assert(r == (gs::n<0> == 0), "empty: true exactly for the empty range");
    vf_assert(q == (gs::n<0> != 0), "non_empty: true exactly for a non-empty range");
    vf_cover(r ? "true" : "false");
} }
VF_HARNESS(empty_range) { emptiness([] { return dtl::empty(S<gs::forward>()); }, [] { return dtl::non_empty(S<gs::forward>()); }); }
VF_HARNESS(empty_iters) { emptiness([] { auto s = S<gs::forward>(); return dtl::empty(s.begin(), s.end()); }, [] { auto s = S<gs::random>(); return dtl::non_empty(s.begin(), s.end()); }); }
VF_HARNESS(empty_pipe) { emptiness([] { return S<gs::forward>() | dtl::empty; }, [] { return S<gs::forward>() | dtl::non_empty; }); }
VF_HARNESS(empty_random) { emptiness([] { return dtl::empty(S<gs::random>()); }, [] { return S<gs::random>() | dtl::non_empty; }); }

// ---------------------------------------------------------------- all_distinct
// std::unordered_set / std::set are replaced by their contract while proving (natively the real ones run):
// insert(x) succeeds exactly if no element inserted before is equivalent to x.
//@ trusted: std::unordered_set and std::set insertion (contract: insert(x).second iff no equivalent element was inserted before)
template<> struct std::hash<item> { std::size_t operator()(item const &x) const { return x.v & 3; } };
namespace {
    struct key_eq { bool operator()(item const &a, item const &b) const { return (a.v & 3) == (b.v & 3); } };
    struct ord : item {};                                    // ordered, not hashable
    bool operator<(ord const &a, ord const &b) { a.check(); b.check(); return a.v < b.v; }
    struct ord_iter : gs::iter<0, gs::forward> {
        using base = gs::iter<0, gs::forward>;
        using base::base;
        using value_type = ord; using reference = ord;
        ord operator*() const { return ord{base::operator*()}; }
        ord_iter &operator++() { base::operator++(); return *this; }
        ord_iter operator++(int) { auto c = *this; ++*this; return c; }
        friend bool operator==(ord_iter const &a, ord_iter const &b) { return a.pos == b.pos; }
        friend bool operator==(ord_iter const &a, gs::end_t e) { return static_cast<base const &>(a) == e; }
    };
    struct ord_seq : std::ranges::view_base { auto begin() const { return ord_iter{0}; } auto end() const { return gs::end_t{}; } };

    using uset = std::unordered_set<item, std::hash<item>, std::ranges::equal_to>;
    using kset = std::unordered_set<item, std::hash<item>, key_eq>;
    using oset = std::set<ord>;

    std::uint64_t K2, in1, in2, hi, dup_w, dup_i;
    template<typename EQ> bool ghost_insert(std::uint64_t i, EQ eq) {
        bool const fresh = vf_any_bool("fresh");
        if (fresh) {
            if (in1) vf_assume(!eq(X(i), X(K)));
            if (in2) vf_assume(!eq(X(i), X(K2)));
        } else {
            dup_w = vf_any_u64("duplicate of"); dup_i = i;
            vf_assume(dup_w < hi && eq(X(dup_w), X(i)));
        }
        if (i == K) in1 = 1;
        if (i == K2) in2 = 1;
        if (i >= hi) hi = i + 1;
        return fresh;
    }
    struct veq { bool operator()(std::uint64_t a, std::uint64_t b) const { return a == b; } };
    struct keq { bool operator()(std::uint64_t a, std::uint64_t b) const { return (a & 3) == (b & 3); } };

    template<typename EQ, typename A> void distinct(A a) {
        setup();
        EQ eq;
        K2 = vf_any_range("k2", 0, vf_symbolic_run() ? (std::uint64_t{1} << 32) : 48);
        vf_assume(K < K2);
        in1 = in2 = hi = 0; dup_w = dup_i = ~std::uint64_t{0};
        vf_forget();
        vf_index(K);
        vf_index(K2);
        vf_index(gs::n<0>);
        vf_value(1);
        vf_fact(!eq(X(K), X(K2)));
        bool const r = a();
        if (r) vf_assert(!(K2 < gs::n<0>) || !eq(X(K), X(K2)), "all_distinct: true only if no two elements are equal");
        else if (vf_symbolic_run()) vf_assert(dup_w != dup_i && dup_w < gs::n<0> && dup_i < gs::n<0> && eq(X(dup_w), X(dup_i)), "all_distinct: false only if two elements are equal");
        else {
            bool any = false;
            for (std::uint64_t i = 0; i < gs::n<0>; ++i) for (std::uint64_t j = 0; j < i; ++j) any |= eq(X(i), X(j));
            vf_assert(any, "all_distinct: false only if two elements are equal");
        }
        vf_cover(r ? "true" : "false");
    }
}
#ifndef VF_NATIVE
#define STUB extern "C" __attribute__((used)) inline
STUB std::pair<uset::iterator, bool> vfs__ZNSt13unordered_setIN2gs6item_tESt4hashIS1_ENSt6ranges8equal_toESaIS1_EE6insertEOS1_(uset *, item &x) { return {uset::iterator{}, ghost_insert(x.i, veq{})}; }
STUB std::pair<uset::iterator, bool> vfs__ZNSt13unordered_setIN2gs6item_tESt4hashIS1_ENSt6ranges8equal_toESaIS1_EE6insertERKS1_(uset *, item const &x) { return {uset::iterator{}, ghost_insert(x.i, veq{})}; }
STUB std::pair<kset::iterator, bool> vfs__ZNSt13unordered_setIN2gs6item_tESt4hashIS1_EN12_GLOBAL__N_16key_eqESaIS1_EE6insertEOS1_(kset *, item &x) { return {kset::iterator{}, ghost_insert(x.i, keq{})}; }
STUB std::pair<kset::iterator, bool> vfs__ZNSt13unordered_setIN2gs6item_tESt4hashIS1_EN12_GLOBAL__N_16key_eqESaIS1_EE6insertERKS1_(kset *, item const &x) { return {kset::iterator{}, ghost_insert(x.i, keq{})}; }
STUB std::pair<oset::iterator, bool> vfs__ZNSt3setIN12_GLOBAL__N_13ordESt4lessIS1_ESaIS1_EE6insertEOS1_(oset *, ord &x) { return {oset::iterator{}, ghost_insert(x.i, veq{})}; }
STUB std::pair<oset::iterator, bool> vfs__ZNSt3setIN12_GLOBAL__N_13ordESt4lessIS1_ESaIS1_EE6insertERKS1_(oset *, ord const &x) { return {oset::iterator{}, ghost_insert(x.i, veq{})}; }
STUB std::size_t vfs__ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(std::__detail::_Prime_rehash_policy const *, std::size_t) { return 1; }
#endif
EACH_CAT(all_distinct, distinct<veq>, dtl::all_distinct)
VF_HARNESS(all_distinct_pred_range) { distinct<keq>([] { return dtl::all_distinct(S<gs::forward>(), key_eq{}); }); }
VF_HARNESS(all_distinct_pred_pipe) { distinct<keq>([] { return S<gs::single_pass>() | dtl::all_distinct(key_eq{}); }); }
VF_HARNESS(all_distinct_ordered) { distinct<veq>([] { return dtl::all_distinct(ord_seq{}); }); }
VF_HARNESS(all_distinct_ordered_pipe) { distinct<veq>([] { return ord_seq{} | dtl::all_distinct(); }); }
