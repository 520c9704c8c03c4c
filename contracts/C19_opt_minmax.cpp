// C19: opt_min / opt_max / opt_minmax on sequences of unbounded length, of values and of optionals, under every
// strict weak order. Ghost state: the fold the specification talks about (the first extremal present element of
// the part of the sequence that has been read).
//@ assume: user comparators are pure strict weak orders (every such order is some key function followed by <)
//@ bounded: bounded_.*: initializer lists of up to 3 elements (their element form is proved for every length)
#include "ghost_seq.hpp"
#include <dice/template-library/opt_minmax.hpp>
namespace dtl = dice::template_library;
namespace {
    using u64 = std::uint64_t;
    enum order { by_value, by_desc, by_key };
    u64 key(u64 v) { return vf_uf("key", v); }
    template<order O> bool less(u64 a, u64 b) {
        if constexpr (O == by_value) return a < b;
        else if constexpr (O == by_desc) return a > b;
        else return key(a) < key(b);
    }
    u64 X(u64 k) { return gs::value<0>(k); }
    bool present(u64 k) { return (vf_uf("present", k) & 1) != 0; }
    template<bool OPT> bool there(u64 k) { if constexpr (OPT) return present(k); else return true; }
    struct item {
        u64 v, i;
        void check() const { vf_assert(i < gs::n<0> && v == X(i), "comparisons are only applied to elements of the range"); }
        friend bool operator==(item const &a, item const &b) { a.check(); b.check(); return a.v == b.v; }
        friend bool operator<(item const &a, item const &b) { a.check(); b.check(); return a.v < b.v; }
        friend bool operator>(item const &a, item const &b) { return b < a; }
        friend bool operator<=(item const &a, item const &b) { return !(b < a); }
        friend bool operator>=(item const &a, item const &b) { return !(a < b); }
    };
    using oitem = std::optional<item>;
    // comparators assert that they are applied to elements of the sequence that are present
    template<order O, bool OPT> struct cmp {
        bool operator()(item const &a, item const &b) const {
            a.check(); b.check();
            vf_assert(there<OPT>(a.i) && there<OPT>(b.i), "the comparator is only applied to present values");
            return less<O>(a.v, b.v);
        }
    };
    u64 K, seen, mn, mx;                                       // elements before `seen` have been read
    bool any;
    template<order O, bool OPT> void read(u64 k) {
        if (k < seen) return;                                  // read again
        vf_assert(k == seen, "the elements are read in order");
        seen = k + 1;
        if (!there<OPT>(k)) return;
        if (!any) { any = true; mn = mx = k; return; }
        if (less<O>(X(k), X(mn))) mn = k;
        if (less<O>(X(mx), X(k))) mx = k;
    }
    template<order O, bool OPT, gs::cat C> struct it {
        using value_type = std::conditional_t<OPT, oitem, item>;
        using difference_type = std::ptrdiff_t;
        using reference = value_type;
        using iterator_concept = std::conditional_t<C == gs::single_pass, std::input_iterator_tag, std::forward_iterator_tag>;
        gs::iter<0, C> base;
        value_type operator*() const {
            auto const g = *base;
            item const x{g.v, g.i};
            read<O, OPT>(base.pos);
            if constexpr (OPT) { if (present(base.pos)) return x; return std::nullopt; }
            else return x;
        }
        it &operator++() { ++base; return *this; }
        it operator++(int) { auto c = *this; ++*this; return c; }
        friend bool operator==(it const &a, it const &b) requires (C != gs::single_pass) { return a.base == b.base; }
        friend bool operator==(it const &a, gs::end_t e) { return a.base == e; }
    };
    template<order O, bool OPT, gs::cat C> struct sq : std::ranges::view_base {
        auto begin() const { gs::head<0> = 0; return it<O, OPT, C>{gs::iter<0, C>{0}}; }
        auto end() const { return gs::end_t{}; }
    };
    template<order O, bool OPT> void setup() {
        vf::reset();
        gs::seq_reset();
        gs::n<0> = vf::len("len");
        seen = mn = mx = 0; any = false;
        vf::inductive();
        K = vf_any_range("k", 0, vf_symbolic_run() ? (u64{1} << 32) : 48);
        vf_index(K);
        vf_index(gs::n<0>);
        vf_function(&X);
        vf_candidate(+[] { return any || K >= seen || !there<OPT>(K); });
        vf_candidate(+[] { return !any || there<OPT>(mn); });
        vf_candidate(+[] { return !any || there<OPT>(mx); });
        vf_candidate(+[] { return mn < seen || !any; });
        vf_candidate(+[] { return mx < seen || !any; });
        vf_candidate(+[] { return K >= seen || !there<OPT>(K) || !less<O>(X(K), X(mn)); });
        vf_candidate(+[] { return K >= seen || !there<OPT>(K) || !less<O>(X(mx), X(K)); });
        vf_candidate(+[] { return K >= mn || !there<OPT>(K) || less<O>(X(mn), X(K)); });
        vf_candidate(+[] { return K >= mx || !there<OPT>(K) || less<O>(X(K), X(mx)); });
    }
    // the ghost fold meets the specification, for an arbitrary element K
    template<order O, bool OPT> void none_present() { vf_assert(K >= gs::n<0> || !there<OPT>(K), "nullopt only if no element has a value"); vf_cover("none"); }
    void is_element(item const &x) { vf_assert(x.i < gs::n<0> && x.v == X(x.i) && any, "otherwise the value of an element"); vf_cover("some"); }
    template<order O, bool OPT> void is_min(item const &x) {
        is_element(x);
        vf_assert(there<OPT>(x.i), "the minimum is present");
        if (K < gs::n<0> && there<OPT>(K)) {
            vf_assert(!less<O>(X(K), x.v), "no present element is less than the minimum");
            vf_assert(K >= x.i || less<O>(x.v, X(K)), "the minimum is the first of the least present elements");
        }
    }
    template<order O, bool OPT> void is_max(item const &x) {
        is_element(x);
        vf_assert(there<OPT>(x.i), "the maximum is present");
        if (K < gs::n<0> && there<OPT>(K)) {
            vf_assert(!less<O>(x.v, X(K)), "no present element is greater than the maximum");
            vf_assert(K >= x.i || less<O>(X(K), x.v), "the maximum is the first of the greatest present elements");
        }
    }
    template<order O, bool OPT, typename A> void c_min(A a) { setup<O, OPT>(); oitem const r = a(); if (r) is_min<O, OPT>(*r); else none_present<O, OPT>(); }
    template<order O, bool OPT, typename A> void c_max(A a) { setup<O, OPT>(); oitem const r = a(); if (r) is_max<O, OPT>(*r); else none_present<O, OPT>(); }
    template<order O, bool OPT, typename A> void c_minmax(A a) {
        setup<O, OPT>();
        std::optional<dtl::opt_minmax_result<item>> const r = a();
        if (r) { is_min<O, OPT>(r->min); is_max<O, OPT>(r->max); } else none_present<O, OPT>();
    }
}
#define FORMS(N, CHECK, FN, OPT) \
    VF_HARNESS(N##_range) { CHECK<by_value, OPT>([] { return FN(sq<by_value, OPT, gs::forward>{}); }); } \
    VF_HARNESS(N##_range_cmp) { CHECK<by_key, OPT>([] { return FN(sq<by_key, OPT, gs::forward>{}, cmp<by_key, OPT>{}); }); } \
    VF_HARNESS(N##_iters) { CHECK<by_value, OPT>([] { sq<by_value, OPT, gs::forward> s; return FN(s.begin(), s.end()); }); } \
    VF_HARNESS(N##_iters_cmp) { CHECK<by_desc, OPT>([] { sq<by_desc, OPT, gs::forward> s; return FN(s.begin(), s.end(), cmp<by_desc, OPT>{}); }); } \
    VF_HARNESS(N##_pipe) { CHECK<by_value, OPT>([] { return sq<by_value, OPT, gs::forward>{} | FN(); }); } \
    VF_HARNESS(N##_pipe_cmp) { CHECK<by_key, OPT>([] { return sq<by_key, OPT, gs::forward>{} | FN(cmp<by_key, OPT>{}); }); } \
    VF_HARNESS(N##_input) { CHECK<by_key, OPT>([] { return FN(sq<by_key, OPT, gs::single_pass>{}, cmp<by_key, OPT>{}); }); } \
    VF_HARNESS(N##_input_pipe) { CHECK<by_value, OPT>([] { return sq<by_value, OPT, gs::single_pass>{} | FN(); }); }
FORMS(min_values, c_min, dtl::opt_min_element, false)
FORMS(max_values, c_max, dtl::opt_max_element, false)
FORMS(minmax_values, c_minmax, dtl::opt_minmax_element, false)
FORMS(min_optionals, c_min, dtl::opt_min_element, true)
FORMS(max_optionals, c_max, dtl::opt_max_element, true)
FORMS(minmax_optionals, c_minmax, dtl::opt_minmax_element, true)

// ---------------------------------------------------------------- binary and initializer-list forms
namespace {
    template<order O> void pair_setup(u64 n) { setup<O, true>(); vf::inductive(false); gs::n<0> = n; any = true; }
    oitem nth(u64 k) { if (present(k)) return item{X(k), k}; return std::nullopt; }
    using C = cmp<by_key, true>;
    template<typename R> void chk_min(R const &r) { if (r) is_min<by_key, true>(*r); else none_present<by_key, true>(); }
    template<typename R> void chk_max(R const &r) { if (r) is_max<by_key, true>(*r); else none_present<by_key, true>(); }
    template<typename R> void chk_both(R const &r) { if (r) { is_min<by_key, true>(r->min); is_max<by_key, true>(r->max); } else none_present<by_key, true>(); }
    template<typename R> void chk_min_d(R const &r) { if (r) is_min<by_value, true>(*r); else none_present<by_value, true>(); }
    template<typename R> void chk_max_d(R const &r) { if (r) is_max<by_value, true>(*r); else none_present<by_value, true>(); }
    template<typename R> void chk_both_d(R const &r) { if (r) { is_min<by_value, true>(r->min); is_max<by_value, true>(r->max); } else none_present<by_value, true>(); }
}
VF_HARNESS(binary_min) { pair_setup<by_key>(2); oitem const a = nth(0), b = nth(1); chk_min(dtl::opt_min(a, b, C{})); vf_assert(a.has_value() == present(0) && b.has_value() == present(1), "arguments are left alone"); }
VF_HARNESS(binary_max) { pair_setup<by_key>(2); oitem const a = nth(0), b = nth(1); chk_max(dtl::opt_max(a, b, C{})); }
VF_HARNESS(binary_minmax) { pair_setup<by_key>(2); oitem const a = nth(0), b = nth(1); chk_both(dtl::opt_minmax(a, b, C{})); }
VF_HARNESS(binary_min_default) { pair_setup<by_value>(2); oitem const a = nth(0), b = nth(1); chk_min_d(dtl::opt_min(a, b)); }
VF_HARNESS(binary_max_default) { pair_setup<by_value>(2); oitem const a = nth(0), b = nth(1); chk_max_d(dtl::opt_max(a, b)); }
VF_HARNESS(binary_minmax_default) { pair_setup<by_value>(2); oitem const a = nth(0), b = nth(1); chk_both_d(dtl::opt_minmax(a, b)); }
#define LIST(N, CHK, FN, ORD, ...) \
    VF_HARNESS(bounded_##N##_0) { pair_setup<ORD>(0); CHK(FN(std::initializer_list<oitem>{} __VA_ARGS__)); } \
    VF_HARNESS(bounded_##N##_1) { pair_setup<ORD>(1); CHK(FN({nth(0)} __VA_ARGS__)); } \
    VF_HARNESS(bounded_##N##_2) { pair_setup<ORD>(2); CHK(FN({nth(0), nth(1)} __VA_ARGS__)); } \
    VF_HARNESS(bounded_##N##_3) { pair_setup<ORD>(3); CHK(FN({nth(0), nth(1), nth(2)} __VA_ARGS__)); }

LIST(list_min, chk_min, dtl::opt_min, by_key, , C{})
LIST(list_max, chk_max, dtl::opt_max, by_key, , C{})
LIST(list_minmax, chk_both, dtl::opt_minmax, by_key, , C{})
LIST(list_min_default, chk_min_d, dtl::opt_min, by_value)
LIST(list_max_default, chk_max_d, dtl::opt_max, by_value)
LIST(list_minmax_default, chk_both_d, dtl::opt_minmax, by_value)
