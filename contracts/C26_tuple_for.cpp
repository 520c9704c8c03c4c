// C26: tuple_fold, tuple_type_fold, tuple_for_each, tuple_type_for_each, for_types, for_values, for_range. The functions
// applied are ghost functions that check every application against the documented one (which element, which type, the
// accumulator the previous step returned) and return arbitrary values.
//@ assume: the functions given to the folds do not throw (the folds are noexcept)
#include "vf.hpp"
#include <dice/template-library/for.hpp>
#include <dice/template-library/tuple_algorithm.hpp>
#include <dice/template-library/standard_layout_tuple.hpp>
#include <array>
#include <string_view>
#include <tuple>
#include <utility>
namespace dtl = dice::template_library;
namespace {
    using u64 = std::uint64_t; using i8 = std::int8_t; using u8 = std::uint8_t; using i64 = std::int64_t;
    struct injected { int at; };
    // an accumulator that may not be lost, duplicated or read after it was moved from
    struct acc {
        u64 v; bool live;
        explicit acc(u64 x) noexcept : v{x}, live{true} {}
        acc(acc &&o) noexcept : v{o.v}, live{o.live} { vf_assert(o.live, "the accumulator is not moved from twice"); o.live = false; o.v = vf_any_u64("moved-from"); }
        acc &operator=(acc &&o) noexcept { vf_assert(o.live, "the accumulator is not moved from twice"); u64 const t = o.v; o.live = false; o.v = vf_any_u64("moved-from"); v = t; live = true; return *this; }
    };
    constexpr int cap = 12;
    void const *want_addr[cap]; int want_type[cap]; u64 want_val[cap]; u64 cur; int step_no, n_steps, throw_at;
    void reset(int n) { vf::reset(); step_no = 0; n_steps = n; throw_at = -1; for (auto &p : want_addr) p = nullptr; }
    template<typename T> int tid() { static char const x = 0; (void) x; if constexpr (std::is_same_v<T, u64>) return 1; else if constexpr (std::is_same_v<T, u8>) return 2; else if constexpr (std::is_same_v<T, i64>) return 3; else if constexpr (std::is_same_v<T, std::pair<u8, u64>>) return 4; else if constexpr (std::is_same_v<T, void>) return 5; else if constexpr (std::is_same_v<T, u8 &>) return 6; else if constexpr (std::is_same_v<T, u8 const>) return 7; else return 0; }
    u64 val(auto const &x) { if constexpr (requires { x.first; }) return x.first ^ x.second; else return (u64) x; }
    void visit(void const *a, u64 v, int type) {
        vf_assert(step_no < n_steps, "the function is applied once per item");
        if (want_addr[step_no]) vf_assert(a == want_addr[step_no], "the function is applied to the elements themselves, in order");
        if (want_type[step_no] >= 0) vf_assert(type == want_type[step_no], "every application is for the type of its item");
        vf_assert(v == want_val[step_no], "the function sees the item's value");
        ++step_no;
    }
    // move only function objects, to be forwarded
    struct once { once() = default; once(once &&) = default; once(once const &) = delete; };
    struct fold_fn : once {
        template<typename T> acc operator()(acc &&a, T &x) const noexcept {
            vf_static(std::is_const_v<T>);
            vf_assert(a.live && a.v == cur, "every step receives the accumulator of the one before");
            visit(&x, val(x), tid<std::remove_const_t<T>>());
            return acc{cur = vf_any_u64("step")};
        }
    };
    struct tfold_fn : once {
        template<typename T> acc operator()(acc &&a) const noexcept {
            vf_assert(a.live && a.v == cur, "every step receives the accumulator of the one before");
            visit(nullptr, 0, tid<T>());
            return acc{cur = vf_any_u64("step")};
        }
    };
    u64 results[cap];
    template<bool Const> struct each_fn : once {
        template<typename T> u64 &operator()(T &&x) {
            vf_static(std::is_const_v<std::remove_reference_t<T>> == Const);
            using E = std::remove_cvref_t<T>;
            visit(&x, val(x), tid<E>());
            if (step_no - 1 == throw_at) throw injected{throw_at};
            if constexpr (!Const && std::is_lvalue_reference_v<T>) { if constexpr (!requires { x.first; }) x = (E) ~(u64) x; }
            return results[step_no - 1];
        }
    };
    template<typename T> void fill(T &x) { if constexpr (requires { x.first; }) { x.first = vf_any_u8("x"); x.second = vf_any_u64("x"); } else x = (T) vf_any_u64("x"); }
    template<typename Tup> struct tup {
        static constexpr std::size_t N = std::tuple_size_v<Tup>;
        template<std::size_t I> static auto &at(Tup &t) { if constexpr (requires { t.template get<I>(); }) return t.template get<I>(); else return std::get<I>(t); }
        static void prepare(Tup &t) {
            reset((int) N);
            [&]<std::size_t ...I>(std::index_sequence<I...>) {
                ((fill(at<I>(t)), want_addr[I] = &at<I>(t), want_type[I] = tid<std::remove_cvref_t<std::tuple_element_t<I, Tup>>>(), want_val[I] = val(at<I>(t))), ...);
            }(std::make_index_sequence<N>{});
        }
        static void fold() {
            Tup t{}; prepare(t);
            cur = vf_any_u64("init");
            acc const r = dtl::tuple_fold(t, acc{cur}, fold_fn{});
            vf_static(std::is_same_v<decltype(dtl::tuple_fold(t, acc{cur}, fold_fn{})), acc>);
            vf_assert(step_no == (int) N && r.live && r.v == cur, "the last accumulator is returned");
        }
        // const and non-const lvalues as initial value: the result must not refer to anything that is gone
        static void fold_lvalue() {
            Tup t{}; prepare(t);
            u64 const init = vf_any_u64("init"); u64 init2 = init;
            cur = init;
            auto f = [](u64 a, auto const &x) noexcept { vf_assert(a == cur, "every step receives the accumulator of the one before"); visit(&x, val(x), tid<std::remove_cvref_t<decltype(x)>>()); return cur = vf_any_u64("step"); };
            u64 const r = dtl::tuple_fold(std::as_const(t), init, f);
            vf_assert(r == cur && step_no == (int) N, "the last accumulator is returned");
            step_no = 0; cur = init2;
            auto const &r2 = dtl::tuple_fold(t, init2, f);
            vf_assert(r2 == cur && step_no == (int) N && init2 == init, "the last accumulator is returned, the initial one is untouched");
        }
        static void type_fold() {
            reset((int) N);
            [&]<std::size_t ...I>(std::index_sequence<I...>) { ((want_type[I] = tid<std::tuple_element_t<I, Tup>>(), want_val[I] = 0), ...); }(std::make_index_sequence<N>{});
            u64 const init = cur = vf_any_u64("init");
            acc const r = dtl::tuple_type_fold<Tup>(acc{cur}, tfold_fn{});
            vf_assert(step_no == (int) N && r.live && r.v == cur, "the last accumulator is returned");
            step_no = 0; cur = init;
            auto f = []<typename T>(u64 a) noexcept { vf_assert(a == cur, "every step receives the accumulator of the one before"); visit(nullptr, 0, tid<T>()); return cur = vf_any_u64("step"); };
            auto const &r2 = dtl::tuple_type_fold<Tup>(init, f);
            vf_assert(r2 == cur && step_no == (int) N, "the last accumulator is returned");
        }
        static void each() {
            Tup t{}; prepare(t);
            int const how = vf_choose("how", 3);
            throw_at = vf_choose("throws", (int) N + 1);
            bool threw = false;
            u64 *r = nullptr;
            Tup before = t;
            try {
                if constexpr (N > 0) {
                    if (how == 0) { vf_static(std::is_same_v<decltype(dtl::tuple_for_each(t, each_fn<false>{})), u64 &>); r = &dtl::tuple_for_each(t, each_fn<false>{}); }
                    else if (how == 1) r = &dtl::tuple_for_each(std::as_const(t), each_fn<true>{});
                    else r = &dtl::tuple_for_each(std::move(t), each_fn<false>{});
                } else { if (how == 0) dtl::tuple_for_each(t, each_fn<false>{}); else if (how == 1) dtl::tuple_for_each(std::as_const(t), each_fn<true>{}); else dtl::tuple_for_each(std::move(t), each_fn<false>{}); }
            } catch (injected const &e) { threw = true; vf_assert(e.at == throw_at, "the function's exception arrives"); }
            vf_assert(threw == (throw_at < (int) N), "an exception of the function leaves the loop, no other does");
            vf_assert(step_no == (threw ? throw_at + 1 : (int) N), "every element is visited once, up to the one whose visit threw");
            if (!threw && N > 0) vf_assert(r == &results[N - 1], "the last result is returned as it was");
            if (how == 0) [&]<std::size_t ...I>(std::index_sequence<I...>) {
                ((void) [&] {
                    using E = std::remove_cvref_t<decltype(at<I>(t))>;
                    if constexpr (!requires(E e) { e.first; }) { bool const seen = (int) I < step_no && !((int) I == throw_at); vf_assert(at<I>(t) == (E) (seen ? ~(u64) at<I>(before) : (u64) at<I>(before)), "writes of the function reach the elements"); }
                }(), ...);
            }(std::make_index_sequence<N>{});
        }
        static void type_each() {
            reset((int) N);
            [&]<std::size_t ...I>(std::index_sequence<I...>) { ((want_type[I] = tid<std::tuple_element_t<I, Tup>>(), want_val[I] = 0), ...); }(std::make_index_sequence<N>{});
            throw_at = vf_choose("throws", (int) N + 1);
            bool threw = false;
            u64 *r = nullptr;
            auto f = []<typename T>() -> u64 & { visit(nullptr, 0, tid<T>()); if (step_no - 1 == throw_at) throw injected{throw_at}; return results[step_no - 1]; };
            try { if constexpr (N > 0) { vf_static(std::is_same_v<decltype(dtl::tuple_type_for_each<Tup>(f)), u64 &>); r = &dtl::tuple_type_for_each<Tup>(f); } else dtl::tuple_type_for_each<Tup>(f); }
            catch (injected const &e) { threw = true; vf_assert(e.at == throw_at, "the function's exception arrives"); }
            vf_assert(threw == (throw_at < (int) N) && step_no == (threw ? throw_at + 1 : (int) N), "every type is visited once, up to the one whose visit threw");
            if (!threw && N > 0) vf_assert(r == &results[N - 1], "the last result is returned as it was");
        }
    };
    // ------------------------------------------------------------ for_*
    struct tfn : once { template<typename T> void operator()() { visit(nullptr, 0, tid<T>()); if (step_no - 1 == throw_at) throw injected{throw_at}; } };
    template<typename ...Ts> void types() {
        reset(sizeof...(Ts));
        int i = 0;
        ((want_type[i] = tid<Ts>(), want_val[i++] = 0), ...);
        throw_at = vf_choose("throws", (int) sizeof...(Ts) + 1);
        bool threw = false;
        tfn f;
        vf_static(!noexcept(dtl::for_types<Ts...>(f)) || sizeof...(Ts) == 0);
        try { if (vf_any_bool("rvalue")) dtl::for_types<Ts...>(tfn{}); else dtl::for_types<Ts...>(f); } catch (injected const &e) { threw = true; vf_assert(e.at == throw_at, "the function's exception arrives"); }
        vf_assert(threw == (throw_at < (int) sizeof...(Ts)) && step_no == (threw ? throw_at + 1 : (int) sizeof...(Ts)), "every type is visited once, in order");
    }
    struct vfn : once { template<typename C> void operator()(C c) { vf_static(C::value == c()); visit(nullptr, (u64) C::value, tid<std::remove_const_t<decltype(C::value)>>()); if (step_no - 1 == throw_at) throw injected{throw_at}; } };
    template<auto ...xs> void values() {
        reset(sizeof...(xs));
        int i = 0;
        ((want_type[i] = tid<std::remove_const_t<decltype(xs)>>(), want_val[i++] = (u64) xs), ...);
        throw_at = vf_choose("throws", (int) sizeof...(xs) + 1);
        bool threw = false;
        vfn f;
        try { if (vf_any_bool("rvalue")) dtl::for_values<xs...>(vfn{}); else dtl::for_values<xs...>(f); } catch (injected const &e) { threw = true; vf_assert(e.at == throw_at, "the function's exception arrives"); }
        vf_assert(threw == (throw_at < (int) sizeof...(xs)) && step_no == (threw ? throw_at + 1 : (int) sizeof...(xs)), "every value is visited once, in order");
    }
    // the loop counter is checked as it goes, so ranges may be long
    i64 next_v; u64 seen; int stop_at;
    template<int Dir> struct rfn : once { template<typename C> void operator()(C) { vf_assert((i64) C::value == next_v, "for_range visits first, then one further (up or down) each time"); next_v += Dir; if ((int) seen++ == stop_at) throw injected{stop_at}; } };
    template<auto First, decltype(First) Last> void ranges() {
        vf::reset();
        constexpr i64 f = (i64) First, l = (i64) Last;
        constexpr i64 n = f < l ? l - f : f - l;
        next_v = f; seen = 0; stop_at = vf_choose("stop", 2) ? -1 : (int) (n / 2);
        bool threw = false;
        using fn = rfn<(f < l ? 1 : -1)>;
        fn g;
        try { if (vf_any_bool("rvalue")) dtl::for_range<First, Last>(fn{}); else dtl::for_range<First, Last>(g); } catch (injected const &e) { threw = true; vf_assert(e.at == stop_at, "the function's exception arrives"); }
        if (!threw) vf_assert((i64) seen == n && next_v == l, "for_range ends before last");
        else vf_assert(n > 0 && (int) seen == stop_at + 1, "an exception of the function ends the loop");
        if (n == 0) vf_assert(seen == 0, "an empty range calls nothing");
    }
}
#define T(N, ...) \
    VF_HARNESS(N##_fold) { tup<__VA_ARGS__>::fold(); } VF_HARNESS(N##_fold_lvalue) { tup<__VA_ARGS__>::fold_lvalue(); } VF_HARNESS(N##_type_fold) { tup<__VA_ARGS__>::type_fold(); } \
    VF_HARNESS(N##_each) { tup<__VA_ARGS__>::each(); } VF_HARNESS(N##_type_each) { tup<__VA_ARGS__>::type_each(); }
using tuple0 = std::tuple<>; using tuple1 = std::tuple<u8>; using tuple4 = std::tuple<u64, u8, i64, u8>; using pair2 = std::pair<u8, u64>; using array3 = std::array<u64, 3>; using nested = std::tuple<pair2, u64>; using slt = dtl::standard_layout_tuple<u64, u8, i64>;
T(tuple0, tuple0) T(tuple1, tuple1) T(tuple4, tuple4) T(pair2, pair2) T(array3, array3) T(nested, nested) T(slt, slt)
VF_HARNESS(types) { switch (vf_choose("case", 4)) { case 0: types<>(); break; case 1: types<void>(); break; case 2: types<u8, u64, u8>(); break; default: types<u8 &, u8 const, void, i64, u64>(); break; } }
VF_HARNESS(values) { switch (vf_choose("case", 4)) { case 0: values<>(); break; case 1: values<u64{5}>(); break; case 2: values<i64{-1}, u8{255}, u64{0}>(); break; default: values<u64{3}, u64{3}, u64{1}, ~u64{0}>(); break; } }
VF_HARNESS(range_up) { switch (vf_choose("case", 5)) { case 0: ranges<0, 1>(); break; case 1: ranges<-3, 4>(); break; case 2: ranges<u64{250}, u64{260}>(); break; case 3: ranges<u8{250}, u8{255}>(); break; default: ranges<i64{-5000000000}, i64{-4999999990}>(); break; } }
VF_HARNESS(range_down) { switch (vf_choose("case", 5)) { case 0: ranges<1, 0>(); break; case 1: ranges<4, -3>(); break; case 2: ranges<u64{10}, u64{0}>(); break; case 3: ranges<u8{5}, u8{0}>(); break; default: ranges<i8{127}, i8{120}>(); break; } }
VF_HARNESS(range_empty) { switch (vf_choose("case", 3)) { case 0: ranges<0, 0>(); break; case 1: ranges<u8{7}, u8{7}>(); break; default: ranges<i64{-1}, i64{-1}>(); break; } }
VF_HARNESS(range_long) { switch (vf_choose("case", 2)) { case 0: ranges<i8{-128}, i8{127}>(); break; default: ranges<i8{100}, i8{-100}>(); break; } }
// values far beyond int
VF_HARNESS(range_far) { constexpr i64 big = i64{1} << 40; switch (vf_choose("case", 7)) { case 0: ranges<big, big + 3>(); break; case 1: ranges<big, big - 3>(); break; case 2: ranges<-big, -big + 2>(); break; case 3: ranges<-big, -big - 2>(); break; case 4: ranges<INT64_MIN + 2, INT64_MIN>(); break; case 5: ranges<~u64{0} - 2, ~u64{0}>(); break; default: ranges<~u64{0}, ~u64{0} - 3>(); break; } }
VF_HARNESS(range_int_edge) { switch (vf_choose("case", 4)) { case 0: ranges<INT32_MAX - 2, INT32_MAX>(); break; case 1: ranges<INT32_MIN + 2, INT32_MIN>(); break; case 2: ranges<~0u, ~0u - 3>(); break; default: ranges<~0u - 3, ~0u>(); break; } }
