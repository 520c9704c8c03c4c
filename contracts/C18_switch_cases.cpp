// Contract for switch_cases.hpp
//   ensures   first..last in either order: condition in [min,max) invokes the case function exactly
//             once with integral_constant<condition> and returns its result; otherwise the default
//             is invoked exactly once and its result returned; nothing else is invoked
//   ensures   result category and exceptions pass through
#include <vf.hpp>
#include <dice/template-library/switch_cases.hpp>
#include <limits>
#include <memory>
using namespace dice::template_library;

namespace {
    int calls, dflt;
    template<auto first, decltype(first) last, typename T = decltype(first)>
    void two() {
        T const c = vf::any<T>("condition");
        calls = dflt = 0;
        T seen{};
        constexpr T mn = first < last ? first : last, mx = first < last ? last : first;
        auto const r = switch_cases<first, last>(c, [&](auto i) -> std::uint64_t {
            ++calls; seen = i;
            return vf_uf("case", static_cast<std::uint64_t>(i()));
        }, [&]() -> std::uint64_t { ++dflt; return vf_uf("default", 1); });
        if (mn <= c && c < mx) {
            vf_cover("case");
            vf_assert(calls == 1 && dflt == 0, "exactly one case runs");
            vf_assert(seen == c, "the matching case runs");
            vf_assert(r == vf_uf("case", static_cast<std::uint64_t>(c)), "the case result is returned");
        } else {
            vf_cover("default");
            vf_assert(calls == 0 && dflt == 1, "only the default runs");
            vf_assert(r == vf_uf("default", 1), "the default result is returned");
        }
    }
    template<auto last, typename T = decltype(last)>
    void one() {
        T const c = vf::any<T>("condition");
        calls = dflt = 0;
        T seen{};
        constexpr T mn = T{} < last ? T{} : last, mx = T{} < last ? last : T{};
        auto const r = switch_cases<last>(c, [&](auto i) -> std::uint64_t { ++calls; seen = i; return vf_uf("case", static_cast<std::uint64_t>(i())); },
                                          [&]() -> std::uint64_t { ++dflt; return vf_uf("default", 1); });
        if (mn <= c && c < mx) {
            vf_assert(calls == 1 && dflt == 0 && seen == c, "the matching case runs once");
            vf_assert(r == vf_uf("case", static_cast<std::uint64_t>(c)), "the case result is returned");
        } else {
            vf_assert(calls == 0 && dflt == 1, "only the default runs");
            vf_assert(r == vf_uf("default", 1), "the default result is returned");
        }
    }
    template<auto first, decltype(first) last, typename T = decltype(first)>
    void no_default() { // requires: condition in range
        T const c = vf::any<T>("condition");
        constexpr T mn = first < last ? first : last, mx = first < last ? last : first;
        vf_assume(mn <= c && c < mx);
        vf_cover("case");
        calls = 0;
        T seen{};
        auto const r = switch_cases<first, last>(c, [&](auto i) -> std::uint64_t { ++calls; seen = i; return vf_uf("case", static_cast<std::uint64_t>(i())); });
        vf_assert(calls == 1 && seen == c, "the matching case runs once");
        vf_assert(r == vf_uf("case", static_cast<std::uint64_t>(c)), "the case result is returned");
    }
    template<auto last, typename T = decltype(last)>
    void no_default1() {
        T const c = vf::any<T>("condition");
        vf_assume((T{} <= c && c < last) || (last <= c && c < T{}));
        vf_cover("case");
        calls = 0;
        T seen{};
        switch_cases<last>(c, [&](auto i) { ++calls; seen = i; });
        vf_assert(calls == 1 && seen == c, "the matching case runs once");
    }
    struct once {
        int *n;
        std::uint64_t operator()(auto i) && { ++*n; return static_cast<std::uint64_t>(i()); }
        std::uint64_t operator()() && { ++*n; return 1000; }
    };
    struct boom { std::uint64_t v; };
}
VF_HARNESS(u64_0_8) { two<std::uint64_t{0}, 8>(); }
VF_HARNESS(u64_8_0) { two<std::uint64_t{8}, 0>(); }
VF_HARNESS(int_m3_4) { two<-3, 4>(); }
VF_HARNESS(int_4_m3) { two<4, -3>(); }
VF_HARNESS(int_5_6) { two<5, 6>(); }
VF_HARNESS(int_6_5) { two<6, 5>(); }
VF_HARNESS(int_5_5) { two<5, 5>(); }
VF_HARNESS(int_max) { two<std::numeric_limits<int>::max() - 3, std::numeric_limits<int>::max()>(); }
VF_HARNESS(int_min) { two<std::numeric_limits<int>::min(), std::numeric_limits<int>::min() + 3>(); }
VF_HARNESS(i8_min) { two<std::int8_t{-128}, -120>(); }
VF_HARNESS(u8_max) { two<std::uint8_t{250}, 255>(); }
VF_HARNESS(i64_big) { two<std::int64_t{-5000000000}, -4999999997>(); }
VF_HARNESS(u16_3_17) { two<std::uint16_t{3}, 17>(); }
VF_HARNESS(int_0_40) { two<0, 40>(); }
VF_HARNESS(one_u64_5) { one<std::uint64_t{5}>(); }
VF_HARNESS(one_int_m4) { one<-4>(); }
VF_HARNESS(one_int_0) { one<0>(); }
VF_HARNESS(one_int_1) { one<1>(); }
VF_HARNESS(nd_int) { no_default<-2, 5>(); }
VF_HARNESS(nd_rev) { no_default<5, -2>(); }
VF_HARNESS(nd_single) { no_default<7, 8>(); }
VF_HARNESS(nd1_u8) { no_default1<std::uint8_t{9}>(); }
VF_HARNESS(nd1_neg) { no_default1<-3>(); }
VF_HARNESS(forwarding) {
    // references, move-only results and exceptions pass through
    int const c = static_cast<int>(vf::any<std::uint32_t>("condition"));
    static int slots[5];
    auto &&r = switch_cases<0, 4>(c, [&](auto i) -> int & { return slots[i]; }, [&]() -> int & { return slots[4]; });
    vf_assert(&r == &slots[(0 <= c && c < 4) ? c : 4], "a returned reference is the one the selected function returned");
    bool threw = false;
    std::uint64_t val = 0;
    try {
        auto p = switch_cases<2, 5>(c, [&](auto i) -> std::unique_ptr<int> { if (i() == 3) throw boom{3}; return std::make_unique<int>(i()); },
                           []() -> std::unique_ptr<int> { throw boom{99}; });
        val = static_cast<std::uint64_t>(*p);
    } catch (boom const &b) { threw = true; val = b.v; }
    if (c == 2 || c == 4) vf_assert(!threw && val == static_cast<std::uint64_t>(c), "move-only result is returned");
    else if (c == 3) vf_assert(threw && val == 3, "case exception propagates");
    else vf_assert(threw && val == 99, "default exception propagates");
}
VF_HARNESS(switch_bool_) {
    bool const c = vf_any_bool("condition");
    int t = 0, f = 0;
    auto const r = switch_bool(c, [&](auto b) -> std::uint64_t { if constexpr (b()) { ++t; return vf_uf("t", 1); } else { ++f; return vf_uf("f", 2); } });
    vf_assert(t == (c ? 1 : 0) && f == (c ? 0 : 1), "exactly the matching branch runs");
    vf_assert(r == (c ? vf_uf("t", 1) : vf_uf("f", 2)), "the branch result is returned");
    int s[2];
    auto &&ref = switch_bool(c, [&](auto b) -> int & { return s[b() ? 1 : 0]; });
    vf_assert(&ref == &s[c ? 1 : 0], "a returned reference passes through");
}
VF_HARNESS(forwarded_rvalue) {
    // the case function is invoked as an rvalue when given as one (used at most once)
    int n = 0;
    int const c = static_cast<int>(vf::any<std::uint32_t>("condition"));
    auto const r = switch_cases<0, 3>(c, once{&n}, once{&n});
    vf_assert(n == 1, "one invocation");
    vf_assert(r == ((0 <= c && c < 3) ? static_cast<std::uint64_t>(c) : 1000u), "result of the selected function");
    n = 0;
    bool const b = vf_any_bool("b");
    vf_assert(switch_bool(b, once{&n}) == (b ? 1u : 0u) && n == 1, "switch_bool invokes the function as given");
    n = 0;
    if (0 <= c && c < 3) vf_assert(switch_cases<0, 3>(c, once{&n}) == static_cast<std::uint64_t>(c) && n == 1, "without a default the function is invoked as given");
    n = 0;
    if (0 <= c && c < 3) vf_assert(switch_cases<3>(c, once{&n}) == static_cast<std::uint64_t>(c) && n == 1, "without a first value and a default the function is invoked as given");
    n = 0;
    vf_assert(switch_cases<3>(c, once{&n}, once{&n}) == ((0 <= c && c < 3) ? static_cast<std::uint64_t>(c) : 1000u) && n == 1, "without a first value the functions are invoked as given");
}
