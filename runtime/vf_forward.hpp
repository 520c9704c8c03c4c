// Perfect forwarding contract: an object constructed from arguments gets those very arguments, each in its value
// category, in order, once. Arguments can be neither copied nor moved, so only references can pass through.
#pragma once
#include "vf.hpp"
#include <concepts>
#include <memory>
namespace vf {
    struct farg { std::uint64_t v; explicit farg(std::uint64_t x) noexcept : v{x} {} farg(farg const &) = delete; farg &operator=(farg const &) = delete; };
    inline int fw_calls, fw_n, fw_cat[4]; inline void const *fw_at[4];
    template<typename A> constexpr int category = (std::is_lvalue_reference_v<A> ? 0 : 2) + (std::is_const_v<std::remove_reference_t<A>> ? 1 : 0);
    // records its constructor arguments; copying and moving keeps the token it was given
    template<int Tag = 0> struct forwarded {
        int token = 0;
        forwarded() noexcept = default;
        template<typename ...A> requires (sizeof...(A) > 0 && (std::same_as<std::remove_cvref_t<A>, farg> && ...))
        explicit forwarded(A &&...a) : token{Tag * 100 + 7} { ++fw_calls; fw_n = sizeof...(A); int i = 0; ((fw_cat[i] = category<A &&>, fw_at[i] = std::addressof(a), ++i), ...); }
        friend bool operator==(forwarded const &, forwarded const &) = default;
        friend auto operator<=>(forwarded const &, forwarded const &) = default;
    };
    // make(args...) constructs a forwarded<Tag> from args
    template<typename F> void check_forward(F make) {
        farg a{1}, b{2}; farg const c{3}; farg const d{4};
        fw_calls = fw_n = 0;
        make(a, std::as_const(c), std::move(b), std::move(d));
        vf_assert(fw_calls == 1 && fw_n == 4, "the value is constructed once from all arguments");
        vf_assert(fw_cat[0] == 0 && fw_cat[1] == 1 && fw_cat[2] == 2 && fw_cat[3] == 3, "arguments are passed on in their value category");
        vf_assert(fw_at[0] == &a && fw_at[1] == &c && fw_at[2] == &b && fw_at[3] == &d, "the arguments themselves are passed on in order");
        fw_calls = fw_n = 0;
        make(std::move(a), b, std::move(c), d);
        vf_assert(fw_calls == 1 && fw_n == 4, "the value is constructed once from all arguments");
        vf_assert(fw_cat[0] == 2 && fw_cat[1] == 0 && fw_cat[2] == 3 && fw_cat[3] == 1, "arguments are passed on in their value category");
        vf_assert(fw_at[0] == &a && fw_at[1] == &b && fw_at[2] == &c && fw_at[3] == &d, "the arguments themselves are passed on in order");
    }
}
