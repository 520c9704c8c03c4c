// C30: the integer literal suffixes, for every value the suffix's type can represent.
#include "vf.hpp"
#include <dice/template-library/stdint.hpp>
#include <limits>
using namespace dice::template_library::literals;
namespace {
    template<typename T, typename F> void suffix(F f) {
        vf::reset();
        unsigned long long const x = vf_any_u64("x");
        vf_assume(x <= (unsigned long long) std::numeric_limits<T>::max());
        auto const r = f(x);
        vf_assert(std::is_same_v<decltype(f(x)), T>, "the literal has the named type");
        vf_assert((unsigned long long) r == x && r >= 0, "the literal has the written value");
    }
    // values the compiler itself writes down: types and extremes
    template<typename T> constexpr bool is(T const &v, T w) { return v == w; }
}
#define S(X, T) VF_HARNESS(suffix_##X) { suffix<T>([](unsigned long long v) { return operator""_##X(v); }); }
S(u8, std::uint8_t) S(i8, std::int8_t) S(u16, std::uint16_t) S(i16, std::int16_t) S(u32, std::uint32_t) S(i32, std::int32_t) S(u64, std::uint64_t) S(i64, std::int64_t)
S(usize, std::size_t) S(isize, std::ptrdiff_t) S(uptr, std::uintptr_t) S(iptr, std::intptr_t)
VF_HARNESS(written) {
    vf::reset();
    vf_assert(255_u8 == 255 && 0xff_u8 == 255 && 0b1010_u8 == 10 && 017_u8 == 15 && 1'0_u8 == 10, "every spelling of an integer literal is accepted");
    vf_assert(is(127_i8, std::int8_t{127}) && is(65535_u16, std::uint16_t{65535}) && is(32767_i16, std::int16_t{32767}) && is(4294967295_u32, std::uint32_t{4294967295u}) && is(2147483647_i32, std::int32_t{2147483647}), "the largest values are written as they are");
    vf_assert(is(18446744073709551615_u64, std::uint64_t{18446744073709551615ull}) && is(9223372036854775807_i64, std::int64_t{9223372036854775807}) && is(18446744073709551615_usize, std::size_t{18446744073709551615ull}) && is(9223372036854775807_isize, std::ptrdiff_t{9223372036854775807}) && is(18446744073709551615_uptr, std::uintptr_t{18446744073709551615ull}) && is(9223372036854775807_iptr, std::intptr_t{9223372036854775807}), "the largest values are written as they are");
    vf_assert(is(0_u8, std::uint8_t{0}) && is(0_i64, std::int64_t{0}), "zero");
}
VF_HARNESS(types) {
    vf::reset();
    vf_static(std::is_same_v<decltype(0_u8), std::uint8_t> && std::is_same_v<decltype(0_i8), std::int8_t> && std::is_same_v<decltype(0_u16), std::uint16_t> && std::is_same_v<decltype(0_i16), std::int16_t>);
    vf_static(std::is_same_v<decltype(0_u32), std::uint32_t> && std::is_same_v<decltype(0_i32), std::int32_t> && std::is_same_v<decltype(0_u64), std::uint64_t> && std::is_same_v<decltype(0_i64), std::int64_t>);
    vf_static(std::is_same_v<decltype(0_usize), std::size_t> && std::is_same_v<decltype(0_isize), std::ptrdiff_t> && std::is_same_v<decltype(0_uptr), std::uintptr_t> && std::is_same_v<decltype(0_iptr), std::intptr_t>);
}
