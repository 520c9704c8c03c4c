// Contract for pointer_tag_pair.hpp
//   requires  (pointer & tag_mask) == 0 && tag <= tag_mask
//   ensures   pointer() == pointer && tag() == tag, through every way in and out
//   ensures   from_tagged(tagged_pointer()) is the identity, comparison is that of the packed value
#include <vf.hpp>
#include <dice/template-library/pointer_tag_pair.hpp>
#include <cstdint>
using namespace dice::template_library;

namespace {
    struct alignas(1) A1 { char c; };
    struct alignas(2) A2 { char c; };
    struct alignas(8) A8 { long l; };
    struct alignas(64) A64 { long l; };
    struct Derived8 : A8 {};
    struct Base2 { virtual ~Base2() = default; long x; };
    struct Base3 { virtual ~Base3() = default; long y; };
    struct Multi : Base2, Base3 { long z; };
    enum struct E8 : unsigned char {};
    enum struct E64 : unsigned long {};

    template<typename T, typename Tag, unsigned Bits>
    struct world {
        using P = pointer_tag_pair<T, Tag, Bits>;
        static constexpr std::uintptr_t mask = (std::uintptr_t{1} << Bits) - 1;
        std::uintptr_t ptr;
        Tag tag;
        world() {
            ptr = vf::any<std::uintptr_t>("ptr");
            vf_assume((ptr & mask) == 0);
            if constexpr (std::is_enum_v<Tag>) tag = static_cast<Tag>(vf::any<std::underlying_type_t<Tag>>("tag"));
            else tag = vf::any<Tag>("tag");
            vf_assume(static_cast<std::uintptr_t>(tag) <= mask);
        }
        T *p() const { return reinterpret_cast<T *>(ptr); }
    };
    template<typename P, typename T, typename Tag>
    void check(P const &x, T *p, Tag tag) {
        vf_assert(x.pointer() == p, "pointer() returns the stored pointer");
        vf_assert(x.tag() == tag, "tag() returns the stored tag");
        vf_assert(get<0>(x) == p, "get<0> returns the stored pointer");
        vf_assert(get<1>(x) == tag, "get<1> returns the stored tag");
        auto [bp, bt] = x;
        vf_assert(bp == p && bt == tag, "structured bindings return pointer and tag");
        auto const cx = x;
        auto [cp, ct] = cx;
        vf_assert(cp == p && ct == tag, "const structured bindings return pointer and tag");
        auto y = P::from_tagged(x.tagged_pointer());
        vf_assert(y.pointer() == p && y.tag() == tag, "from_tagged(tagged_pointer()) is the identity");
        vf_assert(y == x && !(y != x) && (y <=> x) == 0, "round-tripped pair compares equal");
        vf_assert(y.tagged_pointer() == x.tagged_pointer(), "tagged_pointer is preserved");
    }
    template<typename T, typename Tag, unsigned Bits>
    void all() {
        using W = world<T, Tag, Bits>;
        using P = typename W::P;
        vf_assert(P::bits_requested == Bits, "bits_requested");
        W a;
        vf_cover("pair");
        if constexpr (requires { P{a.p(), a.tag}; }) check(P{a.p(), a.tag}, a.p(), a.tag);
        auto const o = P::template from_overaligned<(1u << Bits)>(a.p(), a.tag);
        check(o, a.p(), a.tag);
        check(P{nullptr, a.tag}, static_cast<T *>(nullptr), a.tag);
        check(P{}, static_cast<T *>(nullptr), Tag{});
        check(P{nullptr}, static_cast<T *>(nullptr), Tag{});
        // copy, assignment, swap; comparison against a second arbitrary pair
        W b;
        auto x = P::template from_overaligned<(1u << Bits)>(a.p(), a.tag), y = P::template from_overaligned<(1u << Bits)>(b.p(), b.tag);
        bool const same = a.ptr == b.ptr && a.tag == b.tag;
        vf_assert((x == y) == same, "== compares pointer and tag");
        vf_assert((x != y) == !same, "!= is the negation of ==");
        auto const va = a.ptr | static_cast<std::uintptr_t>(a.tag), vb = b.ptr | static_cast<std::uintptr_t>(b.tag);
        vf_assert(((x <=> y) < 0) == (va < vb) && ((x <=> y) > 0) == (va > vb), "<=> orders by packed value");
        vf_assert((x < y) == (va < vb) && (x <= y) == (va <= vb) && (x > y) == (va > vb) && (x >= y) == (va >= vb), "relational operators agree with <=>");
        swap(x, y);
        check(x, b.p(), b.tag);
        check(y, a.p(), a.tag);
        P z{x};
        check(z, b.p(), b.tag);
        z = y;
        check(z, a.p(), a.tag);
        check(y, a.p(), a.tag);
        swap(z, z);
        check(z, a.p(), a.tag);
    }
}
VF_HARNESS(a1_u8_0) { all<A1, unsigned char, 0>(); }
VF_HARNESS(a2_u8_1) { all<A2, unsigned char, 1>(); }
VF_HARNESS(a8_u8_3) { all<A8, unsigned char, 3>(); }
VF_HARNESS(a8_const_u16_2) { all<A8 const, unsigned short, 2>(); }
VF_HARNESS(a64_u32_6) { all<A64, unsigned, 6>(); }
VF_HARNESS(a64_enum8_5) { all<A64, E8, 5>(); }
VF_HARNESS(void_enum64_3) { all<void, E64, 3>(); }
VF_HARNESS(cvoid_u64_20) { all<void const, unsigned long, 20>(); }
VF_HARNESS(int_u64_2) { all<int, unsigned long, 2>(); }
VF_HARNESS(u64_bits_31) { all<A1, unsigned long, 31>(); }
VF_HARNESS(u64_bits_24) { all<A1, unsigned long, 24>(); }
VF_HARNESS(volatile_u8_1) { all<int volatile, unsigned char, 1>(); }

// a pointer to a derived class comes back as the pointer the conversion to T* gives
VF_HARNESS(derived_to_base) {
    static Derived8 d;
    auto const tag = static_cast<unsigned char>(vf_any_range("tag", 0, 7));
    check(pointer_tag_pair<A8, unsigned char, 3>{&d, tag}, static_cast<A8 *>(&d), tag);
}
VF_HARNESS(derived_to_second_base) {
    static Multi d;
    auto const tag = static_cast<unsigned char>(vf_any_range("tag", 0, 7));
    check(pointer_tag_pair<Base2, unsigned char, 3>{&d, tag}, static_cast<Base2 *>(&d), tag);
    check(pointer_tag_pair<Base3, unsigned char, 3>{&d, tag}, static_cast<Base3 *>(&d), tag);
    check(pointer_tag_pair<Base3, unsigned char, 3>::from_overaligned<8>(&d, tag), static_cast<Base3 *>(&d), tag);
}
