// C09: comparison of flex_arrays is the lexicographical comparison of their live elements.
//@ assume: instantiations checked: element types u64, signed char, a class with its own <=>, a partially ordered class; extents 3 and 4 (static, limited), dynamic
//@ assume: sbo_dynamic_size mode needs ankerl/svector.h, which is not installed here, and is not covered
//@ bounded: bounded_.*: dynamic_size (std::vector) with up to 3 elements
#include <dice/template-library/flex_array.hpp>
#include "vf.hpp"

using namespace dice::template_library;
using u64 = std::uint64_t;

namespace {
    struct rev { // ordered the other way round, so a byte- or value-wise comparison is wrong
        u64 v = 0;
        u64 noise = 0;
        friend bool operator==(rev const &a, rev const &b) noexcept { return a.v == b.v; }
        friend std::strong_ordering operator<=>(rev const &a, rev const &b) noexcept { return b.v <=> a.v; }
    };
    struct part { // partially ordered: negative values are unordered with everything, themselves included (like NaN)
        std::int64_t v = 0;
        friend bool operator==(part const &a, part const &b) noexcept { return a.v >= 0 && b.v >= 0 && a.v == b.v; }
        friend std::partial_ordering operator<=>(part const &a, part const &b) noexcept {
            if (a.v < 0 || b.v < 0) return std::partial_ordering::unordered;
            return a.v <=> b.v;
        }
    };
    template<typename T> T make(char const *n) {
        if constexpr (std::is_same_v<T, rev>) return rev{vf_any_u64(n), vf_any_u64("noise")};
        else if constexpr (std::is_same_v<T, part>) return part{vf::any<std::int64_t>(n)};
        else return vf::any<T>(n);
    }
    template<typename T, std::size_t E, std::size_t M>
    struct suite {
        using FA = flex_array<T, E, M>;
        static constexpr bool fixed = E != dynamic_extent;
        static constexpr std::size_t most = fixed ? E : M != dynamic_extent ? M : 3;

        struct sample {
            T v[most];
            std::size_t n;
            FA f;
            static FA build(T *v, std::size_t &n) {
                for (std::size_t i = 0; i < most; ++i) v[i] = make<T>("element");
                FA r(v, v + most);                         // every slot has been written, also those beyond the logical size
                n = most;
                if constexpr (!fixed) {
                    n = static_cast<std::size_t>(vf_choose("size", static_cast<int>(most) + 1));
                    r.resize(n);
                }
                return r;
            }
            sample() : f{build(v, n)} {}
        };
        static int want(sample const &a, sample const &b) {
            for (std::size_t i = 0; i < a.n && i < b.n; ++i) {
                auto const o = a.v[i] <=> b.v[i];
                if (o < 0) return -1;
                if (o > 0) return 1;
            }
            return a.n < b.n ? -1 : a.n > b.n ? 1 : 0;
        }
        static void compare() {
            vf::reset();
            sample a, b;
            auto const w = want(a, b);
            FA const &x = a.f, &y = b.f;
            vf_assert((x == y) == (w == 0), "== iff sizes and all live elements are equal");
            vf_assert((x != y) == (w != 0), "!= is the negation of ==");
            auto const o = x <=> y;
            vf_assert((o < 0) == (w < 0) && (o > 0) == (w > 0) && (o == 0) == (w == 0), "<=> is lexicographical over the live elements");
            vf_assert((x < y) == (w < 0) && (x > y) == (w > 0), "< and > are lexicographical");
            vf_assert((x <= y) == (w <= 0) && (x >= y) == (w >= 0), "<= and >= are lexicographical");
            vf_assert(x == x && (x <=> x) == 0, "an array equals itself");
        }
        // elements that are not ordered (nor equal to themselves): the elements are asked, also when an array meets itself
        static void unordered() {
            vf::reset();
            sample a, b;
            bool const self = vf_choose("with itself", 2) == 1;
            FA const &x = a.f, &y = self ? a.f : b.f;
            sample const &s = a, &t = self ? a : b;
            int w = s.n < t.n ? -1 : s.n > t.n ? 1 : 0; // 2: unordered
            bool eq = w == 0;
            for (std::size_t i = s.n < t.n ? s.n : t.n; i > 0; --i) {
                auto const o = s.v[i - 1] <=> t.v[i - 1];
                if (o != 0) { eq = false; w = o < 0 ? -1 : o > 0 ? 1 : 2; }
            }
            vf_assert((x == y) == eq && (x != y) == !eq, "== iff sizes and all live elements are equal");
            auto const o = x <=> y;
            vf_assert((o < 0) == (w == -1) && (o > 0) == (w == 1) && (o == 0) == (w == 0), "<=> is lexicographical over the live elements");
            vf_assert((x < y) == (w == -1) && (x > y) == (w == 1), "< and > are lexicographical");
            vf_assert((x <= y) == (w == -1 || w == 0) && (x >= y) == (w == 1 || w == 0), "<= and >= are lexicographical");
        }
        static void kept() {
            vf::reset();
            sample a, b;
            FA const ca{a.f}, cb{b.f};
            vf_assert(ca == a.f && cb == b.f, "a copy is equal");
            switch (vf_choose("operation", 4)) {
                case 0: { FA m{std::move(a.f)}; vf_assert(m == ca, "a move keeps the contents"); break; }
                case 1: a.f = b.f; vf_assert(a.f == cb && b.f == cb, "copy assignment makes them equal"); break;
                case 2: a.f = std::move(b.f); vf_assert(a.f == cb, "move assignment keeps the contents"); break;
                case 3: swap(a.f, b.f); vf_assert(a.f == cb && b.f == ca && a.f.size() == cb.size() && b.f.size() == ca.size(), "swap exchanges the contents"); break;
            }
        }
    };
}
#define ALL(P, N, T, E, M) VF_HARNESS(P##N##_compare) { suite<T, E, M>::compare(); } VF_HARNESS(P##N##_kept) { suite<T, E, M>::kept(); }
constexpr auto D = dynamic_extent;
ALL(, static3, u64, 3, 3) ALL(, static4_schar, signed char, 4, 4) ALL(, static3_rev, rev, 3, 3)
ALL(, limited3, u64, D, 3) ALL(, limited4_schar, signed char, D, 4) ALL(, limited3_rev, rev, D, 3) ALL(, limited4_uchar, unsigned char, D, 4)
ALL(bounded_, dynamic, u64, D, D) ALL(bounded_, dynamic_rev, rev, D, D) ALL(bounded_, dynamic_schar, signed char, D, D)
#define PART(P, N, E, M) VF_HARNESS(P##N##_part_unordered) { suite<part, E, M>::unordered(); }
PART(, static3, 3, 3) PART(, limited3, D, 3) PART(bounded_, dynamic, D, D)
