// C25: integral_template_variant over alternatives whose constructors, copies, moves and assignments may throw; index
// types and ranges are a finite selection (template arguments), everything at run time is arbitrary.
//@ trusted: std::variant is verified along (libstdc++ source)
#include "vf.hpp"
#include "vf_forward.hpp"
#include <dice/template-library/integral_template_variant.hpp>
#include <compare>
#include <memory>
#include <utility>
namespace dtl = dice::template_library;
namespace {
    using u8 = std::uint8_t; using u64 = std::uint64_t;
    template<auto First, decltype(First) Last, unsigned F> struct var {
        using I = decltype(First);
        static constexpr bool up = First < Last;
        static constexpr std::size_t n = up ? (std::size_t) (Last - First) : (std::size_t) (First - Last);
        static constexpr I ix(std::size_t k) { return up ? (I) (First + (I) k) : (I) (First - (I) k); }
        static constexpr std::size_t pos(I i) { return up ? (std::size_t) (i - First) : (std::size_t) (First - i); }
        template<I ix> struct X : vf::el<(int) (100 + (up ? (long) ix - (long) First : (long) First - (long) ix)), F> {
            using B = vf::el<(int) (100 + (up ? (long) ix - (long) First : (long) First - (long) ix)), F>;
            static constexpr I id = ix;
            using B::B;
            X() noexcept((F & vf::nt_ctor) != 0) : B{0} {}
            X(X const &) = default; X(X &&) = default; X &operator=(X const &) = default; X &operator=(X &&) = default;
        };
        using V = dtl::integral_template_variant<First, Last, X>;
        template<typename Fn> static void each(Fn f) { [&]<std::size_t ...K>(std::index_sequence<K...>) { (f.template operator()<K>(), ...); }(std::make_index_sequence<n>{}); }
        template<typename Fn> static void at(std::size_t k, Fn f) { each([&]<std::size_t K>() { if (K == k) f.template operator()<K>(); }); }
        // everything that can be asked agrees: it holds alternative k with value x
        static void is(V &v, std::size_t k, u64 x, char const *m) {
            vf_assert(v.index() == ix(k), m);
            each([&]<std::size_t K>() {
                using T = X<ix(K)>;
                vf_static(std::is_same_v<decltype(v.template get<ix(K)>()), T &> && std::is_same_v<decltype(std::as_const(v).template get<ix(K)>()), T const &>
                    && std::is_same_v<decltype(std::move(v).template get<ix(K)>()), T &&> && std::is_same_v<decltype(std::move(std::as_const(v)).template get<ix(K)>()), T const &&>);
                vf_assert(v.template holds_alternative<ix(K)>() == (K == k) && v.template holds_alternative<T>() == (K == k), "holds_alternative agrees with the index");
                bool bad = false;
                T const *p = nullptr, *q = nullptr, *r = nullptr;
                try { p = std::addressof(v.template get<ix(K)>()); q = std::addressof(std::as_const(v).template get<ix(K)>()); auto &&rr = std::move(v).template get<ix(K)>(); r = std::addressof(rr); }
                catch (std::bad_variant_access const &) { bad = true; }
                vf_assert(bad == (K != k), "get of another index throws bad_variant_access");
                if (!bad) vf_assert(p == q && p == r && vf::reg.live(p, 100 + (int) K) && p->v == x, m);
            });
            int calls = 0; void const *where = nullptr; bool right = false;
            u64 const got = v.visit([&]<I J>(X<J> &e) -> u64 { ++calls; where = std::addressof(e); right = J == ix(k); return e.v; });
            vf_assert(calls == 1 && right && got == x, "visit reaches the alternative held");
            void const *cw = std::as_const(v).visit([&]<I J>(X<J> const &e) -> void const * { ++calls; return std::addressof(e); });
            at(k, [&]<std::size_t K>() { vf_assert(where == std::addressof(v.template get<ix(K)>()) && cw == where, "visit reaches the very object get refers to"); });
            vf_static(std::is_same_v<decltype(v.to_underlying()), typename V::underlying_type &> && std::is_same_v<decltype(std::as_const(v).to_underlying()), typename V::underlying_type const &> && std::is_same_v<decltype(std::move(v).to_underlying()), typename V::underlying_type &&>);
            vf_assert(v.to_underlying().index() == k, "the underlying variant holds the same alternative");
        }
        static V *make(void *mem, std::size_t k, u64 x) {
            V *v = nullptr;
            at(k, [&]<std::size_t K>() { v = new (mem) V(std::in_place_type<X<ix(K)>>, x); });
            return v;
        }
        static std::size_t any_k(char const *m) { return vf_any_range(m, 0, n - 1); }
        static void construct() {
            vf::reset();
            alignas(V) char mem[sizeof(V)];
            std::size_t const k = any_k("k"); u64 const x = vf_any_u64("x");
            int const how = vf_choose("how", 4);
            {
                bool threw = false; V *v = nullptr; u64 left = x;
                at(k, [&]<std::size_t K>() {
                    X<ix(K)> src{x};
                    vf::throw_budget = 1;
                    try {
                        switch (how) { case 0: v = new (mem) V(std::as_const(src)); break; case 1: v = new (mem) V(std::move(src)); break; case 2: v = new (mem) V(std::in_place_type<X<ix(K)>>, x); break; default: v = new (mem) V(); }
                    } catch (vf::injected const &) { threw = true; }
                    vf::throw_budget = 0;
                    left = src.v;
                });
                vf_assert(threw == (vf::throws_done == 1), "an exception of the alternative reaches the caller");
                if (how == 0) vf_assert(left == x, "a copied value is not changed");
                if (!threw) { if (how == 3) is(*v, 0, 0, "a default constructed variant holds the first alternative"); else is(*v, k, x, "the variant holds the value it was constructed from"); v->~V(); }
                vf_cover(threw ? "threw" : "made");
            }
            vf_assert(vf::reg.n == 0, "every value is destroyed once");
        }
        static void copy_move() {
            vf::reset();
            alignas(V) char m1[sizeof(V)], m2[sizeof(V)];
            std::size_t const k = any_k("k"); u64 const x = vf_any_u64("x");
            V *a = make(m1, k, x), *b = nullptr;
            bool const mv = vf_any_bool("move"); bool threw = false;
            vf::throw_budget = 1;
            try { b = mv ? new (m2) V(std::move(*a)) : new (m2) V(std::as_const(*a)); } catch (vf::injected const &) { threw = true; }
            vf::throw_budget = 0;
            vf_assert(threw == (vf::throws_done == 1), "an exception of the alternative reaches the caller");
            if (!mv || threw) is(*a, k, x, "a source that was not moved is unchanged");
            else vf_assert(a->index() == ix(k), "a moved-from variant keeps its index");
            if (b) { is(*b, k, x, "a copy holds an equal value of the same index"); b->~V(); }
            a->~V();
            vf_assert(vf::reg.n == 0, "every value is destroyed once");
            vf_cover(threw ? "threw" : "copied");
        }
        static void assign() {
            vf::reset();
            alignas(V) char m1[sizeof(V)], m2[sizeof(V)];
            std::size_t const j = any_k("j"), k = any_k("k"); u64 const x = vf_any_u64("x"), y = vf_any_u64("y");
            V *a = make(m1, j, x), *b = make(m2, k, y);
            bool const mv = vf_any_bool("move"); bool threw = false;
            vf::throw_budget = 1;
            V *r = nullptr;
            try { r = mv ? &(*a = std::move(*b)) : &(*a = std::as_const(*b)); } catch (vf::injected const &) { threw = true; }
            vf::throw_budget = 0;
            vf_assert(threw == (vf::throws_done == 1), "an exception of the alternative reaches the caller");
            if (!threw) { is(*a, k, y, "an assigned variant holds an equal value of the same index"); vf_assert(r == a, "assignment returns the variant"); }
            if (!mv) is(*b, k, y, "a source that was not moved is unchanged");
            a->~V(); b->~V();
            vf_assert(vf::reg.n == 0, "every value is destroyed once");
            vf_cover(threw ? "threw" : "assigned");
        }
        static void emplace() {
            vf::reset();
            alignas(V) char m1[sizeof(V)];
            std::size_t const j = any_k("j"), k = any_k("k"); u64 const x = vf_any_u64("x"), y = vf_any_u64("y");
            V *a = make(m1, j, x);
            bool threw = false;
            vf::throw_budget = 1;
            at(k, [&]<std::size_t K>() {
                try { auto &r = a->template emplace<ix(K)>(y); vf_static(std::is_same_v<decltype(r), X<ix(K)> &>); vf_assert(std::addressof(r) == std::addressof(a->template get<ix(K)>()), "emplace returns the new value"); }
                catch (vf::injected const &) { threw = true; }
            });
            vf::throw_budget = 0;
            vf_assert(threw == (vf::throws_done == 1), "an exception of the alternative reaches the caller");
            if (!threw) is(*a, k, y, "an emplaced variant holds the new value");
            a->~V();
            vf_assert(vf::reg.n == 0, "every value is destroyed once");
            vf_cover(threw ? "threw" : "emplaced");
        }
        static void compare() {
            vf::reset();
            alignas(V) char m1[sizeof(V)], m2[sizeof(V)];
            std::size_t const j = any_k("j"), k = any_k("k"); u64 const x = vf_any_u64("x"), y = vf_any_u64("y");
            V *a = make(m1, j, x), *b = make(m2, k, y);
            int const want = j != k ? (j < k ? -1 : 1) : x != y ? (x < y ? -1 : 1) : 0;
            auto const r = *a <=> *b;
            vf_assert(want == 0 ? r == 0 : want < 0 ? r < 0 : r > 0, "comparison agrees with index and value");
            vf_assert((*a == *b) == (want == 0) && (*a != *b) == (want != 0) && (*a < *b) == (want < 0) && (*a <= *b) == (want <= 0), "comparison agrees with index and value");
            a->~V(); b->~V();
        }
        static void visit_throws() {
            vf::reset();
            alignas(V) char m1[sizeof(V)];
            std::size_t const k = any_k("k"); u64 const x = vf_any_u64("x");
            V *a = make(m1, k, x);
            bool threw = false;
            try { a->visit([&](auto &) { throw vf::injected{7}; }); } catch (vf::injected const &e) { threw = e.where == 7; }
            vf_assert(threw, "an exception of the visitor reaches the caller");
            is(*a, k, x, "visiting leaves the variant unchanged");
            std::move(*a).visit([&]<I J>(X<J> &&e) { vf_assert(e.v == x && J == ix(k), "an rvalue is visited as an rvalue"); });
            a->~V();
        }
        static void all() { switch (vf_choose("what", 4)) { case 0: construct(); break; case 1: copy_move(); break; case 2: emplace(); break; default: compare(); } }
    };
    template<int I> struct H { int v; friend bool operator==(H const &, H const &) = default; };
}
template<int I> struct std::hash<H<I>> { std::size_t operator()(H<I> const &h) const noexcept { return vf_uf("hash", (u64) (unsigned) h.v); } };
VF_HARNESS(construct) { var<1, 4, 0>::construct(); }
VF_HARNESS(construct_descending) { var<2, -1, 0>::construct(); }
VF_HARNESS(copy_move) { var<1, 4, 0>::copy_move(); }
VF_HARNESS(copy_move_descending) { var<2, -1, 0>::copy_move(); }
VF_HARNESS(copy_move_nothrow) { var<1, 4, vf::nothrow_all>::copy_move(); }
VF_HARNESS(assign) { var<1, 3, 0>::assign(); }
VF_HARNESS(assign_descending) { var<2, 0, 0>::assign(); }
VF_HARNESS(assign_nothrow) { var<1, 4, vf::nothrow_all>::assign(); }
VF_HARNESS(emplace) { var<1, 4, 0>::emplace(); }
VF_HARNESS(emplace_descending) { var<2, -1, 0>::emplace(); }
// exception specifications of the copy and of the move operations differ
VF_HARNESS(copy_throws) { var<1, 3, vf::nt_ctor | vf::nt_move>::copy_move(); }
VF_HARNESS(move_throws) { var<1, 3, vf::nt_ctor | vf::nt_copy>::copy_move(); }
VF_HARNESS(copy_throws_construct) { var<1, 3, vf::nt_move>::construct(); }
VF_HARNESS(move_throws_construct) { var<1, 3, vf::nt_copy>::construct(); }
VF_HARNESS(copy_throws_assign) { var<1, 3, vf::nt_ctor | vf::nt_move | vf::nt_massign>::assign(); }
VF_HARNESS(move_throws_assign) { var<1, 3, vf::nt_ctor | vf::nt_copy | vf::nt_cassign>::assign(); }
VF_HARNESS(compare) { var<-1, 2, vf::nothrow_all>::compare(); }
VF_HARNESS(compare_descending) { var<2, -1, vf::nothrow_all>::compare(); }
VF_HARNESS(visit) { if (vf_any_bool("up")) var<1, 4, vf::nothrow_all>::visit_throws(); else var<2, -1, vf::nothrow_all>::visit_throws(); }
VF_HARNESS(byte_index) { var<u8{253}, u8{255}, vf::nothrow_all>::all(); }
VF_HARNESS(byte_index_descending) { var<u8{2}, u8{0}, vf::nothrow_all>::all(); }
VF_HARNESS(wide_index) { var<std::int64_t{-2}, std::int64_t{1}, vf::nothrow_all>::all(); }
VF_HARNESS(unsigned_descending) { var<2u, 0u, vf::nothrow_all>::all(); }
VF_HARNESS(single) { if (vf_any_bool("up")) var<0, 1, vf::nothrow_all>::all(); else var<1, 0, vf::nothrow_all>::all(); }
VF_HARNESS(hash) {
    using V = dtl::integral_template_variant<0, 3, H>;
    int const x = (int) vf_any_u32("x"), y = (int) vf_any_u32("y");
    auto mk = [](int k, int v) -> V { if (k == 0) return V{H<0>{v}}; if (k == 1) return V{H<1>{v}}; return V{H<2>{v}}; };
    int const j = vf_choose("j", 3), k = vf_choose("k", 3);
    V const a = mk(j, x), b = mk(k, y);
    vf_assert((a == b) == (j == k && x == y), "comparison agrees with index and value");
    if (a == b) vf_assert(std::hash<V>{}(a) == std::hash<V>{}(b), "equal variants have equal hashes");
    vf_assert(std::hash<V>{}(a) == std::hash<V::underlying_type>{}(a.to_underlying()), "the hash is that of the underlying variant");
}
VF_HARNESS(no_alternatives) {
    dtl::integral_template_variant<3, 3, H> a, b;
    vf_assert(a == b && (a <=> b) == 0 && a.index() == 3, "empty variants are equal");
}

namespace {
    template<auto I> struct fwd_alt : vf::forwarded<(int) I> { using vf::forwarded<(int) I>::forwarded; };
    template<auto First, auto Last, auto I, auto J> void forwarding() {
        using V = dtl::integral_template_variant<First, Last, fwd_alt>;
        vf::check_forward([](auto &&...a) { V v{std::in_place_type<fwd_alt<I>>, std::forward<decltype(a)>(a)...}; vf_assert(v.index() == I && v.template get<I>().token == (int) I * 100 + 7, "in_place_type constructs that alternative"); });
        vf::check_forward([](auto &&...a) { V v{std::in_place_type<fwd_alt<J>>}; auto &r = v.template emplace<I>(std::forward<decltype(a)>(a)...); vf_assert(v.index() == I && &r == &v.template get<I>() && r.token == (int) I * 100 + 7, "emplace constructs that alternative"); });
        vf::check_forward([](auto &&...a) { V v{std::in_place_type<fwd_alt<I>>}; auto &r = v.template emplace<I>(std::forward<decltype(a)>(a)...); vf_assert(v.index() == I && &r == &v.template get<I>() && r.token == (int) I * 100 + 7, "emplace constructs that alternative"); });
    }
    // index arithmetic is that of the index type, everywhere in its range
    template<auto First, decltype(First) Last> void far() { var<First, Last, vf::nothrow_all>::all(); }
    using i64 = std::int64_t;
}
VF_HARNESS(forwarding_) { forwarding<0, 3, 0, 2>(); forwarding<0, 3, 2, 1>(); }
VF_HARNESS(forwarding_descending) { forwarding<3, 0, 3, 2>(); forwarding<3, 0, 1, 3>(); }
VF_HARNESS(far_up) { far<(i64{1} << 40), (i64{1} << 40) + 3>(); }
VF_HARNESS(far_down) { far<(i64{1} << 40), (i64{1} << 40) - 3>(); }
VF_HARNESS(far_negative) { if (vf_any_bool("up")) far<-(i64{1} << 40), -(i64{1} << 40) + 2>(); else far<-(i64{1} << 40), -(i64{1} << 40) - 2>(); }
VF_HARNESS(far_edge) { if (vf_any_bool("up")) far<INT64_MAX - 2, INT64_MAX>(); else far<INT64_MIN + 2, INT64_MIN>(); }
VF_HARNESS(far_unsigned) { if (vf_any_bool("up")) far<UINT64_MAX - 2, UINT64_MAX>(); else far<UINT64_MAX, UINT64_MAX - 2>(); }
VF_HARNESS(int_edge) { if (vf_any_bool("up")) far<INT32_MAX - 2, INT32_MAX>(); else far<INT32_MIN + 2, INT32_MIN>(); }

namespace {
    // elements that are not ordered (nor equal to themselves) when odd, like NaN
    template<std::size_t = 0> struct odd_one {
        u64 v;
        odd_one() noexcept : v{0} {}
        explicit odd_one(u64 x) noexcept : v{x} {}
        friend bool operator==(odd_one const &a, odd_one const &b) noexcept { return !((a.v | b.v) & 1) && a.v == b.v; }
        friend std::partial_ordering operator<=>(odd_one const &a, odd_one const &b) noexcept { return (a.v | b.v) & 1 ? std::partial_ordering::unordered : std::partial_ordering(a.v <=> b.v); }
    };
    template<auto> struct odd_alt : odd_one<> { using odd_one<>::odd_one; };
}
VF_HARNESS(unordered_values) {
    using V = dtl::integral_template_variant<2, 4, odd_alt>;
    u64 const x = vf_any_u64("x"), y = vf_any_u64("y");
    auto const mk = [](int k, u64 v) { return k == 0 ? V{std::in_place_type<odd_alt<2>>, v} : V{std::in_place_type<odd_alt<3>>, v}; };
    int const j = vf_choose("j", 2), k = vf_choose("k", 2);
    bool const self = vf_choose("with itself", 2) == 1;
    V const a = mk(j, x), other = mk(k, y);
    V const &b = self ? a : other;
    u64 const q = self ? x : y;
    int const l = self ? j : k;
    int const w = j != l ? (j < l ? -1 : 1) : ((x | q) & 1) ? 2 : x < q ? -1 : x > q ? 1 : 0;
    vf_assert((a == b) == (w == 0) && (a != b) == (w != 0), "equality agrees with index and value");
    auto const r = a <=> b;
    vf_assert((r < 0) == (w == -1) && (r > 0) == (w == 1) && (r == 0) == (w == 0), "comparison agrees with index and value");
    vf_assert((a < b) == (w == -1) && (a > b) == (w == 1) && (a <= b) == (w == -1 || w == 0) && (a >= b) == (w == 1 || w == 0), "comparison agrees with index and value");
}
