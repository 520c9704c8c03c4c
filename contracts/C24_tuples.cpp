// C24: standard_layout_tuple and integral_template_tuple for element values, index ranges and directions; the types and
// indices are a finite selection (they are template arguments), everything at run time is arbitrary.
#include "vf.hpp"
#include <dice/template-library/integral_template_tuple.hpp>
#include <compare>
#include <memory>
#include <string_view>
#include <utility>
namespace dtl = dice::template_library;
namespace {
    using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
    struct A { u64 v; explicit A(u64 x) noexcept : v{x} {} A(A const &) = default; A(A &&o) noexcept : v{o.v} { o.v = vf_any_u64("moved"); } A &operator=(A const &) = default; friend auto operator<=>(A const &, A const &) = default; };
    struct B { u64 v; explicit B(u64 x) noexcept : v{x} {} friend auto operator<=>(B const &, B const &) = default; };
    struct C3 { u8 b[3]; explicit C3(u64 x) noexcept { b[0] = (u8) x; b[1] = (u8) (x >> 8); b[2] = (u8) (x >> 16); } };
    struct empty { explicit empty(u64) noexcept {} friend auto operator<=>(empty const &, empty const &) = default; };
    template<typename T> u64 val(T const &t) {
        if constexpr (std::is_integral_v<T>) return (u64) t;
        else if constexpr (std::is_same_v<T, C3>) return t.b[0] | (u64) t.b[1] << 8 | (u64) t.b[2] << 16;
        else if constexpr (std::is_same_v<T, empty>) return 0;
        else return t.v;
    }
    template<typename T> u64 cut(u64 x) { if constexpr (std::is_same_v<T, C3>) return x & 0xffffff; else if constexpr (std::is_same_v<T, empty>) return 0; else if constexpr (std::is_integral_v<T>) return (u64) (T) x; else return x; }
    template<typename T> T make(u64 x) { if constexpr (std::is_integral_v<T>) return (T) x; else return T{x}; }
    template<typename T> char const *at(T const &t) { return reinterpret_cast<char const *>(std::addressof(t)); }

    template<typename ...Ts> struct tuples {
        using tup = dtl::standard_layout_tuple<Ts...>;
        static constexpr std::size_t n = sizeof...(Ts);
        template<std::size_t I> using el = std::tuple_element_t<I, std::tuple<Ts...>>;
        u64 x[n];
        tuples() { for (u64 &v : x) v = vf_any_u64("x"); }
        template<typename F> static void each(F f) { [&]<std::size_t ...I>(std::index_sequence<I...>) { (f.template operator()<I>(), ...); }(std::make_index_sequence<n>{}); }
        template<std::size_t I> void is(tup &t, char const *m) const { vf_assert(val(t.template get<I>()) == cut<el<I>>(x[I]), m); }
        void all(tup &t, char const *m) const { each([&]<std::size_t I>() { is<I>(t, m); }); }
        tup *build(void *p, int how) const {
            return [&]<std::size_t ...I>(std::index_sequence<I...>) {
                std::tuple<Ts...> src{make<Ts>(x[I])...};
                if (how == 0) return new (p) tup{std::get<I>(src)...};
                if (how == 1) return new (p) tup{std::as_const(std::get<I>(src))...};
                if (how == 2) return new (p) tup{std::move(std::get<I>(src))...};
                return new (p) tup{dtl::individual_construct, std::get<I>(src)...};
            }(std::make_index_sequence<n>{});
        }
        void places(tup &t) const {
            char const *prev = nullptr;
            each([&]<std::size_t I>() {
                using T = el<I>;
                vf_static(std::is_same_v<decltype(t.template get<I>()), T &>);
                vf_static(std::is_same_v<decltype(std::as_const(t).template get<I>()), T const &>);
                vf_static(std::is_same_v<decltype(std::move(t).template get<I>()), T &&>);
                vf_static(std::is_same_v<decltype(std::move(std::as_const(t)).template get<I>()), T const &&>);
                T &r = t.template get<I>();
                T const &c = std::as_const(t).template get<I>();
                T &&m = std::move(t).template get<I>();
                T const &&mc = std::move(std::as_const(t)).template get<I>();
                vf_assert(at(r) == at(c) && at(r) == at(m) && at(r) == at(mc), "every value category reaches the same element");
                vf_assert(at(r) >= at(t) && at(r) + sizeof(T) <= at(t) + sizeof(tup), "elements lie inside the tuple");
                if constexpr (!std::is_empty_v<T>) { vf_assert(!prev || at(r) >= prev, "elements do not overlap"); prev = at(r) + sizeof(T); }
                vf_assert((reinterpret_cast<std::uintptr_t>(at(r)) - reinterpret_cast<std::uintptr_t>(at(t))) % alignof(T) == 0, "elements are aligned");
                if constexpr (((std::is_same_v<T, Ts> ? 1 : 0) + ...) == 1) {
                    vf_static(std::is_same_v<decltype(t.template get<T>()), T &> && std::is_same_v<decltype(std::as_const(t).template get<T>()), T const &> && std::is_same_v<decltype(std::move(t).template get<T>()), T &&>);
                    vf_assert(at(t.template get<T>()) == at(r) && at(std::as_const(t).template get<T>()) == at(r), "access by type reaches the same element");
                }
                is<I>(t, "get refers to the element constructed from the corresponding argument");
            });
        }
        void run() {
            alignas(64) char mem[sizeof(tup)];
            vf_static(tup::size() == n && std::tuple_size_v<tup> == n);
            each([]<std::size_t I>() { vf_static(std::is_same_v<std::tuple_element_t<I, tup>, el<I>>); });
            tup *t = build(mem, vf_choose("construct", 4));
            places(*t);
            each([&]<std::size_t I>() {
                if constexpr (std::is_assignable_v<el<I> &, el<I>>) {
                    u64 const y = vf_any_u64("y"), old = x[I];
                    t->template get<I>() = make<el<I>>(y);
                    x[I] = y;
                    all(*t, "a write through get changes exactly that element");
                    (void) old;
                }
            });
            tup c = *t;                       // copies are element-wise
            all(c, "a copy has equal elements"); all(*t, "copying leaves the source unchanged");
            tup m = std::move(c);
            all(m, "a moved tuple has the elements moved");
            tup d{std::as_const(*t)};
            all(d, "a copy has equal elements");
            std::destroy_at(t);
        }
        void uniform() {
            alignas(64) char mem[sizeof(tup)];
            u64 const y = vf_any_u64("y");
            for (u64 &v : x) v = y;
            tup *t = new (mem) tup{dtl::uniform_construct, y};
            places(*t);
            std::destroy_at(t);
        }
        // elements constructed from an argument that is worth moving from
        void uniform_rvalue() {
            struct src { u64 v; };
            struct taker { u64 v; explicit taker(src const &s) noexcept : v{s.v} {} explicit taker(src &s) noexcept : v{s.v} {} explicit taker(src &&s) noexcept : v{s.v} { s.v = vf_any_u64("moved from"); } };
            u64 const y = vf_any_u64("y");
            src s{y};
            [&]<std::size_t ...I>(std::index_sequence<I...>) {
                dtl::standard_layout_tuple<std::conditional_t<I + 1 != 0, taker, void>...> t{dtl::uniform_construct, std::move(s)};
                vf_assert(((t.template get<I>().v == y) && ...), "uniform construction gives every element the same argument, an rvalue too");
            }(std::make_index_sequence<n>{});
        }
        template<std::size_t O, std::size_t N> static void sub(tup &t, char const *m = "subtuple refers to the elements it spans") {
            auto &s = t.template subtuple<O, N>();
            auto &cs = std::as_const(t).template subtuple<O, N>();
            auto &&ms = std::move(t).template subtuple<O, N>();
            using S = std::remove_reference_t<decltype(s)>;
            vf_static(std::is_same_v<decltype(cs), S const &> && std::is_same_v<decltype(ms), S &&>);
            vf_static(S::size() == N);
            vf_assert(at(s) == at(cs) && at(s) == at(ms), "every value category reaches the same subtuple");
            if constexpr (N > 0) [&]<std::size_t ...I>(std::index_sequence<I...>) {
                ((void) [&] {
                    vf_static(std::is_same_v<std::remove_cvref_t<decltype(s.template get<I>())>, el<O + I>>);
                    vf_assert(at(s.template get<I>()) == at(t.template get<O + I>()), m);
                }(), ...);
            }(std::make_index_sequence<N>{});
        }
        template<std::size_t O, std::size_t N> void sub_writes(tup &t) {
            auto &s = t.template subtuple<O, N>();
            if constexpr (N > 0) [&]<std::size_t ...I>(std::index_sequence<I...>) {
                ((void) [&] {
                    u64 const y = vf_any_u64("y"), z = vf_any_u64("z");
                    s.template get<I>() = make<el<O + I>>(y);
                    x[O + I] = y; all(t, "a write through the subtuple is seen by the tuple");
                    t.template get<O + I>() = make<el<O + I>>(z);
                    x[O + I] = z;
                    vf_assert(val(s.template get<I>()) == cut<el<O + I>>(z), "a write through the tuple is seen by the subtuple");
                }(), ...);
            }(std::make_index_sequence<N>{});
        }
        void subs() {
            alignas(64) char mem[sizeof(tup)];
            tup *t = build(mem, 0);
            each([&]<std::size_t O>() { [&]<std::size_t ...N>(std::index_sequence<N...>) { (sub<O, N>(*t), ...); (sub_writes<O, N>(*t), ...); }(std::make_index_sequence<n - O + 1>{}); });
            std::destroy_at(t);
        }
        void compare() {
            alignas(64) char m1[sizeof(tup)], m2[sizeof(tup)];
            tup *a = build(m1, 0);
            tuples o;
            tup *b = o.build(m2, 0);
            int want = 0;
            each([&]<std::size_t I>() { u64 const p = cut<el<I>>(x[I]), q = cut<el<I>>(o.x[I]); if (want == 0 && p != q) { if constexpr (std::is_signed_v<el<I>>) want = (std::int64_t) p < (std::int64_t) q ? -1 : 1; else want = p < q ? -1 : 1; } });
            auto const r = *a <=> *b;
            vf_assert(want == 0 ? r == 0 : want < 0 ? r < 0 : r > 0, "comparison is element-wise lexicographic");
            vf_assert((*a == *b) == (want == 0) && (*a != *b) == (want != 0) && (*a < *b) == (want < 0) && (*a >= *b) == (want >= 0), "comparison is element-wise lexicographic");
            std::destroy_at(a); std::destroy_at(b);
        }
    };
    // a type whose construction, copy and move may throw and whose life is counted
    using E = vf::el<1>; using N = vf::el<2, vf::nothrow_all>;

    // ------------------------------------------------------------------ integral_template_tuple
    template<auto First, decltype(First) Last> struct itt {
        using I = decltype(First);
        template<I ix> struct X { u64 v; static constexpr I id = ix; X() noexcept : v{0} {} explicit X(u64 x) noexcept : v{x} {} friend auto operator<=>(X const &, X const &) = default; };
        using tup = dtl::integral_template_tuple<First, Last, X>;
        static constexpr bool up = First < Last;
        static constexpr std::size_t n = up ? (std::size_t) (Last - First) : (std::size_t) (First - Last);
        static constexpr I ix(std::size_t k) { return up ? (I) (First + (I) k) : (I) (First - (I) k); }
        u64 x[n];
        itt() { for (u64 &v : x) v = vf_any_u64("x"); }
        tup build() const { return [&]<std::size_t ...K>(std::index_sequence<K...>) { return tup{x[K]...}; }(std::make_index_sequence<n>{}); }
        template<typename F> static void each(F f) { [&]<std::size_t ...K>(std::index_sequence<K...>) { (f.template operator()<K>(), ...); }(std::make_index_sequence<n>{}); }
        static void check_all(tup &t, u64 const *w, char const *m) { each([&]<std::size_t K>() { vf_assert(t.template get<ix(K)>().v == w[K], m); }); }
        void run() {
            tup t = build();
            char const *prev = nullptr;
            each([&]<std::size_t K>() {
                using T = X<ix(K)>;
                vf_static(std::is_same_v<decltype(t.template get<ix(K)>()), T &> && std::is_same_v<decltype(std::as_const(t).template get<ix(K)>()), T const &>
                    && std::is_same_v<decltype(std::move(t).template get<ix(K)>()), T &&> && std::is_same_v<decltype(std::move(std::as_const(t)).template get<ix(K)>()), T const &&>);
                T &r = t.template get<ix(K)>();
                vf_assert(r.v == x[K], "get refers to the element constructed from the corresponding argument");
                auto &&m = std::move(t).template get<ix(K)>(); auto &&mc = std::move(std::as_const(t)).template get<ix(K)>();
                vf_assert(at(std::as_const(t).template get<ix(K)>()) == at(r) && at(m) == at(r) && at(mc) == at(r), "every value category reaches the same element");
                vf_assert(!prev || at(r) >= prev, "elements do not overlap"); prev = at(r) + sizeof(T);
            });
            each([&]<std::size_t K>() { u64 const y = vf_any_u64("y"); t.template get<ix(K)>().v = y; x[K] = y; check_all(t, x, "a write through get changes exactly that element"); });
            tup c = t; check_all(c, x, "a copy has equal elements");
            tup u{dtl::uniform_construct, x[0]}; each([&]<std::size_t K>() { vf_assert(u.template get<ix(K)>().v == x[0], "uniform construction gives every element the same argument"); });
            tup d; each([&]<std::size_t K>() { vf_assert(d.template get<ix(K)>().v == 0, "default construction default-constructs every element"); });
        }
        void visits() {
            tup t = build();
            std::size_t seen = 0; bool ok = true;
            auto visitor = [&]<I J>(X<J> &e) -> u64 { bool m = false; each([&]<std::size_t K>() { if constexpr (ix(K) == J) m = seen == K && at(e) == at(t.template get<J>()); }); ok = ok && m; ++seen; return e.v; };
            u64 const r = t.visit(visitor);
            vf_assert(ok && seen == n, "visit reaches every element once in index order");
            vf_assert(r == x[n - 1], "visit returns what the last call returned");
            seen = 0; ok = true;
            auto cvisitor = [&]<I J>(X<J> const &e) -> u64 const & { bool m = false; each([&]<std::size_t K>() { if constexpr (ix(K) == J) m = seen == K && at(e) == at(t.template get<J>()); }); ok = ok && m; ++seen; return e.v; };
            decltype(auto) q = std::as_const(t).visit(cvisitor);
            vf_static(std::is_same_v<decltype(q), u64 const &>);
            vf_assert(ok && seen == n, "visit reaches every element once in index order");
            vf_assert(&q == &t.template get<ix(n - 1)>().v, "visit returns what the last call returned");
            seen = 0; ok = true;
            std::move(t).visit([&](auto &&e) { ++seen; });
            vf_assert(seen == n, "visit reaches every element once in index order");
            // a visitor that throws stops the visit
            std::size_t const stop = vf_any_range("stop", 0, n); seen = 0; bool threw = false;
            try { t.visit([&](auto &) { if (seen == stop) throw vf::injected{1}; ++seen; }); } catch (vf::injected const &) { threw = true; }
            vf_assert(threw == (stop < n) && seen == stop, "an exception of the visitor reaches the caller");
        }
        template<std::size_t O, std::size_t N> void sub(tup &t) {
            constexpr I a = ix(O), b = up ? (I) (a + (I) N) : (I) (a - (I) N);
            auto &s = t.template subtuple<a, b>();
            auto &cs = std::as_const(t).template subtuple<a, b>();
            vf_static(std::is_same_v<decltype(s), dtl::integral_template_tuple<a, b, X> &> && std::is_same_v<decltype(cs), dtl::integral_template_tuple<a, b, X> const &>
                && std::is_same_v<decltype(std::move(t).template subtuple<a, b>()), dtl::integral_template_tuple<a, b, X> &&>);
            vf_assert(at(s) == at(cs), "every value category reaches the same subtuple");
            [&]<std::size_t ...K>(std::index_sequence<K...>) {
                ((void) [&] {
                    auto &e = s.template get<ix(O + K)>();
                    vf_assert(at(e) == at(t.template get<ix(O + K)>()), "subtuple refers to the elements it spans");
                    u64 const y = vf_any_u64("y"), z = vf_any_u64("z");
                    e.v = y; x[O + K] = y; check_all(t, x, "a write through the subtuple is seen by the tuple");
                    t.template get<ix(O + K)>().v = z; x[O + K] = z;
                    vf_assert(s.template get<ix(O + K)>().v == z && cs.template get<ix(O + K)>().v == z, "a write through the tuple is seen by the subtuple");
                }(), ...);
            }(std::make_index_sequence<N>{});
        }
        void subs() {
            tup t = build();
            each([&]<std::size_t O>() { [&]<std::size_t ...N>(std::index_sequence<N...>) { (sub<O, N + 1>(t), ...); }(std::make_index_sequence<n - O>{}); });
        }
        void compare() {
            tup a = build(); itt o; tup b = o.build();
            int want = 0;
            for (std::size_t k = 0; k < n; ++k) if (want == 0 && x[k] != o.x[k]) want = x[k] < o.x[k] ? -1 : 1;
            auto const r = a <=> b;
            vf_assert(want == 0 ? r == 0 : want < 0 ? r < 0 : r > 0, "comparison is element-wise lexicographic");
            vf_assert((a == b) == (want == 0), "comparison is element-wise lexicographic");
        }
        static void all() { switch (vf_choose("what", 4)) { case 0: itt{}.run(); break; case 1: itt{}.visits(); break; case 2: itt{}.subs(); break; default: itt{}.compare(); } }
    };
}
VF_HARNESS(get_same) { tuples<A, A, A>{}.run(); }
VF_HARNESS(get_two) { tuples<A, B>{}.run(); }
VF_HARNESS(get_one) { tuples<A>{}.run(); }
VF_HARNESS(get_mixed) { tuples<u8, u32, u16, u64, u8, C3>{}.run(); }
VF_HARNESS(get_shrinking) { tuples<u64, u32, u16, u8>{}.run(); }
VF_HARNESS(get_empty) { tuples<A, empty, u8, empty>{}.run(); }
VF_HARNESS(get_uniform_rvalue) { if (vf_any_bool("n")) tuples<A, B, A, u64>{}.uniform_rvalue(); else tuples<A>{}.uniform_rvalue(); }
VF_HARNESS(get_move_only) {
    struct mo { u64 v; explicit mo(u64 x) noexcept : v{x} {} mo(mo &&o) noexcept : v{o.v} { o.v = vf_any_u64("moved from"); } };
    u64 const x = vf_any_u64("x"), y = vf_any_u64("y");
    mo a{x}, b{y};
    bool const tag = vf_any_bool("tag");
    using tup = dtl::standard_layout_tuple<mo, u64, mo>;
    tup t = tag ? tup{dtl::individual_construct, std::move(a), y, std::move(b)} : tup{std::move(a), y, std::move(b)};
    vf_assert(t.get<0>().v == x && t.get<1>() == y && t.get<2>().v == y, "elements are constructed from arguments that can only be moved");
    mo c = std::move(t).get<0>();
    vf_assert(c.v == x && t.get<2>().v == y, "an element can be moved out");
}
VF_HARNESS(get_uniform) { if (vf_any_bool("n")) tuples<A, B, A, u64>{}.uniform(); else tuples<A>{}.uniform(); }
VF_HARNESS(subtuple_same) { tuples<A, A, A, A>{}.subs(); }
VF_HARNESS(subtuple_types) { tuples<A, B, u64, A>{}.subs(); }
VF_HARNESS(subtuple_small) { tuples<u8, u8, C3, u8>{}.subs(); }
VF_HARNESS(subtuple_shrinking) { tuples<u64, u32, u16, u8>{}.subs(); }
VF_HARNESS(subtuple_mixed_alignment) {
    tuples<u8, u8, u64> t;
    alignas(64) char mem[sizeof(t.build(nullptr, 0)) * 8];
    auto *p = t.build(mem, 0);
    decltype(t)::sub<0, 2>(*p, "subtuple refers to the elements it spans, also if elements after it have a larger alignment");
}
VF_HARNESS(compare_tuples) { switch (vf_choose("which", 3)) { case 0: tuples<A, B, A>{}.compare(); break; case 1: tuples<u8, std::int32_t, u64, u8>{}.compare(); break; default: tuples<A>{}.compare(); } }
VF_HARNESS(element_lifetime) {
    // elements are constructed in order, destroyed once, and exceptions of their constructors reach the caller
    vf::reset();
    u64 const x = vf_any_u64("x"), y = vf_any_u64("y"), z = vf_any_u64("z");
    {
        using tup = dtl::standard_layout_tuple<E, N, E>;
        bool threw = false;
        vf::throw_budget = 1;
        try { tup t{x, y, z}; vf::throw_budget = 0; vf_assert(t.get<0>().v == x && t.get<1>().v == y && t.get<2>().v == z && vf::ctors == 3, "elements are constructed from the arguments, once each"); }
        catch (vf::injected const &) { threw = true; }
        vf_assert(threw == (vf::throws_done == 1), "an exception of an element reaches the caller");
        vf::throw_budget = 0;
        vf_cover(threw ? "threw" : "made");
    }
    vf_assert(vf::reg.n == 0, "every element is destroyed once");
}
VF_HARNESS(structured_binding) {
    u64 const x = vf_any_u64("x"), y = vf_any_u64("y");
    dtl::standard_layout_tuple<A, B> t{x, y};
    auto &[a, b] = t;
    vf_assert(&a == &t.get<0>() && &b == &t.get<1>(), "structured bindings name the elements");
    auto const [c, d] = t;
    vf_assert(c.v == x && d.v == y, "structured bindings name the elements");
}
VF_HARNESS(no_elements) {
    dtl::standard_layout_tuple<> a, b{dtl::individual_construct}, c{dtl::uniform_construct, 1, 2};
    vf_assert(a == b && (b <=> c) == 0 && a.size() == 0 && &a.subtuple<0, 0>() == &a, "empty tuples are equal");
    dtl::integral_template_tuple<3, 3, itt<0, 1>::X> e, f;
    vf_assert(e == f && e.size() == 0, "empty tuples are equal");
}
VF_HARNESS(ascending) { itt<2, 6>::all(); }
VF_HARNESS(descending) { itt<6, 2>::all(); }
VF_HARNESS(negative) { itt<-2, 2>::all(); }
VF_HARNESS(negative_descending) { itt<1, -3>::all(); }
VF_HARNESS(byte_index) { itt<u8{250}, u8{254}>::all(); }
VF_HARNESS(byte_index_descending) { itt<u8{3}, u8{0}>::all(); }
VF_HARNESS(wide_index) { itt<std::int64_t{-3}, std::int64_t{0}>::all(); }
VF_HARNESS(unsigned_descending) { itt<3u, 0u>::all(); }
VF_HARNESS(single) { if (vf_any_bool("up")) itt<0, 1>::all(); else itt<1, 0>::all(); }

namespace {
    // elements that are not ordered (nor equal to themselves) when odd, like NaN
    template<std::size_t = 0> struct odd_one {
        u64 v;
        odd_one() noexcept : v{0} {}
        explicit odd_one(u64 x) noexcept : v{x} {}
        friend bool operator==(odd_one const &a, odd_one const &b) noexcept { return !((a.v | b.v) & 1) && a.v == b.v; }
        friend std::partial_ordering operator<=>(odd_one const &a, odd_one const &b) noexcept { return (a.v | b.v) & 1 ? std::partial_ordering::unordered : std::partial_ordering(a.v <=> b.v); }
    };
    template<auto> struct odd_alt : odd_one<> { using odd_one<>::odd_one; };
    template<typename T> void partial(T const &a, T const &b, u64 const *x, u64 const *y, std::size_t n) {
        int w = 0; // 2: unordered
        bool eq = true;
        for (std::size_t i = n; i > 0; --i) {
            bool const un = (x[i - 1] | y[i - 1]) & 1;
            if (un || x[i - 1] != y[i - 1]) { eq = false; w = un ? 2 : x[i - 1] < y[i - 1] ? -1 : 1; }
        }
        vf_assert((a == b) == eq && (a != b) == !eq, "equal iff every element is equal");
        auto const r = a <=> b;
        vf_assert((r < 0) == (w == -1) && (r > 0) == (w == 1) && (r == 0) == (w == 0), "comparison is element-wise lexicographic");
        vf_assert((a < b) == (w == -1) && (a > b) == (w == 1) && (a <= b) == (w == -1 || w == 0) && (a >= b) == (w == 1 || w == 0), "comparison is element-wise lexicographic");
    }
}
VF_HARNESS(unordered_elements) {
    u64 const x[3] = {vf_any_u64("x"), vf_any_u64("x"), vf_any_u64("x")}, y[3] = {vf_any_u64("y"), vf_any_u64("y"), vf_any_u64("y")};
    bool const self = vf_choose("with itself", 2) == 1;
    u64 const *const z = self ? x : y;
    if (vf_choose("tuple", 2) == 0) {
        dtl::standard_layout_tuple<odd_one<0>, odd_one<1>, odd_one<2>> a{x[0], x[1], x[2]}, b{y[0], y[1], y[2]};
        partial(a, self ? a : b, x, z, 3);
    } else {
        dtl::integral_template_tuple<2, 5, odd_alt> a{x[0], x[1], x[2]}, b{y[0], y[1], y[2]};
        partial(a, self ? a : b, x, z, 3);
    }
}
