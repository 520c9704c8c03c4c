// Contract for variant2.hpp (observers, comparison, hash, visit)
//   for every pair of variant states: index/holds_alternative/get/get_if/visit agree with the state;
//   ==, != , <, <=, >, >=, <=> are those of std::variant; hash respects ==
#include <vf.hpp>
#include "vf_forward.hpp"
#include <dice/template-library/variant2.hpp>
using namespace dice::template_library;
using u64 = std::uint64_t;
namespace {
    struct thrower { operator u64() const { throw 1; } };
    template<int Tag>
    struct val {
        u64 v;
        val(u64 x) : v{x} {}
        val(val const &o) noexcept(false) : v{o.v} {} // not trivial: std::variant can become valueless
        val &operator=(val const &o) noexcept(false) { v = o.v; return *this; }
        ~val() {}
        // a weak order given by arbitrary keys, so that equivalence of values is not identity
        friend bool operator==(val const &a, val const &b) { return a.v == b.v; }
        friend std::strong_ordering operator<=>(val const &a, val const &b) { return a.v <=> b.v; }
    };
    struct weak {
        u64 v;
        weak(u64 x) : v{x} {}
        weak(weak const &o) noexcept(false) : v{o.v} {} // not trivial: std::variant can become valueless
        weak &operator=(weak const &o) noexcept(false) { v = o.v; return *this; }
        ~weak() {}
        friend bool operator==(weak const &a, weak const &b) { return (a.v >> 1) == (b.v >> 1); }
        friend std::weak_ordering operator<=>(weak const &a, weak const &b) { return (a.v >> 1) <=> (b.v >> 1); }
    };
    struct part {
        u64 v;
        part(u64 x) : v{x} {}
        part(part const &o) noexcept(false) : v{o.v} {} // not trivial: std::variant can become valueless
        part &operator=(part const &o) noexcept(false) { v = o.v; return *this; }
        ~part() {}
        friend bool operator==(part const &a, part const &b) { return a.v == b.v && (a.v & 1) == 0; }
        friend std::partial_ordering operator<=>(part const &a, part const &b) {
            if ((a.v & 1) || (b.v & 1)) return std::partial_ordering::unordered;
            return a.v <=> b.v;
        }
    };
}
namespace std {
    template<int T> struct hash<::val<T>> { size_t operator()(::val<T> const &x) const noexcept { return vf_uf(T == 1 ? "hash1" : "hash2", x.v); } };
}
namespace {
    struct model { int idx; u64 v; };
    template<typename T, typename U>
    struct pair_of { variant2<T, U> a; std::variant<T, U> s; model m; };
    template<typename T, typename U>
    pair_of<T, U> arbitrary(char const *n) {
        int const k = vf_choose(n, 3);
        u64 const v = vf_any_u64("value");
        pair_of<T, U> r{variant2<T, U>{std::in_place_index<0>, v}, std::variant<T, U>{std::in_place_index<0>, v}, {k, v}};
        if (k == 1) { r.a.template emplace<1>(v); r.s.template emplace<1>(v); }
        if (k == 2) {
            try { r.a.template emplace<U>(thrower{}); } catch (int) {}
            try { r.s.template emplace<1>(thrower{}); } catch (int) {}
        }
        return r;
    }
    template<int I, typename T, typename U>
    void observe(variant2<T, U> &x, model m) {
        using X = std::conditional_t<I == 0, T, U>;
        auto const &c = x;
        vf_assert(holds_alternative<X>(c) == (m.idx == I), "holds_alternative");
        X *p = get_if<I>(&x);
        X *q = get_if<X>(&x);
        X const *cp = get_if<I>(&c);
        X const *cq = get_if<X>(&c);
        if (m.idx == I) {
            vf_assert(p && p == q && cp == p && cq == p, "get_if returns the held object");
            vf_assert(p->v == m.v, "get_if reaches the value held");
            vf_assert(&get<I>(x) == p && &get<X>(x) == p && &get<I>(c) == p && &get<X>(c) == p, "get returns the held object");
            auto &&r1 = get<I>(std::move(x)); auto &&r2 = get<X>(std::move(x)); auto &&r3 = get<I>(std::move(c)); auto &&r4 = get<X>(std::move(c));
            vf_static(std::is_same_v<decltype(get<I>(std::move(x))), X &&> && std::is_same_v<decltype(get<I>(std::move(c))), X const &&>);
            vf_assert(&r1 == p && &r2 == p && &r3 == p && &r4 == p, "get on an rvalue returns the held object");
        } else {
            vf_assert(!p && !q && !cp && !cq, "get_if returns null on mismatch");
            int thrown = 0;
            try { (void) get<I>(x); } catch (std::bad_variant_access const &) { ++thrown; }
            try { (void) get<X>(x); } catch (std::bad_variant_access const &) { ++thrown; }
            try { (void) get<I>(c); } catch (std::bad_variant_access const &) { ++thrown; }
            try { (void) get<X>(c); } catch (std::bad_variant_access const &) { ++thrown; }
            try { (void) get<I>(std::move(x)); } catch (std::bad_variant_access const &) { ++thrown; }
            try { (void) get<X>(std::move(x)); } catch (std::bad_variant_access const &) { ++thrown; }
            try { (void) get<I>(std::move(c)); } catch (std::bad_variant_access const &) { ++thrown; }
            try { (void) get<X>(std::move(c)); } catch (std::bad_variant_access const &) { ++thrown; }
            vf_assert(thrown == 8, "get throws bad_variant_access on mismatch");
        }
        vf_assert(get_if<I>(static_cast<variant2<T, U> *>(nullptr)) == nullptr && get_if<X>(static_cast<variant2<T, U> const *>(nullptr)) == nullptr, "get_if of null is null");
    }
    template<typename T, typename U>
    void observers() {
        auto r = arbitrary<T, U>("state");
        auto const &c = r.a;
        vf_assert(c.index() == r.s.index() && c.valueless_by_exception() == r.s.valueless_by_exception(), "index agrees with std::variant");
        vf_assert(!holds_alternative<int>(c), "holds_alternative of a foreign type is false");
        observe<0>(r.a, r.m);
        observe<1>(r.a, r.m);
        // visit: the visitor is called exactly once with the held object, in its value category
        int calls = 0;
        void const *seen = nullptr;
        int cat = -1, which = -1;
        auto const vis = [&]<typename X>(X &&x) -> u64 {
            ++calls;
            seen = &x;
            which = std::is_same_v<std::remove_cvref_t<X>, T> ? 0 : 1;
            cat = (std::is_lvalue_reference_v<X> ? 0 : 2) + (std::is_const_v<std::remove_reference_t<X>> ? 1 : 0);
            return vf_uf("visit", x.v);
        };
        for (int k = 0; k < 4; ++k) {
            calls = 0;
            u64 res = 0;
            bool threw = false;
            try {
                if (k == 0) res = visit(vis, r.a);
                if (k == 1) res = visit(vis, c);
                if (k == 2) res = visit(vis, std::move(r.a));
                if (k == 3) res = visit(vis, std::move(c));
            } catch (std::bad_variant_access const &) { threw = true; }
            if (r.m.idx == 2) vf_assert(threw && calls == 0, "visiting a valueless variant throws bad_variant_access");
            else {
                vf_assert(!threw && calls == 1, "the visitor runs exactly once");
                vf_assert(which == r.m.idx && cat == k, "the visitor gets the held alternative in the right value category");
                vf_assert(seen == (r.m.idx == 0 ? static_cast<void const *>(get_if<0>(&c)) : static_cast<void const *>(get_if<1>(&c))), "the visitor gets the held object itself");
                vf_assert(res == vf_uf("visit", r.m.v), "visit returns the visitor's result");
            }
        }
        if (r.m.idx != 2) {
            auto &&ref = visit([](auto &x) -> u64 & { return x.v; }, r.a);
            vf_assert(&ref == (r.m.idx == 0 ? &get<0>(r.a).v : &get<1>(r.a).v), "visit passes a returned reference through");
            struct boom {};
            bool threw = false;
            try { visit([](auto &) -> int { throw boom{}; }, r.a); } catch (boom const &) { threw = true; }
            vf_assert(threw, "a visitor's exception propagates");
        }
    }
    template<typename O> int ord(O o) { return o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 2; }
    template<typename T, typename U>
    void compare() {
        auto a = arbitrary<T, U>("left"), b = arbitrary<T, U>("right");
        vf_assert((a.a == b.a) == (a.s == b.s), "== as std::variant");
        vf_assert((a.a != b.a) == (a.s != b.s), "!= as std::variant");
        vf_assert(ord(a.a <=> b.a) == ord(a.s <=> b.s), "<=> as std::variant");
        vf_assert((a.a < b.a) == (a.s < b.s), "< as std::variant");
        vf_assert((a.a > b.a) == (a.s > b.s), "> as std::variant");
        vf_assert((a.a <= b.a) == (a.s <= b.s), "<= as std::variant");
        vf_assert((a.a >= b.a) == (a.s >= b.s), ">= as std::variant");
        vf_static(std::is_same_v<decltype(a.a <=> b.a), decltype(a.s <=> b.s)>);
        vf_cover("compared");
    }
}
VF_HARNESS(observers_) { observers<val<1>, val<2>>(); }
VF_HARNESS(observers_ints) {
    struct i1 { unsigned v; i1(u64 x) : v(static_cast<unsigned>(x)) {} };
    auto const x = vf_any_range("value", 0, 0xffffffff);
    variant2<i1, val<2>> a{i1{x}};
    observe<0>(a, {0, x});
    observe<1>(a, {0, x});
    a = val<2>{x};
    observe<0>(a, {1, x});
    observe<1>(a, {1, x});
}
VF_HARNESS(compare_strong) { compare<val<1>, val<2>>(); }
VF_HARNESS(compare_weak) { compare<val<1>, weak>(); }
VF_HARNESS(compare_partial) { compare<part, weak>(); }
VF_HARNESS(compare_itself) {
    // the value is asked, also when a variant meets itself
    auto a = arbitrary<part, weak>("value");
    variant2<part, weak> const &x = a.a;
    std::variant<part, weak> const &y = a.s;
    vf_assert((a.a == x) == (a.s == y) && (a.a != x) == (a.s != y), "== as std::variant");
    vf_assert(ord(a.a <=> x) == ord(a.s <=> y), "<=> as std::variant");
    vf_assert((a.a < x) == (a.s < y) && (a.a > x) == (a.s > y) && (a.a <= x) == (a.s <= y) && (a.a >= x) == (a.s >= y), "< > <= >= as std::variant");
}
VF_HARNESS(compare_after_ops) {
    // the value held after assignment, emplace and swap is the one std::variant would hold
    using T = val<1>; using U = val<2>;
    auto a = arbitrary<T, U>("left"), b = arbitrary<T, U>("right");
    u64 const v = vf_any_u64("new");
    switch (vf_choose("op", 8)) {
        case 0: a.a = b.a; a.s = b.s; break;
        case 1: a.a = std::move(b.a); a.s = std::move(b.s); break;
        case 2: a.a = T{v}; a.s = T{v}; break;
        case 3: a.a = U{v}; a.s = U{v}; break;
        // (libstdc++ 14's own swap mishandles a valueless right operand, so the reference swaps by moves)
        case 4: { swap(a.a, b.a); auto t = std::move(a.s); a.s = std::move(b.s); b.s = std::move(t); break; }
        case 5: a.a.emplace<0>(v); a.s.emplace<0>(v); break;
        case 6: { T const t{v}; a.a = t; a.s = t; break; }
        case 7: { U const t{v}; a.a = t; a.s = t; break; }
    }
    auto same = [](auto const &x, auto const &y) {
        vf_assert(x.index() == y.index(), "the alternative std::variant would hold");
        if (x.index() == 0) vf_assert(get<0>(x).v == std::get<0>(y).v, "the value std::variant would hold");
        if (x.index() == 1) vf_assert(get<1>(x).v == std::get<1>(y).v, "the value std::variant would hold");
    };
    same(a.a, a.s);
    same(b.a, b.s);
}
VF_HARNESS(hash_) {
    using T = val<1>; using U = val<2>;
    auto a = arbitrary<T, U>("left"), b = arbitrary<T, U>("right");
    vf_assume(!a.a.valueless_by_exception() && !b.a.valueless_by_exception());
    std::hash<variant2<T, U>> h;
    auto const ha = h(a.a), hb = h(b.a);
    vf_assert(ha == h(a.a), "hash is a function of the variant");
    if (a.a == b.a) vf_assert(ha == hb, "equal variants have equal hashes");
    variant2<T, U> const c{a.a};
    vf_assert(h(c) == ha, "a copy has the same hash");
}
VF_HARNESS(traits) {
    using V = variant2<val<1>, weak>;
    vf_assert(std::variant_size_v<V> == 2, "variant_size");
    vf_assert(std::is_same_v<std::variant_alternative_t<0, V>, val<1>> && std::is_same_v<std::variant_alternative_t<1, V>, weak>, "variant_alternative");
    vf_assert(std::is_same_v<variant<val<1>, weak>, V> && std::is_same_v<variant<int>, std::variant<int>> && std::is_same_v<variant<int, long, char>, std::variant<int, long, char>>, "variant selects variant2 exactly for two types");
}

// construction from arguments, from every state
VF_HARNESS(forwarding) {
    using A = vf::forwarded<1>; using B = vf::forwarded<2>; using V = variant2<A, B>;
    struct boom { operator B() const { throw 1; } };
    struct C : B { explicit C(boom const &) { throw 1; } using B::B; };
    using W = variant2<A, C>;
    vf::check_forward([](auto &&...a) { V v{std::in_place_index<0>, std::forward<decltype(a)>(a)...}; vf_assert(v.index() == 0 && get<0>(v).token == 107, "in_place_index constructs that alternative"); });
    vf::check_forward([](auto &&...a) { V v{std::in_place_index<1>, std::forward<decltype(a)>(a)...}; vf_assert(v.index() == 1 && get<1>(v).token == 207, "in_place_index constructs that alternative"); });
    vf::check_forward([](auto &&...a) { V v{std::in_place_type<A>, std::forward<decltype(a)>(a)...}; vf_assert(v.index() == 0 && get<0>(v).token == 107, "in_place_type constructs that alternative"); });
    vf::check_forward([](auto &&...a) { V v{std::in_place_type<B>, std::forward<decltype(a)>(a)...}; vf_assert(v.index() == 1 && get<1>(v).token == 207, "in_place_type constructs that alternative"); });
    int const state = vf_choose("state", 3);
    auto from = [&](auto op) {
        W v;
        if (state == 1) v.template emplace<1>();
        if (state == 2) { try { v.template emplace<1>(boom{}); } catch (int) {} vf_assert(v.valueless_by_exception(), "a failed emplace leaves a variant valueless"); }
        op(v);
    };
    vf::check_forward([&](auto &&...a) { from([&](W &v) { auto &r = v.template emplace<A>(std::forward<decltype(a)>(a)...); vf_assert(v.index() == 0 && &r == get_if<0>(&v) && r.token == 107, "emplace constructs that alternative"); }); });
    vf::check_forward([&](auto &&...a) { from([&](W &v) { auto &r = v.template emplace<C>(std::forward<decltype(a)>(a)...); vf_assert(v.index() == 1 && &r == get_if<1>(&v) && r.token == 207, "emplace constructs that alternative"); }); });
    vf::check_forward([&](auto &&...a) { from([&](W &v) { auto &r = v.template emplace<0>(std::forward<decltype(a)>(a)...); vf_assert(v.index() == 0 && &r == get_if<0>(&v) && r.token == 107, "emplace constructs that alternative"); }); });
    vf::check_forward([&](auto &&...a) { from([&](W &v) { auto &r = v.template emplace<1>(std::forward<decltype(a)>(a)...); vf_assert(v.index() == 1 && &r == get_if<1>(&v) && r.token == 207, "emplace constructs that alternative"); }); });
}
