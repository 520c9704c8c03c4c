// Contract for variant2.hpp (special members, assignment, emplace, swap)
//   invariant  index()==0: exactly one live T, index()==1: exactly one live U, valueless: none
//   every operation, from every state satisfying the invariant, with every operation of an
//   alternative allowed to throw: constructs in raw storage only, destroys live objects only,
//   re-establishes the invariant; on success the value is the one std::variant would hold; on
//   an exception the object stays assignable and destructible.
// One operation from an arbitrary state is proved; all histories follow by induction.
#include <vf.hpp>
#include <dice/template-library/variant2.hpp>
using namespace dice::template_library;
using u64 = std::uint64_t;
namespace {
    struct model { int idx; u64 v; };

    template<typename T, typename U>
    int live_in(variant2<T, U> const &x) {
        int n = 0;
        auto const b = reinterpret_cast<std::uintptr_t>(&x);
        for (int i = 0; i < vf::reg.n; ++i) {
            auto const a = reinterpret_cast<std::uintptr_t>(vf::reg.addr[i]);
            if (a >= b && a < b + sizeof(x)) ++n;
        }
        return n;
    }
    template<typename T, typename U>
    void check_state(variant2<T, U> const &x) { // the invariant only
        int const i = static_cast<int>(x.index());
        vf_assert(x.valueless_by_exception() == (x.index() == variant_npos), "valueless_by_exception agrees with index");
        vf_assert(x.index() == 0 || x.index() == 1 || x.index() == variant_npos, "index is 0, 1 or npos");
        vf_assert(live_in(x) == (x.valueless_by_exception() ? 0 : 1), "the variant owns exactly one live object unless valueless");
        if (i == 0) vf_assert(vf::reg.live(&get<0>(x), 1), "the first alternative is alive");
        if (i == 1) vf_assert(vf::reg.live(&get<1>(x), 2), "the second alternative is alive");
    }
    template<typename T, typename U>
    void check(variant2<T, U> const &x, model m) {
        check_state(x);
        vf_assert(x.index() == (m.idx == 2 ? variant_npos : static_cast<std::size_t>(m.idx)), "the variant holds the expected alternative");
        if (m.idx == 0) vf_assert(get<0>(x).v == m.v, "the variant holds the expected value");
        if (m.idx == 1) vf_assert(get<1>(x).v == m.v, "the variant holds the expected value");
    }
    template<typename T, typename U>
    struct box { // a variant in an arbitrary state
        using V = variant2<T, U>;
        alignas(V) unsigned char mem[sizeof(V)];
        V *p;
        model m;
        explicit box(char const *n) {
            int const saved = vf::throw_budget;
            vf::throw_budget = 0;
            int const k = vf_choose(n, 3);
            u64 const v = vf_any_u64("value");
            m = {k, v};
            if (k == 0) p = new (mem) V(std::in_place_index<0>, v);
            else p = new (mem) V(std::in_place_type<U>, v);
            if (k == 2) {
                vf::throw_budget = 1;
                // the only way to become valueless: an operation that throws
                bool threw = false;
                try { p->template emplace<0>(thrower{}); } catch (int) { threw = true; }
                vf_assert(threw, "emplace lets the constructor's exception through");
            }
            vf::throw_budget = saved;
        }
        struct thrower { operator u64() const { throw 1; } };
        ~box() {
            vf::throw_budget = 0;
            p->~V();
        }
        V &operator*() { return *p; }
    };
    // after an operation that may have thrown
    template<typename T, typename U>
    void usable(variant2<T, U> &x) {
        vf::throw_budget = 0;
        check_state(x);
        if constexpr (std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T>) {
            T const t{42u};
            x = t;
            check(x, {0, 42});
        } else {
            x.template emplace<0>(42u);
            check(x, {0, 42});
        }
    }
    template<typename T, typename U>
    void finish() { vf_assert(vf::reg.n == 0, "every object constructed was destroyed"); }

    template<typename T, typename U>
    void assign_variant(bool move) {
        if constexpr (!std::is_copy_constructible_v<T> || !std::is_copy_constructible_v<U>) move = true;
        vf::reset();
        {
            box<T, U> a{"target"}, b{"source"};
            vf::throw_budget = 1;
            bool threw = false;
            try {
                if (move) {
                    auto &r = (*a = std::move(*b));
                    vf_assert(&r == &*a, "assignment returns *this");
                } else if constexpr (std::is_copy_constructible_v<T> && std::is_copy_constructible_v<U>) {
                    auto &r = (*a = std::as_const(*b));
                    vf_assert(&r == &*a, "assignment returns *this");
                }
            } catch (vf::injected const &) { threw = true; }
            vf_assert(threw == (vf::throws_done != 0), "an exception of an alternative reaches the caller, and only such");
            vf::throw_budget = 0;
            if (!threw) {
                vf_cover("assigned");
                check(*a, b.m);
                if (move) { check_state(*b); vf_assert((*b).index() == (b.m.idx == 2 ? variant_npos : static_cast<std::size_t>(b.m.idx)), "a moved-from variant keeps its alternative"); }
                else check(*b, b.m);
            } else {
                check_state(*b);
                if (!move) check(*b, b.m);
                if (a.m.idx == b.m.idx) vf_assert((*a).index() == static_cast<std::size_t>(a.m.idx), "a throwing assignment keeps the alternative");
            }
            usable(*a);
        }
        finish<T, U>();
    }
    template<typename T, typename U>
    void self_assign() {
        vf::reset();
        {
            box<T, U> a{"target"};
            if constexpr (std::is_copy_constructible_v<T> && std::is_copy_constructible_v<U>) {
                auto &r = *a;
                *a = r;
                check(*a, a.m);
            }
            swap(*a, *a);
            check_state(*a);
            if (a.m.idx == 2) vf_assert((*a).valueless_by_exception(), "self-swap keeps the state");
            else vf_assert((*a).index() == static_cast<std::size_t>(a.m.idx), "self-swap keeps the alternative");
            check(*a, a.m);
            usable(*a);
        }
        finish<T, U>();
    }
    template<typename T, typename U>
    void construct(bool move) {
        vf::reset();
        {
            box<T, U> b{"source"};
            using V = variant2<T, U>;
            alignas(V) unsigned char mem[sizeof(V)];
            V *p = nullptr;
            vf::throw_budget = 1;
            try {
                if (move) p = new (mem) V(std::move(*b));
                else if constexpr (std::is_copy_constructible_v<T> && std::is_copy_constructible_v<U>) p = new (mem) V(std::as_const(*b));
                else p = new (mem) V(std::move(*b));
            } catch (vf::injected const &) {}
            vf_assert((p == nullptr) == (vf::throws_done != 0), "construction fails exactly when an alternative throws");
            vf::throw_budget = 0;
            if (p) {
                check(*p, b.m);
                if (!move && std::is_copy_constructible_v<T> && std::is_copy_constructible_v<U>) check(*b, b.m);
                usable(*p);
                p->~V();
            }
            check_state(*b);
            usable(*b);
        }
        finish<T, U>();
    }
    template<typename T, typename U, int I>
    void from_value(bool move) { // value constructors and value assignment
        using X = std::conditional_t<I == 0, T, U>;
        using V = variant2<T, U>;
        vf::reset();
        {
            u64 const v = vf_any_u64("new value");
            X x{v};
            alignas(V) unsigned char mem[sizeof(V)];
            V *p = nullptr;
            vf::throw_budget = 1;
            try {
                if (move) p = new (mem) V(std::move(x));
                else if constexpr (std::is_copy_constructible_v<X>) p = new (mem) V(std::as_const(x));
                else p = new (mem) V(std::move(x));
            } catch (vf::injected const &) {}
            vf_assert((p == nullptr) == (vf::throws_done != 0), "construction fails exactly when an alternative throws");
            vf::throw_budget = 0;
            if (p) { check(*p, {I, v}); usable(*p); p->~V(); }
        }
        finish<T, U>();
        vf::reset();
        {
            box<T, U> a{"target"};
            u64 const v = vf_any_u64("new value");
            X x{v};
            vf::throw_budget = 1;
            bool threw = false;
            try {
                if (move) *a = std::move(x);
                else if constexpr (std::is_copy_constructible_v<X>) *a = std::as_const(x);
                else *a = std::move(x);
            } catch (vf::injected const &) { threw = true; }
            vf::throw_budget = 0;
            vf_assert(threw == (vf::throws_done != 0), "an exception of an alternative reaches the caller, and only such");
            if (!threw) check(*a, {I, v});
            else if (a.m.idx == I) vf_assert((*a).index() == static_cast<std::size_t>(I), "a throwing assignment keeps the alternative");
            usable(*a);
        }
        finish<T, U>();
    }
    template<typename T, typename U, int I>
    void emplace_(bool by_type) {
        using X = std::conditional_t<I == 0, T, U>;
        vf::reset();
        {
            box<T, U> a{"target"};
            u64 const v = vf_any_u64("new value");
            vf::throw_budget = 1;
            bool threw = false;
            try {
                X &r = by_type ? (*a).template emplace<X>(v) : (*a).template emplace<I>(v);
                vf_assert(&r == &get<I>(*a), "emplace returns the new object");
            } catch (vf::injected const &) { threw = true; }
            vf::throw_budget = 0;
            vf_assert(threw == (vf::throws_done != 0), "an exception of an alternative reaches the caller, and only such");
            if (!threw) check(*a, {I, v});
            else { check_state(*a); vf_assert((*a).valueless_by_exception(), "a throwing emplace leaves the variant valueless"); }
            usable(*a);
        }
        finish<T, U>();
    }
    template<typename T, typename U>
    void swap_() {
        vf::reset();
        {
            box<T, U> a{"left"}, b{"right"};
            vf::throw_budget = 1;
            bool threw = false;
            try { swap(*a, *b); } catch (vf::injected const &) { threw = true; }
            vf::throw_budget = 0;
            vf_assert(threw == (vf::throws_done != 0), "an exception of an alternative reaches the caller, and only such");
            if (!threw) { vf_cover("swapped"); check(*a, b.m); check(*b, a.m); }
            usable(*a);
            usable(*b);
        }
        finish<T, U>();
    }
    template<typename T, typename U>
    void in_place() {
        using V = variant2<T, U>;
        vf::reset();
        {
            u64 const v = vf_any_u64("value");
            alignas(V) unsigned char mem[sizeof(V)];
            V *p = nullptr;
            int const k = vf_choose("constructor", 4);
            vf::throw_budget = 1;
            try {
                if (k == 0) p = new (mem) V(std::in_place_index<0>, v);
                if (k == 1) p = new (mem) V(std::in_place_index<1>, v);
                if (k == 2) p = new (mem) V(std::in_place_type<T>, v);
                if (k == 3) p = new (mem) V(std::in_place_type<U>, v);
            } catch (vf::injected const &) {}
            vf::throw_budget = 0;
            vf_assert((p == nullptr) == (vf::throws_done != 0), "construction fails exactly when an alternative throws");
            if (p) { check(*p, {k & 1, v}); usable(*p); p->~V(); }
        }
        finish<T, U>();
    }

    using vf::el;
    // a type with a default constructor
    template<int Tag, unsigned F>
    struct dflt : el<Tag, F> {
        using el<Tag, F>::el;
        dflt() : el<Tag, F>(7u) {}
    };
    // trivially assignable, but with observable construction and destruction
    template<int Tag>
    struct triv_assign {
        u64 v;
        explicit triv_assign(u64 x) : v{x} { vf::reg.born(this, Tag, sizeof(*this)); }
        triv_assign(triv_assign const &o) : v{o.v} { vf_assert(vf::reg.live(&o, Tag), "copied-from object is live"); vf::reg.born(this, Tag, sizeof(*this)); }
        triv_assign &operator=(triv_assign const &) = default;
        ~triv_assign() { vf::reg.died(this, Tag); }
    };
}
#define ALL(NAME, T, U) \
    VF_HARNESS(NAME##_copy_assign) { assign_variant<T, U>(false); } \
    VF_HARNESS(NAME##_move_assign) { assign_variant<T, U>(true); } \
    VF_HARNESS(NAME##_self) { self_assign<T, U>(); } \
    VF_HARNESS(NAME##_copy_ctor) { construct<T, U>(false); } \
    VF_HARNESS(NAME##_move_ctor) { construct<T, U>(true); } \
    VF_HARNESS(NAME##_value0) { from_value<T, U, 0>(vf_choose("move", 2) == 1); } \
    VF_HARNESS(NAME##_value1) { from_value<T, U, 1>(vf_choose("move", 2) == 1); } \
    VF_HARNESS(NAME##_emplace0) { emplace_<T, U, 0>(vf_choose("by type", 2) == 1); } \
    VF_HARNESS(NAME##_emplace1) { emplace_<T, U, 1>(vf_choose("by type", 2) == 1); } \
    VF_HARNESS(NAME##_swap) { swap_<T, U>(); } \
    VF_HARNESS(NAME##_in_place) { in_place<T, U>(); }
using E1 = el<1, 0>;
using E2 = el<2, 0>;
using N1 = el<1, vf::nothrow_all & ~vf::nt_ctor>;
using N2 = el<2, vf::nothrow_all & ~vf::nt_ctor>;
using C1 = el<1, vf::nt_move | vf::nt_massign>;             // throwing copy, non-throwing move
using C2 = el<2, vf::nt_copy | vf::nt_cassign>;             // throwing move, non-throwing copy
using M1 = el<1, vf::no_copy>;
using A1 = triv_assign<1>;
using A2 = triv_assign<2>;
ALL(throwing, E1, E2)
ALL(nothrow, N1, N2)
ALL(mixed, C1, C2)
ALL(nothrow_first, N1, E2)
ALL(nothrow_second, E1, N2)
using D1 = el<1, vf::nt_copy | vf::nt_cassign>; using D2 = el<2, vf::nt_move | vf::nt_massign>;
ALL(mixed_swapped, D1, D2)
using X1 = el<1, vf::nt_copy | vf::nt_move>; using X2 = el<2, vf::nt_cassign | vf::nt_massign>;   // only assignment throws, only construction throws
ALL(assign_throws, X1, X2)
using Y1 = el<1, vf::nt_cassign | vf::nt_massign>; using Y2 = el<2, vf::nt_copy | vf::nt_move>;
ALL(assign_throws_second, Y1, Y2)
ALL(move_only, M1, E2)
ALL(trivially_assignable, A1, A2)
VF_HARNESS(default_ctor) {
    vf::reset();
    using T = dflt<1, 0>;
    using V = variant2<T, E2>;
    alignas(V) unsigned char mem[sizeof(V)];
    V *p = nullptr;
    vf::throw_budget = 1;
    try { p = new (mem) V; } catch (vf::injected const &) {}
    vf::throw_budget = 0;
    vf_assert((p == nullptr) == (vf::throws_done != 0), "construction fails exactly when an alternative throws");
    if (p) {
        check(*p, {0, 7});
        p->~V();
    }
    vf_assert(vf::reg.n == 0, "every object constructed was destroyed");
}
