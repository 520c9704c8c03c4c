// Contract for inplace_polymorphic.hpp
//   invariant  valueless xor exactly one live object, of one of Ts..., inside the storage
//   every operation from every state (each alternative with an arbitrary value, valueless),
//   with constructors and copy/move hooks allowed to throw, re-establishes the invariant,
//   destroys exactly once through the dynamic type and yields the state the operation documents.
//@ assume: copy_to/move_to of the stored types construct a copy of *this at the given address (the documented protocol)
//@ assume: Base is the first (offset 0) base of every alternative, except in the harness of the recorded finding
#include <vf.hpp>
#include "vf_forward.hpp"
#include <dice/template-library/inplace_polymorphic.hpp>
using namespace dice::template_library;
using u64 = std::uint64_t;
namespace {
    int virt_destroyed[4];

    template<bool NE>
    struct Base {
        virtual ~Base() noexcept = default;
        virtual void copy_to(Base *dst) const noexcept(NE) = 0;
        virtual void move_to(Base *dst) noexcept(NE) = 0;
        virtual int kind() const = 0;
        virtual u64 value() const = 0;
        virtual void set(u64) = 0;
    };
    template<bool NE, int K, int Pad>
    struct D : Base<NE> {
        u64 pad[Pad + 1];
        vf::el<K, NE ? vf::nothrow_all & ~vf::nt_ctor : 0> e;
        explicit D(u64 v) : e{v} { pad[0] = v; }
        D() : e{77u} { pad[0] = 77; }
        D(D const &) = default;
        D(D &&) = default;
        ~D() noexcept override { vf_assert(K < 4, ""); ++virt_destroyed[K]; }
        void copy_to(Base<NE> *dst) const noexcept(NE) override { new (dst) D{*this}; }
        void move_to(Base<NE> *dst) noexcept(NE) override { new (dst) D{std::move(*this)}; }
        int kind() const override { return K; }
        u64 value() const override { vf_assert(vf::reg.live(&e, K), "the object accessed is alive"); return e.v; }
        void set(u64 v) override { e.v = v; }
    };
    // every alternative trivially destructible
    struct TBase {
        virtual void copy_to(TBase *dst) const = 0;
        virtual void move_to(TBase *dst) = 0;
        virtual int kind() const = 0;
        virtual u64 value() const = 0;
        virtual void set(u64) = 0;
    };
    template<int K, int Pad>
    struct TD : TBase {
        u64 pad[Pad + 1];
        u64 e;
        explicit TD(u64 v) : e{v} { vf::may_throw("ctor throws", 1); }
        TD() : e{77u} { vf::may_throw("ctor throws", 1); }
        TD(TD const &o) : e{o.e} { vf::may_throw("copy throws", 2); }
        void copy_to(TBase *dst) const override { new (dst) TD{*this}; }
        void move_to(TBase *dst) override { new (dst) TD{*this}; }
        int kind() const override { return K; }
        u64 value() const override { return e; }
        void set(u64 v) override { e = v; }
    };
    struct TNBase { // no hook or constructor throws
        virtual void copy_to(TNBase *dst) const noexcept = 0;
        virtual void move_to(TNBase *dst) noexcept = 0;
        virtual int kind() const noexcept = 0;
        virtual u64 value() const noexcept = 0;
        virtual void set(u64) noexcept = 0;
    };
    template<int K, int Pad>
    struct TND : TNBase {
        u64 pad[Pad + 1];
        u64 e;
        explicit TND(u64 v) noexcept(K != 3) : e{v} { if constexpr (K == 3) vf::may_throw("ctor throws", 1); }
        TND() noexcept : e{77u} {}
        void copy_to(TNBase *dst) const noexcept override { new (dst) TND{*this}; }
        void move_to(TNBase *dst) noexcept override { new (dst) TND{*this}; }
        int kind() const noexcept override { return K; }
        u64 value() const noexcept override { return e; }
        void set(u64 v) noexcept override { e = v; }
    };
    struct model { int k; u64 v; }; // k == 0: valueless

    template<typename B, typename T1, typename T2, typename T3, bool Tracked>
    struct suite {
        using P = inplace_polymorphic<B, T1, T2, T3>;

        static int live_in(P const &x) {
            int n = 0;
            auto const b = reinterpret_cast<std::uintptr_t>(&x);
            for (int i = 0; i < vf::reg.n; ++i) {
                auto const a = reinterpret_cast<std::uintptr_t>(vf::reg.addr[i]);
                if (a >= b && a < b + sizeof(x)) ++n;
            }
            return n;
        }
        static void check_state(P &x) {
            if (Tracked) vf_assert(live_in(x) == (x.valueless_by_exception() ? 0 : 1), "exactly one live object unless valueless");
            P const &c = x;
            if (x.valueless_by_exception()) {
                int n = 0;
                try { (void) x.get(); } catch (std::bad_variant_access const &) { ++n; }
                try { (void) c.get(); } catch (std::bad_variant_access const &) { ++n; }
                try { (void) *x; } catch (std::bad_variant_access const &) { ++n; }
                try { (void) *c; } catch (std::bad_variant_access const &) { ++n; }
                try { (void) x->kind(); } catch (std::bad_variant_access const &) { ++n; }
                try { (void) c->kind(); } catch (std::bad_variant_access const &) { ++n; }
                vf_assert(n == 6, "every accessor of a valueless object throws bad_variant_access");
            } else {
                B *p = &x.get();
                vf_assert(p == &*x && p == x.operator->() && p == &c.get() && p == &*c && p == c.operator->(), "all accessors reach the same object");
                auto const a = reinterpret_cast<std::uintptr_t>(p), s = reinterpret_cast<std::uintptr_t>(&x);
                vf_assert(a >= s && a + sizeof(B) <= s + sizeof(x), "the object lies in the storage");
            }
        }
        static void check(P &x, model m) {
            check_state(x);
            vf_assert(x.valueless_by_exception() == (m.k == 0), "valueless exactly when expected");
            if (m.k != 0) {
                vf_assert(x->kind() == m.k, "the object has the type last placed");
                vf_assert(x->value() == m.v, "the object has the value last placed");
            }
        }
        struct box {
            alignas(P) unsigned char mem[sizeof(P)];
            P *p;
            model m;
            explicit box(char const *n) {
                int const saved = vf::throw_budget;
                vf::throw_budget = 0;
                m.k = vf_choose(n, 4);
                m.v = vf_any_u64("value");
                if (m.k == 1) p = new (mem) P(std::in_place_type<T1>, m.v);
                else if (m.k == 2) p = new (mem) P(std::in_place_type<T2>, m.v);
                else p = new (mem) P(std::in_place_type<T3>, m.v);
                if (m.k == 0) { // become valueless through a throwing emplace
                    struct thrower { operator u64() const { throw 1; } };
                    bool threw = false;
                    try { p->template emplace<T3>(thrower{}); } catch (int) { threw = true; }
                    vf_assert(threw, "emplace lets the constructor's exception through");
                }
                vf::throw_budget = saved;
                check(*p, m);
            }
            ~box() {
                vf::throw_budget = 0;
                int const before = virt_destroyed[1] + virt_destroyed[2] + virt_destroyed[3];
                bool const had = !p->valueless_by_exception();
                p->~P();
                if (Tracked) vf_assert(virt_destroyed[1] + virt_destroyed[2] + virt_destroyed[3] == before + (had ? 1 : 0), "the destructor of the dynamic type runs exactly once");
            }
            P &operator*() { return *p; }
        };
        static void usable(P &x) {
            vf::throw_budget = 0;
            check_state(x);
            x.template emplace<T2>(5u);
            check(x, {2, 5});
        }
        static void begin() { vf::reset(); for (int &d : virt_destroyed) d = 0; }
        static void finish() { vf_assert(vf::reg.n == 0, "every object constructed was destroyed"); }

        static void assign(bool move) {
            begin();
            {
                box a{"target"}, b{"source"};
                vf::throw_budget = 1;
                bool threw = false;
                try {
                    P &r = move ? (*a = std::move(*b)) : (*a = std::as_const(*b));
                    vf_assert(&r == &*a, "assignment returns *this");
                } catch (vf::injected const &) { threw = true; }
                vf::throw_budget = 0;
                vf_assert(threw == (vf::throws_done != 0), "an exception of a hook reaches the caller, and only such");
                if (!threw) { vf_cover("assigned"); check(*a, b.m); }
                else { vf_assert((*a).valueless_by_exception(), "a throwing assignment leaves the target valueless"); check_state(*a); }
                if (!move) check(*b, b.m);
                else { check_state(*b); vf_assert((*b).valueless_by_exception() == (b.m.k == 0), "a moved-from object is still held by the source"); }
                usable(*a);
            }
            finish();
        }
        static void self() {
            begin();
            {
                box a{"target"};
                auto &r = *a;
                *a = r;
                check(*a, a.m);
                usable(*a);
            }
            finish();
        }
        static void construct(bool move) {
            begin();
            {
                box b{"source"};
                alignas(P) unsigned char mem[sizeof(P)];
                P *p = nullptr;
                vf::throw_budget = 1;
                try { p = move ? new (mem) P(std::move(*b)) : new (mem) P(std::as_const(*b)); } catch (vf::injected const &) {}
                vf::throw_budget = 0;
                vf_assert((p == nullptr) == (vf::throws_done != 0), "construction fails exactly when the hook throws");
                if (p) { check(*p, b.m); usable(*p); p->~P(); }
                if (!move) check(*b, b.m);
                check_state(*b);
                usable(*b);
            }
            finish();
        }
        template<typename T, int K>
        static void emplace_() {
            begin();
            {
                box a{"target"};
                u64 const v = vf_any_u64("new value");
                vf::throw_budget = 1;
                bool threw = false;
                try { (*a).template emplace<T>(v); } catch (vf::injected const &) { threw = true; }
                vf::throw_budget = 0;
                vf_assert(threw == (vf::throws_done != 0), "an exception of the constructor reaches the caller, and only such");
                if (!threw) check(*a, {K, v});
                else { vf_assert((*a).valueless_by_exception(), "a throwing emplace leaves the object valueless"); check_state(*a); }
                // a second operation on whatever state that left
                if (vf_choose("then", 2)) { (*a).template emplace<T3>(9u); check(*a, {3, 9}); }
                usable(*a);
            }
            finish();
        }
        static void in_place() {
            begin();
            {
                u64 const v = vf_any_u64("value");
                alignas(P) unsigned char mem[sizeof(P)];
                P *p = nullptr;
                int const k = vf_choose("constructor", 4);
                vf::throw_budget = 1;
                try {
                    if (k == 0) p = new (mem) P;
                    if (k == 1) p = new (mem) P(std::in_place_type<T1>, v);
                    if (k == 2) p = new (mem) P(std::in_place_type<T2>, v);
                    if (k == 3) p = new (mem) P(std::in_place_type<T3>, v);
                } catch (vf::injected const &) {}
                vf::throw_budget = 0;
                vf_assert((p == nullptr) == (vf::throws_done != 0), "construction fails exactly when the constructor throws");
                if (p) {
                    check(*p, k == 0 ? model{1, 77} : model{k, v});
                    (*p)->set(v + 1);
                    check(*p, {k == 0 ? 1 : k, v + 1});
                    usable(*p);
                    p->~P();
                }
            }
            finish();
        }
        static void sequence() { // two assignments in a row, through a third object
            begin();
            {
                box a{"first"}, b{"second"};
                *a = *b;
                check(*a, b.m);
                *b = std::move(*a);
                check(*b, b.m);
                P c{*b};
                check(c, b.m);
                *b = c;
                check(*b, b.m);
                check(c, b.m);
            }
            finish();
        }
    };
}
#define ALL(NAME, ...) \
    using NAME##_s = suite<__VA_ARGS__>; \
    VF_HARNESS(NAME##_copy_assign) { NAME##_s::assign(false); } \
    VF_HARNESS(NAME##_move_assign) { NAME##_s::assign(true); } \
    VF_HARNESS(NAME##_self) { NAME##_s::self(); } \
    VF_HARNESS(NAME##_copy_ctor) { NAME##_s::construct(false); } \
    VF_HARNESS(NAME##_move_ctor) { NAME##_s::construct(true); } \
    VF_HARNESS(NAME##_emplace1) { NAME##_s::emplace_1(); } \
    VF_HARNESS(NAME##_emplace2) { NAME##_s::emplace_2(); } \
    VF_HARNESS(NAME##_emplace3) { NAME##_s::emplace_3(); } \
    VF_HARNESS(NAME##_in_place) { NAME##_s::in_place(); } \
    VF_HARNESS(NAME##_sequence) { NAME##_s::sequence(); }
namespace {
    template<typename B, typename T1, typename T2, typename T3, bool Tr>
    struct suite_ : suite<B, T1, T2, T3, Tr> {
        using S = suite<B, T1, T2, T3, Tr>;
        static void emplace_1() { S::template emplace_<T1, 1>(); }
        static void emplace_2() { S::template emplace_<T2, 2>(); }
        static void emplace_3() { S::template emplace_<T3, 3>(); }
    };
}
#define suite suite_
using TB1 = D<false, 1, 0>; using TB2 = D<false, 2, 3>; using TB3 = D<false, 3, 1>;
using NB1 = D<true, 1, 0>; using NB2 = D<true, 2, 3>; using NB3 = D<true, 3, 1>;
using TT1 = TD<1, 0>; using TT2 = TD<2, 3>; using TT3 = TD<3, 1>;
using TN1 = TND<1, 0>; using TN2 = TND<2, 3>; using TN3 = TND<3, 1>;
ALL(throwing, Base<false>, TB1, TB2, TB3, true)
ALL(nothrow, Base<true>, NB1, NB2, NB3, true)
ALL(trivial_dtor, TBase, TT1, TT2, TT3, false)
ALL(trivial_nothrow, TNBase, TN1, TN2, TN3, false)

namespace {
    struct Other { virtual ~Other() = default; u64 x = 3; };
    struct B2 { u64 in_base = 7; virtual ~B2() noexcept = default; virtual u64 value() const = 0; };
    struct Second : Other, B2 { u64 v; explicit Second(u64 x) : v{x} {} u64 value() const override { return v; } };
}
// recorded finding F1: an alternative whose Base subobject is not at offset 0
VF_HARNESS(base_not_first) {
    u64 const v = vf_any_u64("value");
    inplace_polymorphic<B2, Second> p{std::in_place_type<Second>, v};
    vf_assert(p->value() == v && p->in_base == 7, "the object reached is the one placed, also when Base is not its first base");
}

namespace {
    struct FB { virtual ~FB() noexcept = default; virtual void copy_to(FB *dst) const noexcept = 0; virtual void move_to(FB *dst) noexcept = 0; virtual int token() const = 0; };
    template<int K> struct FD : FB {
        vf::forwarded<K> f;
        template<typename ...A> requires (sizeof...(A) > 0 && (std::same_as<std::remove_cvref_t<A>, vf::farg> && ...)) explicit FD(A &&...a) noexcept : f{std::forward<A>(a)...} {}
        FD() noexcept = default;
        FD(FD const &) = default;
        void copy_to(FB *dst) const noexcept override { new (dst) FD{*this}; }
        void move_to(FB *dst) noexcept override { new (dst) FD{*this}; }
        int token() const override { return f.token; }
    };
}
VF_HARNESS(forwarding) {
    using P = inplace_polymorphic<FB, FD<1>, FD<2>>;
    vf::check_forward([](auto &&...a) { P p{std::in_place_type<FD<1>>, std::forward<decltype(a)>(a)...}; vf_assert(p->token() == 107, "in_place_type constructs that alternative"); });
    vf::check_forward([](auto &&...a) { P p{std::in_place_type<FD<2>>, std::forward<decltype(a)>(a)...}; vf_assert(p->token() == 207, "in_place_type constructs that alternative"); });
    bool const second = vf_any_bool("second");
    auto from = [&](auto op) { if (second) { P p{std::in_place_type<FD<2>>}; op(p); } else { P p{std::in_place_type<FD<1>>}; op(p); } };
    vf::check_forward([&](auto &&...a) { from([&](P &p) { p.template emplace<FD<1>>(std::forward<decltype(a)>(a)...); vf_assert(p->token() == 107, "emplace constructs that alternative"); }); });
    vf::check_forward([&](auto &&...a) { from([&](P &p) { p.template emplace<FD<2>>(std::forward<decltype(a)>(a)...); vf_assert(p->token() == 207, "emplace constructs that alternative"); }); });
}
