// C12: polymorphic_allocator over one, two (variant2) and three (std::variant) allocators, and offset_ptr_stl_allocator.
//@ trusted: std::variant is verified along (libstdc++ source)
#include "vf.hpp"
#include "vf_forward.hpp"
#include <dice/template-library/polymorphic_allocator.hpp>
#include <optional>
namespace dtl = dice::template_library;
namespace {
    using u64 = std::uint64_t;
    // the last call that reached an allocator
    struct call { int what = 0, kind = -1, id = 0; u64 n = 0, size = 0; void *p = nullptr; };
    call last; int calls; bool null_blocks;    // blocks are null pointers
    void reset() { vf::reset(); last = call{}; calls = 0; null_blocks = false; }
    enum : unsigned { CC = 1, CM = 2, SW = 4, AE = 8, SOCCC = 16, ND = 32 };
    // kind K, identity id; the block it returns is arbitrary
    template<typename T, int K, unsigned F> struct base {
        using value_type = T;
        using propagate_on_container_copy_assignment = std::bool_constant<(F & CC) != 0>;
        using propagate_on_container_move_assignment = std::bool_constant<(F & CM) != 0>;
        using propagate_on_container_swap = std::bool_constant<(F & SW) != 0>;
        using is_always_equal = std::bool_constant<(F & AE) != 0>;
        int id = 7;
        vf::el<K, vf::nothrow_all> token{0};                     // lifetimes
        base() noexcept = default;
        explicit base(int i) noexcept : id{i} {}
        template<typename U> base(base<U, K, F> const &o) noexcept : id{o.id} {}
        T *allocate(std::size_t n) {
            last = {1, K, id, n, sizeof(T), nullptr}; ++calls;
            if (vf::throw_budget > 0 && vf_choose("allocation fails", 2) == 1) { --vf::throw_budget; throw vf::injected{K}; }
            static char memory[64];
            if (null_blocks) { last.p = nullptr; return nullptr; }
            last.p = memory + vf_any_range("block", 0, 3) * 16;
            return reinterpret_cast<T *>(last.p);
        }
        void deallocate(T *p, std::size_t n) noexcept { last = {2, K, id, n, sizeof(T), p}; ++calls; }
        friend bool operator==(base const &a, base const &b) noexcept { return a.id == b.id; }
    };
    template<typename T> struct A : base<T, 0, CC | CM | SW | SOCCC> {
        using base<T, 0, CC | CM | SW | SOCCC>::base;
        A() = default;
        template<typename U> A(A<U> const &o) noexcept : base<T, 0, CC | CM | SW | SOCCC>{o.id} {}
        A select_on_container_copy_construction() const { return A{this->id ^ 0x1000}; }
    };
    template<typename T> struct B : base<T, 1, CC | SW | AE> {
        using base<T, 1, CC | SW | AE>::base;
        B() = default;
        template<typename U> B(B<U> const &o) noexcept : base<T, 1, CC | SW | AE>{o.id} {}
    };
    template<typename T> struct C : base<T, 2, CC | CM> {
        using base<T, 2, CC | CM>::base;
        C() = default;
        template<typename U> C(C<U> const &o) noexcept : base<T, 2, CC | CM>{o.id} {}
        C select_on_container_copy_construction() const { return C{this->id ^ 0x2000}; }
    };
    // construction may fail, allocation may not
    template<typename T> struct D : base<T, 3, CC | CM> {
        D() { vf::may_throw("default construction fails", 11); }
        D(int a, int b) : base<T, 3, CC | CM>{a ^ b} { vf::may_throw("construction fails", 12); }
        explicit D(int a) noexcept : base<T, 3, CC | CM>{a} {}
        template<typename U> D(D<U> const &o) noexcept : base<T, 3, CC | CM>{o.id} {}
        T *allocate(std::size_t n) noexcept { int const b = vf::throw_budget; vf::throw_budget = 0; T *p = base<T, 3, CC | CM>::allocate(n); vf::throw_budget = b; return p; }
    };
    struct w12 { int x[3]; };
    template<typename T> using P2d = dtl::polymorphic_allocator<T, D, A>;
    template<typename T> using P2e = dtl::polymorphic_allocator<T, A, D>;
    template<typename T> using P1d = dtl::polymorphic_allocator<T, D>;
    template<typename T> using P3d = dtl::polymorphic_allocator<T, D, B, A>;
    template<typename T> using P1 = dtl::polymorphic_allocator<T, B>;
    template<typename T> using P2 = dtl::polymorphic_allocator<T, A, B>;
    template<typename T> using P2r = dtl::polymorphic_allocator<T, C, A>;
    template<typename T> using P3 = dtl::polymorphic_allocator<T, A, B, C>;
    template<typename P> struct kinds;
    template<typename T> struct kinds<P1<T>> { static constexpr int n = 1, k[] = {1}; };
    template<typename T> struct kinds<P2<T>> { static constexpr int n = 2, k[] = {0, 1}; };
    template<typename T> struct kinds<P2r<T>> { static constexpr int n = 2, k[] = {2, 0}; };
    template<typename T> struct kinds<P3<T>> { static constexpr int n = 3, k[] = {0, 1, 2}; };
    template<typename T> struct kinds<P1d<T>> { static constexpr int n = 1, k[] = {3}; };
    template<typename T> struct kinds<P2d<T>> { static constexpr int n = 2, k[] = {3, 0}; };
    template<typename T> struct kinds<P2e<T>> { static constexpr int n = 2, k[] = {0, 3}; };
    template<typename T> struct kinds<P3d<T>> { static constexpr int n = 3, k[] = {3, 1, 0}; };
    template<int K, typename T> struct alt;
    template<typename T> struct alt<3, T> { using type = D<T>; };
    template<typename T> struct alt<0, T> { using type = A<T>; };
    template<typename T> struct alt<1, T> { using type = B<T>; };
    template<typename T> struct alt<2, T> { using type = C<T>; };

    // p holds the allocator (kind, id): everything reaches it, and only it
    template<typename P> consteval bool has_kind(int K) {
        for (int k : kinds<P>::k) { if (k == K) return true; }
        return false;
    }
    template<typename P> void holds(P &p, int kind, int id, char const *what) {
        using T = typename P::value_type;
        // an allocator that is not an alternative can be asked for as well, except of std::variant
        auto asks = [&]<int K, template<typename> typename X>() {
            if constexpr (kinds<P>::n <= 2 || has_kind<P>(K)) {
                vf_assert(p.template holds_allocator<X>() == (kind == K), "holds_allocator agrees with the allocator held");
                vf_assert(p.template holds_allocator<X<T>>() == (kind == K), "holds_allocator agrees with the allocator held");
            }
        };
        asks.template operator()<0, A>(); asks.template operator()<1, B>(); asks.template operator()<2, C>(); asks.template operator()<3, D>();
        u64 const n = vf_any_u64("n"), before = static_cast<u64>(calls);
        vf::throw_budget = 1;
        typename P::pointer q = nullptr;
        bool ok = false;
        try { q = p.allocate(n); ok = true; } catch (vf::injected const &e) { vf_assert(e.where == kind, "an exception of the allocator held is passed on"); }
        vf_assert(calls == static_cast<int>(before) + 1 && last.what == 1 && last.kind == kind && last.id == id, what);
        vf_assert(last.n == n && last.size == sizeof(T), "the arguments reach the allocator unchanged");
        if (ok) vf_assert(static_cast<void *>(q) == last.p, "the result of the allocator is returned unchanged");
        vf::throw_budget = 0;
        static char other[64];
        auto *r = null_blocks ? nullptr : reinterpret_cast<T *>(other + vf_any_range("freed", 0, 3) * 16);
        u64 const m = vf_any_u64("m");
        p.deallocate(r, m);
        vf_assert(calls == static_cast<int>(before) + 2 && last.what == 2 && last.kind == kind && last.id == id, what);
        vf_assert(last.n == m && last.p == r, "the arguments reach the allocator unchanged");
    }
    template<typename P, int I> P make_as(int id) {
        using T = typename P::value_type;
        using X = typename alt<kinds<P>::k[I], T>::type;
        switch (vf_choose("constructor", 4)) {
            case 0: return P{std::in_place_type<X>, id};
            case 1: return P{std::in_place_index<I>, id};
            case 2: { X x{id}; return P{x}; }
            default: return P{X{id}};
        }
    }
    struct state { int kind, id; };
    template<typename P> P make(state &s, char const *which) {
        constexpr int N = kinds<P>::n;
        int const i = vf_choose(which, N);
        s.id = static_cast<int>(vf_any_u32("id"));
        s.kind = kinds<P>::k[i];
        if constexpr (N > 2) if (i == 2) return make_as<P, 2>(s.id);
        if constexpr (N > 1) if (i == 1) return make_as<P, 1>(s.id);
        return make_as<P, 0>(s.id);
    }
    int soccc_id(state s) { return s.kind == 0 ? s.id ^ 0x1000 : s.kind == 2 ? s.id ^ 0x2000 : s.id; }

    template<typename P, bool Null = false> void c_forward() {
        reset();
        {
            null_blocks = Null;
            state s;
            P p = make<P>(s, "held");
            holds(p, s.kind, s.id, "calls reach exactly the allocator held");
            P d{};
            holds(d, kinds<P>::k[0], 7, "a default constructed one holds the first allocator");
        }
        vf_assert(vf::reg.n == 0, "nothing is left behind");
    }
    // an exception of the allocator's constructor reaches the caller
    template<typename P, int I> void c_construct() {
        reset();
        {
            using T = typename P::value_type;
            int const a = static_cast<int>(vf_any_u32("a")), b = static_cast<int>(vf_any_u32("b"));
            int const how = vf_choose("how", I == 0 ? 3 : 2);
            std::optional<P> p;
            vf::throw_budget = 1;
            try {
                if (how == 0) p.emplace(std::in_place_type<D<T>>, a, b);
                else if (how == 1) p.emplace(std::in_place_index<I>, a, b);
                else if constexpr (I == 0) p.emplace();
            } catch (vf::injected const &e) { vf_assert(e.where == (how == 2 ? 11 : 12) && !p, "the exception of the allocator's constructor reaches the caller"); }
            vf_assert(vf::throws_done == (p ? 0 : 1), "an exception of the allocator's constructor reaches the caller");
            vf::throw_budget = 0;
            if (p) holds(*p, 3, how == 2 ? 7 : a ^ b, "in_place constructs the allocator from the arguments");
            vf_cover(p ? "constructed" : "failed");
        }
        vf_assert(vf::reg.n == 0, "nothing is left behind");
    }
    template<typename P> void c_copies() {
        reset();
        {
            state s, t;
            P p = make<P>(s, "held");
            switch (vf_choose("how", 7)) {
                case 0: { P q{p}; holds(q, s.kind, s.id, "after a copy"); holds(p, s.kind, s.id, "after being copied"); vf_assert(p == q, "a copy is equal"); break; }
                case 1: { P q{std::move(p)}; holds(q, s.kind, s.id, "after a move"); holds(p, s.kind, s.id, "after being moved from"); break; }
                case 2: { P q = make<P>(t, "held2"); q = p; holds(q, s.kind, s.id, "after an assignment"); holds(p, s.kind, s.id, "after being assigned from"); vf_assert(p == q, "a copy is equal"); break; }
                case 3: { P q = make<P>(t, "held2"); q = std::move(p); holds(q, s.kind, s.id, "after an assignment"); holds(p, s.kind, s.id, "after being moved from"); break; }
                case 4: { P q = make<P>(t, "held2"); using std::swap; swap(p, q); holds(p, t.kind, t.id, "after a swap"); holds(q, s.kind, s.id, "after a swap"); break; }
                case 5: { P &r = p; p = r; holds(p, s.kind, s.id, "after a self assignment"); break; }
                default: { P q = std::allocator_traits<P>::select_on_container_copy_construction(p); holds(q, s.kind, soccc_id(s), "after select_on_container_copy_construction"); holds(p, s.kind, s.id, "after select_on_container_copy_construction"); break; }
            }
        }
        vf_assert(vf::reg.n == 0, "nothing is left behind");
    }
    template<typename P> void c_rebind() {
        reset();
        {
            state s;
            P p = make<P>(s, "held");
            using Q = typename std::allocator_traits<P>::template rebind_alloc<w12>;
            vf_static(std::is_same_v<typename Q::value_type, w12>);
            Q q{p};
            holds(q, s.kind, s.id, "after rebinding");
            P r{q};
            holds(r, s.kind, s.id, "after rebinding back");
            vf_assert(r == p, "rebinding back and forth is equal");
            holds(p, s.kind, s.id, "after being rebound");
        }
        vf_assert(vf::reg.n == 0, "nothing is left behind");
    }
    template<typename P> void c_equal() {
        reset();
        {
            state s, t;
            P p = make<P>(s, "held"), q = make<P>(t, "held2");
            bool const eq = s.kind == t.kind && s.id == t.id;
            vf_assert((p == q) == eq && (p != q) == !eq && (q == p) == eq, "equality: the same allocator with the same value");
            vf_cover(eq ? "equal" : "different");
        }
        vf_assert(vf::reg.n == 0, "nothing is left behind");
    }
    template<typename P, bool cc, bool cm, bool sw, bool ae> constexpr bool traits() {
        using X = std::allocator_traits<P>;
        return X::propagate_on_container_copy_assignment::value == cc && X::propagate_on_container_move_assignment::value == cm && X::propagate_on_container_swap::value == sw && X::is_always_equal::value == ae;
    }
}
VF_HARNESS(traits) {
    // propagation holds only if it holds for every alternative; allocators of different alternatives are never equal
    vf_assert(traits<P1<int>, true, false, true, true>(), "traits: one allocator");
    vf_assert(traits<P2<int>, true, false, true, false>(), "traits: propagate only if every alternative does");
    vf_assert(traits<P2r<int>, true, true, false, false>(), "traits: propagate only if every alternative does");
    vf_assert(traits<P3<int>, true, false, false, false>(), "traits: propagate only if every alternative does");
}
#define ALL(P) \
    VF_HARNESS(P##_forward) { c_forward<P<int>>(); } VF_HARNESS(P##_null_blocks) { c_forward<P<int>, true>(); } \
    VF_HARNESS(P##_copies) { c_copies<P<int>>(); } \
    VF_HARNESS(P##_rebind) { c_rebind<P<int>>(); } \
    VF_HARNESS(P##_equal) { c_equal<P<int>>(); }
ALL(P1) ALL(P2) ALL(P2r) ALL(P3)
VF_HARNESS(P2d_forward) { c_forward<P2d<int>>(); }
VF_HARNESS(P2e_forward) { c_forward<P2e<int>>(); }
VF_HARNESS(P3d_forward) { c_forward<P3d<int>>(); }
VF_HARNESS(P1d_construct) { c_construct<P1d<int>, 0>(); }
VF_HARNESS(P2d_construct) { c_construct<P2d<int>, 0>(); }
VF_HARNESS(P2e_construct) { c_construct<P2e<int>, 1>(); }
VF_HARNESS(P3d_construct) { c_construct<P3d<int>, 0>(); }

// ---------------------------------------------------------------- offset_ptr_stl_allocator
namespace {
    template<typename T> using O = dtl::offset_ptr_stl_allocator<T, A>;
    template<typename T> void reaches(O<T> &o, int id, char const *what) {
        u64 const n = vf_any_u64("n");
        vf::throw_budget = 1;
        int const before = calls;
        void *p = nullptr;
        bool ok = false;
        typename O<T>::pointer q;
        try { q = o.allocate(n); p = std::to_address(q); ok = true; } catch (vf::injected const &) {}
        vf_assert(calls == before + 1 && last.what == 1 && last.id == id && last.n == n && last.size == sizeof(T), what);
        if (!ok) return;
        vf_assert(p == last.p, "offset pointer: points to the block the upstream returned");
        u64 const m = vf_any_u64("m");
        o.deallocate(q, m);
        vf_assert(calls == before + 2 && last.what == 2 && last.id == id && last.n == m && last.p == p, what);
        vf_assert(o.upstream_allocator().id == id && std::as_const(o).upstream_allocator().id == id, what);
    }
}
VF_HARNESS(offset_ptr) {
    reset();
    int const id = static_cast<int>(vf_any_u32("id")), id2 = static_cast<int>(vf_any_u32("id2"));
    O<int> o = [&] { switch (vf_choose("constructor", 3)) { case 0: { A<int> a{id}; return O<int>{a}; } case 1: return O<int>{A<int>{id}}; default: return O<int>{std::in_place, id}; } }();
    O<int> z{std::in_place, id2};
    switch (vf_choose("how", 8)) {
        case 0: reaches(o, id, "offset pointer: calls reach the upstream"); break;
        case 1: { O<int> c{o}; reaches(c, id, "offset pointer: after a copy"); vf_assert(c == o, "offset pointer: a copy is equal"); break; }
        case 2: { O<int> c{std::move(o)}; reaches(c, id, "offset pointer: after a move"); break; }
        case 3: { z = o; reaches(z, id, "offset pointer: after an assignment"); break; }
        case 4: { swap(z, o); reaches(z, id, "offset pointer: after a swap"); reaches(o, id2, "offset pointer: after a swap"); break; }
        case 5: { O<w12> c{o}; reaches(c, id, "offset pointer: after rebinding"); break; }
        case 6: { auto c = std::allocator_traits<O<int>>::select_on_container_copy_construction(o); reaches(c, id ^ 0x1000, "offset pointer: after select_on_container_copy_construction"); break; }
        default: vf_assert((o == z) == (id == id2) && (o != z) == (id != id2), "offset pointer: equality is the upstream's");
    }
}
VF_HARNESS(offset_ptr_construct) {
    reset();
    using OD = dtl::offset_ptr_stl_allocator<int, D>;
    {
        int const a = static_cast<int>(vf_any_u32("a")), b = static_cast<int>(vf_any_u32("b"));
        bool const dflt = vf_any_bool("default");
        std::optional<OD> p;
        vf::throw_budget = 1;
        try { if (dflt) p.emplace(); else p.emplace(std::in_place, a, b); } catch (vf::injected const &e) { vf_assert(e.where == (dflt ? 11 : 12) && !p, "offset pointer: the exception of the upstream's constructor reaches the caller"); }
        vf::throw_budget = 0;
        if (p) vf_assert(p->upstream_allocator().id == (dflt ? 7 : a ^ b), "offset pointer: in_place constructs the upstream from the arguments");
    }
    vf_assert(vf::reg.n == 0, "nothing is left behind");
}
VF_HARNESS(offset_ptr_traits) {
    reset();
    vf_assert(traits<dtl::offset_ptr_stl_allocator<int, A>, true, true, true, false>() && traits<dtl::offset_ptr_stl_allocator<int, B>, true, false, true, true>() && traits<dtl::offset_ptr_stl_allocator<int, C>, true, true, false, false>(), "offset pointer: propagation and equality are the upstream's");
}

namespace {
    template<typename T, int K> struct fwd_alloc : vf::forwarded<K> {
        using value_type = T;
        using vf::forwarded<K>::forwarded;
        template<typename U> fwd_alloc(fwd_alloc<U, K> const &o) noexcept { this->token = o.token; }
        template<typename U> struct rebind { using other = fwd_alloc<U, K>; };
        T *allocate(std::size_t n) { hit = K * 1000 + this->token; return nullptr; }
        void deallocate(T *, std::size_t) {}
        static inline int hit;
    };
    template<typename T> using F1 = fwd_alloc<T, 1>;
    template<typename T> using F2 = fwd_alloc<T, 2>;
    template<typename P, int K> void made(P p) { fwd_alloc<int, K>::hit = 0; (void) p.allocate(1); int const h = fwd_alloc<int, K>::hit; vf_assert(h == K * 1000 + K * 100 + 7, "in_place constructs that allocator"); }
}
VF_HARNESS(forwarding) {
    using P = dtl::polymorphic_allocator<int, F1, F2>;
    using S = dtl::polymorphic_allocator<int, F1>;
    vf::check_forward([](auto &&...a) { made<P, 1>(P{std::in_place_type<F1<int>>, std::forward<decltype(a)>(a)...}); });
    vf::check_forward([](auto &&...a) { made<P, 2>(P{std::in_place_type<F2<int>>, std::forward<decltype(a)>(a)...}); });
    vf::check_forward([](auto &&...a) { made<P, 1>(P{std::in_place_index<0>, std::forward<decltype(a)>(a)...}); });
    vf::check_forward([](auto &&...a) { made<P, 2>(P{std::in_place_index<1>, std::forward<decltype(a)>(a)...}); });
    vf::check_forward([](auto &&...a) { made<S, 1>(S{std::in_place_type<F1<int>>, std::forward<decltype(a)>(a)...}); });
    vf::check_forward([](auto &&...a) { made<S, 1>(S{std::in_place_index<0>, std::forward<decltype(a)>(a)...}); });
    vf::check_forward([](auto &&...a) { dtl::offset_ptr_stl_allocator<int, F1> o{std::in_place, std::forward<decltype(a)>(a)...}; vf_assert(o.upstream_allocator().token == 107, "in_place constructs the upstream"); });
}
