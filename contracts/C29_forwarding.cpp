// C29: overloaded, match, bind_front and DICE_MEMFN. Arguments are ghost objects whose identity and value category the
// callee records; results are references to ghost objects, prvalues of non-movable type, void or an exception.
//@ trusted: std::visit and std::get_if are verified along (libstdc++ source)
#include "vf.hpp"
#include <dice/template-library/functional.hpp>
#include <dice/template-library/memfn.hpp>
#include <dice/template-library/overloaded.hpp>
#include <dice/template-library/variant2.hpp>
#include <variant>
namespace dtl = dice::template_library;
namespace {
    using u64 = std::uint64_t;
    enum cat_t { none, lref, clref, rref, crref };
    template<typename T> constexpr cat_t cat = std::is_lvalue_reference_v<T &&> ? (std::is_const_v<std::remove_reference_t<T>> ? clref : lref) : (std::is_const_v<std::remove_reference_t<T>> ? crref : rref);
    struct arg_log { void const *addr; cat_t how; u64 v; };
    arg_log args[8]; int n_args, calls, which; u64 returned_value; bool throws;
    int copies, moves;
    template<int Tag> struct val {
        u64 v; bool gone = false;
        explicit val(u64 x) : v{x} {}
        val(val const &o) : v{o.v} { vf_assert(!o.gone, "nothing is used after it was moved from"); ++copies; }
        val(val &&o) noexcept : v{o.v} { vf_assert(!o.gone, "nothing is used after it was moved from"); o.gone = true; o.v = vf_any_u64("moved-from"); ++moves; }
        val &operator=(val const &) = delete;
    };
    using A = val<0>; using B = val<1>; using C = val<2>;
    struct pinned { u64 v; explicit pinned(u64 x) : v{x} {} pinned(pinned const &) = delete; };
    u64 target;                                                // results that are references refer to this
    struct thrown { u64 v; };
    template<typename T> void log1(T &&x) { args[n_args++] = {&x, cat<T>, x.v}; }
    template<typename ...Ts> void enter(int w, Ts &&...xs) { ++calls; which = w; n_args = 0; (log1(std::forward<Ts>(xs)), ...); if (throws) throw thrown{returned_value}; }
    void reset() { vf::reset(); n_args = calls = 0; which = -1; copies = moves = 0; returned_value = vf_any_u64("result"); throws = vf_any_bool("throws"); }
    void ret_void(int) {}
    enum ret_t { r_void, r_value, r_pinned, r_lref, r_clref, r_rref, n_ret };
    template<int R> struct result;
    template<> struct result<r_void> { using type = void; }; template<> struct result<r_value> { using type = u64; }; template<> struct result<r_pinned> { using type = pinned; };
    template<> struct result<r_lref> { using type = u64 &; }; template<> struct result<r_clref> { using type = u64 const &; }; template<> struct result<r_rref> { using type = u64 &&; };
    template<int R> typename result<R>::type give() {
        if constexpr (R == r_value) return returned_value;
        else if constexpr (R == r_pinned) return pinned{returned_value};
        else if constexpr (R == r_lref || R == r_clref) return target;
        else if constexpr (R == r_rref) return std::move(target);
    }
    // runs the call and checks that what arrives is what the callee gave
    template<int R, typename F> void run(F f) {
        using T = typename result<R>::type;
        vf_assert(std::is_same_v<decltype(f()), T>, "the result has the callee's type and reference category");
        bool threw = false;
        try {
            if constexpr (R == r_void) f();
            else if constexpr (R == r_value) vf_assert(f() == returned_value, "the callee's result is returned");
            else if constexpr (R == r_pinned) { pinned const p = f(); vf_assert(p.v == returned_value, "the callee's result is returned"); }
            else { auto &&r = f(); vf_assert(&r == &target, "a returned reference refers to what the callee's does"); }
        } catch (thrown const &e) { threw = true; vf_assert(e.v == returned_value, "the callee's exception arrives unchanged"); }
        vf_assert(threw == throws && calls == 1, "the callee is called exactly once, its exceptions are let through");
    }
    void arg(int i, void const *a, cat_t c, u64 v) {
        if (a) vf_assert(args[i].addr == a, "arguments are passed on themselves, not as copies");
        vf_assert(args[i].how == c, "arguments are passed on with their value category");
        vf_assert(args[i].v == v, "arguments are passed on with their values");
    }
    // ------------------------------------------------------------ overloaded, match
    template<int R> auto visitors() {
        return dtl::overloaded{
            [](A &x) -> typename result<R>::type { enter(0, x); return give<R>(); }, [](A const &x) -> typename result<R>::type { enter(0, x); return give<R>(); },
            [](A &&x) -> typename result<R>::type { enter(0, std::move(x)); return give<R>(); }, [](A const &&x) -> typename result<R>::type { enter(0, std::move(x)); return give<R>(); },
            []<typename T>(T &&x) -> typename result<R>::type requires(std::is_same_v<std::remove_cvref_t<T>, B>) { enter(1, std::forward<T>(x)); return give<R>(); },
            [](auto &&x) -> typename result<R>::type { enter(2, std::forward<decltype(x)>(x)); return give<R>(); }};
    }
    template<int R> void overload() {
        reset();
        auto o = visitors<R>();
        A a{vf_any_u64("a")}; B b{vf_any_u64("b")}; C c{vf_any_u64("c")};
        u64 const va = a.v, vb = b.v, vc = c.v;
        int const w = vf_choose("call", 3), how = vf_choose("as", 4);
        auto call = [&](auto &x, u64 v) {
            switch (how) {
                case 0: run<R>([&]() -> decltype(auto) { return o(x); }); arg(0, &x, lref, v); break;
                case 1: run<R>([&]() -> decltype(auto) { return o(std::as_const(x)); }); arg(0, &x, clref, v); break;
                case 2: run<R>([&]() -> decltype(auto) { return o(std::move(x)); }); arg(0, &x, rref, v); break;
                default: run<R>([&]() -> decltype(auto) { return o(std::move(std::as_const(x))); }); arg(0, &x, crref, v); break;
            }
        };
        if (w == 0) call(a, va); else if (w == 1) call(b, vb); else call(c, vc);
        vf_assert(which == w && n_args == 1, "the overload for the argument is called");
        vf_assert(copies == 0 && moves == 0, "forwarding copies and moves nothing");
    }
    // a visitor whose operator() depends on how the set itself is called
    struct q { template<typename T> int operator()(T &&) & { return 1; } template<typename T> int operator()(T &&) const & { return 2; } };
    template<typename V, int R> void do_match() {
        reset();
        int const held = vf_choose("held", 3), how = vf_choose("as", 4);
        u64 const v = vf_any_u64("v");
        auto go = [&](V &&x0) {
            V x{std::move(x0)};
            copies = moves = 0;
            auto &cx = std::as_const(x);
            auto m = [&](auto &&arg_) -> decltype(auto) {
                return dtl::match(std::forward<decltype(arg_)>(arg_),
                    [](A &y) -> typename result<R>::type { enter(0, y); return give<R>(); }, [](A const &y) -> typename result<R>::type { enter(0, y); return give<R>(); },
                    [](A &&y) -> typename result<R>::type { enter(0, std::move(y)); return give<R>(); }, [](A const &&y) -> typename result<R>::type { enter(0, std::move(y)); return give<R>(); },
                    []<typename T>(T &&y) -> typename result<R>::type requires(std::is_same_v<std::remove_cvref_t<T>, B>) { enter(1, std::forward<T>(y)); return give<R>(); },
                    [](auto &&y) -> typename result<R>::type { enter(2, std::forward<decltype(y)>(y)); return give<R>(); });
            };
            switch (how) {
                case 0: run<R>([&]() -> decltype(auto) { return m(x); }); break;
                case 1: run<R>([&]() -> decltype(auto) { return m(cx); }); break;
                case 2: run<R>([&]() -> decltype(auto) { return m(std::move(x)); }); break;
                default: run<R>([&]() -> decltype(auto) { return m(std::move(cx)); }); break;
            }
            vf_assert(which == held && n_args == 1, "the overload for the held alternative is called");
            auto at = [&](auto *p) { vf_assert(p != nullptr, "the alternative is still held"); if (p) arg(0, p, how == 0 ? lref : how == 1 ? clref : how == 2 ? rref : crref, v); };
            if constexpr (requires { std::get_if<0>(&x); }) { if (held == 0) at(std::get_if<A>(&x)); else if (held == 1) at(std::get_if<B>(&x)); else at(std::get_if<C>(&x)); }
            else { if (held == 0) at(dtl::get_if<A>(&x)); else at(dtl::get_if<B>(&x)); }
            vf_assert(copies == 0 && moves == 0, "matching copies and moves nothing");
        };
        if constexpr (std::is_same_v<V, dtl::variant2<A, B>>) { if (held == 0) go(V{A{v}}); else if (held == 1) go(V{B{v}}); }
        else { if (held == 0) go(V{std::in_place_type<A>, v}); else if (held == 1) go(V{std::in_place_type<B>, v}); else go(V{std::in_place_type<C>, v}); }
    }
    // visitors given as lvalues are copied, as rvalues moved, and keep their state
    struct state_fn { u64 s; u64 operator()(A &x) const { enter(0, x); return s; } };
    void match_state() {
        reset(); throws = false;
        std::variant<A, B> x{std::in_place_type<A>, vf_any_u64("v")};
        state_fn f{vf_any_u64("state")}; state_fn const cf = f;
        auto g = [s = f.s](B &y) -> u64 { enter(1, y); return s; };
        u64 const r = vf_any_bool("const") ? dtl::match(x, cf, g) : vf_any_bool("rvalue") ? dtl::match(x, state_fn{f}, std::move(g)) : dtl::match(x, f, g);
        vf_assert(r == f.s && calls == 1 && which == 0, "visitors keep their state");
    }
    // ------------------------------------------------------------ bind_front
    template<int R> struct callee { template<typename ...Ts> typename result<R>::type operator()(Ts &&...xs) const { enter((int) sizeof...(Ts), std::forward<Ts>(xs)...); return give<R>(); } };
    template<int R, int Bound, int Rest> void bind() {
        reset();
        A a{vf_any_u64("a")}; B b{vf_any_u64("b")};
        A x{vf_any_u64("x")}; C y{vf_any_u64("y")};
        u64 const va = a.v, vb = b.v, vx = x.v, vy = y.v;
        bool const bind_rvalue = vf_any_bool("bound from rvalue");
        auto make = [&] {
            if constexpr (Bound == 0) return dtl::bind_front<callee<R>{}>();
            else if constexpr (Bound == 1) { if (bind_rvalue) return dtl::bind_front<callee<R>{}>(std::move(a)); else return dtl::bind_front<callee<R>{}>(A{std::as_const(a)}); }
            else { if (bind_rvalue) return dtl::bind_front<callee<R>{}>(std::move(a), std::move(b)); else return dtl::bind_front<callee<R>{}>(A{a}, B{std::as_const(b)}); }
        };
        auto f = make();
        auto &cf = std::as_const(f);
        int const self = vf_choose("self", 4), how = vf_choose("as", 3);
        copies = moves = 0;
        auto call = [&](auto &&g) {
            run<R>([&]() -> decltype(auto) {
                auto &&h = std::forward<decltype(g)>(g);
                if constexpr (Rest == 0) return std::forward<decltype(g)>(h)();
                else if constexpr (Rest == 1) { if (how == 0) return std::forward<decltype(g)>(h)(x); else if (how == 1) return std::forward<decltype(g)>(h)(std::as_const(x)); else return std::forward<decltype(g)>(h)(std::move(x)); }
                else { if (how == 0) return std::forward<decltype(g)>(h)(x, std::move(y)); else if (how == 1) return std::forward<decltype(g)>(h)(std::as_const(x), y); else return std::forward<decltype(g)>(h)(std::move(x), std::as_const(y)); }
            });
        };
        if (self == 0) call(f); else if (self == 1) call(cf); else if (self == 2) call(std::move(f)); else call(std::move(cf));
        vf_assert(n_args == Bound + Rest, "the callee gets the bound arguments and the call arguments");
        cat_t const c = self == 0 ? lref : self == 1 ? clref : self == 2 ? rref : crref;
        if (Bound > 0) arg(0, nullptr, c, va);
        if (Bound > 1) arg(1, nullptr, c, vb);
        auto in_f = [&](void const *p) { auto const d = (std::uintptr_t) p - (std::uintptr_t) &f; return d < sizeof f; };
        if (Bound > 0) vf_assert(in_f(args[0].addr), "bound arguments are the stored ones");
        if (Bound > 1) vf_assert(in_f(args[1].addr), "bound arguments are the stored ones");
        if (Rest > 0) arg(Bound, &x, how == 0 ? lref : how == 1 ? clref : rref, vx);
        if (Rest > 1) arg(Bound + 1, &y, how == 0 ? rref : how == 1 ? lref : clref, vy);
        vf_assert(copies == 0 && moves == 0, "forwarding copies and moves nothing");
    }
    // lvalues are bound by copy: later changes do not show
    void bind_lvalue() {
        reset(); throws = false;
        A a{vf_any_u64("a")}; u64 const v = a.v;
        auto f = dtl::bind_front<callee<r_void>{}>(a);
        auto g = dtl::bind_front<callee<r_void>{}>(std::as_const(a));
        a.v = vf_any_u64("changed");
        f(); arg(0, nullptr, lref, v);
        std::as_const(g)(); arg(0, nullptr, clref, v);
        f(); arg(0, nullptr, lref, v);
        vf_assert(calls == 3, "every call calls");
        auto h = f;
        h(); arg(0, nullptr, lref, v);
        auto k = std::move(f);
        k(); arg(0, nullptr, lref, v);
    }
    u64 free_fn(A &x, u64 y) { enter(1, x); return y; }
    u64 free_nothrow(A const &x, u64) noexcept { return x.v; }
    struct host_t {
        u64 m;
        u64 add(A const &x, u64 y) const { enter(2, x); return m ^ y; }
        u64 mut(A &x) & { enter(3, x); return ++m; }
    };
    void bind_functions() {
        reset(); throws = false;
        A a{vf_any_u64("a")}; u64 const y = vf_any_u64("y"), m = vf_any_u64("m");
        host_t h{m};
        auto f = dtl::bind_front<&free_fn>(a);
        vf_assert(f(y) == y && which == 1, "free functions"); arg(0, nullptr, lref, a.v);
        auto g = dtl::bind_front<&host_t::add>(h);
        vf_assert(g(a, y) == (m ^ y) && which == 2, "member functions are called on the first argument"); arg(0, &a, clref, a.v);
        auto p = dtl::bind_front<&host_t::add>(&h, a);
        h.m = vf_any_u64("m2");
        vf_assert(p(y) == (h.m ^ y), "member functions are called through a pointer");
        auto q = dtl::bind_front<&host_t::mut>(&h);
        u64 const before = h.m;
        vf_assert(q(a) == before + 1 && h.m == before + 1 && which == 3, "the object itself is changed"); arg(0, &a, lref, a.v);
        auto d = dtl::bind_front<&host_t::m>();
        vf_static(std::is_same_v<decltype(d(h)), u64 &>);
        vf_assert(&d(h) == &h.m, "data members are accessed");
        auto nf = dtl::bind_front<&free_nothrow>(a);
        vf_static(noexcept(nf(y)) && !noexcept(f(y)));
        vf_assert(nf(y) == a.v, "free functions");
    }
    // ------------------------------------------------------------ DICE_MEMFN
    template<int R> struct obj {
        u64 id;
        template<typename ...Ts> typename result<R>::type f(Ts &&...xs) { vf_assert(this->id == id_of, "the member is called on this object"); self = this; was_const = false; enter((int) sizeof...(Ts), std::forward<Ts>(xs)...); return give<R>(); }
        template<typename ...Ts> typename result<R>::type f(Ts &&...xs) const { self = this; was_const = true; enter((int) sizeof...(Ts), std::forward<Ts>(xs)...); return give<R>(); }
        static inline u64 id_of; static inline void const *self; static inline bool was_const;
        void run_mut(int how) {
            A a{vf_any_u64("a")}; B b{vf_any_u64("b")}; C c{vf_any_u64("c")};
            u64 const va = a.v, vb = b.v, vc = c.v;
            switch (how) {
                case 0: run<R>([&, g = DICE_MEMFN(f)]() -> decltype(auto) { return g(); }); vf_assert(n_args == 0, "no argument"); break;
                case 1: run<R>([&, g = DICE_MEMFN(f)]() -> decltype(auto) { return g(a); }); vf_assert(n_args == 1, "one argument"); arg(0, &a, lref, va); break;
                case 2: run<R>([&, g = DICE_MEMFN(f)]() -> decltype(auto) { return g(std::move(a), std::as_const(c)); }); vf_assert(n_args == 2, "two arguments"); arg(0, &a, rref, va); arg(1, &c, clref, vc); break;
                case 3: run<R>([&, g = DICE_MEMFN(f, b)]() -> decltype(auto) { return g(); }); vf_assert(n_args == 1, "one argument"); arg(0, &b, lref, vb); break;
                case 4: run<R>([&, g = DICE_MEMFN(f, b, std::as_const(a))]() -> decltype(auto) { return g(std::move(c)); }); vf_assert(n_args == 3, "three arguments"); arg(0, &b, lref, vb); arg(1, &a, clref, va); arg(2, &c, rref, vc); break;
                default: run<R>([&, g = DICE_MEMFN(f, std::move(b))]() -> decltype(auto) { return g(a, c); }); vf_assert(n_args == 3, "three arguments"); arg(0, &b, rref, vb); arg(1, &a, lref, va); arg(2, &c, lref, vc); break;
            }
            vf_assert(self == this && !was_const, "the member is called on this object");
            vf_assert(copies == 0 && moves == 0, "forwarding copies and moves nothing");
        }
        void run_const() const {
            A a{vf_any_u64("a")}; u64 const va = a.v;
            run<R>([&, g = DICE_MEMFN(f, a)]() -> decltype(auto) { return g(std::move(a)); });
            vf_assert(n_args == 2, "two arguments"); arg(0, &a, lref, va); arg(1, &a, rref, va);
            vf_assert(self == this && was_const, "the member is called on this object");
        }
    };
    template<int R> void memfn() {
        reset();
        obj<R> o{vf_any_u64("id")};
        obj<R>::id_of = o.id;
        int const how = vf_choose("how", 7);
        if (how == 6) std::as_const(o).run_const(); else o.run_mut(how);
    }
}
#define R(X) \
    VF_HARNESS(overloaded_##X) { overload<r_##X>(); } VF_HARNESS(match_##X) { do_match<std::variant<A, B, C>, r_##X>(); } VF_HARNESS(match2_##X) { do_match<dtl::variant2<A, B>, r_##X>(); } \
    VF_HARNESS(memfn_##X) { memfn<r_##X>(); } VF_HARNESS(bind00_##X) { bind<r_##X, 0, 0>(); } VF_HARNESS(bind10_##X) { bind<r_##X, 1, 0>(); } VF_HARNESS(bind01_##X) { bind<r_##X, 0, 1>(); } \
    VF_HARNESS(bind12_##X) { bind<r_##X, 1, 2>(); } VF_HARNESS(bind21_##X) { bind<r_##X, 2, 1>(); } VF_HARNESS(bind22_##X) { bind<r_##X, 2, 2>(); }
R(void) R(value) R(pinned) R(lref) R(clref) R(rref)
VF_HARNESS(match_visitor_state) { match_state(); }
VF_HARNESS(bind_copies_lvalues) { bind_lvalue(); }
VF_HARNESS(bind_callables) { bind_functions(); }
