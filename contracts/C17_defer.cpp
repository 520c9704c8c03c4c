// C17: scope guards. Each is created while any number of exceptions is in flight (vf_uncaught_base), in scopes that are
// left in every way: falling off the end, return, break, an exception that leaves it, one that is handled inside.
//@ trusted: the exception runtime by contract (std::uncaught_exceptions counts the exceptions in flight)
#include "vf.hpp"
#include <dice/template-library/defer.hpp>
#include <string>
namespace dtl = dice::template_library;
namespace {
    using u64 = std::uint64_t;
    int ran[8], order[16], n_order;
    void act(int k) { ++ran[k]; order[n_order++ & 15] = k; }
    void reset() { vf::reset(); for (int &r : ran) r = 0; n_order = 0; vf_uncaught_base((int) vf_any_range("exceptions in flight", 0, 1u << 30)); }
    using P = dtl::ScopeExitPolicy;
    bool due(P p, bool threw) { return p == P::Always || (p == P::OnFail) == threw; }
    enum leave { end_, return_, break_, throw_, handled, n_leave };
    // a function object that counts; nothing may be lost or duplicated on the way into the guard
    struct fn {
        int k; bool *dead;
        fn(int x, bool *d) noexcept : k{x}, dead{d} {}
        fn(fn const &o) noexcept : k{o.k}, dead{o.dead} {}
        fn(fn &&o) noexcept : k{o.k}, dead{o.dead} { o.k = 7; }
        ~fn() { if (dead) *dead = true; }
        int operator()() noexcept { act(k); return 3; }
    };
    void run_leave(int how) {
        switch (how) {
            case throw_: throw vf::injected{1};
            case handled: try { throw vf::injected{2}; } catch (vf::injected const &) {} break;
            default: break;
        }
    }
    template<P Pol> auto guard(fn &&f) {
        if constexpr (Pol == P::Always) return dtl::make_scope_exit_guard(std::move(f));
        else if constexpr (Pol == P::OnFail) return dtl::make_scope_fail_guard(std::move(f));
        else return dtl::make_scope_success_guard(std::move(f));
    }
    template<P Pol> auto guard(fn const &f) {
        if constexpr (Pol == P::Always) return dtl::make_scope_exit_guard(f);
        else if constexpr (Pol == P::OnFail) return dtl::make_scope_fail_guard(f);
        else return dtl::make_scope_success_guard(f);
    }
    template<P Pol, int Make> void scope(int how) {
        bool dead = false;
        for (int i = 0; i < 1; ++i) {
            fn src{0, nullptr};
            if constexpr (Make == 0) { auto g = guard<Pol>(std::move(src)); vf_assert(ran[0] == 0, "no action runs before the end of its scope"); run_leave(how); if (how == return_) return; if (how == break_) break; vf_assert(ran[0] == 0, "no action runs before the end of its scope"); }
            if constexpr (Make == 1) { auto g = guard<Pol>(std::as_const(src)); run_leave(how); if (how == return_) return; if (how == break_) break; vf_assert(ran[0] == 0, "no action runs before the end of its scope"); }
            if constexpr (Make == 2) { dtl::ScopeExitGuard<Pol, fn> g{std::move(src)}; run_leave(how); if (how == return_) return; if (how == break_) break; }
            if constexpr (Make == 3) { dtl::ScopeExitGuard<Pol, fn> g{std::as_const(src)}; run_leave(how); if (how == return_) return; if (how == break_) break; }
            if constexpr (Make == 4) { if constexpr (Pol == P::Always) { DICE_DEFER { act(0); }; run_leave(how); if (how == return_) return; if (how == break_) break; } else if constexpr (Pol == P::OnFail) { DICE_DEFER_TO_FAIL { act(0); }; run_leave(how); if (how == return_) return; if (how == break_) break; } else { DICE_DEFER_TO_SUCCESS { act(0); }; run_leave(how); if (how == return_) return; if (how == break_) break; } }
            if constexpr (Make == 5) { static void (*const fp)() = [] { act(0); }; dtl::ScopeExitGuard<Pol, void (*)()> g{fp}; run_leave(how); if (how == return_) return; if (how == break_) break; }
            if constexpr (Make == 6) { dtl::ScopeExitGuard<Pol, fn> g; run_leave(how); if (how == return_) return; if (how == break_) break; }
        }
        (void) dead;
    }
    template<P Pol, int Make> void once() {
        reset();
        int const how = vf_choose("leave", n_leave);
        bool threw = false;
        try { scope<Pol, Make>(how); } catch (vf::injected const &e) { threw = true; vf_assert(e.where == 1, "the exception that left the scope arrives unchanged"); }
        vf_assert(threw == (how == throw_), "a scope is left by its own exceptions only");
        vf_assert(ran[0] == (Make != 6 && due(Pol, threw)), "the action runs exactly once on exactly the right exits");
        vf_assert(ran[7] == 0, "only the stored function runs");
        vf_cover(threw ? "threw" : "normal");
    }
    // the guards live in a destructor that runs while another exception unwinds the stack (or not)
    template<int Make> struct in_dtor {
        int how; bool *inner;
        ~in_dtor() {
            try { scope<P::Always, Make>(how); } catch (vf::injected const &) { *inner = true; }
            int const a = ran[0]; ran[0] = 0; ran[1] = a;
            try { scope<P::OnFail, Make>(how); } catch (vf::injected const &) {}
            ran[2] = ran[0]; ran[0] = 0;
            try { scope<P::OnSuccess, Make>(how); } catch (vf::injected const &) {}
            ran[3] = ran[0]; ran[0] = 0;
        }
    };
    template<int Make> void nested() {
        reset();
        int const how = vf_choose("leave", n_leave);
        bool const outer = vf_any_bool("unwinding");
        bool inner = false, out = false;
        try { in_dtor<Make> d{how, &inner}; if (outer) throw 5; } catch (int) { out = true; }
        vf_assert(inner == (how == throw_) && out == outer, "exceptions leave exactly their scopes");
        vf_assert(ran[1] == 1, "a plain action runs exactly once");
        vf_assert(ran[2] == (how == throw_), "a fail action runs exactly if its own scope is left by an exception, also during unwinding");
        vf_assert(ran[3] == (how != throw_), "a success action runs exactly if its own scope is left without an exception, also during unwinding");
    }
    // two levels of unwinding
    struct lvl2 { ~lvl2() { try { in_dtor<4> d{g_how, &g_inner}; throw 6; } catch (int) {} } static inline int g_how; static inline bool g_inner; };
    void mixed(int how) {
        DICE_DEFER { act(0); };
        DICE_DEFER_TO_FAIL { act(1); };
        DICE_DEFER_TO_SUCCESS { act(2); };
        DICE_DEFER { act(3); };
        DICE_DEFER_TO_SUCCESS { act(4); };
        DICE_DEFER_TO_FAIL { act(5); };
        if (how == return_) return;
        run_leave(how);
    }
    void success_throws(int who) {
        DICE_DEFER { act(0); };
        DICE_DEFER_TO_SUCCESS { act(1); };
        DICE_DEFER_TO_FAIL { act(2); };
        DICE_DEFER_TO_SUCCESS { act(3); throw vf::injected{who}; };
        DICE_DEFER_TO_FAIL { act(4); };
        DICE_DEFER_TO_SUCCESS { act(5); };
        DICE_DEFER { act(6); };
    }
}
VF_HARNESS(exit_guard) { switch (vf_choose("make", 7)) { case 0: once<P::Always, 0>(); break; case 1: once<P::Always, 1>(); break; case 2: once<P::Always, 2>(); break; case 3: once<P::Always, 3>(); break; case 4: once<P::Always, 4>(); break; case 5: once<P::Always, 5>(); break; default: once<P::Always, 6>(); } }
VF_HARNESS(fail_guard) { switch (vf_choose("make", 7)) { case 0: once<P::OnFail, 0>(); break; case 1: once<P::OnFail, 1>(); break; case 2: once<P::OnFail, 2>(); break; case 3: once<P::OnFail, 3>(); break; case 4: once<P::OnFail, 4>(); break; case 5: once<P::OnFail, 5>(); break; default: once<P::OnFail, 6>(); } }
VF_HARNESS(success_guard) { switch (vf_choose("make", 7)) { case 0: once<P::OnSuccess, 0>(); break; case 1: once<P::OnSuccess, 1>(); break; case 2: once<P::OnSuccess, 2>(); break; case 3: once<P::OnSuccess, 3>(); break; case 4: once<P::OnSuccess, 4>(); break; case 5: once<P::OnSuccess, 5>(); break; default: once<P::OnSuccess, 6>(); } }
VF_HARNESS(during_unwinding) { if (vf_any_bool("macro")) nested<4>(); else nested<0>(); }
VF_HARNESS(during_unwinding_twice) {
    reset();
    lvl2::g_how = vf_choose("leave", n_leave); lvl2::g_inner = false;
    try { lvl2 l; if (vf_any_bool("unwinding")) throw 5; } catch (int) {}
    vf_assert(ran[1] == 1 && ran[2] == (lvl2::g_how == throw_) && ran[3] == (lvl2::g_how != throw_), "each action runs exactly once on the right exits of its own scope");
}
VF_HARNESS(in_handler) {
    // inside a handler the handled exception is no longer in flight; leaving by rethrowing it is a failure
    reset();
    bool const again = vf_any_bool("rethrow");
    bool threw = false;
    try {
        try { throw vf::injected{3}; }
        catch (vf::injected const &) {
            DICE_DEFER_TO_FAIL { act(1); };
            DICE_DEFER_TO_SUCCESS { act(2); };
            DICE_DEFER { act(0); };
            if (again) throw;
        }
    } catch (vf::injected const &e) { threw = true; vf_assert(e.where == 3, "the exception that left the scope arrives unchanged"); }
    vf_assert(threw == again && ran[0] == 1 && ran[1] == threw && ran[2] == !threw, "the action runs exactly once on exactly the right exits");
}
VF_HARNESS(reverse_order) {
    reset();
    int const how = vf_choose("leave", n_leave);
    bool threw = false;
    try { mixed(how); } catch (vf::injected const &) { threw = true; }
    vf_assert(threw == (how == throw_), "a scope is left by its own exceptions only");
    vf_assert(n_order == 4, "each action runs exactly once on exactly the right exits");
    if (threw) vf_assert(order[0] == 5 && order[1] == 3 && order[2] == 1 && order[3] == 0, "actions run in reverse order of declaration");
    else vf_assert(order[0] == 4 && order[1] == 3 && order[2] == 2 && order[3] == 0, "actions run in reverse order of declaration");
}
VF_HARNESS(success_action_throws) {
    // from then on the scope is left by an exception
    reset();
    int const who = (int) vf_any_u32("who");
    bool threw = false;
    try { success_throws(who); } catch (vf::injected const &e) { threw = true; vf_assert(e.where == who, "the exception thrown by a success action propagates"); }
    vf_assert(threw, "the exception thrown by a success action propagates");
    vf_assert(n_order == 5 && order[0] == 6 && order[1] == 5 && order[2] == 3 && order[3] == 2 && order[4] == 0, "the remaining actions run, for a scope left by an exception");
}
VF_HARNESS(captures_by_reference) {
    reset();
    u64 x = vf_any_u64("x"), seen = 0; u64 const y = vf_any_u64("y");
    { DICE_DEFER { seen = x; }; x = y; }
    vf_assert(seen == y, "a deferred action sees the values at the end of its scope");
    { std::size_t n = 0; DICE_DEFER_TO_SUCCESS { seen = n + y; }; n = x ^ y; }
    vf_assert(seen == (x ^ y) + y, "a deferred action sees the values at the end of its scope");
}
VF_HARNESS(stored_function) {
    // the guard stores a copy or the moved function, destroys it once, and copies or moves that throw are passed on
    reset();
    using C = vf::el<4>;
    struct fo : C { using C::C; void operator()() const noexcept { act(1); order[15] = (int) (this->v & 0xff); } };
    u64 const x = vf_any_u64("x");
    {
        fo f{x};
        bool const mv = vf_any_bool("move");
        bool threw = false;
        vf::throw_budget = 1;
        try {
            auto body = [](auto &&g) { (void) g; vf::throw_budget = 0; };
            if (mv) body(dtl::ScopeExitGuard<P::Always, fo>{std::move(f)}); else body(dtl::ScopeExitGuard<P::Always, fo>{std::as_const(f)});
        } catch (vf::injected const &) { threw = true; }
        vf::throw_budget = 0;
        vf_assert(ran[1] == !threw, "the action runs once unless the guard could not be created");
        if (!threw) vf_assert(order[15] == (int) (x & 0xff), "the function given is the one that runs");
        if (!mv) vf_assert(f.v == x, "a function given by const reference is not changed");
        vf_cover(threw ? "threw" : "created");
    }
    vf_assert(vf::reg.n == 0, "the stored function is destroyed once");
}
VF_HARNESS(types) {
    vf::reset();
    vf_static(!std::is_copy_constructible_v<dtl::ScopeExitGuard<P::Always, fn>> && !std::is_move_constructible_v<dtl::ScopeExitGuard<P::OnFail, fn>> && !std::is_copy_assignable_v<dtl::ScopeExitGuard<P::OnSuccess, fn>>);
    vf_static(!std::is_nothrow_destructible_v<dtl::ScopeExitGuard<P::OnSuccess, fn>>);
}
// a guard that is not a local variable: exceptions may come and go between its creation and its end
namespace {
    template<P Pol> void outlives() {
        vf::reset(); for (int &r : ran) r = 0; n_order = 0;
        int const then = (int) vf_any_range("in flight at creation", 0, 1u << 30), now = (int) vf_any_range("in flight at the end", 0, 1u << 30);
        using G = dtl::ScopeExitGuard<Pol, fn>;
        alignas(G) char mem[sizeof(G)];
        vf_uncaught_base(then);
        G *g = new (mem) G{fn{0, nullptr}};
        vf_uncaught_base(now);
        vf_assert(ran[0] == 0, "no action runs before the end of its scope");
        g->~G();
        vf_uncaught_base(0);
        vf_assert(ran[0] == due(Pol, now > then), "the action runs if the scope failed: more exceptions are in flight than at its creation");
        vf_cover(now > then ? "failed" : "normal");
    }
}
VF_HARNESS(outlives_always) { outlives<P::Always>(); }
VF_HARNESS(outlives_fail) { outlives<P::OnFail>(); }
VF_HARNESS(outlives_success) { outlives<P::OnSuccess>(); }
