// C16: mutex, shared_mutex and their guards over a ghost mutex whose try operations have any outcome (so any
// behaviour of the other threads), and over std::mutex / std::shared_mutex.
//@ trusted: std::unique_lock and std::shared_lock are verified along (libstdc++ source)
//@ trusted: pthread_mutex_lock/trylock/unlock and pthread_rwlock_* by contract (they succeed, or fail to lock with EBUSY)
#include "vf.hpp"
#include <dice/template-library/mutex.hpp>
#include <dice/template-library/shared_mutex.hpp>
#include <cerrno>
#include <pthread.h>
#include <memory>
#include <optional>
namespace dtl = dice::template_library;
namespace {
    using u64 = std::uint64_t;
    enum mode { free_, excl, shared };
    int locks, unlocks, last_kind; void *last_mutex; bool last_ok;
    // what this thread holds; others are reflected by the outcome of try_lock
    struct gm {
        int held_excl = 0, held_shared = 0;
        gm() noexcept = default;
        gm(gm const &) = delete;
        ~gm() { vf_assert(held_excl == 0 && held_shared == 0, "a mutex is not destroyed while locked"); }
        void got(int k) { ++locks; last_kind = k; last_mutex = this; (k == excl ? held_excl : held_shared)++; }
        void lock() {
            vf_assert(held_excl == 0 && held_shared == 0, "no thread locks a mutex it already holds");
            vf::may_throw("lock throws", 9);
            got(excl);
        }
        bool try_lock() {
            vf::may_throw("try_lock throws", 9);
            last_ok = held_excl == 0 && held_shared == 0 && vf_any_bool("free");
            if (last_ok) got(excl);
            return last_ok;
        }
        void unlock() { vf_assert(held_excl == 1, "only a lock that is held exclusively is released"); --held_excl; ++unlocks; }
        void lock_shared() {
            vf_assert(held_excl == 0, "no thread locks a mutex it already holds");
            vf::may_throw("lock throws", 9);
            got(shared);
        }
        bool try_lock_shared() {
            vf::may_throw("try_lock throws", 9);
            last_ok = held_excl == 0 && vf_any_bool("free");
            if (last_ok) got(shared);
            return last_ok;
        }
        void unlock_shared() { vf_assert(held_shared >= 1, "only a lock that is held shared is released"); --held_shared; ++unlocks; }
    };
    // the mutex is found through the lock operation it receives
    gm *of_last() { return static_cast<gm *>(last_mutex); }
    void reset() { vf::reset(); locks = unlocks = 0; last_mutex = nullptr; last_kind = free_; }

    using E = vf::el<1>;
    using N = vf::el<2, vf::nothrow_all>;
    struct two { u64 a, b; two(u64 x, u64 y) noexcept : a{x}, b{y} {} };
    struct def { u64 v = 0x1234; def() noexcept = default; };
    struct tdef { u64 v; tdef() : v{77} { vf::may_throw("default ctor throws", 5); } };
    struct mo { u64 v; bool *gone; mo(u64 x, bool *g) noexcept : v{x}, gone{g} {} mo(mo &&o) noexcept : v{o.v}, gone{o.gone} { o.v = 0; } mo(mo const &) = delete; };
    // an argument whose value category is observable
    struct arg { u64 v; };
    struct cat { int how; u64 v; cat(arg &a, arg &&b) : how{1}, v{a.v ^ b.v} {} cat(arg const &a, arg const &b) : how{2}, v{a.v ^ b.v} {} };

    template<template<typename, typename> class M> void constructors() {
        reset();
        u64 const x = vf_any_u64("x"), y = vf_any_u64("y");
        { M<def, gm> m; auto g = m.lock(); vf_assert(g->v == 0x1234, "the default constructor default-constructs the value"); }
        { M<two, gm> m{std::in_place, x, y}; auto g = m.lock(); vf_assert(g->a == x && g->b == y, "in_place passes the arguments on in order"); }
        { arg a{x}; M<cat, gm> m{std::in_place, a, arg{y}}; auto g = m.lock(); vf_assert(g->how == 1 && g->v == (x ^ y), "in_place preserves value categories"); }
        { bool f; M<mo, gm> m{mo{x, &f}}; auto g = m.lock(); vf_assert(g->v == x, "a value is moved in"); }
        { bool f; M<mo, gm> m{std::in_place, y, &f}; auto g = m.lock(); vf_assert(g->v == y && g->gone == &f, "in_place constructs without moving"); }
        vf_assert(locks == 5 && unlocks == 5, "each guard locks and unlocks once");
    }
    template<template<typename, typename> class M, typename T> void value_constructors() {
        reset();
        u64 const x = vf_any_u64("x");
        { T src{x}; vf::throw_budget = 1; vf::copies = vf::moves = 0;
          try { M<T, gm> m{src}; vf_assert(vf::copies == 1 && vf::moves == 0, "a const reference is copied once"); vf::throw_budget = 0; auto g = m.lock(); vf_assert(g->v == x && src.v == x, "the value is a copy of the argument"); }
          catch (vf::injected const &e) { vf_assert(e.where == 2, "an exception of the copy reaches the caller"); }
        }
        vf_assert(vf::reg.n == 0, "the value is destroyed with the mutex");
        vf::throw_budget = 0;
        { T src{x}; vf::throw_budget = 1; vf::copies = vf::moves = 0;
          try { M<T, gm> m{std::move(src)}; vf_assert(vf::copies == 0 && vf::moves == 1, "an rvalue is moved once"); vf::throw_budget = 0; auto g = m.lock(); vf_assert(g->v == x, "the value is moved from the argument"); }
          catch (vf::injected const &e) { vf_assert(e.where == 3, "an exception of the move reaches the caller"); }
        }
        vf_assert(vf::reg.n == 0, "the value is destroyed with the mutex");
        vf::throw_budget = 1;
        try { M<T, gm> m{std::in_place, x}; vf::throw_budget = 0; auto g = m.lock(); vf_assert(g->v == x, "in_place constructs from the arguments"); }
        catch (vf::injected const &e) { vf_assert(e.where == 1, "an exception of the constructor reaches the caller"); }
        vf_assert(vf::reg.n == 0, "the value is destroyed with the mutex");
        vf::throw_budget = 1;
        try { M<tdef, gm> m; vf::throw_budget = 0; auto g = m.lock(); vf_assert(g->v == 77, "the default constructor default-constructs the value"); }
        catch (vf::injected const &e) { vf_assert(e.where == 5, "an exception of the default constructor reaches the caller"); }
    }

    enum op { o_lock, o_try, o_lock_sh, o_try_sh };
    // acquire through one entry point; a guard is returned exactly if the lock was obtained
    template<int OP, typename M> auto acquire(M &m) {
        if constexpr (OP == o_lock) return std::optional{m.lock()};
        else if constexpr (OP == o_try) return m.try_lock();
        else if constexpr (OP == o_lock_sh) return std::optional{std::as_const(m).lock_shared()};
        else return std::as_const(m).try_lock_shared();
    }
    template<int OP> constexpr int kind_of = OP == o_lock || OP == o_try ? excl : shared;
    // is the lock of gm held in exactly this way
    bool holds(gm const *g, int e, int s) { return g->held_excl == e && g->held_shared == s; }

    template<int OP, template<typename, typename> class MX> void entry() {
        reset();
        u64 const x = vf_any_u64("x");
        MX<N, gm> m{std::in_place, x};
        int const ctors = vf::ctors;
        void const *where;
        gm *mu;
        { auto g = m.lock(); where = &*g; mu = of_last(); vf_assert(holds(mu, 1, 0), "lock holds the lock exclusively"); }
        vf_assert(holds(mu, 0, 0), "the lock is released with the guard");
        int const before = locks, ub = unlocks;
        vf::throw_budget = 1;
        try {
            auto g = acquire<OP>(m);
            bool const blocking = OP == o_lock || OP == o_lock_sh;
            vf_assert(g.has_value() == (blocking || last_ok), "a guard is returned exactly if the lock was obtained");
            if (g) {
                vf_assert(locks == before + 1 && unlocks == ub && of_last() == mu && last_kind == kind_of<OP>, "the mutex of the value is locked once, in the right mode");
                vf_assert(holds(mu, kind_of<OP> == excl, kind_of<OP> == shared), "the guard holds the lock");
                vf_assert(static_cast<void const *>(&**g) == where && static_cast<void const *>(g->operator->()) == where, "the guard refers to the value");
                vf_assert((*g)->v == x && (**g).v == x, "the value is unchanged");
                vf_assert(std::is_const_v<std::remove_reference_t<decltype(**g)>> == (kind_of<OP> == shared), "shared guards give const access, exclusive ones mutable access");
                vf_static(std::is_const_v<std::remove_pointer_t<decltype(g->operator->())>> == (kind_of<OP> == shared));
                g.reset();
                vf_assert(holds(mu, 0, 0) && unlocks == ub + 1, "the lock is released exactly once");
            } else vf_assert(locks == before && unlocks == ub && holds(mu, 0, 0), "nothing is locked or released if the lock is not obtained");
        } catch (vf::injected const &e) {
            vf_assert(e.where == 9 && locks == before && unlocks == ub && holds(mu, 0, 0), "an exception of the mutex reaches the caller and nothing stays locked");
        }
        vf::throw_budget = 0;
        vf_assert(locks == unlocks && holds(mu, 0, 0), "every lock obtained is released exactly once");
        vf_assert(vf::ctors == ctors && vf::copies == 0 && vf::moves == 0 && vf::assigns == 0 && vf::reg.n == 1, "the value is not touched by locking");
        // writes through an exclusive guard are what later guards see
        u64 const y = vf_any_u64("y");
        if constexpr (kind_of<OP> == excl) { auto g = m.lock(); g->v = y; }
        { auto g = m.lock(); vf_assert(g->v == (kind_of<OP> == excl ? y : x), "later guards see what was written"); }
    }
    // while one lock is held through a guard: what may be obtained at the same time by others
    template<int A, int B, template<typename, typename> class MX> void pair_of() {
        reset();
        MX<N, gm> m{std::in_place, 1u};
        auto g = acquire<A>(m);
        if (!g) return;
        gm *mu = of_last();
        if constexpr (B == o_try || B == o_try_sh || (kind_of<A> == shared && kind_of<B> == shared)) {
            auto h = acquire<B>(m);
            if (h) vf_assert(kind_of<A> == shared && kind_of<B> == shared, "an exclusive guard excludes every other guard");
            if constexpr (kind_of<A> == shared && kind_of<B> == shared) {
                if (B == o_try_sh) vf_assert(h.has_value() == last_ok, "shared guards do not exclude each other");
                vf_assert(holds(mu, 0, h ? 2 : 1), "each shared guard holds the lock");
                if (h) vf_assert(&**g == &**h, "guards of one mutex refer to one value");
            }
        }
        g.reset();
        vf_assert(holds(mu, 0, 0) && locks == unlocks, "every lock obtained is released exactly once");
    }

    // guards in any state: owning the lock of their mutex, or moved from
    template<int OP, template<typename, typename> class MX> void moves() {
        reset();
        MX<N, gm> m1{std::in_place, 1u}, m2{std::in_place, 2u};
        using G = std::remove_cvref_t<decltype(*acquire<OP>(m1))>;
        vf_static(std::is_nothrow_move_constructible_v<G> && std::is_nothrow_move_assignable_v<G> && !std::is_copy_constructible_v<G> && !std::is_copy_assignable_v<G> && !std::is_default_constructible_v<G>);
        void const *v1, *v2; gm *u1, *u2;
        constexpr int E_ = kind_of<OP> == excl, S_ = kind_of<OP> == shared;
        { auto g = m1.lock(); v1 = &*g; u1 = of_last(); }
        { auto g = m2.lock(); v2 = &*g; u2 = of_last(); }
        vf_assert(u1 != u2 && v1 != v2, "each mutex has its own lock and value");
        {
            auto o1 = acquire<OP>(m1); if (!o1) return;
            auto o2 = acquire<OP>(m2); if (!o2) return;
            bool const own1 = vf_any_bool("own1"), own2 = vf_any_bool("own2");
            if (!own1) { G t{std::move(*o1)}; vf_assert(holds(u1, E_, S_), "moving a guard keeps the lock held"); }
            vf_assert(own1 ? holds(u1, E_, S_) : holds(u1, 0, 0), "the lock is released by the guard that owns it");
            if (!own2) { G t{std::move(*o2)}; }
            int const ub = unlocks;
            switch (vf_choose("op", 6)) {
                case 5: { // swap with a moved-from guard of the same mutex, either way round
                    G t{std::move(*o1)};
                    if (vf_any_bool("swap left")) swap(*o1, t); else swap(t, *o1);
                    vf_assert(unlocks == ub, "swapping guards releases nothing");
                    if (own1) vf_assert(&**o1 == v1 && holds(u1, E_, S_), "the guard refers to the value of the lock it holds");
                    { G gone{std::move(t)}; }
                    vf_assert(own1 ? holds(u1, E_, S_) : holds(u1, 0, 0), "each guard releases the lock it was given");
                    swap(*o1, *o1);
                    vf_assert(own1 ? holds(u1, E_, S_) : holds(u1, 0, 0), "swapping a guard with itself releases nothing");
                    o1.reset();
                    vf_assert(unlocks == ub + own1 && holds(u1, 0, 0), "each guard releases the lock it was given");
                    break;
                }
                case 0: { // move construction
                    std::optional<G> t{std::move(*o1)};
                    vf_assert(unlocks == ub, "moving a guard releases nothing");
                    if (own1) vf_assert(&**t == v1 && t->operator->() == v1, "the new guard refers to the value of the lock it holds");
                    o1.reset();
                    vf_assert(unlocks == ub, "a moved-from guard releases nothing");
                    t.reset();
                    vf_assert(unlocks == ub + own1 && holds(u1, 0, 0), "the new guard releases the lock");
                    break;
                }
                case 1: { // move assignment
                    *o1 = std::move(*o2);
                    vf_assert(holds(u1, 0, 0) && unlocks == ub + own1, "an overwritten guard releases its lock once");
                    vf_assert(own2 ? holds(u2, E_, S_) : holds(u2, 0, 0), "the assigned guard takes over the lock");
                    if (own2) vf_assert(&**o1 == v2 && o1->operator->() == v2, "the guard refers to the value of the lock it holds");
                    o2.reset();
                    vf_assert(unlocks == ub + own1, "a moved-from guard releases nothing");
                    o1.reset();
                    vf_assert(unlocks == ub + own1 + own2 && holds(u2, 0, 0), "the guard releases the lock it took over");
                    break;
                }
                case 2: { // swap
                    swap(*o1, *o2);
                    vf_assert(unlocks == ub, "swapping guards releases nothing");
                    if (own2) vf_assert(&**o1 == v2 && holds(u2, E_, S_), "the guard refers to the value of the lock it holds");
                    if (own1) vf_assert(&**o2 == v1 && holds(u1, E_, S_), "the guard refers to the value of the lock it holds");
                    o1.reset();
                    vf_assert(holds(u2, 0, 0) && (own1 ? holds(u1, E_, S_) : holds(u1, 0, 0)), "each guard releases the lock it was given");
                    o2.reset();
                    vf_assert(holds(u1, 0, 0), "each guard releases the lock it was given");
                    break;
                }
                case 3: { // std::swap
                    std::swap(*o1, *o2);
                    vf_assert(unlocks == ub, "swapping guards releases nothing");
                    if (own2) vf_assert(&**o1 == v2 && holds(u2, E_, S_), "the guard refers to the value of the lock it holds");
                    if (own1) vf_assert(&**o2 == v1 && holds(u1, E_, S_), "the guard refers to the value of the lock it holds");
                    break;
                }
                default: { // a guard overwritten by a new guard of the same mutex
                    G t{std::move(*o1)};
                    *o1 = std::move(t);
                    vf_assert(unlocks == ub && (own1 ? holds(u1, E_, S_) : holds(u1, 0, 0)), "a lock moved back and forth stays held");
                    if (own1) vf_assert(&**o1 == v1, "the guard refers to the value of the lock it holds");
                }
            }
        }
        vf_assert(locks == unlocks && holds(u1, 0, 0) && holds(u2, 0, 0), "every lock obtained is released exactly once");
    }
    template<typename T, typename M> using mx = dtl::mutex<T, M>;
    template<typename T, typename M> using smx = dtl::shared_mutex<T, M>;
}
VF_HARNESS(ctor_mutex) { constructors<mx>(); }
VF_HARNESS(ctor_shared) { constructors<smx>(); }
VF_HARNESS(values_mutex) { value_constructors<mx, E>(); }
VF_HARNESS(values_shared) { value_constructors<smx, E>(); }
VF_HARNESS(values_nt_mutex) { value_constructors<mx, N>(); }
VF_HARNESS(values_c_mutex) { value_constructors<mx, vf::el<1, vf::nt_copy>>(); }
VF_HARNESS(values_c_shared) { value_constructors<smx, vf::el<1, vf::nt_copy>>(); }
VF_HARNESS(values_m_mutex) { value_constructors<mx, vf::el<1, vf::nt_move | vf::nt_ctor>>(); }
VF_HARNESS(values_m_shared) { value_constructors<smx, vf::el<1, vf::nt_move | vf::nt_ctor>>(); }
VF_HARNESS(values_nt_shared) { value_constructors<smx, N>(); }
VF_HARNESS(lock_mutex) { entry<o_lock, mx>(); }
VF_HARNESS(try_mutex) { entry<o_try, mx>(); }
VF_HARNESS(lock_shared_mutex) { entry<o_lock, smx>(); }
VF_HARNESS(try_shared_mutex) { entry<o_try, smx>(); }
VF_HARNESS(locksh_shared_mutex) { entry<o_lock_sh, smx>(); }
VF_HARNESS(trysh_shared_mutex) { entry<o_try_sh, smx>(); }
VF_HARNESS(moves_mutex_lock) { moves<o_lock, mx>(); }
VF_HARNESS(moves_mutex_try) { moves<o_try, mx>(); }
VF_HARNESS(moves_shared_lock) { moves<o_lock, smx>(); }
VF_HARNESS(moves_shared_try) { moves<o_try, smx>(); }
VF_HARNESS(moves_shared_locksh) { moves<o_lock_sh, smx>(); }
VF_HARNESS(moves_shared_trysh) { moves<o_try_sh, smx>(); }
VF_HARNESS(pairs_mutex) { pair_of<o_lock, o_try, mx>(); pair_of<o_try, o_try, mx>(); }
VF_HARNESS(pairs_shared) {
    pair_of<o_lock, o_try, smx>(); pair_of<o_lock, o_try_sh, smx>(); pair_of<o_try, o_try, smx>(); pair_of<o_try, o_try_sh, smx>();
    pair_of<o_lock_sh, o_try, smx>(); pair_of<o_lock_sh, o_lock_sh, smx>(); pair_of<o_lock_sh, o_try_sh, smx>(); pair_of<o_try_sh, o_try, smx>(); pair_of<o_try_sh, o_lock_sh, smx>(); pair_of<o_try_sh, o_try_sh, smx>();
}

// the standard mutexes: the C library calls they make
namespace {
    int p_locks, p_unlocks, p_kind; void *p_mutex; int p_held; bool p_on;
    int p_lock(void *m, int kind, bool try_) {
        if (try_ && !vf_any_bool("free")) return EBUSY;
        ++p_locks; p_mutex = m; p_kind = kind; ++p_held;
        return 0;
    }
    int p_unlock(void *m) { vf_assert(m == p_mutex && p_held == 1, "only a lock that is held is released"); ++p_unlocks; --p_held; return 0; }
}
#ifdef VF_NATIVE
#define STUB(NAME) NAME
#else
#define STUB(NAME) vfs_##NAME
#endif
extern "C" {
__attribute__((used)) int STUB(pthread_mutex_lock)(pthread_mutex_t *m) noexcept { return p_on ? p_lock(m, excl, false) : 0; }
__attribute__((used)) int STUB(pthread_mutex_trylock)(pthread_mutex_t *m) noexcept { return p_on ? p_lock(m, excl, true) : 0; }
__attribute__((used)) int STUB(pthread_mutex_unlock)(pthread_mutex_t *m) noexcept { return p_on ? p_unlock(m) : 0; }
__attribute__((used)) int STUB(pthread_rwlock_wrlock)(pthread_rwlock_t *m) noexcept { return p_on ? p_lock(m, excl, false) : 0; }
__attribute__((used)) int STUB(pthread_rwlock_trywrlock)(pthread_rwlock_t *m) noexcept { return p_on ? p_lock(m, excl, true) : 0; }
__attribute__((used)) int STUB(pthread_rwlock_rdlock)(pthread_rwlock_t *m) noexcept { return p_on ? p_lock(m, shared, false) : 0; }
__attribute__((used)) int STUB(pthread_rwlock_tryrdlock)(pthread_rwlock_t *m) noexcept { return p_on ? p_lock(m, shared, true) : 0; }
__attribute__((used)) int STUB(pthread_rwlock_unlock)(pthread_rwlock_t *m) noexcept { return p_on ? p_unlock(m) : 0; }
}
namespace {
    template<int OP, typename M> void standard() {
        reset(); p_locks = p_unlocks = p_held = 0; p_mutex = nullptr; p_on = true;
        u64 const x = vf_any_u64("x");
        auto p = std::make_unique<M>(std::in_place, x);
        {
            auto g = acquire<OP>(*p);
            vf_assert(g.has_value() == (p_held == 1), "a guard is returned exactly if the lock was obtained");
            if (OP == o_lock || OP == o_lock_sh) vf_assert(g.has_value(), "lock obtains the lock");
            if (g) {
                vf_assert(p_kind == kind_of<OP> && p_mutex >= p.get() && p_mutex < p.get() + 1, "the mutex of the value is locked in the right mode");
                vf_assert((*g)->v == x, "the guard refers to the value");
                auto h = std::move(*g);
                vf_assert(p_held == 1 && p_unlocks == 0 && h->v == x, "moving a guard keeps the lock held");
                g.reset();
                vf_assert(p_held == 1 && p_unlocks == 0, "a moved-from guard releases nothing");
            }
        }
        vf_assert(p_held == 0 && p_unlocks == p_locks, "the lock is released exactly once");
        p_on = false;
    }
}
VF_HARNESS(std_mutex_lock) { standard<o_lock, dtl::mutex<N>>(); }
VF_HARNESS(std_mutex_try) { standard<o_try, dtl::mutex<N>>(); }
VF_HARNESS(std_shared_lock) { standard<o_lock, dtl::shared_mutex<N>>(); }
VF_HARNESS(std_shared_try) { standard<o_try, dtl::shared_mutex<N>>(); }
VF_HARNESS(std_shared_locksh) { standard<o_lock_sh, dtl::shared_mutex<N>>(); }
VF_HARNESS(std_shared_trysh) { standard<o_try_sh, dtl::shared_mutex<N>>(); }
VF_HARNESS(types) {
    vf::reset();
    vf_static(!std::is_move_constructible_v<dtl::mutex<int>> && !std::is_copy_assignable_v<dtl::mutex<int>> && !std::is_move_assignable_v<dtl::mutex<int>>);
    vf_static(!std::is_move_constructible_v<dtl::shared_mutex<int>> && !std::is_copy_assignable_v<dtl::shared_mutex<int>> && !std::is_move_assignable_v<dtl::shared_mutex<int>>);
}
