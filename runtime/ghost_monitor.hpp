// Monitor contracts: the mutex and the condition variables of a channel are replaced by their contracts, the other
// threads by an environment that acts whenever the mutex is (re)acquired, inside wait, before every atomic access and
// before every access to the queue made without the mutex. Natively the same harness runs with the same stand-ins,
// so that one thread plays the whole schedule.
#pragma once
#include "vf.hpp"
#include <condition_variable>
#include <mutex>
#include <cerrno>
#include <pthread.h>
#include <time.h>
#include <new>
#ifndef VF_MON
#define VF_MON 3
#endif
namespace mon {
    using u64 = std::uint64_t;
    constexpr bool delivery = (VF_MON & 1) != 0, wakeup = (VF_MON & 2) != 0;
    inline void chk_d(bool b, char const *m) { if constexpr (delivery) vf_assert(b, m); }
    inline void chk_w(bool b, char const *m) { if constexpr (wakeup) vf_assert(b, m); }

    // what the harness provides
    inline void (*env)();              // other threads act (they keep the invariants of the channel)
    inline bool (*can_pop)();          // an element is available
    inline bool (*can_push)();         // capacity is free (channels with bounded capacity)
    inline bool (*real_closed)();      // what the channel says
    inline bool closed;                // what it said last
    inline bool is_closed() { return closed; }

    enum kind_t { other_op, pop_op, push_op };
    inline kind_t kind;                // what the operation under contract may wait for
    inline bool active, env_mode, probing;
    inline bool state_in_memory;       // all of the state is in the objects of the channel, none in ghost variables
    inline int held; inline void *held_mutex;
    inline void *cvE, *cvF, *probe_cv; // what pop waits on, what emplace waits on
    inline bool all_E = true, all_F = true; // notifications of that kind are always notify_all
    struct debt_t { int owed, credit; bool owed_all, credit_all; };
    inline debt_t E, F;                // waiters of each kind that have to be woken
    inline bool flag_before_lock, slept, appended, removed, ready; // ready: an element was available when the mutex was acquired
    inline int waits;

    inline void begin_op(kind_t k) {
        held = waits = 0; held_mutex = nullptr;
        E = F = debt_t{};
        flag_before_lock = slept = appended = removed = false;
        kind = k;
        active = true;
        vf_flag_set("lock_held", 0);
    }
    inline void others() {
        if (!active || env_mode) return;
        vf_flag_set("lock_held", 1);                       // they follow the same rules
        env_mode = true; env(); env_mode = false;
        vf_flag_set("lock_held", held);
    }
    inline void owe(debt_t &d) {
        if (d.credit_all) return;
        if (d.credit > 0) --d.credit; else ++d.owed;
    }
    inline void owe_all(debt_t &d) { if (!d.credit_all) d.owed_all = true; }
    inline void pay(debt_t &d, bool all) {
        if (all) { d.owed = 0; d.owed_all = false; if (held) d.credit_all = true; }
        else if (d.owed > 0) --d.owed;
        else if (held && d.credit == 0) d.credit = 1;
    }
    // what this operation did, as far as others may be waiting for it
    inline void on_append(bool made_available) { appended = true; if (made_available) owe(E); }
    inline void on_remove() { removed = true; if (can_push) owe(F); }
    inline void on_close() {
        if (held == 0) { flag_before_lock = true; return; }
        owe_all(E);
        if (can_push) owe_all(F);
    }
    // has this operation closed the channel
    inline void sync() {
        bool const mode = env_mode;
        env_mode = true;                                    // only a look, not a step
        bool const now = real_closed();
        env_mode = mode;
        chk_d(now || !closed, "a closed channel stays closed");
        if (now && !closed) { closed = true; on_close(); }
    }
    inline void acquired(void *m) {
        sync();
        others();
        held = 1; held_mutex = m;
        ready = can_pop();
        E.credit = F.credit = 0; E.credit_all = F.credit_all = false;
        if (flag_before_lock) { flag_before_lock = false; on_close(); }
        vf_flag_set("lock_held", 1);
    }
    inline void released() {
        sync();
        // a wakeup that was consumed but not used is passed on to the next waiter
        if (slept && kind == pop_op && !removed && !all_E && can_pop()) owe(E);
        if (slept && kind == push_op && !appended && !all_F && can_push && can_push() && !is_closed()) owe(F);
        slept = false;
        held = 0; held_mutex = nullptr;
        vf_flag_set("lock_held", 0);
    }
    inline int lock(void *m, bool try_) {
        if (!active || env_mode) return 0;
        chk_w(!(held && held_mutex == m), "no thread locks a mutex it already holds");
        if (try_ && vf_choose("mutex is free", 2) == 1) return EBUSY;
        acquired(m);
        return 0;
    }
    inline int unlock(void *m) {
        if (!active || env_mode) return 0;
        chk_w(held == 1 && held_mutex == m, "only a mutex that is held is unlocked");
        released();
        return 0;
    }
    inline bool nothing_owed() { return E.owed == 0 && F.owed == 0 && !E.owed_all && !F.owed_all && !flag_before_lock; }
    inline void wait(void *cv, void *m) {
        if (probing) { probe_cv = cv; env_mode = true; env(); env_mode = false; return; }
        if (!active || env_mode) return;
        chk_w(held == 1 && held_mutex == m, "a thread waits with the mutex held");
        if (kind == pop_op) {
            chk_w(!can_pop() && !is_closed(), "no pop sleeps while an element is available or the channel is closed");
            chk_w(cv == cvE, "every pop waits on the same condition variable");
        } else if (kind == push_op) {
            chk_w(can_push && !can_push() && !is_closed(), "no push sleeps while capacity is free or the channel is closed");
            chk_w(cv == cvF, "every push waits on the same condition variable");
        } else chk_w(false, "only pop and push wait");
        chk_w(nothing_owed(), "no thread sleeps before it has woken the threads it has to wake");
        if (!vf_symbolic_run()) { if (++waits >= 6) vf_end_path(); }
        if (state_in_memory) vf_cycle();                                        // asleep in a state it already slept in: the schedules from here are those from there
        released();
        slept = true;
        acquired(m);
    }
    inline void notify(void *cv, bool all) {
        if (probing) { if (cv == cvE) all_E = all_E && all; if (cv == cvF) all_F = all_F && all; return; }
        if (!active || env_mode) return;
        sync();
        if (!all && cvE == cvF && can_push) return;          // may wake a waiter of the other kind
        if (cv == cvE) pay(E, all);
        if (cv == cvF && can_push) pay(F, all);
    }
    inline void end_op() {
        sync();
        chk_w(held == 0, "no operation returns or throws with the mutex held");
        chk_w(E.owed == 0, "a waiting pop is woken when an element becomes available");
        chk_w(F.owed == 0, "a waiting push is woken when capacity becomes free");
        chk_w(!E.owed_all && !F.owed_all && !flag_before_lock, "every waiter is woken when the channel is closed");
        active = false;
        vf_flag_set("lock_held", 0);
    }
    // the environment hooks around atomic accesses
    inline void before_atomic(void *) { if (!held) others(); }
    inline void after_atomic(void *, u64, u64) { if (active && !env_mode) sync(); }
}
#ifdef VF_NATIVE
#define MON_STUB(NAME) NAME
#else
#define MON_STUB(NAME) vfs_##NAME
#endif
extern "C" {
__attribute__((used)) inline int MON_STUB(pthread_mutex_lock)(pthread_mutex_t *m) noexcept { return mon::lock(m, false); }
__attribute__((used)) inline int MON_STUB(pthread_mutex_trylock)(pthread_mutex_t *m) noexcept { return mon::lock(m, true); }
__attribute__((used)) inline int MON_STUB(pthread_mutex_unlock)(pthread_mutex_t *m) noexcept { return mon::unlock(m); }
__attribute__((used)) inline void MON_STUB(_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE)(void *cv, std::unique_lock<std::mutex> *l) { mon::wait(cv, l->mutex()->native_handle()); }
__attribute__((used)) inline void MON_STUB(_ZNSt18condition_variable10notify_oneEv)(void *cv) noexcept { mon::notify(cv, false); }
__attribute__((used)) inline void MON_STUB(_ZNSt18condition_variable10notify_allEv)(void *cv) noexcept { mon::notify(cv, true); }
#ifndef VF_NATIVE
__attribute__((used)) inline void vfs__ZNSt18condition_variableC1Ev(void *) {}
__attribute__((used)) inline void vfs__ZNSt18condition_variableC2Ev(void *) {}
__attribute__((used)) inline void vfs__ZNSt18condition_variableD1Ev(void *) {}
__attribute__((used)) inline void vfs__ZNSt18condition_variableD2Ev(void *) {}
#endif
}
