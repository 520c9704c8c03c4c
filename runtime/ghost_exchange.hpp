// exchange_channel<T> under monitor contracts. The state (a value or none, closed or not) is reached and observed
// through the channel's own operations, executed as steps of other threads.
#pragma once
#include "ghost_monitor.hpp"
#include <optional>
#include <memory>
#include <dice/template-library/exchange_channel.hpp>
namespace gx {
    using u64 = std::uint64_t;
    namespace dtl = dice::template_library;
    inline bool has; inline u64 cur;                       // the value in the channel
    inline bool found; inline u64 found_value;             // what the last critical section found
    inline bool saw_empty; inline int stores, takes;
    inline char *lo, *hi;                                  // where the channel is
    inline bool inside(void const *p) { auto c = static_cast<char const *>(p); return lo && c >= lo && c < hi; }
    inline void stored(u64 v) {
        if (mon::active && !mon::env_mode) {
            mon::chk_d(!mon::is_closed(), "nothing is stored after close");
            mon::chk_w(mon::held == 1, "the value is only accessed under the mutex");
            ++stores;
            mon::on_append(!mon::ready);
        }
        has = true; cur = v;
    }
    inline void gone_from() {
        if (mon::active && !mon::env_mode) { mon::chk_w(mon::held == 1, "the value is only accessed under the mutex"); ++takes; mon::removed = true; }
        has = false;
    }
    // a ghost element that notices when it is constructed in, assigned in or destroyed in the channel
    template<unsigned F> struct value_t : vf::el<1, F> {
        using B = vf::el<1, F>;
        explicit value_t(u64 x) noexcept(std::is_nothrow_constructible_v<B, u64>) : B{x} { if (inside(this)) stored(this->v); }
        value_t(value_t const &o) noexcept(std::is_nothrow_copy_constructible_v<B>) : B{static_cast<B const &>(o)} { if (inside(this)) stored(this->v); }
        value_t(value_t &&o) noexcept(std::is_nothrow_move_constructible_v<B>) : B{static_cast<B &&>(o)} { if (inside(this)) stored(this->v); }
        value_t &operator=(value_t const &o) noexcept(std::is_nothrow_copy_assignable_v<B>) { B::operator=(static_cast<B const &>(o)); if (inside(this)) stored(this->v); return *this; }
        value_t &operator=(value_t &&o) noexcept(std::is_nothrow_move_assignable_v<B>) { B::operator=(static_cast<B &&>(o)); if (inside(this)) stored(this->v); return *this; }
        ~value_t() noexcept { if (inside(this)) gone_from(); }
    };
    using tok = value_t<vf::nothrow_all>;
    using etok = value_t<0>;
    template<typename T> inline dtl::exchange_channel<T> *chan;
    template<typename T> bool chan_closed() { return chan<T>->closed(); }
    inline bool avail() { return has; }
    // other threads: from any state to any state they can reach
    template<typename T> void others() {
        int const tb = vf::throw_budget; vf::throw_budget = 0;
        // (a new value always replaces the old one: as values are arbitrary, keeping it is one of the cases)
        bool const open = !mon::closed;
        int const what = vf_choose("others", open ? 3 : 2);
        if (what == 1 && has) { auto r = chan<T>->try_pop(); }
        if (what == 2) chan<T>->emplace(vf_any_u64("other value"));
        if (open && vf_any_bool("close")) { chan<T>->close(); mon::closed = true; }
        if (!has) saw_empty = true;
        vf::throw_budget = tb;
        found = has; found_value = cur;
    }
    template<typename T> struct learn {
        static inline dtl::exchange_channel<T> *p;
        static void close_it() { p->close(); }
        static void *run() {
            mon::active = mon::env_mode = false; mon::probing = true; mon::env = &close_it; mon::probe_cv = nullptr;
            void *e;
            { dtl::exchange_channel<T> c; p = &c; auto r = c.pop(); e = mon::probe_cv ? reinterpret_cast<void *>(static_cast<char *>(mon::probe_cv) - reinterpret_cast<char *>(p)) : nullptr; }
            mon::all_E = mon::all_F = true; mon::cvF = nullptr;
            { dtl::exchange_channel<T> c; p = &c; mon::cvE = reinterpret_cast<char *>(p) + reinterpret_cast<std::uintptr_t>(e); c.emplace(u64{1}); }
            mon::probing = false;
            return e;
        }
    };
    template<typename T> void fresh() {
        vf::reset();
        mon::closed = false;
        vf_atomic_hooks(nullptr, nullptr);
        lo = hi = nullptr;
        void *e = learn<T>::run();
        vf_assert(e, "pop of an empty channel waits");
        vf::reset();
        mon::active = mon::env_mode = false; mon::closed = false; has = false; mon::state_in_memory = true;
        chan<T> = new dtl::exchange_channel<T>();
        lo = reinterpret_cast<char *>(chan<T>); hi = lo + sizeof(dtl::exchange_channel<T>);
        mon::cvE = lo + reinterpret_cast<std::uintptr_t>(e); mon::cvF = nullptr;
        mon::env = &others<T>; mon::can_pop = &avail; mon::can_push = nullptr; mon::real_closed = &chan_closed<T>;
        vf_share_heap();
        vf_atomic_hooks(&mon::before_atomic, &mon::after_atomic);
        // any state
        mon::active = true; mon::others(); mon::active = false;
        vf::inductive();
        saw_empty = !has; stores = takes = 0;
    }
    template<typename T> void gone() {
        vf_atomic_hooks(nullptr, nullptr);
        mon::active = false;
        delete chan<T>;
        vf_assert(vf::reg.n == 0, "every value is destroyed once");
    }
    enum how { h_emplace, h_push_c, h_push_m };
    template<typename T, int H> bool put(T &src, u64 x) {
        if constexpr (H == h_emplace) return chan<T>->emplace(x);
        else if constexpr (H == h_push_c) return chan<T>->push(std::as_const(src));
        else return chan<T>->push(std::move(src));
    }
    template<typename T, int H> void pushing() {
        fresh<T>();
        u64 const x = vf_any_u64("x");
        {
            T src{x};
            bool threw = false, r = false;
            mon::begin_op(mon::other_op);
            vf::throw_budget = 1;
            try { r = put<T, H>(src, x); } catch (vf::injected const &) { threw = true; }
            vf::throw_budget = 0;
            mon::end_op();
            if (threw) mon::chk_d(!has || (found && cur == found_value && stores == 0), "a value whose construction fails is not stored");
            else if (r) mon::chk_d(stores >= 1 && has && cur == x, "the value is stored if true is returned, and replaces the one that was there");
            else {
                mon::chk_d(mon::closed, "push only fails once the channel is closed");
                mon::chk_d(stores == 0 && takes == 0 && has == found && (!has || cur == found_value), "nothing changes if false is returned");
            }
            vf_cover(threw ? "threw" : r ? "stored" : "refused");
        }
        gone<T>();
    }
    template<typename T, bool TRY> void popping() {
        fresh<T>();
        {
            bool threw = false;
            std::optional<T> q;
            mon::begin_op(TRY ? mon::other_op : mon::pop_op);
            vf::throw_budget = 1;
            try { q = TRY ? chan<T>->try_pop() : chan<T>->pop(); } catch (vf::injected const &) { threw = true; }
            vf::throw_budget = 0;
            mon::end_op();
            mon::chk_d(stores == 0, "taking a value stores nothing");
            if (threw) mon::chk_d(!has || takes == 0, "a value is delivered at most once");
            else if (q) mon::chk_d(found && q->v == found_value && !has && takes == 1, "the latest value is delivered, and only once");
            else {
                mon::chk_d(!found && !has && saw_empty, "nothing is delivered only if there is no value");
                if (!TRY) mon::chk_d(mon::closed, "pop reports the end only once the channel is closed and empty");
            }
            vf_cover(threw ? "threw" : q ? "delivered" : "end");
        }
        gone<T>();
    }
    template<typename T> void closing() {
        fresh<T>();
        mon::begin_op(mon::other_op);
        chan<T>->close();
        mon::end_op();
        mon::chk_d(mon::closed && chan<T>->closed(), "close closes the channel");
        mon::chk_d(stores == 0 && takes == 0 && has == found && (!has || cur == found_value), "a value stored when the channel is closed stays available");
        gone<T>();
    }
    template<typename T> void asking() {
        fresh<T>();
        bool const before = mon::closed;
        mon::begin_op(mon::other_op);
        bool const r = std::as_const(*chan<T>).closed();
        mon::end_op();
        mon::chk_d(before ? r : !r || mon::closed, "closed reports whether the channel is closed");
        mon::chk_d(stores == 0 && takes == 0, "asking changes nothing");
        gone<T>();
    }
    // two iterators, either of them holding an element or at the end, assigned and swapped: each of them is what the other one was
    template<typename T> void iterating_two() {
        fresh<T>();
        {
            mon::begin_op(mon::pop_op);
            auto a = chan<T>->begin();
            mon::end_op();
            bool const ha = takes != 0; u64 const va = ha ? found_value : 0;
            takes = 0; saw_empty = !has;
            mon::begin_op(mon::pop_op);
            auto b = chan<T>->begin();
            mon::end_op();
            bool const hb = takes != 0; u64 const vb = hb ? found_value : 0;
            auto const is = [](auto const &it, bool h, u64 v, char const *why) { mon::chk_d((it == chan<T>->end()) == !h && (!h || (*it).v == v), why); };
            switch (vf_choose("operation", 6)) {
                case 0: a = std::move(b); is(a, hb, vb, "the target of an assignment is what the source was"); break;
                case 1: a = std::as_const(b); is(a, hb, vb, "the target of an assignment is what the source was"); is(b, hb, vb, "copying leaves the source alone"); break;
                case 2: { auto c = std::move(a); is(c, ha, va, "a moved iterator is what the source was"); break; }
                case 3: { auto c = std::as_const(a); is(c, ha, va, "a copied iterator is what the source was"); is(a, ha, va, "copying leaves the source alone"); break; }
                case 4: { using std::swap; swap(a, b); is(a, hb, vb, "swap exchanges the iterators"); is(b, ha, va, "swap exchanges the iterators"); break; }
                default: { auto &r = a; a = r; is(a, ha, va, "an iterator assigned to itself is unchanged"); break; }
            }
            vf_cover(ha ? hb ? "both hold an element" : "only the first holds an element" : "at the end");
        }
        gone<T>();
    }
    template<typename T> void iterating(int what) {
        fresh<T>();
        {
            mon::begin_op(mon::pop_op);
            auto it = chan<T>->begin();
            mon::end_op();
            mon::chk_d((it == chan<T>->end()) == (takes == 0), "the iterator is at the end exactly if there was no value");
            if (takes == 0) mon::chk_d(mon::closed && saw_empty, "the end is only reached once the channel is closed and empty");
            else {
                u64 const v1 = found_value;
                mon::chk_d((*it).v == v1 && it->v == v1 && (*std::as_const(it)).v == v1 && std::as_const(it)->v == v1, "the iterator refers to the value it took");
                if (what == 0) { auto c = it; mon::chk_d((*c).v == v1 && (*it).v == v1, "a copy refers to an equal value"); c = it; mon::chk_d((*c).v == v1, "a copy refers to an equal value"); }
                if (what == 1) { auto m = std::move(it); mon::chk_d((*m).v == v1, "a moved iterator refers to the value taken"); it = std::move(m); mon::chk_d((*it).v == v1, "a moved iterator refers to the value taken"); }
                if (what >= 2) {
                    takes = 0; saw_empty = !has;
                    mon::begin_op(mon::pop_op);
                    if (what == 2) it++; else ++it;
                    mon::end_op();
                    mon::chk_d((it == chan<T>->end()) == (takes == 0), "the iterator is at the end exactly if there was no value");
                    if (takes == 0) mon::chk_d(mon::closed && saw_empty, "the end is only reached once the channel is closed and empty");
                    else mon::chk_d((*it).v == found_value && !has, "the iterator refers to the value it took");
                }
            }
        }
        gone<T>();
    }
}
#define EXCHANGE_HARNESSES(P) \
    VF_HARNESS(P##emplace) { gx::pushing<gx::tok, gx::h_emplace>(); } \
    VF_HARNESS(P##push_copy) { gx::pushing<gx::tok, gx::h_push_c>(); } \
    VF_HARNESS(P##push_move) { gx::pushing<gx::tok, gx::h_push_m>(); } \
    VF_HARNESS(P##emplace_throwing) { gx::pushing<gx::etok, gx::h_emplace>(); } \
    VF_HARNESS(P##push_copy_throwing) { gx::pushing<gx::etok, gx::h_push_c>(); } \
    VF_HARNESS(P##push_move_throwing) { gx::pushing<gx::etok, gx::h_push_m>(); } \
    VF_HARNESS(P##pop) { gx::popping<gx::tok, false>(); } \
    VF_HARNESS(P##try_pop) { gx::popping<gx::tok, true>(); } \
    VF_HARNESS(P##pop_throwing) { gx::popping<gx::etok, false>(); } \
    VF_HARNESS(P##try_pop_throwing) { gx::popping<gx::etok, true>(); } \
    VF_HARNESS(P##close) { gx::closing<gx::tok>(); } \
    VF_HARNESS(P##closed) { gx::asking<gx::tok>(); } \
    VF_HARNESS(P##iterate_copy) { gx::iterating<gx::tok>(0); } \
    VF_HARNESS(P##iterate_move) { gx::iterating<gx::tok>(1); } \
    VF_HARNESS(P##iterate_post) { gx::iterating<gx::tok>(2); } \
    VF_HARNESS(P##iterate_pre) { gx::iterating<gx::tok>(3); } \
    VF_HARNESS(P##iterate_two) { gx::iterating_two<gx::tok>(); }
