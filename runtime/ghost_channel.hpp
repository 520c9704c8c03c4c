// channel<T> under monitor contracts. The std::deque of ghost elements is replaced by its contract: an unbounded ghost
// queue [head, head + size) whose element k is arbitrary (uf), except for the one this operation appended.
#pragma once
#include "ghost_monitor.hpp"
#include <deque>
#include <optional>
#include <memory>
namespace gq {
    using u64 = std::uint64_t;
    // the queue of the channel under contract
    inline u64 head, size, cap;
    inline bool own_there; inline u64 own_at, own_value;   // the element appended by this operation
    inline u64 appends, removals, removed_value;
    inline bool saw_full, saw_empty;
    inline void *queue_of;                                 // the deque object
    inline u64 value(u64 k) { return own_there && k == own_at ? own_value : vf_uf("element", k); }
    struct access {
        access(void const *q) {
            if (!mon::active || mon::env_mode) return;
            mon::chk_w(mon::held == 1, "the queue is only accessed under the mutex");
            if (mon::held == 0) mon::others();
            if (mon::delivery) vf_assert(q == queue_of, "the channel has one queue");
        }
    };
    template<typename T> struct queue {
        using value_type = T; using reference = T &; using const_reference = T const &; using size_type = std::size_t; using difference_type = std::ptrdiff_t;
        using pointer = T *; using const_pointer = T const *; using allocator_type = std::allocator<T>; 
        struct pos {                                            // an iterator: an offset from the front
            using value_type = T; using reference = T &; using pointer = T *; using difference_type = std::ptrdiff_t; using iterator_category = std::random_access_iterator_tag;
            queue *q = nullptr; u64 i = 0;
            T &operator*() const { return (*q)[i]; }
            T *operator->() const { return &(*q)[i]; }
            T &operator[](difference_type d) const { return (*q)[i + (u64) d]; }
            pos &operator++() { ++i; return *this; }
            pos operator++(int) { pos r = *this; ++i; return r; }
            pos &operator--() { --i; return *this; }
            pos operator--(int) { pos r = *this; --i; return r; }
            pos &operator+=(difference_type d) { i += (u64) d; return *this; }
            friend pos operator+(pos p, difference_type d) { return {p.q, p.i + (u64) d}; }
            friend pos operator-(pos p, difference_type d) { return {p.q, p.i - (u64) d}; }
            friend difference_type operator-(pos a, pos b) { return (difference_type) (a.i - b.i); }
            friend bool operator==(pos const &, pos const &) = default;
            friend bool operator<(pos a, pos b) { return a.i < b.i; }
        };
        using iterator = pos; using const_iterator = pos;
        union slot { T t; slot() {} ~slot() {} } front_;
        bool shown = false;
        queue() { queue_of = this; }
        queue(queue const &) = delete;
        ~queue() { if (shown) front_.t.~T(); }
        size_type size() const noexcept { access a{this}; note(); return gq::size; }
        bool empty() const noexcept { access a{this}; note(); return gq::size == 0; }
        size_type max_size() const noexcept { return ~size_type{0}; }
        void note() const { if (gq::size >= cap) saw_full = true; if (gq::size == 0) saw_empty = true; }
        template<typename... A> T &emplace_back(A &&...a) {
            access x{this};
            alignas(T) static unsigned char mem[sizeof(T)];
            T *t = new (mem) T(std::forward<A>(a)...);
            u64 const v = t->v;
            t->~T();
            mon::chk_d(!mon::is_closed(), "no element is accepted after close");
            mon::chk_d(gq::size < cap, "the number of buffered elements never exceeds the capacity");
            own_there = true; own_at = head + gq::size; own_value = v;
            ++gq::size; ++appends;
            mon::on_append(true);
            return *reinterpret_cast<T *>(mem);
        }
        void push_back(T const &t) { emplace_back(t); }
        void push_back(T &&t) { emplace_back(std::move(t)); }
        template<typename... A> T &emplace_front(A &&...) { vf_assert(false, "elements are appended at the end"); __builtin_trap(); }
        void push_front(T const &) { vf_assert(false, "elements are appended at the end"); }
        void push_front(T &&) { vf_assert(false, "elements are appended at the end"); }
        T &front() {
            access x{this};
            vf_assert(gq::size > 0, "only an element that is there is taken");
            if (!shown) { int const tb = vf::throw_budget; vf::throw_budget = 0; new (&front_.t) T(value(head)); vf::throw_budget = tb; shown = true; }
            return front_.t;
        }
        T &back() { mon::chk_d(gq::size == 1, "elements leave in the order they were accepted"); return front(); }
        T &operator[](size_type i) { mon::chk_d(i == 0, "elements leave in the order they were accepted"); return front(); }
        T &at(size_type i) { return (*this)[i]; }
        T const &front() const { return const_cast<queue *>(this)->front(); }
        T const &back() const { return const_cast<queue *>(this)->back(); }
        pos begin() const { return {const_cast<queue *>(this), 0}; }
        pos end() const { return {const_cast<queue *>(this), size()}; }
        pos cbegin() const { return begin(); }
        pos cend() const { return end(); }
        pos erase(pos p) { mon::chk_d(p.i == 0, "elements leave in the order they were accepted"); pop_front(); return begin(); }
        template<typename... A> pos emplace(pos p, A &&...a) { mon::chk_d(p.i == gq::size, "elements are appended at the end"); emplace_back(std::forward<A>(a)...); return p; }
        pos insert(pos p, T const &t) { return emplace(p, t); }
        pos insert(pos p, T &&t) { return emplace(p, std::move(t)); }
        void shrink_to_fit() {}
        void pop_front() {
            access x{this};
            vf_assert(gq::size > 0, "only an element that is there is taken");
            removed_value = value(head);
            if (shown) { front_.t.~T(); shown = false; }
            ++head; --gq::size; ++removals;
            mon::on_remove();
        }
        void pop_back() { mon::chk_d(gq::size == 1, "elements leave in the order they were accepted"); pop_front(); }
        void clear() { mon::chk_d(gq::size == 0, "no accepted element is dropped"); head += gq::size; gq::size = 0; }
    };
}
using tok = vf::el<1, vf::nothrow_all>;                   // nothing throws
using etok = vf::el<2>;                                    // everything may throw
template<> class std::deque<tok, std::allocator<tok>> : public gq::queue<tok> {};
template<> class std::deque<etok, std::allocator<etok>> : public gq::queue<etok> {};
#include <dice/template-library/channel.hpp>
namespace gq {
    namespace dtl = dice::template_library;
    template<typename T> inline dtl::channel<T> *chan;
    template<typename T> bool chan_closed() { return chan<T>->closed(); }
    inline bool avail() { return size > 0; }
    inline bool room() { return size < cap; }
    // other threads: append, remove and close, in any order
    template<typename T> void others() {
        u64 const more = vf_any_range("more", 0, vf_symbolic_run() ? u64{1} << 60 : 4), now = vf_any_range("now", 0, cap);
        bool const open = !mon::closed;
        vf_assume(bool((now <= size + more) & (open | (more == 0))));
        head += size + more - now; size = now;
        if (open && vf_any_bool("close")) { chan<T>->close(); mon::closed = true; }
        auto *q = static_cast<queue<T> *>(queue_of);
        if (q->shown) { q->front_.t.~T(); q->shown = false; }
    }
    // which condition variable pop and emplace wait on
    template<typename T> struct learn {
        static inline dtl::channel<T> *p;
        static void close_it() { p->close(); }
        static bool no() { return false; }
        static void *off(void *cv) { return reinterpret_cast<void *>(static_cast<char *>(cv) - reinterpret_cast<char *>(p)); }
        static void run(void *&e, void *&f) {
            mon::active = mon::env_mode = false; mon::probing = true; mon::env = &close_it;
            size = 0; cap = 0; mon::probe_cv = nullptr; own_there = false;
            { dtl::channel<T> c{0}; p = &c; auto r = c.pop(); e = mon::probe_cv ? off(mon::probe_cv) : nullptr; }
            mon::probe_cv = nullptr;
            { dtl::channel<T> c{0}; p = &c; c.emplace(u64{1}); f = mon::probe_cv ? off(mon::probe_cv) : nullptr; }
            // how an append and a removal notify
            mon::all_E = mon::all_F = true;
            { dtl::channel<T> c{1}; p = &c; cap = 1;
              mon::cvE = reinterpret_cast<char *>(p) + reinterpret_cast<std::uintptr_t>(e); mon::cvF = reinterpret_cast<char *>(p) + reinterpret_cast<std::uintptr_t>(f);
              c.emplace(u64{1}); auto r = c.pop(); }
            mon::probing = false;
        }
    };
    // a channel of any capacity, in any state its operations can leave it in
    template<typename T> void fresh() {
        vf::reset();
        mon::closed = mon::state_in_memory = false;
        vf_atomic_hooks(nullptr, nullptr);
        void *e, *f;
        learn<T>::run(e, f);
        vf_assert(e && f, "pop and emplace of an empty channel without capacity wait");
        vf::reset();
        cap = vf_any_u64("capacity");
        mon::active = mon::env_mode = false;
        head = size = appends = removals = 0; own_there = saw_full = saw_empty = false;
        chan<T> = new dtl::channel<T>(cap);
        mon::cvE = reinterpret_cast<char *>(chan<T>) + reinterpret_cast<std::uintptr_t>(e);
        mon::cvF = reinterpret_cast<char *>(chan<T>) + reinterpret_cast<std::uintptr_t>(f);
        mon::env = &others<T>; mon::can_pop = &avail; mon::can_push = &room; mon::real_closed = &chan_closed<T>; mon::closed = false;
        head = vf_any_u64("head");
        size = vf_any_u64("size");
        vf_assume(size <= cap);
        if (vf_any_bool("closed")) { chan<T>->close(); mon::closed = true; }
        appends = removals = 0; own_there = false; saw_full = saw_empty = false;
        vf_share_heap();
        vf_atomic_hooks(&mon::before_atomic, &mon::after_atomic);
        vf::inductive();
    }
    template<typename T> void gone() {
        vf_atomic_hooks(nullptr, nullptr);
        mon::active = false;
        delete chan<T>;
        vf_assert(vf::reg.n == 0, "every element is destroyed once");
    }
    enum how { h_emplace, h_try_emplace, h_push_c, h_try_push_c, h_push_m, h_try_push_m };
    template<typename T, int H> bool put(T &src, u64 x) {
        auto &c = *chan<T>;
        if constexpr (H == h_emplace) return c.emplace(x);
        else if constexpr (H == h_try_emplace) return c.try_emplace(x);
        else if constexpr (H == h_push_c) return c.push(std::as_const(src));
        else if constexpr (H == h_try_push_c) return c.try_push(std::as_const(src));
        else if constexpr (H == h_push_m) return c.push(std::move(src));
        else return c.try_push(std::move(src));
    }
    template<typename T, int H> void pushing() {
        fresh<T>();
        u64 const x = vf_any_u64("x");
        bool const blocking = H == h_emplace || H == h_push_c || H == h_push_m;
        {
            T src{x};
            bool threw = false, r = false;
            mon::begin_op(blocking ? mon::push_op : mon::other_op);
            vf::throw_budget = 1;
            try { r = put<T, H>(src, x); } catch (vf::injected const &) { threw = true; }
            vf::throw_budget = 0;
            mon::end_op();
            mon::chk_d(appends <= 1 && removals == 0, "an element is accepted at most once");
            if (threw) mon::chk_d(appends == 0, "an element is not accepted if its construction fails");
            else {
                mon::chk_d(r == (appends == 1), "true is returned exactly if the element was accepted");
                if (r) mon::chk_d(own_value == x, "the element accepted is the one given");
                else mon::chk_d(mon::closed || (!blocking && saw_full), blocking ? "a blocking push only fails once the channel is closed" : "a push only fails if the channel is full or closed");
            }
            vf_cover(threw ? "threw" : r ? "accepted" : "refused");
        }
        gone<T>();
    }
    template<typename T, bool TRY> void popping() {
        fresh<T>();
        {
            bool threw = false;
            std::optional<T> r;
            mon::begin_op(TRY ? mon::other_op : mon::pop_op);
            vf::throw_budget = 1;
            if constexpr (std::is_nothrow_move_constructible_v<T>) {
                std::optional<T> q = TRY ? chan<T>->try_pop() : chan<T>->pop();
                if (q) r.emplace(q->v);
            } else {
                try { std::optional<T> q = TRY ? chan<T>->try_pop() : chan<T>->pop(); vf::throw_budget = 0; if (q) r.emplace(q->v); } catch (vf::injected const &) { threw = true; }
            }
            vf::throw_budget = 0;
            mon::end_op();
            mon::chk_d(appends == 0 && removals <= 1, "an element is delivered at most once");
            if (!threw) {
                mon::chk_d(r.has_value() == (removals == 1), "an element taken from the channel is delivered");
                if (r) mon::chk_d(r->v == removed_value, "the oldest element is delivered, unaltered");
                else mon::chk_d(saw_empty && (TRY || mon::closed), TRY ? "try_pop only fails if the channel is empty" : "pop reports the end only once the channel is closed and empty");
            }
            vf_cover(threw ? "threw" : r ? "delivered" : "end");
        }
        gone<T>();
    }
    template<typename T> void closing() {
        fresh<T>();
        mon::begin_op(mon::other_op);
        chan<T>->close();
        mon::end_op();
        mon::chk_d(mon::closed && chan<T>->closed(), "close closes the channel");
        mon::chk_d(appends == 0 && removals == 0, "elements buffered when the channel is closed stay available");
        gone<T>();
    }
    template<typename T> void asking() {
        fresh<T>();
        bool const before = mon::closed;
        mon::begin_op(mon::other_op);
        bool const r = std::as_const(*chan<T>).closed();
        mon::end_op();
        mon::chk_d(before ? r : !r || mon::closed, "closed reports whether the channel is closed");
        mon::chk_d(appends == 0 && removals == 0, "asking changes nothing");
        gone<T>();
    }
    // two iterators, either of them holding an element or at the end, assigned and swapped: each of them is what the other one was
    template<typename T> void iterating_two() {
        fresh<T>();
        {
            mon::begin_op(mon::pop_op);
            auto a = chan<T>->begin();
            mon::end_op();
            bool const ha = removals != 0; u64 const va = ha ? removed_value : 0;
            mon::others();                                     // between the calls
            removals = 0; saw_empty = false;
            mon::begin_op(mon::pop_op);
            auto b = chan<T>->begin();
            mon::end_op();
            bool const hb = removals != 0; u64 const vb = hb ? removed_value : 0;
            auto const is = [](auto const &it, bool h, u64 v, char const *why) { mon::chk_d((it == chan<T>->end()) == !h && (!h || (*it).v == v), why); };
            switch (vf_choose("operation", 6)) {
                case 0: a = std::move(b); is(a, hb, vb, "the target of an assignment is what the source was"); break;
                case 1: a = std::as_const(b); is(a, hb, vb, "the target of an assignment is what the source was"); is(b, hb, vb, "copying leaves the source alone"); break;
                case 2: { auto c = std::move(a); is(c, ha, va, "a moved iterator is what the source was"); break; }
                case 3: { auto c = std::as_const(a); is(c, ha, va, "a copied iterator is what the source was"); is(a, ha, va, "copying leaves the source alone"); break; }
                case 4: { using std::swap; swap(a, b); is(a, hb, vb, "swap exchanges the iterators"); is(b, ha, va, "swap exchanges the iterators"); break; }
                default: { auto &r = a; a = r; is(a, ha, va, "an iterator assigned to itself is unchanged"); break; }
            }
            vf_cover(ha ? hb ? "both hold an element" : "only the first holds an element" : "at the end");
        }
        gone<T>();
    }
    // iteration: each step is one pop
    template<typename T> void iterating(int what) {
        fresh<T>();
        {
            mon::begin_op(mon::pop_op);
            auto it = chan<T>->begin();
            mon::end_op();
            mon::chk_d(removals <= 1 && appends == 0, "begin takes at most one element");
            mon::chk_d((it == chan<T>->end()) == (removals == 0), "the iterator is at the end exactly if there was no element");
            if (removals == 0) mon::chk_d(mon::closed && saw_empty, "the end is only reached once the channel is closed and empty");
            else {
                u64 const v1 = removed_value;
                mon::chk_d((*it).v == v1 && it->v == v1 && (*std::as_const(it)).v == v1 && std::as_const(it)->v == v1, "the iterator refers to the element it took");
                if (what == 0) { auto c = it; mon::chk_d((*c).v == v1 && (*it).v == v1, "a copy refers to an equal element"); c = it; mon::chk_d((*c).v == v1, "a copy refers to an equal element"); }
                if (what == 1) { auto m = std::move(it); mon::chk_d((*m).v == v1, "a moved iterator refers to the element taken"); it = std::move(m); mon::chk_d((*it).v == v1, "a moved iterator refers to the element taken"); }
                if (what >= 2) {
                    mon::others();                                     // between the steps
                    removals = 0; saw_empty = false;
                    mon::begin_op(mon::pop_op);
                    if (what == 2) it++; else ++it;
                    mon::end_op();
                    mon::chk_d(removals <= 1 && appends == 0, "an increment takes at most one element");
                    mon::chk_d((it == chan<T>->end()) == (removals == 0), "the iterator is at the end exactly if there was no element");
                    if (removals == 0) mon::chk_d(mon::closed && saw_empty, "the end is only reached once the channel is closed and empty");
                    else mon::chk_d((*it).v == removed_value, "the iterator refers to the element it took");
                }
            }
        }
        gone<T>();
    }
}
#define CHANNEL_HARNESSES \
    VF_HARNESS(emplace) { gq::pushing<tok, gq::h_emplace>(); } \
    VF_HARNESS(try_emplace) { gq::pushing<tok, gq::h_try_emplace>(); } \
    VF_HARNESS(push_copy) { gq::pushing<tok, gq::h_push_c>(); } \
    VF_HARNESS(try_push_copy) { gq::pushing<tok, gq::h_try_push_c>(); } \
    VF_HARNESS(push_move) { gq::pushing<tok, gq::h_push_m>(); } \
    VF_HARNESS(try_push_move) { gq::pushing<tok, gq::h_try_push_m>(); } \
    VF_HARNESS(emplace_throwing) { gq::pushing<etok, gq::h_emplace>(); } \
    VF_HARNESS(try_emplace_throwing) { gq::pushing<etok, gq::h_try_emplace>(); } \
    VF_HARNESS(push_copy_throwing) { gq::pushing<etok, gq::h_push_c>(); } \
    VF_HARNESS(try_push_copy_throwing) { gq::pushing<etok, gq::h_try_push_c>(); } \
    VF_HARNESS(push_move_throwing) { gq::pushing<etok, gq::h_push_m>(); } \
    VF_HARNESS(try_push_move_throwing) { gq::pushing<etok, gq::h_try_push_m>(); } \
    VF_HARNESS(pop) { gq::popping<tok, false>(); } \
    VF_HARNESS(try_pop) { gq::popping<tok, true>(); } \
    VF_HARNESS(pop_throwing) { gq::popping<etok, false>(); } \
    VF_HARNESS(try_pop_throwing) { gq::popping<etok, true>(); } \
    VF_HARNESS(close) { gq::closing<tok>(); } \
    VF_HARNESS(closed) { gq::asking<tok>(); } \
    VF_HARNESS(iterate_copy) { gq::iterating<tok>(0); } \
    VF_HARNESS(iterate_move) { gq::iterating<tok>(1); } \
    VF_HARNESS(iterate_post) { gq::iterating<tok>(2); } \
    VF_HARNESS(iterate_pre) { gq::iterating<tok>(3); } \
    VF_HARNESS(iterate_two) { gq::iterating_two<tok>(); }
