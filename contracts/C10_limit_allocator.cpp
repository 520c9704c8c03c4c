// C10: limit_allocator. Sequentially: every operation from every reachable budget. Concurrently (sync variant):
// rely/guarantee. The budget word is accessed by atomic steps only; before each step the environment (any number
// of other threads, copies and rebinds) may change it in any way that keeps
//      bytes left + bytes held by others + bytes held by this call == limit,
// and each step of the call under contract has to keep it too, taking or returning exactly what was asked for.
//@ assume: the upstream allocator's allocate throws if n * sizeof(T) is not representable (as every conforming allocator does)
//@ assume: other threads use the allocator only through its interface (they are instances of the calls proved here)
//@ assume: every atomic access is a single indivisible step on the budget word (relaxed order suffices: nothing else is published through it)
#include "vf_forward.hpp"
#include "ghost_alloc.hpp"
#include <dice/template-library/limit_allocator.hpp>
namespace dtl = dice::template_library;
namespace {
    using u64 = std::uint64_t;
    using sy = dtl::limit_allocator_syncness;
    // upstream: a ledger of the blocks it handed out; may fail; sizes that do not fit into the address space always do
    struct blk { void *p; u64 n; int id; };
    blk led[8]; int used; int up_allocs, up_frees;
    void (*on_up_alloc)() = nullptr;
    template<typename T> struct up {
        using value_type = T;
        int id = 0;
        up() noexcept = default;
        explicit up(int i) noexcept : id{i} {}
        template<typename U> up(up<U> const &o) noexcept : id{o.id} {}
        T *allocate(std::size_t n) {
            if (n > static_cast<std::size_t>(-1) / sizeof(T)) throw std::bad_array_new_length{};
            if (vf::throw_budget > 0 && vf_choose("upstream fails", 2) == 1) { --vf::throw_budget; ++vf::throws_done; throw vf::injected{9}; }
            vf_assert(used < 8, "ghost ledger is large enough");
            if (on_up_alloc) on_up_alloc();
            auto *p = ::operator new(1);                        // the block itself is never touched
            led[used++] = {p, n, id};
            ++up_allocs;
            return static_cast<T *>(p);
        }
        void deallocate(T *p, std::size_t n) noexcept {
            int at = -1;
            for (int i = 0; i < used; ++i) if (led[i].p == p) at = i;
            vf_assert(at >= 0 && led[at].n == n && led[at].id == id, "deallocate reaches the upstream allocator with the arguments given");
            led[at] = led[--used];
            ++up_frees;
            ::operator delete(p);
        }
        friend bool operator==(up const &a, up const &b) noexcept { return a.id == b.id; }
    };
    // not default constructible, not propagating
    template<typename T> struct up2 : up<T> {
        using propagate_on_container_swap = std::true_type;
        using propagate_on_container_copy_assignment = std::true_type;
        explicit up2(int i) noexcept : up<T>{i} {}
        template<typename U> up2(up2<U> const &o) noexcept : up<T>{o.id} {}
    };
    struct w4 { int x; };
    struct w12 { int x[3]; };

    void reset() { vf::reset(); used = up_allocs = up_frees = 0; on_up_alloc = nullptr; }
    // the bytes n objects need, or more than any limit
    template<typename T> bool fits(u64 n, u64 left) { return n <= ~u64{0} / sizeof(T) && n * sizeof(T) <= left; }

    struct held { void *p = nullptr; u64 n = 0; };
    // one allocation: succeeds exactly if it fits (and the upstream does not fail); the budget is then smaller by exactly its size
    template<typename A> bool take(A &a, u64 n, u64 &left, typename A::pointer &p) {
        using T = typename A::value_type;
        int const before = up_allocs, budget = vf::throws_done;
        try { p = a.allocate(n); }
        catch (std::bad_alloc const &) {
            vf_assert(!fits<T>(n, left), "a request that fits is not refused");
            vf_assert(up_allocs == before, "a refused request changes nothing");
            vf_cover("refused");
            return false;
        } catch (vf::injected const &) {
            vf_assert(vf::throws_done == budget + 1 && fits<T>(n, left), "upstream failures are passed on");
            vf_cover("upstream failed");
            return false;
        }
        vf_assert(fits<T>(n, left), "a request that does not fit throws");
        vf_assert(up_allocs == before + 1 && led[used - 1].p == p && led[used - 1].n == n, "a request that fits is the upstream's");
        vf_cover("allocated");
        left -= n * sizeof(T);
        return true;
    }
    template<typename A> void give(A &a, typename A::pointer p, u64 n, u64 &left) {
        int const before = up_frees;
        a.deallocate(p, n);
        vf_assert(up_frees == before + 1, "deallocate returns the block to the upstream");
        left += n * sizeof(typename A::value_type);
    }
    // whatever the allocator does next has to agree with `left`
    template<typename A> void has_left(A &a, u64 left) {
        u64 n = vf_any_u64("probe");
        vf::throw_budget = 0;
        typename A::pointer p;
        u64 l = left;
        if (take(a, n, l, p)) {
            typename A::pointer q;
            u64 const m = vf_any_u64("probe2");
            if (take(a, m, l, q)) give(a, q, m, l);
            give(a, p, n, l);
        }
        vf_assert(l == left, "ghost");
    }
    template<typename T, template<typename> typename U, sy S> using la = dtl::limit_allocator<T, U, S>;

    template<typename A> A make(u64 limit) {
        if constexpr (std::is_default_constructible_v<typename A::upstream_allocator_type>) {
            switch (vf_choose("constructor", 4)) {
                case 0: return A{limit};
                case 1: { typename A::upstream_allocator_type u{3}; return A{limit, u}; }
                case 2: return A{limit, typename A::upstream_allocator_type{3}};
                default: return A{limit, std::in_place, 3};
            }
        } else {
            switch (vf_choose("constructor", 3)) {
                case 0: { typename A::upstream_allocator_type u{3}; return A{limit, u}; }
                case 1: return A{limit, typename A::upstream_allocator_type{3}};
                default: return A{limit, std::in_place, 3};
            }
        }
    }
    // allocate / deallocate from every budget
    template<typename A> void c_alloc() {
        reset();
        u64 const limit = vf_any_u64("limit");
        u64 left = limit;
        A a = make<A>(limit);
        vf::throw_budget = 1;
        u64 const n = vf_any_u64("n"), m = vf_any_u64("m");
        typename A::pointer p, q;
        bool const got = take(a, n, left, p);
        bool const got2 = take(a, m, left, q);
        if (got && vf_any_bool("free first")) { give(a, p, n, left); has_left(a, left); if (got2) give(a, q, m, left); }
        else { if (got2 && vf_any_bool("free second")) give(a, q, m, left); has_left(a, left); }
    }
    // every instance that descends from an allocator draws on the same budget
    template<typename A, typename B> void c_shared_with(A &a, B &b, u64 left, bool equal) {
        vf::throw_budget = 0;
        if constexpr (std::is_same_v<A, B>) vf_assert(a == b == equal && (a != b) == !equal, "instances that share a budget and an upstream are equal");
        u64 const n = vf_any_u64("n"), m = vf_any_u64("m");
        typename A::pointer p; typename B::pointer q;
        bool const ga = take(a, n, left, p);
        bool const gb = take(b, m, left, q);
        if (ga) { if constexpr (std::is_same_v<A, B>) { if (equal && vf_any_bool("other frees")) give(b, p, n, left); else give(a, p, n, left); } else give(a, p, n, left); }
        u64 const k = vf_any_u64("k");
        typename B::pointer r;
        if (take(b, k, left, r)) give(b, r, k, left);
        if (gb) give(b, q, m, left);
    }
    template<typename A> void c_copies() {
        reset();
        u64 const limit = vf_any_u64("limit"), other = vf_any_u64("other limit");
        A a = make<A>(limit);
        int const uid = a.upstream_allocator().id;
        switch (vf_choose("how", 7)) {
            case 0: { A b{a}; c_shared_with(a, b, limit, true); break; }
            case 1: { A b{std::move(a)}; vf_assert(b.upstream_allocator().id == uid, "move: takes the upstream"); c_shared_with(a, b, limit, true); break; }
            case 2: { A b = make<A>(other); b = a; c_shared_with(b, a, limit, true); break; }
            case 3: { A b = make<A>(other); b = std::move(a); c_shared_with(b, a, limit, true); break; }
            case 4: { A b = std::allocator_traits<A>::select_on_container_copy_construction(a); c_shared_with(a, b, limit, true); break; }
            case 5: { A &r = a; a = r; has_left(a, limit); break; }
            case 6: { A b = make<A>(other); vf_assert(a != b && !(a == b), "allocators with budgets of their own differ"); has_left(a, limit); has_left(b, other); break; }
        }
    }
    template<typename A> void c_swap() {
        reset();
        u64 const limit = vf_any_u64("limit"), other = vf_any_u64("other limit");
        A a = make<A>(limit), b = make<A>(other);
        int const ua = a.upstream_allocator().id, ub = b.upstream_allocator().id;
        A a2{a}, b2{b};
        swap(a, b);
        vf_assert(a.upstream_allocator().id == ub && b.upstream_allocator().id == ua, "swap: exchanges the upstreams");
        vf_assert(a == b2 && b == a2 && a != a2, "swap: exchanges the budgets");
        if (vf_any_bool("which")) has_left(a, other); else has_left(b, limit);
    }
    template<typename A> void c_rebind() {
        reset();
        u64 const limit = vf_any_u64("limit");
        A a = make<A>(limit);
        using B = typename std::allocator_traits<A>::template rebind_alloc<w12>;
        B b{a};
        vf_assert(b.upstream_allocator().id == a.upstream_allocator().id, "rebind: takes the upstream along");
        c_shared_with(a, b, limit, true);
        A c{b};
        vf_assert(c == a, "rebind: back and forth is equal");
    }
}
#define BOTH(N, C) \
    VF_HARNESS(N##_sync) { C<la<w4, up, sy::sync>>(); } \
    VF_HARNESS(N##_unsync) { C<la<w4, up, sy::unsync>>(); } \
    VF_HARNESS(N##_upstream2) { C<la<w12, up2, sy::sync>>(); }
BOTH(alloc, c_alloc)
BOTH(copies, c_copies)
BOTH(swap, c_swap)
BOTH(rebind, c_rebind)
VF_HARNESS(alloc_bytes) { c_alloc<la<char, up, sy::sync>>(); }

// ---------------------------------------------------------------- concurrently
namespace conc {
    u64 L, mine, others, want, last, frees0;
    bool taken, returned, freeing, seen;
    void *word;
    bool ok(u64 w) { return w <= L && mine <= L - w && others == L - w - mine; }
    void before(void *p) {
        auto *w = static_cast<u64 *>(p);
        if (!word) word = p;
        vf_assert(word == p, "the budget is one word");
        vf_assert(ok(*w), "bytes left and bytes outstanding always sum up to the limit");
        u64 const o = vf_any_u64("held by others now");
        vf_assume(o <= L - mine);
        others = o;
        *w = L - mine - o;
    }
    void after(void *p, u64 was, u64 now) {
        last = was; seen = true;
        if (was == now) return;
        if (!freeing && !taken) {
            vf_assert(was >= want && now == was - want, "a step of allocate takes exactly the bytes requested, if that many are left");
            taken = true; mine += want;
        } else {
            vf_assert(!returned, "bytes are returned once");
            vf_assert(now == was + want, "a step returns exactly the bytes that were taken");
            vf_assert(freeing ? up_frees == (int) frees0 + 1 : vf::throws_done == 1, "bytes are returned once the upstream memory is gone");
            returned = true; mine -= want;
        }
        vf_assert(ok(*static_cast<u64 *>(p)), "bytes left and bytes outstanding always sum up to the limit");
    }
    void at_upstream() { vf_assert(taken || !want, "bytes are reserved before the upstream allocates"); }
    template<typename A> void start(A &a, u64 n) {
        vf::inductive();
        mine = others = 0; seen = taken = returned = freeing = false; word = nullptr; frees0 = 0;
        vf_share_heap();
    }
    void run(u64 bytes) {
        want = bytes;
        on_up_alloc = vf_symbolic_run() ? &at_upstream : nullptr;
        vf_candidate(+[] { return mine <= L; });
        vf_candidate(+[] { return !taken && !returned; });
        vf_candidate(+[] { return word == nullptr || (*static_cast<u64 *>(word) <= L - mine && others == L - mine - *static_cast<u64 *>(word)); });
        vf_atomic_hooks(&before, &after);
    }
    void stop() { vf_atomic_hooks(nullptr, nullptr); }
    // an allocation among any number of other calls
    template<typename A> void c_alloc() {
        reset();
        L = vf_any_u64("limit");
        A a{L, typename A::upstream_allocator_type{3}};
        u64 const n = vf_any_u64("n");
        bool const over = n > ~u64{0} / sizeof(typename A::value_type);
        vf_assume(!over);                                      // sizes that are not representable: alloc_*
        start(a, n);
        vf::throw_budget = 1;
        run(n * sizeof(typename A::value_type));
        typename A::pointer p;
        bool got = false;
        try { p = a.allocate(n); got = true; }
        catch (std::bad_alloc const &) { if (vf_symbolic_run()) vf_assert(seen && last < want && !taken, "only a request that does not fit is refused, and changes nothing"); vf_cover("refused"); }
        catch (vf::injected const &) { if (vf_symbolic_run()) vf_assert((taken && returned) || !want, "a failing upstream returns the reservation"); vf_cover("upstream failed"); }
        stop();
        if (vf_symbolic_run()) vf_assert(!got || (taken && !returned) || !want, "an allocation holds exactly the bytes requested");
        if (got) a.deallocate(p, n);
    }
    template<typename A> void c_free() {
        reset();
        L = vf_any_u64("limit");
        A a{L, typename A::upstream_allocator_type{3}};
        u64 const n = vf_any_u64("n");
        typename A::pointer p;
        vf::throw_budget = 0;
        u64 left = L;
        if (!take(a, n, left, p)) return;
        start(a, n);
        mine = n * sizeof(typename A::value_type);
        freeing = true;
        others = 0;
        run(mine);
        a.deallocate(p, n);
        stop();
        if (vf_symbolic_run()) vf_assert(returned || !want, "deallocate returns the bytes");
        if (!vf_symbolic_run()) has_left(a, L);
        vf_cover("freed");
    }
}
VF_HARNESS(concurrent_alloc) { conc::c_alloc<la<w4, up, sy::sync>>(); }
VF_HARNESS(concurrent_alloc_12) { conc::c_alloc<la<w12, up2, sy::sync>>(); }
VF_HARNESS(concurrent_free) { conc::c_free<la<w4, up, sy::sync>>(); }
VF_HARNESS(concurrent_free_12) { conc::c_free<la<w12, up2, sy::sync>>(); }

namespace {
    template<typename T> struct fwd_alloc : vf::forwarded<1> {
        using value_type = T;
        using vf::forwarded<1>::forwarded;
        template<typename U> fwd_alloc(fwd_alloc<U> const &o) noexcept : vf::forwarded<1>{} { this->token = o.token; }
        T *allocate(std::size_t) { return nullptr; }
        void deallocate(T *, std::size_t) {}
    };
}
VF_HARNESS(forwarding) {
    vf::check_forward([](auto &&...a) { dtl::limit_allocator<int, fwd_alloc> l{vf_any_u64("limit"), std::in_place, std::forward<decltype(a)>(a)...}; vf_assert(l.upstream_allocator().token == 107, "in_place constructs the upstream"); });
}
