// C11: pool / pool_allocator, for every requested size and every small set of bucket sizes.
// While proving, boost::pool is replaced by its contract; natively the real one runs.
//@ trusted: boost::pool (contract: malloc returns nullptr or a fresh block of get_requested_size() bytes that belongs to that pool; free takes back a live block of the same pool; the destructor releases all blocks)
//@ assume: pools are used by one thread at a time (the library does not synchronize them)
#include "vf.hpp"
#include <dice/template-library/pool_allocator.hpp>
#include <vector>
namespace dtl = dice::template_library;
using bp = boost::pool<boost::default_user_allocator_new_delete>;
namespace {
    using u64 = std::uint64_t;
    struct blk { void *p; bp const *owner; };
    blk led[8]; int used; bool exhausted; int deaths;
    bp const *last_owner; int frees;
    void reset() { vf::reset(); used = deaths = frees = 0; exhausted = false; last_owner = nullptr; }
}
namespace { void pool_dies(bp const *self) { ++deaths; for (int i = 0; i < used; ++i) vf_assert(led[i].owner != self, "a pool outlives the blocks allocated from it"); } }
#ifndef VF_NATIVE
#define STUB extern "C" __attribute__((used)) inline
STUB void *vfs__ZN5boost4poolINS_33default_user_allocator_new_deleteEE6mallocEv(bp *self) {
    if (vf::throw_budget > 0 && vf_choose("pool exhausted", 2) == 1) { --vf::throw_budget; exhausted = true; return nullptr; }
    vf_assert(used < 8, "ghost ledger is large enough");
    void *p = ::operator new(self->get_requested_size());
    led[used++] = {p, self};
    last_owner = self;
    return p;
}
STUB void vfs__ZN5boost4poolINS_33default_user_allocator_new_deleteEE4freeEPv(bp *self, void *p) {
    int at = -1;
    for (int i = 0; i < used; ++i) if (led[i].p == p) at = i;
    vf_assert(at >= 0 && led[at].owner == self, "a block returns to exactly the pool it came from");
    led[at] = led[--used];
    ++frees;
    ::operator delete(p);
}
STUB void vfs__ZN5boost4poolINS_33default_user_allocator_new_deleteEED1Ev(bp *self) { pool_dies(self); }
STUB void vfs__ZN5boost4poolINS_33default_user_allocator_new_deleteEED2Ev(bp *self) { pool_dies(self); }
// new[] / delete[]: memory is exhausted beyond 4 GiB, and may be before
void *news[8]; int nnews;
STUB void *vfs__Znam(std::size_t n) {
    if (n > u64{1} << 32) throw std::bad_alloc{};
    if (vf::throw_budget > 0 && vf_choose("new fails", 2) == 1) { --vf::throw_budget; throw std::bad_alloc{}; }
    void *p = __builtin_malloc(n);
    vf_assume(p != nullptr);
    vf_assert(nnews < 8, "ghost ledger is large enough");
    news[nnews++] = p;
    return p;
}
STUB void vfs__ZdaPv(void *p) {
    int at = -1;
    for (int i = 0; i < nnews; ++i) if (news[i] == p) at = i;
    vf_assert(at >= 0, "delete[] is given a live block that came from new[]");
    news[at] = news[--nnews];
    __builtin_free(p);
}
#endif
namespace {
    template<u64... B> u64 bucket(u64 n) { u64 r = 0; ((r == 0 && n <= B ? void(r = B) : void()), ...); return r; }   // 0: none
    // a block of n bytes: usable over its whole length, from the right place
    template<u64... B, typename P> void *get(P &p, u64 n, bool &ok) {
        int const before = used;
        void *q = nullptr;
        ok = false;
        try { q = p.allocate(n); ok = true; }
        catch (std::bad_alloc const &) { vf_assert(exhausted || !vf_symbolic_run() || bucket<B...>(n) == 0, "allocation only fails if memory is exhausted"); vf_cover("failed"); return nullptr; }
        vf_assert(q != nullptr && !exhausted, "an allocation never returns null");
        if (vf_symbolic_run()) {
            u64 const b = bucket<B...>(n);
            vf_assert(used == before + (b != 0), "an allocation comes from a pool if and only if it fits into one of the buckets");
            if (b) vf_assert(led[used - 1].p == q && led[used - 1].owner->get_requested_size() == b, "an allocation comes from the smallest bucket it fits into");
        }
        auto *c = static_cast<unsigned char volatile *>(q);
        if (n && (!vf_symbolic_run() || !bucket<B...>(n))) { c[0] = 1; c[n - 1] = 2; vf_assert(c[n - 1] == 2, "the storage has at least the size requested"); }
        vf_cover(bucket<B...>(n) ? "bucket" : "new");
        return q;
    }
    template<u64... B, typename P> void put(P &p, void *q, u64 n) {
        int const before = used, f = frees;
        p.deallocate(q, n);
        if (vf_symbolic_run()) vf_assert(used == before - (bucket<B...>(n) != 0) && frees == f + (bucket<B...>(n) != 0), "a block returns to where it came from");
        else if (u64 const b = bucket<B...>(n)) {                // the pool hands it out again
            void *r = p.allocate(b);
            vf_assert(r == q, "a block returns to exactly the pool it came from");
            p.deallocate(r, b);
        }
    }
    u64 size(char const *what) { return vf_any_range(what, 0, vf_symbolic_run() ? ~u64{0} : 200); }
    template<u64... B> void c_pool() {
        reset();
        {
            dtl::pool<B...> p;
            u64 const n = size("n"), m = size("m");
            bool a, b, c;
            vf::throw_budget = vf_symbolic_run() ? 1 : 0;
            void *x = get<B...>(p, n, a);
            exhausted = false;
            void *y = get<B...>(p, m, b);
            exhausted = false;
            if (a && b) vf_assert(x != y, "live blocks are distinct");
            if (a && vf_any_bool("order")) { put<B...>(p, x, n); a = false; }
            if (b) put<B...>(p, y, m);
            vf::throw_budget = 0;
            u64 const k = size("k");
            void *z = get<B...>(p, k, c);
            if (c) put<B...>(p, z, k);
            if (a) put<B...>(p, x, n);
        }
        if (vf_symbolic_run()) vf_assert(used == 0 && deaths == sizeof...(B) && vf_live_allocs() == 0, "nothing is left behind");
    }
}
VF_HARNESS(pool_1) { c_pool<1>(); }
VF_HARNESS(pool_8) { c_pool<8>(); }
VF_HARNESS(pool_4_12_16) { c_pool<4, 12, 16>(); }
VF_HARNESS(pool_16_16_32) { c_pool<16, 16, 32>(); }
VF_HARNESS(pool_5) { c_pool<8, 24, 40, 100, 4096>(); }

// ---------------------------------------------------------------- pool_allocator
namespace {
    struct s1 { char c; };
    struct s4 { int x; };
    struct s12 { int x[3]; };
    template<typename T, u64... B> using pa = dtl::pool_allocator<T, B...>;
    template<typename T, u64... B> T *take(pa<T, B...> &a, u64 n, bool &ok) {
        bool const over = n > ~u64{0} / sizeof(T);
        int const before = used;
        T *p = nullptr;
        ok = false;
        try { p = a.allocate(n); ok = true; }
        catch (std::bad_alloc const &) {
            vf_assert(over || exhausted || bucket<B...>(n * sizeof(T)) == 0, "allocation only fails if memory is exhausted or the size is not representable");
            vf_assert(used == before, "a failed allocation changes nothing");
            vf_cover(over ? "overflow" : "failed");
            return nullptr;
        }
        vf_assert(!over, "a size in bytes that is not representable throws");
        vf_assert(p != nullptr && !exhausted, "an allocation never returns null");
        u64 const bytes = n * sizeof(T);
        if (vf_symbolic_run()) {
            u64 const b = bucket<B...>(bytes);
            vf_assert(used == before + (b != 0), "an allocation comes from a pool if and only if it fits into one of the buckets");
            if (b) vf_assert(led[used - 1].p == p && led[used - 1].owner->get_requested_size() == b, "an allocation comes from the smallest bucket it fits into");
        }
        auto *c = reinterpret_cast<unsigned char volatile *>(p);
        if (bytes && (!vf_symbolic_run() || !bucket<B...>(bytes))) { c[0] = 1; c[bytes - 1] = 2; vf_assert(c[bytes - 1] == 2, "the storage has at least the size requested"); }
        vf_cover(bucket<B...>(bytes) ? "bucket" : "new");
        return p;
    }
    template<typename T, u64... B> void give(pa<T, B...> &a, T *p, u64 n) {
        int const before = used;
        u64 const b = bucket<B...>(n * sizeof(T));
        a.deallocate(p, n);
        if (vf_symbolic_run()) vf_assert(used == before - (b != 0), "a block returns to where it came from");
        else if (b && b / sizeof(T) && bucket<B...>(b / sizeof(T) * sizeof(T)) == b) { T *r = a.allocate(b / sizeof(T)); vf_assert(static_cast<void *>(r) == p, "a block returns to exactly the pool it came from"); a.deallocate(r, b / sizeof(T)); }
    }
    u64 count(char const *what) { return vf_symbolic_run() ? vf_any_u64(what) : vf_any_bool("huge") ? ~u64{0} / (1 + vf_any_range(what, 0, 12)) + 2 : vf_any_range(what, 0, 60); }
    template<typename T, u64... B> void c_alloc() {
        reset();
        {
            pa<T, B...> a;
            vf::throw_budget = vf_symbolic_run() ? 1 : 0;
            u64 const n = count("n"), m = count("m");
            if (!vf_symbolic_run()) vf_assume((n * sizeof(T) < 100000 || n > ~u64{0} / sizeof(T)) && (m * sizeof(T) < 100000 || m > ~u64{0} / sizeof(T)));
            bool x, y;
            T *p = take(a, n, x);
            exhausted = false;
            T *q = take(a, m, y);
            if (x && y) vf_assert(p != q, "live blocks are distinct");
            if (x) give(a, p, n);
            if (y) give(a, q, m);
        }
        if (vf_symbolic_run()) vf_assert(used == 0 && deaths == sizeof...(B) && vf_live_allocs() == 0, "nothing is left behind");
    }
    // a and b share a pool: blocks of one can be freed by the other, they are equal, and the pool lives as long as either
    template<typename T, typename U, u64... B> void shared(pa<T, B...> &a, pa<U, B...> &b) {
        vf_assert(a.underlying_pool() == b.underlying_pool() && a.underlying_pool(), "they refer to the same pool");
        if constexpr (std::is_same_v<T, U>) vf_assert(a == b && !(a != b), "allocators that share a pool are equal");
        u64 const n = vf_any_range("n", 0, 64);
        bool ok;
        T *p = take(a, n, ok);
        if (ok) { if constexpr (std::is_same_v<T, U>) { if (vf_any_bool("other frees")) give(b, p, n); else give(a, p, n); } else give(a, p, n); }
        U *q = take(b, n, ok);
        if (ok) give(b, q, n);
    }
    template<typename T, u64... B> void c_copies() {
        using A = pa<T, B...>;
        reset();
        {
            A a;
            auto const *pool = a.underlying_pool().get();
            switch (vf_choose("how", 11)) {
                case 0: { A b{a}; shared(a, b); break; }
                case 1: { A b{std::move(a)}; vf_assert(b.underlying_pool().get() == pool, "move: takes the pool along"); shared(a, b); break; }
                case 2: { A b; b = a; vf_assert(b.underlying_pool().get() == pool, "assignment: takes the pool along"); shared(a, b); break; }
                case 3: { A b; b = std::move(a); vf_assert(b.underlying_pool().get() == pool, "assignment: takes the pool along"); shared(a, b); break; }
                case 4: { A b = std::allocator_traits<A>::select_on_container_copy_construction(a); shared(a, b); break; }
                case 5: { A b{a.underlying_pool()}; shared(a, b); break; }
                case 6: { typename std::allocator_traits<A>::template rebind_alloc<s12> b{a}; shared(a, b); A c{b}; shared(a, c); break; }
                case 7: { A &r = a; a = r; vf_assert(a.underlying_pool().get() == pool, "self assignment changes nothing"); break; }
                case 8: {
                    A b;
                    auto const *other = b.underlying_pool().get();
                    vf_assert(a != b && !(a == b), "allocators with pools of their own differ");
                    vf_assert(other != pool, "a new allocator has a pool of its own");
                    A a2{a};
                    swap(a, b);
                    vf_assert(a.underlying_pool().get() == other && b.underlying_pool().get() == pool && b == a2 && a != a2, "swap: exchanges the pools");
                    shared(b, a2);
                    break;
                }
                case 9: {                                         // the pool outlives the allocator a block came from
                    A b;
                    bool ok;
                    T *p;
                    { A c{a}; p = take(c, 3, ok); b = c; }
                    a = A{};
                    if (ok) give(b, p, 3);
                    break;
                }
                default: { A b{std::as_const(a)}; shared(b, a); break; }
            }
        }
        if (vf_symbolic_run()) vf_assert(used == 0 && vf_live_allocs() == 0, "nothing is left behind");
    }
}
VF_HARNESS(alloc_s1) { c_alloc<s1, 8, 16>(); }
VF_HARNESS(alloc_s4) { c_alloc<s4, 8, 16, 64>(); }
VF_HARNESS(alloc_s12) { c_alloc<s12, 12, 24>(); }
VF_HARNESS(alloc_u64) { c_alloc<u64, 8>(); }
VF_HARNESS(copies_s4) { c_copies<s4, 8, 16>(); }
VF_HARNESS(copies_s12) { c_copies<s12, 24>(); }
VF_HARNESS(types) {
    vf::reset();
    vf_static(std::allocator_traits<pa<s4, 8>>::propagate_on_container_copy_assignment::value && std::allocator_traits<pa<s4, 8>>::propagate_on_container_move_assignment::value && std::allocator_traits<pa<s4, 8>>::propagate_on_container_swap::value && !std::allocator_traits<pa<s4, 8>>::is_always_equal::value);
}
