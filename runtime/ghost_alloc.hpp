// A ghost allocator: every block is recorded in a ledger together with the identity of
// the allocator that handed it out; allocation may fail (vf::throw_budget).
#pragma once
#include "vf.hpp"

namespace vf {
    enum : unsigned { pocca = 1, pocma = 2, pocs = 4, iae = 8 };
    struct ledger_t {
        static constexpr int cap = 24;
        void *p[cap];
        std::size_t n[cap];
        int id[cap];
        int used = 0;
        int allocs = 0, frees = 0;
    };
    inline ledger_t ledger;
    inline void ledger_reset() { ledger.used = ledger.allocs = ledger.frees = 0; }
    struct bad_alloc_injected : std::bad_alloc {};

    template<typename T, unsigned F = 0>
    struct ga {
        using value_type = T;
        using propagate_on_container_copy_assignment = std::bool_constant<(F & pocca) != 0>;
        using propagate_on_container_move_assignment = std::bool_constant<(F & pocma) != 0>;
        using propagate_on_container_swap = std::bool_constant<(F & pocs) != 0>;
        using is_always_equal = std::bool_constant<(F & iae) != 0>;
        template<typename U> struct rebind { using other = ga<U, F>; };
        int id = 0;
        ga() noexcept = default;
        explicit ga(int i) noexcept : id{i} {}
        template<typename U> ga(ga<U, F> const &o) noexcept : id{o.id} {}
        T *allocate(std::size_t n) {
            if (throw_budget > 0 && vf_choose("allocation fails", 2) == 1) {
                --throw_budget; ++throws_done;
                throw injected{9};
            }
            auto *p = static_cast<T *>(::operator new(n * sizeof(T)));
            vf_assert(ledger.used < ledger_t::cap, "ghost ledger is large enough");
            ledger.p[ledger.used] = p; ledger.n[ledger.used] = n; ledger.id[ledger.used] = id;
            ++ledger.used; ++ledger.allocs;
            return p;
        }
        void deallocate(T *p, std::size_t n) noexcept {
            int at = -1;
            for (int i = 0; i < ledger.used; ++i) if (ledger.p[i] == p) at = i;
            vf_assert(at >= 0, "a freed buffer was obtained from the allocator and not freed before");
            vf_assert(ledger.n[at] == n, "a buffer is freed with the length it was obtained with");
            if constexpr (!(F & iae)) vf_assert(ledger.id[at] == id, "a buffer is freed with an allocator equal to the one it came from");
            --ledger.used; ++ledger.frees;
            ledger.p[at] = ledger.p[ledger.used]; ledger.n[at] = ledger.n[ledger.used]; ledger.id[at] = ledger.id[ledger.used];
            ::operator delete(p);
        }
        friend bool operator==(ga const &a, ga const &b) noexcept { return (F & iae) != 0 || a.id == b.id; }
    };
} // namespace vf
