// Contract intrinsics. The same harness text is (a) compiled to LLVM IR and proved by
// engine/vfy, where the vf_* functions are uninterpreted inputs / obligations, and
// (b) compiled natively with the sanitizers and replayed on counterexample tapes.
#pragma once
#include <cstddef>
#include <cstdint>
#include <exception>
#include <new>
#include <type_traits>
#include <utility>

extern "C" {
std::uint8_t vf_any_u8(char const *);
std::uint16_t vf_any_u16(char const *);
std::uint32_t vf_any_u32(char const *);
std::uint64_t vf_any_u64(char const *);
bool vf_any_bool(char const *);
std::uint64_t vf_any_range(char const *, std::uint64_t lo, std::uint64_t hi);
int vf_choose(char const *, int n);
void vf_assume(bool);
void vf_assert(bool, char const *);
// a type-level obligation: evaluated by the compiler, discharged like any other
#define vf_static(...) vf_assert(bool(__VA_ARGS__), "types: " #__VA_ARGS__)
void vf_cover(char const *);
std::uint64_t vf_uf(char const *tag, std::uint64_t x);
bool vf_symbolic_run();
int vf_flag_get(char const *);
void vf_flag_set(char const *, int);
std::uint64_t vf_live_allocs();
void vf_uncaught_base(int);
bool vf_decide(bool);
void vf_end_path();
void vf_cycle();                   // ends the path if the state the code under contract sees is the one of an earlier call
void vf_index(std::uint64_t);      // an index the proof looks at
void vf_value(std::uint64_t);      // a value loop invariants may mention
void vf_fact(bool);                // a fact loop invariants may mention
void vf_candidate(bool (*)());     // a candidate invariant over ghost state
void vf_function(std::uint64_t (*)(std::uint64_t)); // values may equal f(iteration) or f(another value)
void vf_forget();
void vf_range(std::uint64_t x, std::uint64_t lo, std::uint64_t hi, bool is_signed); // x lies in [lo, hi] (checked); decides overflow of products
void vf_atomic_hooks(void (*before)(void *), void (*after)(void *, std::uint64_t, std::uint64_t)); // run around every atomic access to a shared object
void vf_share_heap();              // every heap object allocated so far is shared with other threads
void vf_lemma_div(std::uint64_t i, std::uint64_t m);      // dividends i*m apart have quotients by m that are i apart
void vf_lemma_distrib(std::uint64_t a, std::uint64_t b, std::uint64_t m); // (a+b)*m == a*m + b*m
void vf_lemma_mul(std::uint64_t i, std::uint64_t q, std::uint64_t m); // facts about i*m and q*m (the engine proves them over the integers)
}

namespace vf {
    template<typename T>
    T any(char const *n) {
        if constexpr (std::is_same_v<T, bool>) return vf_any_bool(n);
        else if constexpr (sizeof(T) == 1) return static_cast<T>(vf_any_u8(n));
        else if constexpr (sizeof(T) == 2) return static_cast<T>(vf_any_u16(n));
        else if constexpr (sizeof(T) == 4) return static_cast<T>(vf_any_u32(n));
        else return static_cast<T>(vf_any_u64(n));
    }

    // a length: unbounded for the prover, small natively (where it is really allocated)
    inline std::uint64_t len(char const *n, std::uint64_t lo = 0) {
        return vf_any_range(n, lo, vf_symbolic_run() ? std::uint64_t{1} << 32 : 48);
    }

    // ---------------------------------------------------------------- ghost state
    // Registry of live ghost objects: constructing over a live object, destroying a
    // dead one and forgetting one are obligations.
    struct registry {
        static constexpr int cap = 96;
        void const *addr[cap];
        int tag[cap];
        std::size_t size[cap];
        int n = 0;
        int find(void const *p) const {
            for (int i = 0; i < n; ++i)
                if (addr[i] == p) return i;
            return -1;
        }
        void born(void const *p, int t, std::size_t sz) {
            for (int i = 0; i < n; ++i) {
                auto const a = reinterpret_cast<std::uintptr_t>(addr[i]), b = reinterpret_cast<std::uintptr_t>(p);
                vf_assert(a + size[i] <= b || b + sz <= a, "no object is constructed over a live object");
            }
            if (n < cap) { addr[n] = p; tag[n] = t; size[n] = sz; ++n; }
            else vf_assert(false, "ghost registry is large enough");
        }
        void died(void const *p, int t) {
            int const i = find(p);
            vf_assert(i >= 0, "every destroyed object was live");
            if (i < 0) return;
            vf_assert(tag[i] == t, "objects are destroyed as the type they were constructed as");
            --n;
            addr[i] = addr[n]; tag[i] = tag[n]; size[i] = size[n];
        }
        bool live(void const *p, int t) const {
            int const i = find(p);
            return i >= 0 && tag[i] == t;
        }
    };
    inline registry reg;

    struct injected { int where = 0; };          // the exception ghost operations throw
    struct terminated_path {};

    inline int throw_budget = 0;                  // how many ghost operations may still throw
    inline int throws_done = 0;
    inline int copies = 0, moves = 0, ctors = 0, dtors = 0, assigns = 0, compares = 0;

    // unbounded loops are cut by inductive invariants from here on
    inline void inductive(bool on = true) { vf_flag_set("inductive", on); }
    inline void reset() {
        reg.n = 0;
        throw_budget = throws_done = copies = moves = ctors = dtors = assigns = compares = 0;
    }
    inline void may_throw(char const *what, int where) {
        if (throw_budget > 0 && vf_choose(what, 2) == 1) {
            --throw_budget;
            ++throws_done;
            throw injected{where};
        }
    }

    enum : unsigned { nt_copy = 1, nt_move = 2, nt_dtor_trivial = 4, no_copy = 8, nt_ctor = 16, no_move = 32, nt_cassign = 64, nt_massign = 128 };

    // A ghost element: carries an arbitrary 64-bit value; moved-from objects hold an
    // arbitrary (fresh) value, so code that reads a moved-from element cannot verify.
    template<int Tag, unsigned F = 0>
    struct el {
        std::uint64_t v;

        struct raw {};
        explicit el(std::uint64_t x) noexcept((F & nt_ctor) != 0) : v{x} {
            if constexpr (!(F & nt_ctor)) may_throw("ctor throws", 1);
            ++ctors;
            reg.born(this, Tag, sizeof(el));
        }
        el(el const &o) noexcept((F & nt_copy) != 0) requires(!(F & no_copy)) : v{o.v} {
            vf_assert(reg.live(&o, Tag), "copied-from object is live");
            if constexpr (!(F & nt_copy)) may_throw("copy throws", 2);
            ++copies;
            reg.born(this, Tag, sizeof(el));
        }
        el(el &&o) noexcept((F & nt_move) != 0) requires(!(F & no_move)) : v{o.v} {
            vf_assert(reg.live(&o, Tag), "moved-from object is live");
            if constexpr (!(F & nt_move)) may_throw("move throws", 3);
            ++moves;
            o.v = vf_any_u64("moved-from");
            reg.born(this, Tag, sizeof(el));
        }
        el &operator=(el const &o) noexcept((F & nt_cassign) != 0) requires(!(F & no_copy)) {
            vf_assert(reg.live(&o, Tag), "assigned-from object is live");
            vf_assert(reg.live(this, Tag), "assigned-to object is live");
            if constexpr (!(F & nt_cassign)) may_throw("copy assignment throws", 4);
            ++assigns;
            v = o.v;
            return *this;
        }
        el &operator=(el &&o) noexcept((F & nt_massign) != 0) requires(!(F & no_move)) {
            vf_assert(reg.live(&o, Tag), "assigned-from object is live");
            vf_assert(reg.live(this, Tag), "assigned-to object is live");
            if constexpr (!(F & nt_massign)) may_throw("move assignment throws", 5);
            ++assigns;
            auto const t = o.v;
            if (this != &o) o.v = vf_any_u64("moved-from");
            v = t;
            return *this;
        }
        ~el() noexcept {
            ++dtors;
            reg.died(this, Tag);
        }
        friend bool operator==(el const &a, el const &b) noexcept {
            vf_assert(reg.live(&a, Tag) && reg.live(&b, Tag), "compared objects are live");
            return a.v == b.v;
        }
        friend auto operator<=>(el const &a, el const &b) noexcept {
            vf_assert(reg.live(&a, Tag) && reg.live(&b, Tag), "compared objects are live");
            return a.v <=> b.v;
        }
    };
    constexpr unsigned nothrow_all = nt_copy | nt_move | nt_ctor | nt_cassign | nt_massign;
} // namespace vf

#ifdef VF_NATIVE
namespace vf {
    struct harness_reg {
        harness_reg(char const *name, void (*fn)());
    };
}
#define VF_HARNESS(NAME) \
    static void vfb_##NAME(); \
    extern "C" void vfh_##NAME() { vfb_##NAME(); } \
    static ::vf::harness_reg vf_reg_##NAME{#NAME, &vfh_##NAME}; \
    static void vfb_##NAME()
#else
#define VF_HARNESS(NAME) \
    static void vfb_##NAME(); \
    extern "C" void vfh_##NAME() { vfb_##NAME(); } \
    static void vfb_##NAME()
#endif
