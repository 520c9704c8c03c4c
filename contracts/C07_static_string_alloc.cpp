// C07: every buffer of a static_string is freed once, with its length, by an allocator
// equal to the one it came from; a failing allocation leaks nothing and leaves valid objects.
//@ assume: source lengths are below 2^32 characters
//@ assume: allocator copy/move/swap do not throw (allocator requirements)
#include <dice/template-library/static_string.hpp>
#include "vf.hpp"
#include "ghost_alloc.hpp"
#include <memory>
#include <optional>

using namespace dice::template_library;
using u64 = std::uint64_t;

namespace {
    template<typename C, unsigned F>
    struct suite {
        using A = vf::ga<C, F>;
        using S = basic_static_string<C, std::char_traits<C>, A>;

        struct text {
            std::unique_ptr<C[]> p; std::size_t n;
            text(char const *nm) : n{vf::len(nm)} {
                p.reset(new C[n + 1]);
                if (!vf_symbolic_run()) for (std::size_t i = 0; i < n; ++i) p[i] = static_cast<C>('a' + i % 20);
            }
            std::basic_string_view<C> sv() const { return {p.get(), n}; }
        };
        // representation invariant: a buffer recorded in the ledger with this length, or no buffer and length 0
        static void valid(S const &s) {
            if (s.size() == 0) { vf_assert(s.empty() && s.begin() == s.end(), "an empty string is consistently empty"); return; }
            int at = -1;
            for (int i = 0; i < vf::ledger.used; ++i) if (vf::ledger.p[i] == static_cast<void const *>(s.data())) at = i;
            vf_assert(at >= 0, "the string's buffer is an allocated one");
            vf_assert(vf::ledger.n[at] == s.size(), "the string's length is that of its buffer");
        }
        static void start(int budget) { vf::reset(); vf::ledger_reset(); vf::throw_budget = budget; }
        static void finish(int owners) {
            (void) owners;
            vf_assert(vf::ledger.used == 0, "no buffer is leaked");
            vf_assert(vf::ledger.allocs == vf::ledger.frees, "every buffer is freed exactly once");
        }
        static A alloc(char const *n) { return A{vf_choose(n, 2)}; }

        static void construct() {
            start(1);
            text a{"len a"};
            {
                A const al = alloc("allocator");
                try {
                    S s{a.sv(), al};
                    valid(s);
                    vf_assert(vf::ledger.used == (a.n ? 1 : 0), "one buffer per non-empty string");
                    if (a.n) vf_assert(vf::ledger.id[0] == al.id, "the buffer comes from the given allocator");
                    switch (vf_choose("then", 4)) {
                        case 0: break;
                        case 1: { S c{s}; valid(c); valid(s); vf_assert(vf::ledger.used == (a.n ? 2 : 0), "a copy has its own buffer"); break; }
                        case 2: { S c{std::move(s)}; valid(c); valid(s); vf_assert(vf::ledger.used == (a.n ? 1 : 0), "a move takes the buffer over"); break; }
                        case 3: { S e{al}; valid(e); e = s; valid(e); break; }
                    }
                } catch (vf::injected const &) { vf_assert(vf::throws_done == 1, "only a failing allocation throws"); }
            }
            finish(1);
        }
        // a sequence of operations on two strings with arbitrary contents and allocators
        static void ops(int steps) {
            start(1);
            text a{"len a"}, b{"len b"};
            try {
                S s{a.sv(), alloc("allocator a")}, t{b.sv(), alloc("allocator b")};
                for (int i = 0; i < steps; ++i) {
                    try {
                        switch (vf_choose("operation", 6)) {
                            case 0: s = t; break;
                            case 1: s = std::move(t); break;
                            case 2: swap(s, t); break;
                            case 3: { S c{t}; s = c; break; }
                            case 4: { S c{std::move(t)}; t = std::move(c); break; }
                            case 5: { auto &r = s; s = r; break; }
                        }
                    } catch (vf::injected const &) { vf_assert(vf::throws_done == 1, "only a failing allocation throws"); }
                    valid(s);
                    valid(t);
                }
            } catch (vf::injected const &) { vf_assert(vf::throws_done == 1, "only a failing allocation throws"); }
            finish(2);
        }
        static void noexcepts() {
            vf_assert(std::is_nothrow_move_constructible_v<S>, "move construction is noexcept");
            vf_assert(noexcept(swap(std::declval<S &>(), std::declval<S &>())), "swap is noexcept");
            if ((F & vf::pocma) || (F & vf::iae)) vf_assert(std::is_nothrow_move_assignable_v<S>, "move assignment that cannot allocate is noexcept");
            start(0);
        }
    };
}
#ifdef VF_THOROUGH
constexpr int STEPS = 3;
#else
constexpr int STEPS = 2;
#endif
#define ALL(N, C, F) \
    VF_HARNESS(N##_construct) { suite<C, F>::construct(); } \
    VF_HARNESS(N##_ops) { suite<C, F>::ops(STEPS); } \
    VF_HARNESS(N##_noexcept) { suite<C, F>::noexcepts(); }
ALL(plain, char, 0u)
ALL(propagate_copy, char, (vf::pocca))
ALL(propagate_move, char16_t, (vf::pocma))
ALL(propagate_swap, char, (vf::pocs))
ALL(propagate_all, wchar_t, (vf::pocca | vf::pocma | vf::pocs))
ALL(always_equal, char, (vf::iae))
ALL(propagate_copy_move, char32_t, (vf::pocca | vf::pocma))
