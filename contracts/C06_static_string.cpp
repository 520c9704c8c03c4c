// C06: a basic_static_string holds exactly the characters it was given. Lengths are
// arbitrary (unbounded); contents are arbitrary, observed at an arbitrary index k.
//@ trusted: memcmp (assumed contract: sign of the first difference, instantiated at the observed indices)
//@ trusted: std::__ostream_insert (assumed contract: inserts the given characters)
//@ assume: source lengths are below 2^32 characters (allocation succeeds)
//@ bounded: bounded_.*: strings of up to 3 characters (arbitrary contents)
#include <dice/template-library/static_string.hpp>
#include "vf.hpp"
#include "ghost_alloc.hpp"
#include <memory>
#include <sstream>
#include <string>

using namespace dice::template_library;
using u64 = std::uint64_t;

namespace {
    template<typename C>
    C anyc(char const *n) { return static_cast<C>(vf::any<std::conditional_t<sizeof(C) == 1, std::uint8_t, std::conditional_t<sizeof(C) == 2, std::uint16_t, std::uint32_t>>>(n)); }

    // n characters with arbitrary contents; the one at k (if k < n) is c
    template<typename C>
    struct source {
        std::unique_ptr<C[]> buf;
        std::size_t n;
        source(std::size_t len) : buf{new C[len + 1]}, n{len} {
            if (!vf_symbolic_run()) for (std::size_t i = 0; i < len; ++i) buf[i] = static_cast<C>(i * 77 + 13);
        }
        C put(std::size_t k, char const *nm) { C const c = anyc<C>(nm); buf[k] = c; return c; }
        std::basic_string_view<C> sv() const { return {buf.get(), n}; }
    };

    template<typename S, typename C>
    void holds(S &s, std::size_t n, std::size_t k, C c) {
        S const &cs = s;
        vf_assert(cs.size() == n, "the length is the source's");
        vf_assert(cs.empty() == (n == 0), "empty() iff the length is zero");
        vf_assert(static_cast<std::size_t>(cs.end() - cs.begin()) == n && static_cast<std::size_t>(s.end() - s.begin()) == n && static_cast<std::size_t>(cs.cend() - cs.cbegin()) == n, "iterators span the length");
        std::basic_string_view<C> const v = cs;
        vf_assert(v.size() == n, "the view has the same length");
        if (k < n) {
            vf_assert(cs[k] == c && s[k] == c, "operator[] gives the source's character");
            vf_assert(cs.data()[k] == c && s.data()[k] == c && v[k] == c, "data() and the view give the source's character");
            vf_assert(*(cs.begin() + k) == c && *(s.begin() + k) == c && *(cs.cbegin() + k) == c, "iterators give the source's character");
            auto const off = static_cast<std::ptrdiff_t>(n - 1 - k);
            vf_assert(*(cs.rbegin() + off) == c && *(s.rbegin() + off) == c && *(cs.crbegin() + off) == c, "reverse iterators give the source's character");
            vf_assert((cs.rend() - cs.rbegin()) == static_cast<std::ptrdiff_t>(n) && (s.rend() - s.rbegin()) == static_cast<std::ptrdiff_t>(n) && (cs.crend() - cs.crbegin()) == static_cast<std::ptrdiff_t>(n), "reverse iterators span the length");
            if (k == 0) vf_assert(cs.front() == c && s.front() == c, "front() is the first character");
            if (k == n - 1) vf_assert(cs.back() == c && s.back() == c, "back() is the last character");
        }
    }

    // traits under which different characters are equal (the case bit is ignored), and ordered the other way round
    struct no_case : std::char_traits<char> {
        static constexpr int key(char c) noexcept { return -(static_cast<unsigned char>(c) & 0xdf); }
        static constexpr bool eq(char a, char b) noexcept { return key(a) == key(b); }
        static constexpr bool lt(char a, char b) noexcept { return key(a) < key(b); }
        static constexpr int compare(char const *a, char const *b, std::size_t n) noexcept {
            for (std::size_t i = 0; i < n; ++i) {
                if (lt(a[i], b[i])) return -1;
                if (lt(b[i], a[i])) return 1;
            }
            return 0;
        }
    };

    template<typename C, typename A>
    struct suite {
        using S = basic_static_string<C, std::char_traits<C>, A>;

        static void construct() {
            vf::reset(); vf::ledger_reset();
            auto const n = vf::len("len n"); auto const k = vf::len("len k");
            source<C> src{n};
            C const c = k < n ? src.put(k, "char") : C{};
            S s{src.sv()};
            holds(s, n, k, c);
            if (k < n) vf_assert(src.buf[k] == c, "the source is not modified");
            S const cc{s};
            holds(const_cast<S &>(cc), n, k, c);
            holds(s, n, k, c);
            vf_assert(n == 0 || cc.data() != s.data(), "a copy has its own buffer");
            S m{std::move(s)};
            holds(m, n, k, c);
            vf_assert(s.size() == 0 && s.empty() && s.begin() == s.end(), "a moved-from string is empty");
            S d{};
            vf_assert(d.size() == 0 && d.empty() && d.begin() == d.end() && std::basic_string_view<C>(d).empty(), "a default constructed string is empty");
        }
        static void write() {
            vf::reset(); vf::ledger_reset();
            auto const n = vf::len("len n", 1); auto const k = vf::len("len k");
            vf_assume(k < n);
            source<C> src{n};
            auto const j = vf::len("len j"); vf_assume(j < n && j != k);
            C const c = src.put(k, "char"), cj = src.put(j, "other char");
            S s{src.sv()};
            C const w = anyc<C>("written");
            switch (vf_choose("through", 5)) {
                case 0: s[k] = w; break;
                case 1: s.data()[k] = w; break;
                case 2: *(s.begin() + k) = w; break;
                case 3: vf_assume(k == 0); s.front() = w; break;
                case 4: vf_assume(k == n - 1); s.back() = w; break;
            }
            holds(s, n, k, w);
            holds(s, n, j, cj);
            vf_assert(src.buf[k] == c, "writing through the string does not reach the source");
        }
        static void assign() {
            vf::reset(); vf::ledger_reset();
            auto const n = vf::len("len n"); auto const m = vf::len("len m"); auto const k = vf::len("len k");
            source<C> a{n}, b{m};
            C const ca = k < n ? a.put(k, "a") : C{}, cb = k < m ? b.put(k, "b") : C{};
            S s{a.sv()}, t{b.sv()};
            switch (vf_choose("operation", 5)) {
                case 0: s = t; holds(s, m, k, cb); holds(t, m, k, cb); break;
                case 1: { s = s; holds(s, n, k, ca); holds(t, m, k, cb); break; }
                case 2: s = std::move(t); holds(s, m, k, cb);
                        // the source is empty, swapped out or (different allocators) unchanged
                        vf_assert(t.size() == 0 || t.size() == n, "a move-assigned-from string is empty or swapped out");
                        if (t.size() != 0) holds(t, n, k, ca);
                        break;
                case 3: swap(s, t); holds(s, m, k, cb); holds(t, n, k, ca); break;
                case 4: { using std::swap; swap(s, t); swap(s, s); holds(s, m, k, cb); break; }
            }
        }
        // unequal allocators that do not propagate
        static void assign_other_allocator() requires (!std::allocator_traits<A>::is_always_equal::value) {
            vf::reset(); vf::ledger_reset();
            auto const n = vf::len("len n"); auto const m = vf::len("len m"); auto const k = vf::len("len k");
            source<C> a{n}, b{m};
            if (k < n) a.put(k, "a");
            C const cb = k < m ? b.put(k, "b") : C{};
            S s{a.sv(), A{1}}, t{b.sv(), A{2}};
            if (vf_choose("operation", 2)) s = t; else s = std::move(t);
            holds(s, m, k, cb);
        }
        // ---- comparisons: against the first difference of the contents
        static void compare_equal_length() {
            vf::reset(); vf::ledger_reset();
            if (vf_symbolic_run()) vf_flag_set("contract_memcmp", 1);
            auto const n = vf::len("len n"), m = vf::len("len m"), k = vf::len("len k");
            source<C> a{n}, b{m};
            C const ca = k < n ? a.put(k, "a") : C{}, cb = k < m ? b.put(k, "b") : C{};
            S s{a.sv()}, t{b.sv()};
            std::basic_string_view<C> const vs{s.data(), n}, vt{t.data(), m};
            vf_index(k);
            bool const eq = s == t;
            auto const o = s <=> t;
            vf_assert((o == 0) == eq, "<=> and == agree");
            vf_assert(eq == (vs == vt), "== equals that of the string_views");
            vf_assert(o == (vs <=> vt), "<=> equals that of the string_views");
            vf_assert((s == vt) == eq && (vt == s) == eq && (s != t) == !eq, "comparison with a view agrees");
            vf_assert((s <=> vt) == o && (vt <=> s) == (0 <=> o), "three-way comparison with a view agrees");
            vf_assert((s < t) == (o < 0) && (s > t) == (o > 0) && (s <= t) == (o <= 0) && (s >= t) == (o >= 0), "relational operators follow <=>");
            if (n != m) vf_assert(!eq, "strings of different length differ");
            if (k < n && k < m && ca != cb) vf_assert(!eq, "strings that differ at some index are not equal");
            vf_assert(s == s && (s <=> s) == 0, "a string equals itself");
        }
        template<typename TR = std::char_traits<C>>
        static void compare_small() {
            using S = basic_static_string<C, TR, A>;
            vf::reset(); vf::ledger_reset();
            auto const n = static_cast<std::size_t>(vf_choose("n", 4)), m = static_cast<std::size_t>(vf_choose("m", 4));
            C a[3], b[3];
            for (auto &x : a) x = anyc<C>("a");
            for (auto &x : b) x = anyc<C>("b");
            S s{std::basic_string_view<C, TR>{a, n}}, t{std::basic_string_view<C, TR>{b, m}};
            int want = 0;
            std::size_t i = 0;
            for (; i < n && i < m; ++i) {
                if (TR::lt(a[i], b[i])) { want = -1; break; }
                if (TR::lt(b[i], a[i])) { want = 1; break; }
            }
            if (want == 0 && n != m) want = n < m ? -1 : 1;
            auto const o = s <=> t;
            vf_assert((o < 0) == (want < 0) && (o > 0) == (want > 0) && (o == 0) == (want == 0), "<=> is the lexicographical comparison");
            vf_assert((s == t) == (want == 0), "== iff same length and characters");
            std::basic_string_view<C, TR> const vt{b, m};
            auto const p = s <=> vt;
            vf_assert((p < 0) == (want < 0) && (p > 0) == (want > 0), "<=> with a view is the lexicographical comparison");
            vf_assert((s == vt) == (want == 0) && (vt == s) == (want == 0), "== with a view");
        }
    };
}
// stream output: the formatted insertion receives exactly the string's characters
namespace vfs { char const *data; std::size_t n; int calls; }
#ifndef VF_NATIVE
extern "C" __attribute__((used)) std::ostream &vfs__ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(std::ostream &os, char const *p, std::streamsize n) {
    vfs::data = p; vfs::n = static_cast<std::size_t>(n); ++vfs::calls;
    return os;
}
#endif
VF_HARNESS(stream) {
    vf::reset();
    auto const n = vf::len("len n"); auto const k = vf::len("len k");
    source<char> src{n};
    char const c = k < n ? src.put(k, "char") : char{};
    static_string s{src.sv()};
#ifndef VF_NATIVE
    vfs::calls = 0;
    alignas(std::ostream) static char mem[sizeof(std::ostream)];
    std::ostream &os = *reinterpret_cast<std::ostream *>(mem);
    std::ostream &r = (os << s);
    vf_assert(&r == &os && vfs::calls == 1 && vfs::n == n, "the string is inserted once with its length");
    if (k < n) vf_assert(vfs::data[k] == c, "the inserted characters are the string's");
#else
    std::ostringstream os;
    std::ostream &r = (os << s);
    vf_assert(&r == &os && os.str().size() == n, "the string is inserted once with its length");
    if (k < n) vf_assert(os.str()[k] == c, "the inserted characters are the string's");
#endif
}
#define S1(N, C, A) \
    VF_HARNESS(N##_construct) { suite<C, A>::construct(); } \
    VF_HARNESS(N##_write) { suite<C, A>::write(); } \
    VF_HARNESS(N##_assign) { suite<C, A>::assign(); } \
    VF_HARNESS(bounded_##N##_compare) { suite<C, A>::compare_small(); }
S1(char, char, std::allocator<char>)
S1(wchar, wchar_t, std::allocator<wchar_t>)
S1(u8, char8_t, std::allocator<char8_t>)
S1(u16, char16_t, std::allocator<char16_t>)
S1(u32, char32_t, std::allocator<char32_t>)
using A0 = vf::ga<char16_t, 0>;
using AM = vf::ga<wchar_t, vf::pocma | vf::pocca | vf::pocs>;
S1(u16_stateful, char16_t, A0)
S1(wchar_propagating, wchar_t, AM)
VF_HARNESS(bounded_char_traits_compare) { suite<char, std::allocator<char>>::compare_small<no_case>(); }
VF_HARNESS(u16_stateful_other) { suite<char16_t, A0>::assign_other_allocator(); }
VF_HARNESS(wchar_propagating_other) { suite<wchar_t, AM>::assign_other_allocator(); }
VF_HARNESS(char_compare) { suite<char, std::allocator<char>>::compare_equal_length(); }
VF_HARNESS(u8_compare) { suite<char8_t, std::allocator<char8_t>>::compare_equal_length(); }
VF_HARNESS(wchar_compare) { suite<wchar_t, std::allocator<wchar_t>>::compare_equal_length(); }
