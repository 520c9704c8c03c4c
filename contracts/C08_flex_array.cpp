// C08: flex_array keeps its bounds and its elements in order. Element values are arbitrary,
// sizes are all sizes up to (and beyond) the extent of each instantiation.
//@ assume: instantiations checked: element types u64 and a non-trivial class; extents 1, 3, 8 (static and limited), dynamic
//@ assume: sbo_dynamic_size mode needs ankerl/svector.h, which is not installed here, and is not covered
//@ bounded: bounded_.*: dynamic_size (std::vector) with up to 5 elements
#include <dice/template-library/flex_array.hpp>
#include "vf.hpp"
#include <iterator>

using namespace dice::template_library;
using u64 = std::uint64_t;

namespace {
    // a non-trivial element: lifetime tracked, default constructible
    struct num {
        u64 v = 0;
        num() noexcept { vf::reg.born(this, 7, sizeof(num)); }
        num(u64 x) noexcept : v{x} { vf::reg.born(this, 7, sizeof(num)); }
        num(num const &o) noexcept : v{o.v} { vf_assert(vf::reg.live(&o, 7), "copied-from element is live"); vf::reg.born(this, 7, sizeof(num)); }
        num &operator=(num const &o) noexcept { vf_assert(vf::reg.live(&o, 7) && vf::reg.live(this, 7), "assigned elements are live"); v = o.v; return *this; }
        ~num() noexcept { vf::reg.died(this, 7); }
        friend bool operator==(num const &a, num const &b) noexcept { return a.v == b.v; }
        friend auto operator<=>(num const &a, num const &b) noexcept { return a.v <=> b.v; }
    };
    u64 val(u64 x) { return x; }
    u64 val(num const &x) { return x.v; }

    // a single-pass / forward source of the values src[0..n)
    template<typename Cat>
    struct ghost_it {
        using value_type = u64; using difference_type = std::ptrdiff_t; using iterator_concept = Cat; using iterator_category = Cat; using reference = u64; using pointer = void;
        u64 const *src = nullptr; std::size_t i = 0, n = 0;
        u64 operator*() const { vf_assert(i < n, "the source is read within its bounds"); return src[i]; }
        ghost_it &operator++() { vf_assert(i < n, "the source is advanced within its bounds"); ++i; return *this; }
        ghost_it operator++(int) { auto c = *this; ++*this; return c; }
        bool operator==(ghost_it const &o) const { return i == o.i; }
    };

    // the least an input iterator has to offer: it can only be moved, its post-increment yields nothing, its end has another type
    struct bare_it {
        using value_type = u64; using difference_type = std::ptrdiff_t; using iterator_concept = std::input_iterator_tag;
        u64 const *src = nullptr; std::size_t i = 0, n = 0;
        bare_it(u64 const *s, std::size_t at, std::size_t to) : src{s}, i{at}, n{to} {}
        bare_it(bare_it &&) = default;
        bare_it &operator=(bare_it &&) = default;
        u64 operator*() const { vf_assert(i < n, "the source is read within its bounds"); return src[i]; }
        bare_it &operator++() { vf_assert(i < n, "the source is advanced within its bounds"); ++i; return *this; }
        void operator++(int) { ++*this; }
    };
    struct bare_end {
        bool operator==(bare_it const &o) const { return o.i == o.n; }
    };
    // the end of a pointer range, not a pointer
    struct ptr_end {
        u64 const *e = nullptr;
        bool operator==(u64 const *p) const { return p == e; }
    };

    template<typename FA>
    void holds(FA &f, u64 const *want, std::size_t n) {
        FA const &c = f;
        using T = typename FA::value_type;
        vf_assert(c.size() == n, "size() is the number of elements given");
        vf_assert(c.empty() == (n == 0), "empty() iff there are no elements");
        auto const d = static_cast<std::ptrdiff_t>(n);
        vf_assert(c.end() - c.begin() == d && f.end() - f.begin() == d && c.cend() - c.cbegin() == d, "iterators span the size");
        vf_assert(c.rend() - c.rbegin() == d && f.rend() - f.rbegin() == d && c.crend() - c.crbegin() == d, "reverse iterators span the size");
        auto const k = static_cast<std::size_t>(vf_choose("at", static_cast<int>(n) + 1));
        std::span<T, FA::has_dynamic_extent ? dynamic_extent : FA::extent> const sp = f;
        std::span<T const, FA::has_dynamic_extent ? dynamic_extent : FA::extent> const csp = c;
        vf_assert(sp.size() == n && csp.size() == n, "spans have the size of the array");
        if (k < n) {
            vf_assert(&c[k] == c.data() + k && &f[k] == &c[k], "operator[] addresses the k-th element of data()");
            vf_assert(c.begin() + k == &c[k] && f.begin() + k == &f[k] && c.cbegin() + k == &c[k], "iterators address the same elements");
            vf_assert(&*(c.rbegin() + (d - 1 - static_cast<std::ptrdiff_t>(k))) == &c[k] && &*(f.rbegin() + (d - 1 - static_cast<std::ptrdiff_t>(k))) == &c[k] && &*(c.crbegin() + (d - 1 - static_cast<std::ptrdiff_t>(k))) == &c[k], "reverse iterators address the same elements");
            vf_assert(sp.data() + k == &f[k] && csp.data() + k == &c[k], "spans address the same elements");
            vf_assert(val(c[k]) == want[k], "the elements are those given, in order");
        }
    }

    constexpr std::size_t CAP = 10;
    struct input {
        u64 v[CAP];
        std::size_t n;
        input(std::size_t upto) : n{static_cast<std::size_t>(vf_choose("count", static_cast<int>(upto) + 1))} {
            for (auto &x : v) x = vf_any_u64("element");
        }
    };

    template<typename T, std::size_t E, std::size_t M>
    struct suite {
        using FA = flex_array<T, E, M>;
        static constexpr bool fixed = E != dynamic_extent;
        static constexpr bool limited = !fixed && M != dynamic_extent;
        static constexpr std::size_t most = fixed ? E : limited ? M : 5;

        template<typename F>
        static void checked(F make, input const &in, bool ok) {
            bool threw = false;
            {
                try { auto f = make(); holds(f, in.v, in.n); }
                catch (std::length_error const &) { threw = true; }
                catch (...) { vf_assert(false, "only std::length_error is thrown"); }
            }
            vf_assert(threw == !ok, "std::length_error iff the elements do not fit");
            vf_assert(vf::reg.n == 0, "no element is leaked");
        }
        static void init_list() {
            vf::reset();
            input in{fixed || limited ? (most + 1 > 5 ? 5 : most + 1) : 5};
            auto const &v = in.v;
            checked([&]() -> FA {
                switch (in.n) {
                    case 0: return FA(std::initializer_list<T>{});
                    case 1: return FA{T(v[0])};
                    case 2: return FA{T(v[0]), T(v[1])};
                    case 3: return FA{T(v[0]), T(v[1]), T(v[2])};
                    case 4: return FA{T(v[0]), T(v[1]), T(v[2]), T(v[3])};
                    default: return FA{T(v[0]), T(v[1]), T(v[2]), T(v[3]), T(v[4])};
                }
            }, in, fixed ? in.n == E : limited ? in.n <= M : true);
        }
        template<typename It, typename End = It>
        static void range(std::size_t upto) {
            vf::reset();
            input in{upto};
            bool const ok = fixed ? in.n <= E : limited ? in.n <= M : true;
            if (fixed && in.n < E) {
                // fewer elements than the fixed extent: the given ones come first
                bool threw = false;
                try {
                    FA f(make_it<It>(in, 0), make_end<It, End>(in));
                    vf_assert(f.size() == E, "a fixed-size array keeps its size");
                    for (std::size_t i = 0; i < in.n; ++i) vf_assert(val(f[i]) == in.v[i], "the elements given come first, in order");
                } catch (std::length_error const &) { threw = true; }
                (void) threw;
                return;
            }
            checked([&] { return FA(make_it<It>(in, 0), make_end<It, End>(in)); }, in, ok);
        }
        template<typename It, typename End>
        static End make_end(input const &in) {
            if constexpr (std::is_same_v<End, ptr_end>) return {in.v + in.n};
            else if constexpr (std::is_same_v<End, bare_end>) return {};
            else return make_it<It>(in, in.n);
        }
        template<typename It>
        static It make_it(input const &in, std::size_t i) {
            if constexpr (std::is_pointer_v<It>) return in.v + i;
            else return It{in.v, i, in.n};
        }
        static void range_pointer() { range<u64 const *>(most + 2 > CAP ? CAP : most + 2); }
        static void range_input() { range<ghost_it<std::input_iterator_tag>>(most + 2 > CAP ? CAP : most + 2); }
        static void range_bare() { range<bare_it, bare_end>(most + 2 > CAP ? CAP : most + 2); }
        static void range_ptr_end() { range<u64 const *, ptr_end>(most + 2 > CAP ? CAP : most + 2); }
        static void range_forward() { range<ghost_it<std::forward_iterator_tag>>(most + 2 > CAP ? CAP : most + 2); }

        static void copies() {
            vf::reset();
            input in{fixed ? 0 : most};
            if (fixed) in.n = most;
            {
                FA f(in.v, in.v + in.n);
                switch (vf_choose("operation", 6)) {
                    case 0: { FA g{static_cast<FA const &>(f)}; holds(g, in.v, in.n); holds(f, in.v, in.n); break; }
                    case 1: { FA g{std::move(f)}; holds(g, in.v, in.n); break; }
                    case 2: { input o{fixed ? 0 : most}; if (fixed) o.n = most; FA g(o.v, o.v + o.n); g = f; holds(g, in.v, in.n); holds(f, in.v, in.n); break; }
                    case 3: { input o{fixed ? 0 : most}; if (fixed) o.n = most; FA g(o.v, o.v + o.n); g = std::move(f); holds(g, in.v, in.n); break; }
                    case 4: { input o{fixed ? 0 : most}; if (fixed) o.n = most; FA g(o.v, o.v + o.n); swap(f, g); holds(g, in.v, in.n); holds(f, o.v, o.n); break; }
                    case 5: { auto &r = f; f = r; holds(f, in.v, in.n); break; }
                }
            }
            vf_assert(vf::reg.n == 0, "no element is leaked");
        }
        static void empty_() {
            vf::reset();
            FA f{};
            if (!fixed) holds(f, nullptr, 0);
            else vf_assert(f.size() == E && !f.empty(), "a fixed-size array has its extent");
            vf_assert(FA::max_size() == M, "max_size() is the maximum extent");
        }
        static void resize() requires (!fixed) {
            vf::reset();
            input in{most};
            {
                FA f(in.v, in.v + in.n);
                u64 const m = limited ? vf_any_u64("new size") : static_cast<u64>(vf_choose("new size", 8));
                bool threw = false;
                try { f.resize(m); }
                catch (std::invalid_argument const &) { threw = true; }
                catch (...) { vf_assert(false, "only std::invalid_argument is thrown"); }
                if (limited) {
                    vf_assert(threw == (m > M), "std::invalid_argument iff the size exceeds the maximum");
                    vf_assert(FA::max_size() == M, "max_size() is the maximum extent");
                }
                if (threw) holds(f, in.v, in.n);
                else {
                    vf_assert(f.size() == m, "resize sets the size");
                    for (std::size_t i = 0; i < in.n; ++i) if (i < m) vf_assert(val(f[i]) == in.v[i], "a permitted resize keeps the common prefix");
                    vf_assert(static_cast<u64>(f.end() - f.begin()) == m, "iterators follow the size");
                }
            }
            vf_assert(vf::reg.n == 0, "no element is leaked");
        }
        static void write() {
            vf::reset();
            input in{fixed ? 0 : most};
            if (fixed) in.n = most;
            vf_assume(in.n > 0);
            {
                FA f(in.v, in.v + in.n);
                auto const k = static_cast<std::size_t>(vf_choose("k", static_cast<int>(most)));
                vf_assume(k < in.n);
                u64 const x = vf_any_u64("written");
                switch (vf_choose("through", 4)) {
                    case 0: f[k] = T(x); break;
                    case 1: *(f.begin() + k) = T(x); break;
                    case 2: f.data()[k] = T(x); break;
                    case 3: { std::span<T, FA::has_dynamic_extent ? dynamic_extent : FA::extent> s = f; s[k] = T(x); break; }
                }
                in.v[k] = x;
                holds(f, in.v, in.n);
            }
        }
    };
    // dynamic -> static conversion
    template<typename T, std::size_t E, typename From>
    void to_static(std::size_t upto) {
        vf::reset();
        input in{upto};
        {
            From from(in.v, in.v + in.n);
            bool threw = false;
            try { flex_array<T, E> f{from}; holds(f, in.v, E); }
            catch (std::length_error const &) { threw = true; }
            vf_assert(threw == (in.n != E), "std::length_error iff the size is not the extent");
            holds(from, in.v, in.n);
        }
        vf_assert(vf::reg.n == 0, "no element is leaked");
    }
    template<typename T, std::size_t E, typename To>
    void from_static() {
        vf::reset();
        input in{0};
        {
            flex_array<T, E> const from(in.v, in.v + E);
            To to{from};
            holds(to, in.v, E);
        }
        vf_assert(vf::reg.n == 0, "no element is leaked");
    }
}
#define ALL(P, N, T, E, M) \
    VF_HARNESS(P##N##_init_list) { suite<T, E, M>::init_list(); } \
    VF_HARNESS(P##N##_range_pointer) { suite<T, E, M>::range_pointer(); } \
    VF_HARNESS(P##N##_range_input) { suite<T, E, M>::range_input(); } \
    VF_HARNESS(P##N##_range_bare) { suite<T, E, M>::range_bare(); } \
    VF_HARNESS(P##N##_range_ptr_end) { suite<T, E, M>::range_ptr_end(); } \
    VF_HARNESS(P##N##_range_forward) { suite<T, E, M>::range_forward(); } \
    VF_HARNESS(P##N##_copies) { suite<T, E, M>::copies(); } \
    VF_HARNESS(P##N##_empty) { suite<T, E, M>::empty_(); } \
    VF_HARNESS(P##N##_write) { suite<T, E, M>::write(); }
#define ALLR(P, N, T, E, M) ALL(P, N, T, E, M) VF_HARNESS(P##N##_resize) { suite<T, E, M>::resize(); }
constexpr auto D = dynamic_extent;
ALL(, static1, u64, 1, 1) ALL(, static3, u64, 3, 3) ALL(, static8, u64, 8, 8)
ALL(, static3_class, num, 3, 3)
ALLR(, limited1, u64, D, 1) ALLR(, limited3, u64, D, 3) ALLR(, limited8, u64, D, 8)
ALLR(, limited3_class, num, D, 3)
ALLR(bounded_, dynamic, u64, D, D) ALLR(bounded_, dynamic_class, num, D, D)
using L5 = flex_array<u64, D, 5>; using L5n = flex_array<num, D, 5>; using Dy = flex_array<u64, D, D>; using Dyn = flex_array<num, D, D>;
VF_HARNESS(limited_to_static) { to_static<u64, 3, L5>(5); }
VF_HARNESS(limited_to_static_class) { to_static<num, 3, L5n>(5); }
VF_HARNESS(bounded_dynamic_to_static) { to_static<u64, 3, Dy>(5); }
VF_HARNESS(bounded_dynamic_to_static_class) { to_static<num, 3, Dyn>(5); }
VF_HARNESS(static_to_limited) { from_static<u64, 4, L5>(); }
VF_HARNESS(static_to_limited_equal) { from_static<u64, 5, L5>(); }
VF_HARNESS(static_to_limited_class) { from_static<num, 4, L5n>(); }
VF_HARNESS(static_to_dynamic) { from_static<u64, 4, Dy>(); }
VF_HARNESS(static_to_dynamic_class) { from_static<num, 4, Dyn>(); }
