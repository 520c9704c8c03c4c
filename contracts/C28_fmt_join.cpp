// C28: fmt_join. The formatter of a join is verified over ranges and separators of unbounded length, with a ghost element
// formatter and a ghost output iterator that accept exactly the documented text as it is written; std::format itself is
// verified along for short ranges (libstdc++ source).
//@ assume: format contexts write to a sink (as those of std::format do): an output iterator obtained from out() writes at the current end
//@ bounded: bounded_.*: ranges of at most 3 (thorough: 5) elements, element texts of at most 2 and separators of at most 2 characters, through std::format
#include "ghost_seq.hpp"
#include <array>
#include <cstring>
#include <format>
#include <initializer_list>
#include <string>
#include <string_view>
#include <dice/template-library/fmt_join.hpp>
namespace dtl = dice::template_library;
namespace {
    using u64 = std::uint64_t;
    // what is expected next: element idx, or the separator's character off
    u64 idx, off, sep_len, sep_char, spec; bool parsed;
    bool want_sep() { return 0 < idx && idx < gs::n<0> && off < sep_len; }
    void element(u64 i) {
        vf_assert(!want_sep(), "neighbours are separated by exactly one separator");
        vf_assert(i == idx && i < gs::n<0>, "every element is written once, in order");
        ++idx; off = 0;
    }
    void separator(bool right) {
        vf_assert(want_sep(), "separators are written between elements only, once");
        vf_assert(right, "the separator itself is written");
        ++off;
    }
    struct sink {
        using difference_type = std::ptrdiff_t;
        sink &operator*() { return *this; }
        sink &operator++() { return *this; }
        sink operator++(int) { return *this; }
        sink &operator=(char c) { separator(sep_len == 1 && (unsigned char) c == sep_char); return *this; }
        sink &operator=(gs::item_t const &x) { separator(x.i == off && x.v == gs::value<1>(x.i) && x.tag == 1); return *this; }
    };
    struct context { sink o; sink out() { return o; } void advance_to(sink) {} };
    struct parse_context { u64 spec; };
}
template<> struct std::formatter<gs::item_t, char> {
    u64 s = 0;
    u64 parse(parse_context &c) { s = c.spec; parsed = true; return c.spec + 1; }
    template<typename C> auto format(gs::item_t const &x, C &ctx) const {
        x.check();
        vf_assert(s == spec, "elements are formatted with the format given");
        element(x.i);
        return ctx.out();
    }
};
namespace {
    void reset() {
        vf::reset(); gs::seq_reset();
        gs::n<0> = vf::len("len"); gs::n<1> = 1;
        idx = off = 0; parsed = false; sep_len = 1; sep_char = vf_any_u8("sep"); spec = 0;
        vf_index(gs::n<0>);
        vf::inductive();
    }
    template<typename J> void check(J const &j) {
        std::formatter<J, char> f;
        if (vf_any_bool("parsed")) {
            parse_context p{vf_any_u64("spec")};
            spec = p.spec;
            vf_assert(f.parse(p) == spec + 1, "where the element's format ends is where the join's ends");
            vf_assert(parsed, "the format is the elements'");
        }
        context c;
        std::as_const(f).format(j, c);
        vf::inductive(false);
        vf_assert(idx == gs::n<0>, "every element is written once, in order");
        vf_assert(!want_sep(), "nothing is left to write");
        vf_cover(gs::n<0> == 0 ? "empty" : "some");
    }
    // a range that can be iterated over only when it is not const
    template<gs::cat C> struct mutable_seq : std::ranges::view_base {
        gs::seq<0, C> s;
        auto begin() { return s.begin(); }
        auto end() { return s.end(); }
    };
    template<typename J> void check_mutable(J &j) {
        std::formatter<std::remove_cvref_t<J>, char> f;
        context c;
        std::as_const(f).format(j, c);
        vf::inductive(false);
        vf_assert(idx == gs::n<0>, "every element is written once, in order");
        vf_assert(!want_sep(), "nothing is left to write");
        vf_cover(gs::n<0> == 0 ? "empty" : "some");
    }
    template<gs::cat C> void by_mutable() {
        reset();
        char const s = (char) sep_char;
        if (vf_any_bool("lvalue")) { mutable_seq<C> r; auto j = dtl::fmt_join(r, s); check_mutable(j); }
        else { auto j = dtl::fmt_join(mutable_seq<C>{}, s); check_mutable(j); }
    }
    template<gs::cat C> void by_char() {
        reset();
        char const s = (char) sep_char;
        if (vf_any_bool("lvalue")) check(dtl::fmt_join(gs::seq<0, C>{}, s));
        else { gs::seq<0, C> r; check(dtl::fmt_join(r, (char) s)); }
    }
    template<gs::cat C, gs::cat D> void by_range() {
        reset();
        sep_len = gs::n<1> = vf::len("separator");
        vf_index(gs::n<1>);
        gs::seq<1, D> s;
        if (vf_any_bool("lvalue")) check(dtl::fmt_join(gs::seq<0, C>{}, s));
        else { gs::seq<0, C> r; check(dtl::fmt_join(r, gs::seq<1, D>{})); }
    }
}
VF_HARNESS(char_forward) { by_char<gs::forward>(); }
VF_HARNESS(char_random) { by_char<gs::random>(); }
VF_HARNESS(char_input) { by_char<gs::input_copy>(); }
VF_HARNESS(char_single_pass) { by_char<gs::single_pass>(); }
VF_HARNESS(mutable_forward) { by_mutable<gs::forward>(); }
VF_HARNESS(mutable_single_pass) { by_mutable<gs::single_pass>(); }
VF_HARNESS(range_forward_forward) { by_range<gs::forward, gs::forward>(); }
VF_HARNESS(range_random_random) { by_range<gs::random, gs::random>(); }
VF_HARNESS(range_input_random) { by_range<gs::input_copy, gs::random>(); }
VF_HARNESS(range_single_pass_forward) { by_range<gs::single_pass, gs::forward>(); }

// ------------------------------------------------------------ through std::format
struct text { char c[2]; int n; };
template<> struct std::formatter<text, char> {
    bool upper = false;
    constexpr auto parse(std::format_parse_context &c) { auto i = c.begin(); if (i != c.end() && *i == 'x') { upper = true; ++i; } return i; }
    template<typename C> auto format(text const &t, C &ctx) const { auto o = ctx.out(); if (upper) *o++ = '!'; for (int i = 0; i < t.n; ++i) *o++ = t.c[i]; return o; }
};
#ifndef VF_NATIVE
extern "C" __attribute__((used)) std::size_t vfs_strlen(char const *p) { std::size_t n = 0; while (p[n]) ++n; return n; }
extern "C" __attribute__((used)) void *vfs_memchr(void const *p, int c, std::size_t n) { auto const *q = static_cast<unsigned char const *>(p); for (std::size_t i = 0; i < n; ++i) if (q[i] == (unsigned char) c) return const_cast<unsigned char *>(q + i); return nullptr; }
#endif
namespace {
#ifdef VF_THOROUGH
    constexpr int max_n = 5;
#else
    constexpr int max_n = 3;
#endif
    text ts[max_n]; int tn; char sep[3]; int sn; char want[64]; int wn;
    void prepare(bool spec_given, int sep_max) {
        vf::reset();
        tn = vf_choose("n", max_n + 1); sn = sep_max == 1 ? 1 : vf_choose("separator length", sep_max + 1);
        for (int i = 0; i < sn; ++i) { sep[i] = (char) vf_any_u8("s"); }
        sep[sn] = 0;
        wn = 0;
        for (int i = 0; i < tn; ++i) {
            ts[i].n = vf_choose("length", 3);
            if (i) for (int k = 0; k < sn; ++k) want[wn++] = sep[k];
            if (spec_given) want[wn++] = '!';
            for (int k = 0; k < ts[i].n; ++k) want[wn++] = ts[i].c[k] = (char) vf_any_u8("c");
        }
    }
    struct view : std::ranges::view_base { text *begin() const { return ts; } text *end() const { return ts + tn; } };
    void same(std::string const &s) {
        vf_assert((int) s.size() == wn, "the text is the elements' with separators in between");
        bool eq = true;
        for (int i = 0; i < wn; ++i) eq = eq && s[i] == want[i];
        vf_assert(eq, "the text is the elements' with separators in between");
    }
}
VF_HARNESS(bounded_format_char) { bool const x = vf_any_bool("spec"); prepare(x, 1); same(x ? std::format("{:x}", dtl::fmt_join(view{}, sep[0])) : std::format("{}", dtl::fmt_join(view{}, sep[0]))); }
VF_HARNESS(bounded_format_cstring) { bool const x = vf_any_bool("spec"); prepare(x, 2); for (int i = 0; i < sn; ++i) vf_assume(sep[i] != 0); char const *p = sep; same(x ? std::format("{:x}", dtl::fmt_join(view{}, p)) : std::format("{}", dtl::fmt_join(view{}, p))); }
VF_HARNESS(bounded_format_view) { bool const x = vf_any_bool("spec"); prepare(x, 2); std::string_view const v{sep, (std::size_t) sn}; same(x ? std::format("{:x}", dtl::fmt_join(view{}, v)) : std::format("{}", dtl::fmt_join(view{}, v))); }
VF_HARNESS(bounded_format_string) { prepare(false, 2); std::string v{sep, (std::size_t) sn}; same(vf_any_bool("lvalue") ? std::format("{}", dtl::fmt_join(view{}, v)) : std::format("{}", dtl::fmt_join(view{}, std::move(v)))); }
VF_HARNESS(bounded_format_list) {
    prepare(false, 1);
    vf_assume(tn == 3 || tn == 2);
    if (tn == 3) same(std::format("{}", dtl::fmt_join({ts[0], ts[1], ts[2]}, sep[0])));
    else same(std::format("{}", dtl::fmt_join({ts[0], ts[1]}, sep[0])));
}
VF_HARNESS(bounded_format_list_kept) {                        // the list's array is gone when the join is formatted
    prepare(false, 1);
    text arr[max_n];
    for (int i = 0; i < tn; ++i) arr[i] = ts[i];
    struct { text const *p; std::size_t n; } raw{arr, (std::size_t) tn};
    std::initializer_list<text> list;
    static_assert(sizeof raw == sizeof list && std::is_trivially_copyable_v<std::initializer_list<text>>);
    std::memcpy(static_cast<void *>(&list), &raw, sizeof raw);
    vf_assert(list.size() == (std::size_t) tn && list.begin() == arr, "a list over the array");
    auto const j = dtl::fmt_join(list, sep[0]);
    for (int i = 0; i < tn; ++i) { arr[i].c[0] = arr[i].c[1] = '#'; arr[i].n = 2; }
    same(std::format("{}", j));
}
VF_HARNESS(bounded_format_filtered) {                         // iterated over only when not const
    prepare(false, 1);
    int const drop = vf_choose("drop", 3);
    vf_assume(drop < tn);
    wn = 0;
    for (int i = 0, k = 0; i < tn; ++i) {
        if (i == drop) continue;
        if (k++) want[wn++] = sep[0];
        for (int c = 0; c < ts[i].n; ++c) want[wn++] = ts[i].c[c];
    }
    auto kept = view{} | std::views::filter([drop](text const &t) { return &t != ts + drop; });
    same(vf_any_bool("lvalue") ? std::format("{}", dtl::fmt_join(kept, sep[0])) : std::format("{}", dtl::fmt_join(std::move(kept), sep[0])));
}
VF_HARNESS(bounded_format_owned) {
    prepare(false, 1);
    vf_assume(tn >= 2);
    std::array<text, 2> a{ts[0], ts[1]};
    if (tn > 2) { wn -= 0; }
    int w = ts[0].n + ts[1].n + 1;
    wn = w;
    auto const j = dtl::fmt_join(std::array<text, 2>{ts[0], ts[1]}, sep[0]);   // a temporary range is kept by the join
    same(std::format("{}", j));
    same(std::format("{}", dtl::fmt_join(a, sep[0])));
}
