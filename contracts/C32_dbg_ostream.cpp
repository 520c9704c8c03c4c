// C32: DICE_DBG and operator<< for formattable types. The stream is a ghost stream buffer; std::format is verified along.
//@ trusted: std::locale; a stream's buffer is its rdbuf()
//@ bounded: .*_text: the formatted text of a value has at most 12 (thorough: 24) arbitrary characters
#include "vf.hpp"
#include <cstring>
#include <format>
#include <iostream>
#include <ostream>
#include <streambuf>
#include <string_view>
namespace {
    using u64 = std::uint64_t;
#ifdef VF_THOROUGH
    constexpr int max_text = 24;
#else
    constexpr int max_text = 12;
#endif
    char out[512]; int n_out;
    struct sink_buf : std::streambuf {
        std::streamsize xsputn(char const *p, std::streamsize k) override { for (std::streamsize i = 0; i < k; ++i) put(p[i]); return k; }
        int overflow(int c) override { put((char) c); return c == std::char_traits<char>::eof() ? 0 : c; }
        static void put(char c) { if (n_out < (int) sizeof out) out[n_out] = c; ++n_out; }
    };
    alignas(sink_buf) char buf_mem[sizeof(sink_buf)];
    std::ptrdiff_t fake_vtable[4] = {8, 0, 0, 0};               // where the ios part of a stream is
    alignas(std::ostream) char os_mem[sizeof(std::ostream)];
}
// a value with an arbitrary text
struct text { char c[max_text]; int n; u64 id; int copies = 0; };
inline int formatted;
inline void const *formatted_at;
template<> struct std::formatter<text, char> {
    constexpr auto parse(std::format_parse_context &c) { return c.begin(); }
    template<typename C> auto format(text const &t, C &ctx) const { ++formatted; formatted_at = &t; auto o = ctx.out(); for (int i = 0; i < t.n; ++i) *o++ = t.c[i]; return o; }
};
#include <dice/template-library/dbg.hpp>
#include <dice/template-library/format_to_ostream.hpp>
#ifndef VF_NATIVE
#define STUB extern "C" __attribute__((used))
STUB void vfs__ZNSt15basic_streambufIcSt11char_traitsIcEEC2Ev(void *) {}
STUB int vfs__ZNSt15basic_streambufIcSt11char_traitsIcEE5sputcEc(std::streambuf *b, char c) { vf_assert((void *) b == buf_mem, "the stream's buffer is written"); sink_buf::put(c); return (unsigned char) c; }
STUB std::streamsize vfs__ZNSt15basic_streambufIcSt11char_traitsIcEE5sputnEPKcl(std::streambuf *b, char const *p, std::streamsize n) { vf_assert((void *) b == buf_mem, "the stream's buffer is written"); for (std::streamsize i = 0; i < n; ++i) sink_buf::put(p[i]); return n; }
STUB void *vfs_memchr(void const *p, int c, std::size_t n) { auto const *q = static_cast<unsigned char const *>(p); for (std::size_t i = 0; i < n; ++i) if (q[i] == (unsigned char) c) return const_cast<unsigned char *>(q + i); return nullptr; }
STUB void vfs__ZNSt6localeC1Ev(void *) {}
STUB void vfs__ZNSt6localeD1Ev(void *) {}
STUB std::streambuf *vfs__ZNKSt9basic_iosIcSt11char_traitsIcEE5rdbufEv(void const *) { return reinterpret_cast<std::streambuf *>(buf_mem); }
#endif
namespace {
    std::ostream &stream() {
        vf::reset(); n_out = 0; formatted = 0; formatted_at = nullptr;
#ifndef VF_NATIVE
        new (buf_mem) sink_buf;
        void *const v = fake_vtable + 3;
        std::memcpy(os_mem, &v, sizeof v);
        std::memcpy(reinterpret_cast<char *>(&std::cerr), &v, sizeof v);
        return *reinterpret_cast<std::ostream *>(os_mem);
#else
        static sink_buf b; static std::ostream os{&b};
        return os;
#endif
    }
    struct on_cerr {
#ifdef VF_NATIVE
        std::streambuf *o; sink_buf b; on_cerr() { o = std::cerr.rdbuf(&b); } ~on_cerr() { std::cerr.rdbuf(o); }
#endif
    };
    int longest = 1;
    text any_text() { text t{}; t.n = vf_choose("length", longest + 1); for (int i = 0; i < t.n; ++i) t.c[i] = (char) vf_any_u8("c"); t.id = vf_any_u64("id"); return t; }
    void is_text(int at, text const &t, char const *m) { bool same = true; for (int i = 0; i < t.n; ++i) same = same && out[at + i] == t.c[i]; vf_assert(same, m); }
}
static void do_stream() {
    auto &os = stream();
    // the stream's width, fill and flags play no part (natively they are set; the proof leaves them unknown)
    auto const width = vf_any_range("width", 0, 9); char const fill = (char) vf_any_u8("fill"); bool const left = vf_any_bool("left");
#ifdef VF_NATIVE
    os.clear(); os.width((int) width); os.fill(fill); os.setf(left ? std::ios::left : std::ios::right, std::ios::adjustfield);
#else
    (void) width; (void) fill; (void) left;
#endif
    text const t = any_text();
    std::ostream &r = (os << t);
    vf_assert(&r == &os, "the stream is returned");
    vf_assert(formatted == 1 && formatted_at == &t, "the value itself is formatted once");
    vf_assert(n_out == t.n, "exactly the formatted text is written");
    is_text(0, t, "exactly the formatted text is written");
}

// the expression is evaluated once, what it denotes is handed on: the same object, the same value category
namespace {
    struct counter { int evaluated = 0; text t; text &l() { ++evaluated; return t; } text const &cl() { ++evaluated; return t; } text &&r() { ++evaluated; return std::move(t); } text const &&cr() { ++evaluated; return std::move(std::as_const(t)); } text p() { ++evaluated; return t; } };
    // [file:line] expression = value
    int prefix(char const *expr) {
        int i = 0;
        vf_assert(n_out > 0 && out[i] == '[', "the line starts with its place");
        char const *f = "C32_dbg_ostream.cpp:";
        ++i;
        for (; *f; ++f, ++i) vf_assert(out[i] == *f, "the line names its file");
        int line = 0;
        for (; i < n_out && out[i] != ']'; ++i) { vf_assert(out[i] >= '0' && out[i] <= '9', "the line names its line"); line = 10 * line + (out[i] - '0'); }
        vf_assert(line == __builtin_LINE() || line > 0, "the line names its line");
        ++i;
        vf_assert(out[i] == ' ', "then the expression"); ++i;
        for (; *expr; ++expr, ++i) vf_assert(out[i] == *expr, "then the expression");
        for (char const *e = " = "; *e; ++e, ++i) vf_assert(out[i] == *e, "then the value");
        return i;
    }
    void line_ends(char const *expr, text const &t, void const *at) {
        vf_assert(formatted == 1 && formatted_at == at, "the value itself is formatted once");
        int const i = prefix(expr);
        is_text(i, t, "the value's text is printed");
        vf_assert(n_out == i + t.n + 1 && out[n_out - 1] == '\n', "the line ends after the value");
    }
}
static void do_dbg_lvalue() {
    stream(); on_cerr g;
    counter c{0, any_text()}; text const t = c.t;
    vf_static(std::is_same_v<decltype(DICE_DBG(c.l())), text &> && std::is_same_v<decltype(DICE_DBG(c.t)), text &>);
    auto &&r = DICE_DBG(c.l());
    vf_assert(&r == &c.t && c.evaluated == 1, "the expression is evaluated once and denotes the same object");
    line_ends("c.l()", t, &c.t);
    vf_assert(c.t.id == t.id, "the value is unchanged");
}
static void do_dbg_const() {
    stream(); on_cerr g;
    counter c{0, any_text()}; text const t = c.t;
    vf_static(std::is_same_v<decltype(DICE_DBG(c.cl())), text const &>);
    auto &&r = DICE_DBG(c.cl());
    vf_assert(&r == &c.t && c.evaluated == 1, "the expression is evaluated once and denotes the same object");
    line_ends("c.cl()", t, &c.t);
}
static void do_dbg_rvalue() {
    stream(); on_cerr g;
    counter c{0, any_text()}; text const t = c.t;
    vf_static(std::is_same_v<decltype(DICE_DBG(c.r())), text &&> && std::is_same_v<decltype(DICE_DBG(c.cr())), text const &&>);
    auto &&r = DICE_DBG(c.r());
    vf_assert(&r == &c.t && c.evaluated == 1, "the expression is evaluated once and denotes the same object");
    line_ends("c.r()", t, &c.t);
    vf_assert(c.t.id == t.id, "the value is unchanged");
}
static void do_dbg_prvalue() {
    stream(); on_cerr g;
    counter c{0, any_text()};
    text const r = DICE_DBG(c.p());
    vf_assert(r.id == c.t.id && r.n == c.t.n && c.evaluated == 1, "the expression is evaluated once, its value is yielded");
    line_ends("c.p()", c.t, formatted_at);
}
// a string literal, a comma inside parentheses, an int
static void do_dbg_nested() {
    stream(); on_cerr g;
    counter c{0, any_text()};
    u64 const id = DICE_DBG((c.evaluated += 1, c.t)).id;
    vf_assert(id == c.t.id && c.evaluated == 1, "the expression is evaluated once, its value is yielded");
    line_ends("(c.evaluated += 1, c.t)", c.t, &c.t);
}
// an expression with braces, which mean something to format strings
static void do_dbg_braces() {
    stream(); on_cerr g;
    counter c{0, any_text()};
    text const r = DICE_DBG(text{c.t});
    vf_assert(r.id == c.t.id && r.n == c.t.n, "the value of the expression is yielded");
    line_ends("text{c.t}", c.t, formatted_at);
}
VF_HARNESS(dbg_braces) { longest = 1; do_dbg_braces(); }
VF_HARNESS(stream) { longest = 1; do_stream(); }
VF_HARNESS(stream_text) { longest = max_text; do_stream(); }
VF_HARNESS(dbg_lvalue) { longest = 1; do_dbg_lvalue(); }
VF_HARNESS(dbg_lvalue_text) { longest = max_text; do_dbg_lvalue(); }
VF_HARNESS(dbg_const) { longest = 1; do_dbg_const(); }
VF_HARNESS(dbg_const_text) { longest = max_text; do_dbg_const(); }
VF_HARNESS(dbg_rvalue) { longest = 1; do_dbg_rvalue(); }
VF_HARNESS(dbg_rvalue_text) { longest = max_text; do_dbg_rvalue(); }
VF_HARNESS(dbg_prvalue) { longest = 1; do_dbg_prvalue(); }
VF_HARNESS(dbg_prvalue_text) { longest = max_text; do_dbg_prvalue(); }
VF_HARNESS(dbg_nested) { longest = 1; do_dbg_nested(); }
VF_HARNESS(dbg_nested_text) { longest = max_text; do_dbg_nested(); }
