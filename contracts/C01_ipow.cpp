// C01: ipow for integral base and exponent types. Three lemmas cover all inputs: every exponent below 64 with any base
// (the representable bases of an exponent form an interval, whose bounds are computed here exactly), every exponent of
// at least 64 with |base| >= 2 (never representable), and every exponent with base -1, 0 or 1 (by induction over the loop).
#include "vf.hpp"
#include <dice/template-library/ipow.hpp>
#include <array>
#include <limits>
namespace dtl = dice::template_library;
namespace {
    using u64 = std::uint64_t; using u128 = unsigned __int128;
    using i8 = std::int8_t; using i16 = std::int16_t; using i32 = std::int32_t; using i64 = std::int64_t;
    using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t;
    // the largest m with m^e <= limit
    constexpr u64 root(u64 limit, unsigned e) {
        auto fits = [&](u64 m) { u128 p = 1; for (unsigned i = 0; i < e; ++i) { p *= m; if (p > limit) return false; } return true; };
        u64 lo = 1, hi = limit;
        while (lo < hi) { u64 const mid = lo + (hi - lo) / 2 + 1; if (fits(mid)) lo = mid; else hi = mid - 1; }
        return lo;
    }
    // bases whose powers overflow at the same exponent: m^e <= limit < (m+1)^... for all e at once
    struct bounds { std::array<u64, 66> lo{}, hi{}; unsigned n = 0; };
    template<u64 Limit> struct classes {
        static constexpr auto make = [] {
            bounds t{};
            u64 from = 2;
            for (unsigned e = 64; e >= 1 && from <= Limit; --e) { u64 const r = root(Limit, e); if (r >= from) { t.lo[t.n] = from; t.hi[t.n] = r; ++t.n; from = r + 1; if (from == 0) break; } }
            return t;
        };
        static constexpr auto table = make();
    };
    template<u64 Limit> struct roots { static constexpr auto table = [] { std::array<u64, 64> t{}; for (unsigned e = 1; e < 64; ++e) t[e] = root(Limit, e); return t; }(); };
    enum outcome { value, over, under };
    template<typename B, typename E> struct pw {
        static constexpr bool bs = std::is_signed_v<B>, es = std::is_signed_v<E>;
        static constexpr u64 maxv = (u64) std::numeric_limits<B>::max();
        outcome how; B r;
        void call(B b, E e) {
            how = value; r = 0;
            vf_static(std::is_same_v<decltype(dtl::ipow(b, e)), B>);
            try { r = dtl::ipow(b, e); } catch (std::overflow_error const &) { how = over; } catch (std::underflow_error const &) { how = under; }
        }
        void must(bool representable, bool negative, char const *m) {
            if (representable) vf_assert(how == value, "a representable power is returned");
            else if (negative) vf_assert(how == under, "a power below the minimum throws underflow_error");
            else vf_assert(how == over, "a power above the maximum throws overflow_error");
            (void) m;
        }
        // any base with |base| >= 2: its magnitude lies in one of the classes (a case distinction the prover checks)
        B any_base(bool neg) {
            auto const &t = neg ? classes<maxv + 1>::table : classes<maxv>::table;
            B const b = vf::any<B>("base");
            u64 const mag = neg ? 0 - (u64) (i64) b : (u64) b;
            vf_assume(neg == (bs && b < 0) && mag >= 2);
            unsigned const k = (unsigned) vf_choose("class", (int) t.n + 1);
            if (k == t.n) { vf_assert(mag <= t.hi[k - 1], "the classes cover every base"); vf_assume(false); }
            vf_assume(mag >= t.lo[k] && mag <= t.hi[k]);
            if (neg) vf_range((u64) (i64) b, 0 - t.hi[k], 0 - t.lo[k], true); else vf_range((u64) b, t.lo[k], t.hi[k], bs);
            return b;
        }
        void small() {
            unsigned const lo = 0; unsigned hi = 64;
            unsigned const top = (u64) std::numeric_limits<E>::max() < 64 ? (unsigned) std::numeric_limits<E>::max() + 1 : 64;
            if (hi > top) hi = top;
            unsigned const e = lo + (unsigned) vf_choose("e", (int) (hi - lo));
            bool const neg = bs && vf_any_bool("negative"), odd = e & 1;
            B const b = any_base(neg);
            u64 const mag = neg ? 0 - (u64) (i64) b : (u64) b;
            bool const rep = e == 0 || (neg && odd ? mag <= roots<maxv + 1>::table[e] : mag <= roots<maxv>::table[e]);
            call(b, (E) e);
            must(rep, neg && odd, "");
            if (how == value) {
                std::make_unsigned_t<B> p = 1;
                for (unsigned i = 0; i < e; ++i) p = (std::make_unsigned_t<B>) ((u64) p * (u64) (std::make_unsigned_t<B>) b);
                vf_assert((std::make_unsigned_t<B>) r == p, "the exact power is returned");
            }
            vf_cover(how == value ? "value" : "error");
        }
        void large() {
            if ((u64) std::numeric_limits<E>::max() < 64) return;
            E const e = vf::any<E>("e"); vf_assume(e >= (E) 64);
            bool const neg = bs && vf_any_bool("negative");
            B const b = any_base(neg);
            call(b, e);
            must(false, neg && (e & 1), "");
        }
        void unit() {
            E const e = vf::any<E>("e"); vf_assume(e >= 0);
            B const b = bs ? (B) ((int) vf_any_range("unit", 0, 2) - 1) : (B) vf_any_range("unit", 0, 1);
            int const k = b == 0 ? 0 : b == 1 ? 1 : 2;
            bool const odd = vf_decide(e & 1), none = vf_decide(e == 0);
            B const want = none ? (B) 1 : vf_decide(k == 0) ? (B) 0 : vf_decide(k == 1) ? (B) 1 : odd ? b : (B) 1;
            vf_value(0); vf_value(1); vf_value((u64) (i64) want);
            vf_flag_set("after first", 1);
            vf::inductive();
            call(b, e);
            vf::inductive(false);
            must(true, false, "");
            vf_assert(r == want, "the exact power is returned");
        }
        void negative() {
            if constexpr (es) {
                E const e = vf::any<E>("e"); vf_assume(e < 0);
                B const b = vf::any<B>("base");
                call(b, e);
                B want = 0;
                if (b == 1) want = 1;
                else if (bs && b == (B) -1) want = e % 2 == 0 ? (B) 1 : b;
                vf_assert(how == value && r == want, "a negative exponent yields the result truncated towards zero");
            }
        }
    };
}
#define TYPES(B, E) \
    VF_HARNESS(B##_##E##_small) { pw<B, E>{}.small(); } \
    VF_HARNESS(B##_##E##_large) { pw<B, E>{}.large(); } \
    VF_HARNESS(B##_##E##_unit) { pw<B, E>{}.unit(); } \
    VF_HARNESS(B##_##E##_negative) { pw<B, E>{}.negative(); }
TYPES(i8, i8) TYPES(i8, u64) TYPES(u8, u8) TYPES(u8, i32) TYPES(i16, i64) TYPES(u16, u16) TYPES(u16, i16)
TYPES(char, int) TYPES(i32, i32) TYPES(u32, u32) TYPES(i32, u8) TYPES(i64, i64) TYPES(u64, u64) TYPES(i64, u32) TYPES(u64, i32)
