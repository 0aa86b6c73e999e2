// C12: float conversions and saturating arithmetic
#include "ref.h"
#include <cmath>
#include <limits>
#include <midi/types.h>
using namespace ref;
using LD = long double;

template<typename F> static F interesting(Rng& r, F lo, F hi)
{
    const F inf = std::numeric_limits<F>::infinity();
    switch (r.below(12))
    {
    case 0: return r.chance(1, 2) ? inf : -inf;
    case 1: return r.chance(1, 2) ? std::numeric_limits<F>::max() : std::numeric_limits<F>::lowest();
    case 2: return (r.chance(1, 2) ? F(1) : F(-1)) * std::numeric_limits<F>::min() * F(r.range(1, 4));
    case 3: return (r.chance(1, 2) ? F(1) : F(-1)) * std::numeric_limits<F>::denorm_min();
    case 4:
    {
        F v = r.pick<F>({ lo, hi, (lo + hi) / 2, F(0), F(-0.0), F(1), F(-1), F(64), F(-64), F(128) });
        for (auto n = r.below(4); n--;) v = std::nextafter(v, r.chance(1, 2) ? inf : -inf);
        return v;
    }
    case 5: return F(std::ldexp(r.chance(1, 2) ? 1.0 : -1.0, int(r.below(140)) - 70)) * F(1 + r.below(1000) / 1000.0);
    case 6: return lo + (hi - lo) * F(r.below(1u << 16)) / F(1u << 16);
    case 7: return lo + (hi - lo) * F(r.below(1u << 16)) / F((1u << 16) - 1);
    default: return lo + (hi - lo) * F(r.next() >> 11) / F(u64(1) << 53);
    }
}

// generic monitor: ideal(f) the unclamped ideal value in steps, tol: allowed deviation in steps
template<typename F, typename Make> static LD conv(const char* key, F f, LD lo, LD hi, LD ideal, LD tol, Make make)
{
    const string c = "f=" + show(f);
    op(key);
    const LD v  = LD(make(f));
    const LD ce = std::min(std::max(ideal, lo), hi);
    VH_TRUE(key, v >= lo && v <= hi && std::fabs(double(v - ce)) <= double(tol), c + " value " + show(v) + " ideal " + show(ideal));
    // clamps
    if (ideal <= lo) VH_TRUE("clamp-low", v == lo, c + " value " + show(v) + string(" ") + key);
    if (ideal >= hi) VH_TRUE("clamp-high", v == hi, c + " value " + show(v) + string(" ") + key);
    // monotone
    const F n = std::nextafter(f, std::numeric_limits<F>::infinity());
    if (std::isfinite(n)) VH_TRUE("monotone", LD(make(n)) >= v, c + string(" ") + key);
    VH_COUNT("conversions from float");
    return v;
}

// ideal position of a unipolar value: 0 -> 0, 0.5 -> center, 1 -> max
static LD uni(LD f, LD max) { return f <= 0.5L ? f * (max + 1) : (max + 1) / 2 + (f - 0.5L) * 2 * (max - (max + 1) / 2); }

template<typename F> static void check_unipolar(Rng& r)
{
    const F f = interesting<F>(r, F(0), F(1));
    conv("velocity-from-float", f, 0, 65535, uni(f, 65535), 1.0L, [](F x) { return midi::velocity{ x }.value; });
    conv("controller-from-float", f, 0, 4294967295.L, uni(f, 4294967295.L), 1.0L, [](F x) { return midi::controller_value{ x }.value; });
    nontrivial(hash_bytes(&f, sizeof f, 1));
}
template<typename F> static void check_bend(Rng& r)
{
    const F f = interesting<F>(r, F(-1), F(1));
    // the argument is mapped to 0..1 in its own precision
    const LD eps = sizeof(F) == 4 ? 260.L : 1.0L;
    const LD id  = f <= 0 ? (LD(f) + 1) * 2147483648.L : 2147483648.L + LD(f) * 2147483647.L;
    const string c = "f=" + show(f);
    op("pitch_bend from float");
    const LD v = midi::pitch_bend{ f }.value;
    const LD ce = std::min(std::max(id, 0.L), 4294967295.L);
    VH_TRUE("bend-from-float", std::fabs(double(v - ce)) <= double(eps), c + " value " + show(v) + " ideal " + show(id));
    if (f <= -1) VH_TRUE("bend-clamp-low", v == 0, c);
    if (f >= 1) VH_TRUE("bend-clamp-high", v == 4294967295.L, c);
    if (f == 0) VH_TRUE("bend-center", v == 2147483648.L, c);
    const F n = std::nextafter(f, std::numeric_limits<F>::infinity());
    if (std::isfinite(n)) VH_TRUE("bend-monotone", LD(midi::pitch_bend{ n }.value) >= v, c);
    VH_COUNT("conversions from float");
    nontrivial(hash_bytes(&f, sizeof f, 2));
}
template<typename F> static void check_pitch(Rng& r)
{
    const F f = interesting<F>(r, F(0), F(128));
    conv("pitch-7-9-from-float", f, 0, 65535, LD(f) * 512, 1.0L, [](F x) { return midi::pitch_7_9{ x }.value; });
    conv("pitch-7-25-from-float", f, 0, 4294967295.L, LD(f) * 33554432.L, 1.0L, [](F x) { return midi::pitch_7_25{ x }.value; });
    const F g = interesting<F>(r, F(-64), F(64));
    conv("pitch-increment-from-float", g, -2147483648.L, 2147483647.L, LD(g) * 33554432.L, 1.0L, [](F x) { return midi::pitch_increment{ x }.value; });
    nontrivial(hash_bytes(&f, sizeof f, 3));
}

static LD rt_tol(LD v, bool flt) { return flt ? std::max<LD>(1.0L, std::fabs(double(v)) * 1.3e-7 + 1) : 1.0L; }

void vh_main()
{
    section("from float", 60000, [](Rng& r, u64) { check_unipolar<float>(r); check_bend<float>(r); check_pitch<float>(r); });
    section("from double", 60000, [](Rng& r, u64) { check_unipolar<double>(r); check_bend<double>(r); check_pitch<double>(r); });

    section("16 bit to float", 65536, [](Rng&, u64 i) {
        const u16 v = u16(i);
        const string c = "v=" + show(v);
        const midi::velocity w{ std::uint16_t(v) };
        op("velocity to float");
        const double d = w.as_double();
        const float  f = w.as_float();
        VH_TRUE("velocity-range", d >= 0 && d <= 1 && f >= 0 && f <= 1, c);
        VH_TRUE("velocity-ideal", std::fabs(d - double(v <= 32768 ? v / 65536.L : v / 65535.L)) < 1e-5 && std::fabs(f - d) < 1e-6, c + show(d));
        VH_TRUE("velocity-back-double", std::abs(int(midi::velocity{ d }.value) - int(v)) <= 1, c + " " + show(d));
        VH_TRUE("velocity-back-float", std::abs(int(midi::velocity{ f }.value) - int(v)) <= 1, c + " " + show(f));
        if (v == 0) VH_TRUE("velocity-min", d == 0 && f == 0, c);
        if (v == 0x8000) VH_TRUE("velocity-center", d == 0.5 && f == 0.5f, c);
        if (v == 0xFFFF) VH_TRUE("velocity-max", d == 1.0 && f == 1.0f, c);
        if (v) VH_TRUE("velocity-monotone", midi::velocity{ std::uint16_t(v - 1) }.as_double() < d && midi::velocity{ std::uint16_t(v - 1) }.as_float() <= f, c);
        const midi::pitch_7_9 p{ std::uint16_t(v) };
        op("pitch_7_9 to float");
        VH_TRUE("pitch-7-9-value", p.as_double() == v / 512.0 && p.as_float() == float(v) / 512.f, c);
        VH_EQ("pitch-7-9-back", unsigned(midi::pitch_7_9{ p.as_double() }.value), unsigned(v), c);
        VH_EQ("pitch-7-9-back", unsigned(midi::pitch_7_9{ p.as_float() }.value), unsigned(v), c);
        VH_COUNT("conversions to float");
        nontrivial(0xABC00000000ull + v);
    }, false);

    section("32 bit to float", 200000, [](Rng& r, u64 i) {
        static const u32 edge[] = { 0, 1, 2, 0x7FFFFFFE, 0x7FFFFFFF, 0x80000000, 0x80000001, 0x80000002, 0xFFFFFFFD, 0xFFFFFFFE, 0xFFFFFFFF };
        const u32 v = i < 11 ? edge[i] : r.chance(1, 3) ? r.iw() : r.w();
        const string c = "v=" + show(v);
        {
            const midi::controller_value cv{ v };
            op("controller to float");
            const double d = cv.as_double();
            const float  f = cv.as_float();
            VH_TRUE("controller-range", d >= 0 && d <= 1 && f >= 0 && f <= 1, c);
            VH_TRUE("controller-ideal", std::fabs(d - double(v <= 0x80000000u ? v / 4294967296.L : v / 4294967295.L)) < 1e-9 && std::fabs(f - d) < 1e-7, c + show(d));
            VH_TRUE("controller-back-double", std::fabs(double(LD(midi::controller_value{ d }.value) - v)) <= 1, c + " " + show(d));
            VH_TRUE("controller-back-float", std::fabs(double(LD(midi::controller_value{ f }.value) - v)) <= double(rt_tol(v, true)), c + " " + show(f));
            if (v == 0) VH_TRUE("controller-min", d == 0 && f == 0, c);
            if (v == 0x80000000) VH_TRUE("controller-center", d == 0.5 && f == 0.5f, c);
            if (v == 0xFFFFFFFF) VH_TRUE("controller-max", d == 1.0 && f == 1.0f, c);
            if (v) VH_TRUE("controller-monotone", midi::controller_value{ v - 1 }.as_double() < d && midi::controller_value{ v - 1 }.as_float() <= f, c);
        }
        {
            const midi::pitch_bend pb{ v };
            op("pitch bend to float");
            const double d = pb.as_double();
            const float  f = pb.as_float();
            VH_TRUE("bend-range", d >= -1 && d <= 1 && f >= -1 && f <= 1, c);
            const LD id = v >= 0x80000000u ? (LD(v) - 2147483648.L) / 2147483647.L : (LD(v) - 2147483648.L) / 2147483648.L;
            VH_TRUE("bend-ideal", std::fabs(d - double(id)) < 1e-9 && std::fabs(f - d) < 1e-7, c + show(d));
            VH_TRUE("bend-back-double", std::fabs(double(LD(midi::pitch_bend{ d }.value) - v)) <= 1, c + " " + show(d));
            VH_TRUE("bend-back-float", std::fabs(double(LD(midi::pitch_bend{ f }.value) - v)) <= 700, c + " " + show(f));
            if (v == 0) VH_TRUE("bend-min", d == -1 && f == -1, c);
            if (v == 0x80000000) VH_TRUE("bend-center", d == 0 && f == 0, c);
            if (v == 0xFFFFFFFF) VH_TRUE("bend-max", d == 1 && f == 1, c);
            if (v) VH_TRUE("bend-to-monotone", midi::pitch_bend{ v - 1 }.as_double() < d && midi::pitch_bend{ v - 1 }.as_float() <= f, c);
        }
        {
            const midi::pitch_7_25 p{ v };
            op("pitch_7_25 to float");
            VH_TRUE("pitch-7-25-value", p.as_double() == v / 33554432.0 && std::fabs(p.as_float() - p.as_double()) <= 8e-6, c);
            VH_EQ("pitch-7-25-back", midi::pitch_7_25{ p.as_double() }.value, v, c);
            VH_TRUE("pitch-7-25-back-float", std::fabs(double(LD(midi::pitch_7_25{ p.as_float() }.value) - v)) <= double(rt_tol(v, true)), c);
        }
        VH_COUNT("conversions to float");
        nontrivial(0xABD00000000ull + v);
    });

    section("arithmetic", 300000, [](Rng& r, u64) {
        const u32 a = r.iw(), b = r.iw();
        const i32 ib = i32(b), ia = i32(a);
        const string c = "a=" + show(a) + " b=" + show(ib);
        const i64 sum  = i64(a) + ib;
        const u32 esum = sum < 0 ? 0 : sum > 0xFFFFFFFFll ? 0xFFFFFFFFu : u32(sum);
        op("pitch + increment");
        VH_EQ("pitch-plus-increment", (midi::pitch_7_25{ a } + midi::pitch_increment{ ib }).value, esum, c);
        midi::pitch_7_25 p{ a };
        p += midi::pitch_increment{ ib };
        VH_EQ("pitch-plus-assign", p.value, esum, c);
        op("controller + increment");
        VH_EQ("controller-plus-increment", (midi::controller_value{ a } + midi::controller_increment{ ib }).value, esum, c);
        midi::controller_value v{ a };
        v += midi::controller_increment{ ib };
        VH_EQ("controller-plus-assign", v.value, esum, c);
        op("increment + increment");
        const i64 is  = i64(ia) + ib;
        const i32 eis = is < INT32_MIN ? INT32_MIN : is > INT32_MAX ? INT32_MAX : i32(is);
        VH_EQ("increment-plus-increment", (midi::pitch_increment{ ia } + midi::pitch_increment{ ib }).value, eis, c);
        midi::pitch_increment pi{ ia };
        pi += midi::pitch_increment{ ib };
        VH_EQ("increment-plus-assign", pi.value, eis, c);
        op("bend * sensitivity");
        // exact product in whole steps, the fraction dropped (so opposite bends give opposite increments)
        const __int128 prod = (__int128(a) - (__int128(1) << 31)) * __int128(b);
        for (int k = 0; k < 2; ++k)
        {
            const i32 g = (k ? midi::pitch_bend_sensitivity{ b } * midi::pitch_bend{ a } : midi::pitch_bend{ a } * midi::pitch_bend_sensitivity{ b }).value;
            const __int128 whole = prod / (__int128(1) << 31);
            const i32      e     = whole > INT32_MAX ? INT32_MAX : whole < INT32_MIN ? INT32_MIN : i32(whole);
            VH_EQ("bend-times-sensitivity", g, e, c);
            if (a == 0x80000000) VH_EQ("center-bend", g, i32(0), c);
        }
        op("pitch + detune");
        const double det  = interesting<double>(r, -128, 128);
        LD           ed   = LD(a) + LD(det) * 33554432.L;
        ed                = std::min(std::max(ed, 0.L), 4294967295.L);
        const u32 gd      = (midi::pitch_7_25{ a } + det).value;
        VH_TRUE("pitch-plus-detune", std::fabs(double(LD(gd) - ed)) <= 1, c + " detune " + show(det) + " got " + show(gd));
        const float fdet = interesting<float>(r, -128, 128);
        LD          ef   = std::min(std::max(LD(a) + LD(fdet) * 33554432.L, 0.L), 4294967295.L);
        const u32   gf   = (midi::pitch_7_25{ a } + fdet).value;
        VH_TRUE("pitch-plus-detune-float", std::fabs(double(LD(gf) - ef)) <= 1, c + " detune " + show(fdet) + " got " + show(gf));
        VH_COUNT("arithmetic operations");
        if (sum < 0 || sum > 0xFFFFFFFFll) VH_COUNT("saturating operations");
        nontrivial((u64(a) << 32) | b);
        if (want_sample()) sample(c + " pitch+inc " + show(esum) + " detune " + show(det) + " -> " + show(gd));
    });
}
