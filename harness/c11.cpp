// C11: value scaling
#include "ref.h"
#include <midi/types.h>
using namespace ref;

// bit-level statement of the min-center-max scheme of the MIDI 2.0 translation rules
static u64 up(u64 v, unsigned x, unsigned y)
{
    const unsigned s = y - x;
    u64            r = v << s;
    if (v <= (1ull << (x - 1))) return r;
    for (unsigned i = 0; i < s; ++i)
        if ((v >> (x - 2 - i % (x - 1))) & 1) r |= 1ull << (s - 1 - i);
    return r;
}

static void check_xy(u64 v, unsigned x, unsigned y)
{
    const string c = "v=" + show(v) + " x=" + show(x) + " y=" + show(y);
    op("upsample_x_to_ybit");
    const u64 g = midi::upsample_x_to_ybit(u32(v), u8(x), u8(y));
    VH_EQ("upsample-x-y", g, up(v, x, y), c);
    VH_EQ("down-again", g >> (y - x), v, c);
    if (v == 0) VH_EQ("min", g, u64(0), c);
    if (v == 1ull << (x - 1)) VH_EQ("center", g, 1ull << (y - 1), c);
    if (v == (1ull << x) - 1) VH_EQ("max", g, (1ull << y) - 1, c);
    if (v + 1 < (1ull << x)) VH_TRUE("strictly-increasing", midi::upsample_x_to_ybit(u32(v + 1), u8(x), u8(y)) > g, c);
    VH_COUNT("generic upscalings compared");
    nontrivial(v * 2048 + x * 32 + y);
}

void vh_main()
{
    section("7 bit values", 128, [](Rng&, u64 i) {
        const u8 v = u8(i);
        const string c = "v=" + show(v);
        VH_EQ("7-16", u64(midi::upsample_7_to_16bit(v)), up(v, 7, 16), c);
        VH_EQ("7-32", u64(midi::upsample_7_to_32bit(v)), up(v, 7, 32), c);
        VH_EQ("7-16-7", unsigned(midi::downsample_16_to_7bit(midi::upsample_7_to_16bit(v))), unsigned(v), c);
        VH_EQ("7-32-7", unsigned(midi::downsample_32_to_7bit(midi::upsample_7_to_32bit(v))), unsigned(v), c);
        VH_EQ("velocity7", u64(midi::velocity{ midi::uint7_t(v) }.value), up(v, 7, 16), c);
        VH_EQ("velocity7-back", unsigned(midi::velocity{ midi::uint7_t(v) }.as_uint7()), unsigned(v), c);
        VH_EQ("controller7", u64(midi::controller_value{ midi::uint7_t(v) }.value), up(v, 7, 32), c);
        VH_EQ("controller7-back", unsigned(midi::controller_value{ midi::uint7_t(v) }.as_uint7()), unsigned(v), c);
        VH_EQ("pitch-7-9-note", unsigned(midi::pitch_7_9{ midi::note_nr_t(v) }.value), unsigned(v) << 9, c);
        VH_EQ("pitch-7-9-note-back", unsigned(midi::pitch_7_9{ midi::note_nr_t(v) }.note_nr()), unsigned(v), c);
        VH_EQ("pitch-7-25-note", midi::pitch_7_25{ midi::note_nr_t(v) }.value, u32(v) << 25, c);
        VH_EQ("pitch-7-25-note-back", unsigned(midi::pitch_7_25{ midi::note_nr_t(v) }.note_nr()), unsigned(v), c);
        VH_EQ("sensitivity-note", midi::pitch_bend_sensitivity{ midi::note_nr_t(v) }.value, u32(v) << 25, c);
        VH_COUNT("7 bit values compared");
        nontrivial(i + 1);
        sample(c + " -> 16: " + show(midi::upsample_7_to_16bit(v)) + " 32: " + show(midi::upsample_7_to_32bit(v)));
    }, false);
    section("14 bit values", 16384, [](Rng&, u64 i) {
        const u16 v = u16(i);
        const string c = "v=" + show(v);
        VH_EQ("14-32", u64(midi::upsample_14_to_32bit(v)), up(v, 14, 32), c);
        VH_EQ("14-32-14", unsigned(midi::downsample_32_to_14bit(midi::upsample_14_to_32bit(v))), unsigned(v), c);
        VH_EQ("bend14", u64(midi::pitch_bend{ midi::uint14_t(v) }.value), up(v, 14, 32), c);
        VH_EQ("bend14-back", unsigned(midi::pitch_bend{ midi::uint14_t(v) }.as_uint14()), unsigned(v), c);
        VH_EQ("controller14", u64(midi::controller_value{ midi::uint14_t(v) }.value), up(v, 14, 32), c);
        VH_EQ("controller14-back", unsigned(midi::controller_value{ midi::uint14_t(v) }.as_uint14()), unsigned(v), c);
        VH_COUNT("14 bit values compared");
        nontrivial(0x10000 + i);
    }, false);
    section("16 bit values", 65536, [](Rng&, u64 i) {
        const u16 v = u16(i);
        const string c = "v=" + show(v);
        VH_EQ("16-7", unsigned(midi::downsample_16_to_7bit(v)), unsigned(v) >> 9, c);
        VH_EQ("velocity16", midi::velocity{ std::uint16_t(v) }.value, v, c);
        VH_EQ("velocity16-7", unsigned(midi::velocity{ std::uint16_t(v) }.as_uint7()), unsigned(v) >> 9, c);
        const midi::pitch_7_9 p{ std::uint16_t(v) };
        VH_EQ("pitch-7-9", p.value, v, c);
        VH_EQ("pitch-7-9-note-nr", unsigned(p.note_nr()), unsigned(v) >> 9, c);
        VH_EQ("pitch-9-25", midi::pitch_7_25{ p }.value, u32(v) << 16, c);
        midi::pitch_7_25 q{ u32(~u32(v)) };
        q = p;
        VH_EQ("pitch-9-25-assign", q.value, u32(v) << 16, c);
        VH_COUNT("16 bit values compared");
        nontrivial(0x1000000 + i);
    }, false);
    section("32 bit values", 200000, [](Rng& r, u64 i) {
        const u32 v = i % 3 == 0 ? r.iw() : i % 3 == 1 ? r.w() : u32(r.below(16384) << 18) + u32(r.below(5)) - 2;
        const string c = "v=" + show(v);
        VH_EQ("32-7", unsigned(midi::downsample_32_to_7bit(v)), unsigned(v >> 25), c);
        VH_EQ("32-14", unsigned(midi::downsample_32_to_14bit(v)), unsigned(v >> 18), c);
        VH_EQ("controller32", midi::controller_value{ v }.value, v, c);
        VH_EQ("controller32-7", unsigned(midi::controller_value{ v }.as_uint7()), unsigned(v >> 25), c);
        VH_EQ("controller32-14", unsigned(midi::controller_value{ v }.as_uint14()), unsigned(v >> 18), c);
        VH_EQ("bend32", midi::pitch_bend{ v }.value, v, c);
        VH_EQ("bend32-14", unsigned(midi::pitch_bend{ v }.as_uint14()), unsigned(v >> 18), c);
        VH_EQ("pitch32", midi::pitch_7_25{ v }.value, v, c);
        VH_EQ("pitch32-note", unsigned(midi::pitch_7_25{ v }.note_nr()), unsigned(v >> 25), c);
        VH_EQ("pitch32-controller", midi::pitch_7_25{ midi::controller_value{ v } }.value, v, c);
        VH_EQ("controller32-pitch", midi::controller_value{ midi::pitch_7_25{ v } }.value, v, c);
        const u32 o = r.chance(1, 2) ? v : r.iw();
        VH_EQ("eq", midi::controller_value{ v } == midi::controller_value{ o }, v == o, c);
        VH_EQ("ne", midi::controller_value{ v } != midi::controller_value{ o }, v != o, c);
        VH_EQ("eq", midi::pitch_bend{ v } == midi::pitch_bend{ o }, v == o, c);
        VH_EQ("ne", midi::pitch_bend{ v } != midi::pitch_bend{ o }, v != o, c);
        VH_EQ("eq", midi::pitch_7_25{ v } == midi::pitch_7_25{ o }, v == o, c);
        VH_EQ("ne", midi::pitch_7_25{ v } != midi::pitch_7_25{ o }, v != o, c);
        VH_EQ("eq", midi::pitch_increment{ i32(v) } == midi::pitch_increment{ i32(o) }, v == o, c);
        VH_EQ("ne", midi::pitch_increment{ i32(v) } != midi::pitch_increment{ i32(o) }, v != o, c);
        VH_EQ("eq", midi::controller_increment{ i32(v) } == midi::controller_increment{ i32(o) }, v == o, c);
        VH_EQ("ne", midi::controller_increment{ i32(v) } != midi::controller_increment{ i32(o) }, v != o, c);
        VH_EQ("eq", midi::velocity{ u16(v) } == midi::velocity{ u16(o) }, u16(v) == u16(o), c);
        VH_EQ("ne", midi::velocity{ u16(v) } != midi::velocity{ u16(o) }, u16(v) != u16(o), c);
        VH_EQ("eq", midi::pitch_7_9{ u16(v) } == midi::pitch_7_9{ u16(o) }, u16(v) == u16(o), c);
        VH_EQ("ne", midi::pitch_7_9{ u16(v) } != midi::pitch_7_9{ u16(o) }, u16(v) != u16(o), c);
        VH_COUNT("32 bit values compared");
        nontrivial((u64(1) << 40) + v);
    });
    section("defaults", 1, [](Rng&, u64) {
        VH_EQ("default", midi::velocity{}.value, u16(0x8000));
        VH_EQ("default", midi::pitch_bend{}.value, u32(0x80000000));
        VH_EQ("default", midi::pitch_bend_sensitivity{}.value, u32(2) << 25);
        VH_EQ("default", midi::controller_value{}.value, u32(0));
        midi::pitch_bend b{ u32(5) };
        b.reset();
        VH_EQ("reset", b.value, u32(0x80000000));
    }, false);
    // all resolutions: exhaustive below 12 bits
    section("all resolutions", 31 * 32, [](Rng& r, u64 i) {
        const unsigned x = 2 + unsigned(i / 32), y = 1 + unsigned(i % 32);
        if (x >= y || x > 31) return;
        if (x <= 12)
            for (u64 v = 0; v < (1ull << x); ++v) { tick(); check_xy(v, x, y); }
        else
        {
            const u64 n = 1ull << x;
            for (u64 v : { u64(0), u64(1), n / 2 - 1, n / 2, n / 2 + 1, n - 2, n - 1 }) check_xy(v, x, y);
            for (int k = 0; k < 400; ++k) check_xy(r.next() & (n - 1), x, y);
            for (int k = 0; k < 200; ++k) check_xy(n / 2 + (r.next() & (n / 2 - 1)), x, y);
        }
        VH_COUNT("resolution pairs");
    }, false);
    section("random resolutions", 100000, [](Rng& r, u64) {
        const unsigned x = unsigned(r.range(2, 31)), y = unsigned(r.range(x + 1, 32));
        check_xy(r.iw() & ((1ull << x) - 1), x, y);
    });
}
