// C13: MIDI 1 <-> MIDI 2 channel voice translation
#include "scale_ref.h"
#include <midi/channel_voice_message.h>
using namespace ref;

static bool reserved_cc(unsigned c)
{
    return c == 0 || c == 6 || c == 32 || c == 38 || c == 88 || (c >= 98 && c <= 101);
}
// expected MIDI 2 packet, false if refused
static bool to2(const Pk& p, Pk& o)
{
    const u8 st = p.byte(1), d1 = p.byte(2) & 0x7F, d2 = p.byte(3) & 0x7F;
    o        = Pk{};
    u32 head = 0x40000000u | (p.w[0] & 0x0F0F0000u);
    auto set = [&](u8 s, u8 b3, u32 data) { o.w[0] = head | u32(s) << 16 | u32(b3) << 8; o.w[1] = data; };
    switch (st >> 4)
    {
    case 0x8: set(0x80, d1, up_ref(d2, 7, 16) << 16); return true;
    case 0x9:
        if (d2 == 0) set(0x80, d1, 0x80000000u);
        else set(0x90, d1, up_ref(d2, 7, 16) << 16);
        return true;
    case 0xA: set(0xA0, d1, up_ref(d2, 7, 32)); return true;
    case 0xB:
        if (reserved_cc(d1)) return false;
        set(0xB0, d1, up_ref(d2, 7, 32));
        return true;
    case 0xC: set(0xC0, 0, u32(d1) << 24); return true;
    case 0xD: set(0xD0, 0, up_ref(d1, 7, 32)); return true;
    case 0xE: set(0xE0, 0, up_ref(u32(d1) | u32(d2) << 7, 14, 32)); return true;
    }
    return false;
}
static bool to1(const Pk& p, Pk& o)
{
    const u8 st = p.byte(1), b3 = p.byte(2) & 0x7F, b4 = p.byte(3);
    const u32 d = p.w[1];
    o        = Pk{};
    u32 head = 0x20000000u | (p.w[0] & 0x0F0F0000u);
    auto set = [&](u8 s, u32 d1, u32 d2) { o.w[0] = head | u32(s) << 16 | d1 << 8 | d2; };
    switch (st >> 4)
    {
    case 0x8: if (b4) return false; set(0x80, b3, d >> 25); return true;
    case 0x9: if (b4) return false; set(0x90, b3, std::max<u32>(1, d >> 25)); return true;
    case 0xA: set(0xA0, b3, d >> 25); return true;
    case 0xB: if (reserved_cc(b3)) return false; set(0xB0, b3, d >> 25); return true;
    case 0xC: if (b4 & 1) return false; set(0xC0, (d >> 24) & 0x7F, 0); return true;
    case 0xD: set(0xD0, d >> 25, 0); return true;
    case 0xE: set(0xE0, (d >> 18) & 0x7F, d >> 25); return true;
    }
    return false;
}

static void check1(const Pk& p)
{
    const auto u = ump(p);
    op("as_midi2_channel_voice_message");
    const auto g = midi::as_midi2_channel_voice_message(midi::midi1_channel_voice_message_view{ u });
    Pk         e;
    const bool ok = to2(p, e);
    VH_EQ("translated-to-midi2", g.has_value(), ok, show(p));
    VH_COUNT("midi1 messages translated");
    if (!ok) { VH_COUNT("midi1 messages refused"); return; }
    VH_EQ("midi2-result", sig(*g), e, show(p));
    // and back
    op("as_midi1_channel_voice_message (back)");
    const auto back = midi::as_midi1_channel_voice_message(midi::midi2_channel_voice_message_view{ *g });
    VH_TRUE("translates-back", back.has_value(), show(p));
    Pk orig = p;
    orig.w[0] &= 0xFFFF7F7F;
    orig.w[1] = orig.w[2] = orig.w[3] = 0;
    if ((p.byte(1) >> 4) == 9 && (p.byte(3) & 0x7F) == 0) orig.w[0] = (orig.w[0] & 0xFF0FFF00) | 0x00800040;
    if ((p.byte(1) >> 4) == 0xC || (p.byte(1) >> 4) == 0xD) orig.w[0] &= 0xFFFFFF00;
    VH_EQ("back-equals-original", sig(*back), orig, show(p) + " via " + show(sig(*g)));
}
static void check2(const Pk& p)
{
    const auto u = ump(p);
    op("as_midi1_channel_voice_message");
    const auto g = midi::as_midi1_channel_voice_message(midi::midi2_channel_voice_message_view{ u });
    Pk         e;
    const bool ok = to1(p, e);
    VH_EQ("translated-to-midi1", g.has_value(), ok, show(p));
    VH_COUNT("midi2 messages translated");
    if (!ok) { VH_COUNT("midi2 messages refused"); return; }
    VH_EQ("midi1-result", sig(*g), e, show(p));
    if ((p.byte(1) >> 4) == 9) VH_TRUE("note-on-stays-note-on", (g->data[0] & 0x7F) != 0, show(p));
}

void vh_main()
{
    section("all midi 1 messages", 16 * 128 * 16, [](Rng& r, u64 i) {
        const u32 st = u32(i % 16), d1 = u32(i / 16) % 128, d2b = u32(i / 2048) * 8;
        for (u32 k = 0; k < 8; ++k)
        {
            Pk p;
            p.w[0] = 0x20000000u | u32(r.below(16)) << 24 | st << 20 | u32(r.below(16)) << 16 | d1 << 8 | (d2b + k);
            check1(p);
            nontrivial(p.w[0]);
        }
    }, false);
    section("midi 1 with garbage", 20000, [](Rng& r, u64) {
        Pk p;
        p.w[0] = 0x20000000u | (r.iw() & 0x0FFF7F7F);
        p.w[1] = r.iw(); p.w[2] = r.iw(); p.w[3] = r.iw(); // words that do not belong to the message
        check1(p);
        nontrivial(hash_bytes(&p, sizeof p));
    });
    section("all midi 2 kinds and indices", 16 * 128 * 24, [](Rng& r, u64 i) {
        const u32 st = u32(i % 16), b3 = u32(i / 16) % 128, k = u32(i / 2048);
        Pk p;
        const u32 b4 = k < 8 ? 0 : k < 10 ? 1 : k < 12 ? 3 : k < 14 ? 0x80 : k < 16 ? 2 : r.b();
        p.w[0] = 0x40000000u | u32(r.below(16)) << 24 | st << 20 | u32(r.below(16)) << 16 | b3 << 8 | b4;
        p.w[1] = r.chance(1, 4) ? u32(r.below(0x04000000)) : r.iw();
        check2(p);
        nontrivial(hash_bytes(&p, sizeof p));
        if (want_sample()) sample(show(p));
    }, false);
    section("midi 2 random", 150000, [](Rng& r, u64) {
        Pk p;
        p.w[0] = 0x40000000u | (r.w() & 0x0FFF7F00) | (r.chance(2, 3) ? 0 : r.ib());
        if (r.chance(2, 3)) p.w[0] |= 0x00800000;
        p.w[1] = r.iw(); p.w[2] = r.iw(); p.w[3] = r.iw();
        check2(p);
        nontrivial(hash_bytes(&p, sizeof p));
    });
    section("values around the 7/14 bit steps", 60000, [](Rng& r, u64) {
        Pk p;
        p.w[0] = 0x40000000u | u32(r.below(16)) << 24 | u32(r.range(8, 14)) << 20 | u32(r.below(16)) << 16 | u32(r.b7()) << 8;
        p.w[1] = u32((r.chance(1, 2) ? r.below(128) << 25 : r.below(16384) << 18) + r.below(5) - 2);
        check2(p);
        nontrivial(hash_bytes(&p, sizeof p));
    });
}
