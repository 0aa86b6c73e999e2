// C14: channel voice messages read back as built
#include "scale_ref.h"
#include <midi/channel_voice_message.h>
using namespace ref;
namespace m = midi;

static Pk pk2(u32 a, u32 b = 0) { Pk p; p.w[0] = a; p.w[1] = b; return p; }

struct Args
{
    u8  g, ch, n, c7, c8, attr, d1, d2;
    u16 attr_data, bank;
    u32 v32;
    u16 v16;
    i32 inc;
    string str() const
    {
        return "group=" + show(g) + " channel=" + show(ch) + " n=" + show(n) + " c7=" + show(c7) + " c8=" + show(c8) + " attr=" + show(attr) + " v32=" + show(v32) + " v16=" + show(v16) +
               " attr_data=" + show(attr_data) + " bank=" + show(bank);
    }
};
static Args args(Rng& r)
{
    Args a;
    a.g = u8(r.below(16)); a.ch = u8(r.below(16)); a.n = r.ib7(); a.c7 = r.chance(1, 3) ? u8(r.below(10)) : r.ib7(); a.c8 = r.chance(1, 3) ? u8(r.below(10)) : r.ib(); a.attr = r.chance(1, 2) ? u8(r.below(5)) : r.ib();
    a.d1 = r.ib7(); a.d2 = r.ib7(); a.attr_data = u16(r.iw()); a.bank = u16(r.chance(1, 2) ? r.below(16384) : r.pick({ 0, 0x7F, 0x80, 0x3FFF, 0x2000 }));
    a.v32 = r.iw(); a.v16 = r.chance(1, 3) ? u16(1u << r.below(16)) : u16(r.iw() >> r.below(17)); a.inc = i32(r.iw());
    return a;
}

static u32 h1(const Args& a, u32 st) { return 0x20000000u | u32(a.g) << 24 | (st | a.ch) << 16; }
static u32 h2(const Args& a, u32 st) { return 0x40000000u | u32(a.g) << 24 | (st | a.ch) << 16; }

template<typename P> static void layout(const char* key, const P& p, const Pk& e, const Args& a)
{
    VH_EQ(key, sig(p), e, a.str());
    VH_COUNT("built messages compared");
    const m::universal_packet u = p;
    VH_EQ("group", unsigned(u.group()), unsigned(a.g), a.str());
    VH_EQ("channel", unsigned(u.channel()), unsigned(a.ch), a.str());
    VH_TRUE("has-channel", u.has_channel(), a.str());
    if (e.w[0] >> 28 == 2)
    {
        op("midi1 view");
        const auto v = m::as_midi1_channel_voice_message_view(u);
        VH_TRUE("view-offered", v.has_value() && !m::as_midi2_channel_voice_message_view(u), a.str());
        VH_EQ("view-group", unsigned(v->group()), unsigned(a.g), a.str());
        VH_EQ("view-channel", unsigned(v->channel()), unsigned(a.ch), a.str());
        VH_EQ("view-status", unsigned(v->status()), unsigned(e.byte(1) & 0xF0), a.str());
        VH_EQ("view-data-1", unsigned(v->data_byte_1()), unsigned(e.byte(2)), a.str());
        VH_EQ("view-data-2", unsigned(v->data_byte_2()), unsigned(e.byte(3)), a.str());
        VH_EQ("view-14bit", unsigned(v->get_14bit_value()), unsigned(e.byte(2) | e.byte(3) << 7), a.str());
        VH_EQ("copy", sig(m::midi1_channel_voice_message{ u }), e, a.str());
    }
    else
    {
        op("midi2 view");
        const auto v = m::as_midi2_channel_voice_message_view(u);
        VH_TRUE("view-offered", v.has_value() && !m::as_midi1_channel_voice_message_view(u), a.str());
        VH_EQ("view-group", unsigned(v->group()), unsigned(a.g), a.str());
        VH_EQ("view-channel", unsigned(v->channel()), unsigned(a.ch), a.str());
        VH_EQ("view-status", unsigned(v->status()), unsigned(e.byte(1) & 0xF0), a.str());
        VH_EQ("view-byte3", unsigned(v->byte3()), unsigned(e.byte(2)), a.str());
        VH_EQ("view-byte4", unsigned(v->byte4()), unsigned(e.byte(3)), a.str());
        VH_EQ("view-data", v->data(), e.w[1], a.str());
        VH_EQ("copy", sig(m::midi2_channel_voice_message{ u }), e, a.str());
    }
    nontrivial(hash_bytes(&e, sizeof e));
}

// what the protocol independent getters have to answer for a packet with 7 bit MIDI 1 data bytes
static void getters(const Pk& p)
{
    const auto     u    = ump(p);
    const unsigned type = p.w[0] >> 28, k = p.byte(1) >> 4;
    const bool     v1 = type == 2, v2 = type == 4;
    const u8       b3 = p.byte(2), b4 = p.byte(3);
    const string   c = show(p);
    const bool     on_zero = v1 && k == 9 && b4 == 0;
    op("recognisers");
    VH_EQ("is-note-on", m::is_note_on_message(u), (v1 || v2) && k == 9 && !on_zero, c);
    VH_EQ("is-note-off", m::is_note_off_message(u), ((v1 || v2) && k == 8) || on_zero, c);
    VH_EQ("is-poly-pressure", m::is_poly_pressure_message(u), (v1 || v2) && k == 0xA, c);
    VH_EQ("is-cc", m::is_control_change_message(u), (v1 || v2) && k == 0xB, c);
    VH_EQ("is-program", m::is_program_change_message(u), (v1 || v2) && k == 0xC, c);
    VH_EQ("is-channel-pressure", m::is_channel_pressure_message(u), (v1 || v2) && k == 0xD, c);
    VH_EQ("is-pitch-bend", m::is_channel_pitch_bend_message(u), (v1 || v2) && k == 0xE, c);
    if (!v1 && !v2) return;
    op("views");
    if (v1)
    {
        const auto v = m::as_midi1_channel_voice_message_view(u);
        VH_TRUE("view-offered", v.has_value(), c);
        VH_EQ("received-view-group", unsigned(v->group()), unsigned(p.byte(0) & 0xF), c);
        VH_EQ("received-view-channel", unsigned(v->channel()), unsigned(p.byte(1) & 0xF), c);
        VH_EQ("received-view-status", unsigned(v->status()), unsigned(p.byte(1) & 0xF0), c);
        VH_EQ("received-view-data-1", unsigned(v->data_byte_1()), unsigned(b3 & 0x7F), c);
        VH_EQ("received-view-data-2", unsigned(v->data_byte_2()), unsigned(b4 & 0x7F), c);
        VH_EQ("received-view-14bit", unsigned(v->get_14bit_value()), unsigned((b3 & 0x7F) | (b4 & 0x7F) << 7), c);
    }
    else
    {
        const auto v = m::as_midi2_channel_voice_message_view(u);
        VH_TRUE("view-offered", v.has_value(), c);
        VH_EQ("received-view-group", unsigned(v->group()), unsigned(p.byte(0) & 0xF), c);
        VH_EQ("received-view-channel", unsigned(v->channel()), unsigned(p.byte(1) & 0xF), c);
        VH_EQ("received-view-status", unsigned(v->status()), unsigned(p.byte(1) & 0xF0), c);
        VH_EQ("received-view-byte3", unsigned(v->byte3()), unsigned(b3 & 0x7F), c);
        VH_EQ("received-view-byte4", unsigned(v->byte4()), unsigned(b4), c);
        VH_EQ("received-view-data", v->data(), p.w[1], c);
    }
    VH_COUNT("received packets viewed");
    op("getters");
    switch (k)
    {
    case 8: case 9:
        VH_EQ("note-nr", unsigned(m::get_note_nr(u)), unsigned(b3 & 0x7F), c);
        VH_EQ("note-velocity", u32(m::get_note_velocity(u).value), v2 ? p.w[1] >> 16 : on_zero ? 0x8000u : up_ref(b4 & 0x7F, 7, 16), c);
        VH_EQ("note-pitch", u32(m::get_note_pitch(u).value), (v2 && k == 9 && b4 == 3) ? (p.w[1] & 0xFFFF) : u32(b3 & 0x7F) << 9, c);
        if (v2)
        {
            VH_EQ("attribute", unsigned(m::get_midi2_note_attribute(u)), unsigned(b4), c);
            VH_EQ("attribute-data", u32(m::get_midi2_note_attribute_data(u)), p.w[1] & 0xFFFF, c);
        }
        break;
    case 0xA:
        VH_EQ("note-nr", unsigned(m::get_note_nr(u)), unsigned(b3 & 0x7F), c);
        VH_EQ("poly-pressure", m::get_poly_pressure_value(u).value, v2 ? p.w[1] : up_ref(b4 & 0x7F, 7, 32), c);
        break;
    case 0xB:
        VH_EQ("controller-nr", unsigned(m::get_controller_nr(u)), unsigned(b3 & 0x7F), c);
        VH_EQ("controller-value", m::get_controller_value(u).value, v2 ? p.w[1] : up_ref(b4 & 0x7F, 7, 32), c);
        break;
    case 0xC: VH_EQ("program", unsigned(m::get_program_value(u)), v2 ? (p.w[1] >> 24) & 0x7F : unsigned(b3 & 0x7F), c); break;
    case 0xD: VH_EQ("channel-pressure", m::get_channel_pressure_value(u).value, v2 ? p.w[1] : up_ref(b3 & 0x7F, 7, 32), c); break;
    case 0xE: VH_EQ("pitch-bend", m::get_channel_pitch_bend_value(u).value, v2 ? p.w[1] : up_ref((b3 & 0x7Fu) | (b4 & 0x7Fu) << 7, 14, 32), c); break;
    default: break;
    }
    if (v2)
        switch (k)
        {
        case 0: case 1:
            VH_EQ("per-note-index", unsigned(m::get_per_note_controller_index(u)), unsigned(b4), c);
            VH_EQ("note-nr", unsigned(m::get_note_nr(u)), unsigned(b3 & 0x7F), c);
            VH_EQ("controller-value", m::get_controller_value(u).value, p.w[1], c);
            break;
        case 2: case 3: VH_EQ("controller-value", m::get_controller_value(u).value, p.w[1], c); break;
        case 6:
            VH_EQ("per-note-bend", m::get_per_note_pitch_bend_value(u).value, p.w[1], c);
            VH_EQ("note-nr", unsigned(m::get_note_nr(u)), unsigned(b3 & 0x7F), c);
            break;
        default: break;
        }
    VH_COUNT("packets read with protocol independent getters");
    nontrivial(hash_bytes(&p, sizeof p, 99));
}

static void build_all(const Args& a)
{
    const u32 n = a.n;
    // ---- MIDI 1
    op("build midi1");
    for (unsigned st = 0x80; st <= 0xE0; st += 0x10)
    {
        layout("midi1-generic", m::make_midi1_channel_voice_message(a.g, u8(st), a.ch, a.d1, a.d2), pk2(h1(a, st) | u32(a.d1) << 8 | a.d2), a);
        layout("midi1-ctor", m::midi1_channel_voice_message(a.g, u8(st | a.ch), a.d1, a.d2), pk2(h1(a, st) | u32(a.d1) << 8 | a.d2), a);
        layout("midi1-generic-default", m::make_midi1_channel_voice_message(a.g, u8(st), a.ch, a.d1), pk2(h1(a, st) | u32(a.d1) << 8), a);
        layout("midi1-ctor-default-1", m::midi1_channel_voice_message(a.g, u8(st | a.ch), a.d1), pk2(h1(a, st) | u32(a.d1) << 8), a);
        layout("midi1-ctor-default-2", m::midi1_channel_voice_message(a.g, u8(st | a.ch)), pk2(h1(a, st)), a);
        const m::universal_packet u = m::midi1_channel_voice_message(a.g, u8(st | a.ch), a.d1, a.d2);
        layout("midi1-from-packet", m::midi1_channel_voice_message(u), pk2(h1(a, st) | u32(a.d1) << 8 | a.d2), a);
    }
    const m::velocity vel{ std::uint16_t(a.v16) };
    const m::controller_value cv{ a.v32 };
    const m::pitch_bend pb{ a.v32 };
    layout("midi1-note-off", m::make_midi1_note_off_message(a.g, a.ch, a.n, vel), pk2(h1(a, 0x80) | n << 8 | a.v16 >> 9), a);
    layout("midi1-note-on", m::make_midi1_note_on_message(a.g, a.ch, a.n, vel), pk2(h1(a, 0x90) | n << 8 | a.v16 >> 9), a);
    layout("midi1-poly-pressure", m::make_midi1_poly_pressure_message(a.g, a.ch, a.n, cv), pk2(h1(a, 0xA0) | n << 8 | a.v32 >> 25), a);
    layout("midi1-cc", m::make_midi1_control_change_message(a.g, a.ch, a.c7, cv), pk2(h1(a, 0xB0) | u32(a.c7) << 8 | a.v32 >> 25), a);
    layout("midi1-program", m::make_midi1_program_change_message(a.g, a.ch, a.d1), pk2(h1(a, 0xC0) | u32(a.d1) << 8), a);
    layout("midi1-channel-pressure", m::make_midi1_channel_pressure_message(a.g, a.ch, cv), pk2(h1(a, 0xD0) | a.v32 >> 25 << 8), a);
    layout("midi1-bend", m::make_midi1_pitch_bend_message(a.g, a.ch, pb), pk2(h1(a, 0xE0) | ((a.v32 >> 18) & 0x7F) << 8 | a.v32 >> 25), a);
    // ---- MIDI 2
    op("build midi2");
    for (unsigned st = 0x00; st <= 0xF0; st += 0x10)
    {
        layout("midi2-generic", m::make_midi2_channel_voice_message(a.g, u8(st), a.ch, a.d1, a.d2, a.v32), pk2(h2(a, st) | u32(a.d1) << 8 | a.d2, a.v32), a);
        layout("midi2-ctor", m::midi2_channel_voice_message(a.g, u8(st), a.ch, a.d1, a.d2, a.v32), pk2(h2(a, st) | u32(a.d1) << 8 | a.d2, a.v32), a);
        const m::universal_packet u = m::midi2_channel_voice_message(a.g, u8(st), a.ch, a.d1, a.d2, a.v32);
        layout("midi2-from-packet", m::midi2_channel_voice_message(u), pk2(h2(a, st) | u32(a.d1) << 8 | a.d2, a.v32), a);
    }
    const u32 vv = u32(a.v16) << 16;
    layout("midi2-note-off", m::make_midi2_note_off_message(a.g, a.ch, a.n, vel), pk2(h2(a, 0x80) | n << 8, vv), a);
    layout("midi2-note-off-attr", m::make_midi2_note_off_message(a.g, a.ch, a.n, vel, a.attr, a.attr_data), pk2(h2(a, 0x80) | n << 8 | a.attr, vv | a.attr_data), a);
    layout("midi2-note-on", m::make_midi2_note_on_message(a.g, a.ch, a.n, vel), pk2(h2(a, 0x90) | n << 8, vv), a);
    layout("midi2-note-on-pitch", m::make_midi2_note_on_message(a.g, a.ch, a.n, vel, m::pitch_7_9{ std::uint16_t(a.attr_data) }), pk2(h2(a, 0x90) | n << 8 | 3, vv | a.attr_data), a);
    layout("midi2-note-on-attr", m::make_midi2_note_on_message(a.g, a.ch, a.n, vel, a.attr, a.attr_data), pk2(h2(a, 0x90) | n << 8 | a.attr, vv | a.attr_data), a);
    layout("midi2-poly-pressure", m::make_midi2_poly_pressure_message(a.g, a.ch, a.n, cv), pk2(h2(a, 0xA0) | n << 8, a.v32), a);
    layout("midi2-rpnc", m::make_registered_per_note_controller_message(a.g, a.ch, a.n, a.c8, cv), pk2(h2(a, 0x00) | n << 8 | a.c8, a.v32), a);
    layout("midi2-apnc", m::make_assignable_per_note_controller_message(a.g, a.ch, a.n, a.c8, cv), pk2(h2(a, 0x10) | n << 8 | a.c8, a.v32), a);
    layout("midi2-note-management", m::make_per_note_management_message(a.g, a.ch, a.n, a.c8 & 3), pk2(h2(a, 0xF0) | n << 8 | (a.c8 & 3)), a);
    layout("midi2-cc", m::make_midi2_control_change_message(a.g, a.ch, a.c7, cv), pk2(h2(a, 0xB0) | u32(a.c7) << 8, a.v32), a);
    layout("midi2-rc", m::make_registered_controller_message(a.g, a.ch, a.d1, a.d2, cv), pk2(h2(a, 0x20) | u32(a.d1) << 8 | a.d2, a.v32), a);
    layout("midi2-ac", m::make_assignable_controller_message(a.g, a.ch, a.d1, a.d2, cv), pk2(h2(a, 0x30) | u32(a.d1) << 8 | a.d2, a.v32), a);
    layout("midi2-rrc", m::make_relative_registered_controller_message(a.g, a.ch, a.d1, a.d2, m::controller_increment{ a.inc }), pk2(h2(a, 0x40) | u32(a.d1) << 8 | a.d2, u32(a.inc)), a);
    layout("midi2-rac", m::make_relative_assignable_controller_message(a.g, a.ch, a.d1, a.d2, m::controller_increment{ a.inc }), pk2(h2(a, 0x50) | u32(a.d1) << 8 | a.d2, u32(a.inc)), a);
    layout("midi2-program", m::make_midi2_program_change_message(a.g, a.ch, a.d1), pk2(h2(a, 0xC0), u32(a.d1) << 24), a);
    layout("midi2-program-bank", m::make_midi2_program_change_message(a.g, a.ch, a.d1, std::uint16_t(a.bank)), pk2(h2(a, 0xC0) | 1, u32(a.d1) << 24 | u32(a.bank >> 7) << 8 | (a.bank & 0x7F)), a);
    layout("midi2-channel-pressure", m::make_midi2_channel_pressure_message(a.g, a.ch, cv), pk2(h2(a, 0xD0), a.v32), a);
    layout("midi2-bend", m::make_midi2_pitch_bend_message(a.g, a.ch, pb), pk2(h2(a, 0xE0), a.v32), a);
    layout("midi2-per-note-bend", m::make_per_note_pitch_bend_message(a.g, a.ch, a.n, pb), pk2(h2(a, 0x60) | n << 8, a.v32), a);

    // sensitivity
    const auto s0 = m::make_registered_controller_message(a.g, a.ch, 0, 0, cv);
    VH_EQ("sensitivity", m::get_pitch_bend_sensitivity_value(s0).value, a.v32 & 0xFFFC0000u, a.str());
    const auto s7 = m::make_registered_controller_message(a.g, a.ch, 0, 7, cv);
    VH_EQ("per-note-sensitivity", m::get_per_note_pitch_bend_sensitivity_value(s7).value, a.v32, a.str());

    // both protocols mean the same: a value given as 7 (14) bit number reads back identically
    op("same meaning");
    const m::velocity v7{ m::uint7_t(a.d2 ? a.d2 : 1) };
    const m::universal_packet on1 = m::make_midi1_note_on_message(a.g, a.ch, a.n, v7), on2 = m::make_midi2_note_on_message(a.g, a.ch, a.n, v7);
    VH_TRUE("same-note-on", m::is_note_on_message(on1) && m::is_note_on_message(on2) && m::get_note_nr(on1) == m::get_note_nr(on2) && m::get_note_velocity(on1) == m::get_note_velocity(on2) &&
                              m::get_note_pitch(on1) == m::get_note_pitch(on2) && m::get_note_velocity(on1) == v7, a.str());
    const m::universal_packet off1 = m::make_midi1_note_off_message(a.g, a.ch, a.n, v7), off2 = m::make_midi2_note_off_message(a.g, a.ch, a.n, v7);
    VH_TRUE("same-note-off", m::is_note_off_message(off1) && m::is_note_off_message(off2) && m::get_note_velocity(off1) == m::get_note_velocity(off2), a.str());
    const m::controller_value c7{ m::uint7_t(a.d2) };
    VH_TRUE("same-cc", m::get_controller_value(m::make_midi1_control_change_message(a.g, a.ch, a.c7, c7)) == m::get_controller_value(m::make_midi2_control_change_message(a.g, a.ch, a.c7, c7)), a.str());
    VH_TRUE("same-poly", m::get_poly_pressure_value(m::make_midi1_poly_pressure_message(a.g, a.ch, a.n, c7)) == m::get_poly_pressure_value(m::make_midi2_poly_pressure_message(a.g, a.ch, a.n, c7)), a.str());
    VH_TRUE("same-pressure", m::get_channel_pressure_value(m::make_midi1_channel_pressure_message(a.g, a.ch, c7)) == m::get_channel_pressure_value(m::make_midi2_channel_pressure_message(a.g, a.ch, c7)), a.str());
    VH_TRUE("same-program", m::get_program_value(m::make_midi1_program_change_message(a.g, a.ch, a.d1)) == m::get_program_value(m::make_midi2_program_change_message(a.g, a.ch, a.d1, std::uint16_t(a.bank))), a.str());
    const m::pitch_bend b14{ m::uint14_t(a.bank) };
    VH_TRUE("same-bend", m::get_channel_pitch_bend_value(m::make_midi1_pitch_bend_message(a.g, a.ch, b14)) == m::get_channel_pitch_bend_value(m::make_midi2_pitch_bend_message(a.g, a.ch, b14)), a.str());
    if (want_sample()) sample(a.str());
}

void vh_main()
{
    section("build", 12000, [](Rng& r, u64) { build_all(args(r)); });
    section("default note off velocity", 256, [](Rng& r, u64) {
        Args a = args(r);
        layout("midi1-note-off-default", m::make_midi1_note_off_message(a.g, a.ch, a.n), pk2(h1(a, 0x80) | u32(a.n) << 8 | 64), a);
    }, false);
    section("all midi 1 packets", 16 * 128 * 128, [](Rng& r, u64 i) {
        Pk p;
        p.w[0] = 0x20000000u | u32(r.below(256)) << 16 | u32(i % 16) << 20 | u32((i / 16) % 128) << 8 | u32(i / 2048);
        p.w[0] = (p.w[0] & 0xFF0FFFFF) | u32(i % 16) << 20 | u32(r.below(16)) << 24;
        getters(p);
    }, false);
    section("all 16 bit values", 65536, [](Rng& r, u64 i) {
        for (u32 k = 0; k < 16; ++k)
        {
            Pk p;
            p.w[0] = 0x40000000u | u32(r.below(16)) << 24 | k << 20 | u32(r.below(16)) << 16 | (r.iw() & 0x7FFF);
            if (k == 9 && r.chance(1, 2)) p.set(3, 3); // pitch attribute
            p.w[1] = r.chance(1, 2) ? u32(i) : u32(i) << 16 | u32(i);
            getters(p);
        }
    }, false);
    section("random packets", 150000, [](Rng& r, u64) {
        Pk p = hostile_packet(r);
        if (r.chance(3, 4)) p.w[0] = (p.w[0] & 0x0FFFFFFF) | (r.chance(2, 3) ? 0x40000000u : 0x20000000u);
        // reserved top bits of a MIDI 1 velocity are the only case without defined meaning
        if (p.w[0] >> 28 == 2 && (p.byte(1) >> 4) == 9) p.w[0] &= 0xFFFFFF7F;
        getters(p);
    });
}
