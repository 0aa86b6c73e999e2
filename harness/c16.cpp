// C16: system, utility, flex data and SysEx packets read back as built
#include "ref.h"
#include <midi/data_message.h>
#include <midi/extended_data_message.h>
#include <midi/flex_data_message.h>
#include <midi/system_message.h>
#include <midi/utility_message.h>
using namespace ref;
namespace m = midi;

static void done(const Pk& e) { VH_COUNT("built messages compared"); nontrivial(hash_bytes(e.w, sizeof e.w)); }

static void system_case(Rng& r)
{
    op("system");
    const u8 g = u8(r.below(16)), st = u8(r.chance(4, 5) ? 0xF0 + r.below(16) : r.b()), d1 = r.ib7(), d2 = r.ib7();
    const string c = "group=" + show(g) + " status=" + show(st) + " d1=" + show(d1) + " d2=" + show(d2);
    Pk e; e.w[0] = 0x10000000u | u32(g) << 24 | u32(st) << 16 | u32(d1) << 8 | d2;
    const unsigned nargs = unsigned(r.below(3));
    if (nargs < 2) e.set(3, 0);
    if (nargs < 1) e.set(2, 0);
    const m::universal_packet p = nargs == 0 ? m::make_system_message(g, st) : nargs == 1 ? m::make_system_message(g, st, d1) : m::make_system_message(g, st, d1, d2);
    VH_EQ("system", raw(p), e, c);
    const m::universal_packet p2 = m::system_message(g, st, d1, d2);
    Pk e2 = e; e2.set(2, d1); e2.set(3, d2);
    VH_EQ("system-ctor", raw(p2), e2, c);
    for (int k = 0; k < 2; ++k)
    {
        const auto& q = k ? p2 : p;
        const Pk&   x = k ? e2 : e;
        VH_TRUE("is-system", m::is_system_message(q), c);
        auto v = m::as_system_message_view(q);
        VH_TRUE("system-view", v.has_value(), c);
        VH_EQ("system-group", unsigned(v->group()), unsigned(g), c);
        VH_EQ("system-status", unsigned(v->status()), unsigned(st), c);
        VH_EQ("system-data1", unsigned(v->data_byte_1()), unsigned(x.byte(2)), c);
        VH_EQ("system-data2", unsigned(v->data_byte_2()), unsigned(x.byte(3)), c);
        VH_EQ("system-song-position", unsigned(v->get_song_position()), unsigned(st == 0xF2 ? x.byte(2) | x.byte(3) << 7 : 0), c);
        done(x);
    }
    op("song position");
    const u32 pos = r.chance(1, 2) ? r.iw() & 0x3FFF : u32(r.below(16384));
    Pk s; s.w[0] = 0x10F20000u | u32(g) << 24 | (pos & 0x7F) << 8 | pos >> 7;
    const m::universal_packet sp = m::make_song_position_message(g, m::uint14_t(pos));
    VH_EQ("song-position", raw(sp), s, show(pos));
    VH_EQ("song-position-view", u32(m::as_system_message_view(sp)->get_song_position()), pos, show(pos));
    VH_EQ("system-default", raw(m::system_message{}).w[0], 0x10000000u);
    done(s);
}

static void utility_case(Rng& r, int payload = -1)
{
    op("utility");
    const u8  st = r.chance(1, 2) ? u8(r.below(5) << 4) : r.b();
    const u16 d  = payload >= 0 ? u16(payload) : u16(r.iw() >> r.below(17));
    const string c = "status=" + show(st) + " payload=" + show(d);
    Pk e; e.w[0] = u32(st) << 16 | d;
    const m::universal_packet p = r.chance(1, 2) ? m::make_utility_message(st, d) : m::utility_message(st, d);
    VH_EQ("utility", raw(p), e, c);
    m::utility_message_view v(p);
    VH_EQ("utility-status", unsigned(v.status()), unsigned(st), c);
    VH_EQ("utility-payload", unsigned(v.payload()), unsigned(d), c);
    Pk e0; e0.w[0] = u32(st) << 16;
    VH_EQ("utility-default-payload", raw(m::utility_message(st)), e0, c);
    VH_EQ("utility-default", raw(m::utility_message{}), Pk{}, c);
    done(e);
}

static void flex_check(const char* key, const m::flex_data_message& p, const Pk& e, const string& c)
{
    VH_EQ(key, raw(p), e, c);
    const unsigned fmt = e.byte(1) >> 6, adr = (e.byte(1) >> 4) & 3, ch = e.byte(1) & 15;
    VH_EQ("flex-format", unsigned(p.format()), fmt, c);
    VH_EQ("flex-address", unsigned(p.address()), adr, c);
    VH_EQ("flex-bank", unsigned(p.status_bank()), unsigned(e.byte(2)), c);
    VH_EQ("flex-status", unsigned(p.status()), unsigned(e.byte(3)), c);
    string t;
    for (unsigned i = 4; i < 16 && e.byte(i); ++i) t += char(e.byte(i));
    VH_EQ("flex-text", p.payload_as_string(), t, c);
    const m::universal_packet u = p;
    VH_TRUE("is-flex", m::is_flex_data_message(u), c);
    auto v = m::as_flex_data_message_view(u);
    VH_TRUE("flex-view", v.has_value(), c);
    VH_EQ("flex-view-group", unsigned(v->group()), unsigned(e.byte(0) & 15), c);
    VH_EQ("flex-view-format", unsigned(v->format()), fmt, c);
    VH_EQ("flex-view-address", unsigned(v->address()), adr, c);
    VH_EQ("flex-view-channel", unsigned(v->channel()), ch, c);
    VH_EQ("flex-view-bank", unsigned(v->status_bank()), unsigned(e.byte(2)), c);
    VH_EQ("flex-view-status", unsigned(v->status()), unsigned(e.byte(3)), c);
    VH_EQ("flex-view-data1", v->data1(), e.w[1], c);
    VH_EQ("flex-view-data2", v->data2(), e.w[2], c);
    VH_EQ("flex-view-data3", v->data3(), e.w[3], c);
    VH_EQ("flex-view-text", string(v->payload_as_string()), t, c);
    VH_EQ("flex-static-text", m::flex_data_message::payload_as_string(u), t, c);
    VH_COUNT("flex messages");
    done(e);
}

static void flex_case(Rng& r)
{
    op("flex");
    const u8 g = u8(r.below(16)), fmt = u8(r.below(4)), bank = r.ib(), st = r.ib();
    const u8 adr = u8(r.below(2)); // channel 0, group 1
    const u8 ch  = adr == unsigned(m::packet_address::channel) ? u8(r.below(16)) : 0;
    const u32 d1 = r.iw(), d2 = r.iw(), d3 = r.iw();
    const string c = "group=" + show(g) + " format=" + show(fmt) + " address=" + show(adr) + " channel=" + show(ch) + " bank=" + show(bank) + " status=" + show(st) + " data=" + show(d1) + show(d2) + show(d3);
    const auto F = m::packet_format(fmt);
    const auto A = m::packet_address(adr);
    auto head = [&](u32 f, u32 a, u32 chn, u32 b, u32 s) {
        Pk e; e.w[0] = 0xD0000000u | u32(g) << 24 | (f << 6 | a << 4 | chn) << 16 | b << 8 | s;
        return e;
    };
    Pk e = head(fmt, adr, ch, bank, st);
    Pk e0 = e;
    e.w[1] = d1; e.w[2] = d2; e.w[3] = d3;
    flex_check("flex", m::make_flex_data_message(g, F, A, ch, bank, st, d1, d2, d3), e, c);
    flex_check("flex-ctor", m::flex_data_message(g, F, A, ch, bank, st, d1, d2, d3), e, c);
    flex_check("flex-default-data", m::make_flex_data_message(g, F, A, ch, bank, st), e0, c);
    Pk z = head(0, 0, 0, 0, 0);
    flex_check("flex-default", m::flex_data_message(g), z, c);

    op("flex text");
    size_t n = (fmt == 0 || fmt == 3) ? r.below(13) : 12;
    string t;
    for (size_t i = 0; i < n; ++i) t += char(r.chance(1, 2) ? r.range(1, 255) : r.range(0x20, 0x7E));
    Pk et = e0;
    for (size_t i = 0; i < n; ++i) et.set(unsigned(4 + i), u8(t[i]));
    std::vector<char> buf(t.begin(), t.end());
    const auto tm = m::make_flex_data_text_message(g, F, A, ch, bank, st, std::string_view(buf.data(), n));
    flex_check("flex-text-layout", tm, et, c + " text=" + show(t));
    VH_EQ("flex-text-roundtrip", tm.payload_as_string(), t, c);
    VH_COUNT("flex texts round-tripped");

    op("flex special");
    Pk te = head(0, 1, 0, 0, 0); te.w[1] = d1;
    flex_check("tempo", m::make_set_tempo_message(g, d1), te, c);
    Pk ts = head(0, 1, 0, 0, 1);
    for (int i = 0; i < 3; ++i) ts.set(4 + i, e.byte(4 + i));
    flex_check("time-signature", m::make_set_time_signature_message(g, e.byte(4), e.byte(5), e.byte(6)), ts, c);
    Pk me = head(0, 1, 0, 0, 2);
    for (int i = 0; i < 6; ++i) me.set(4 + i, e.byte(4 + i));
    flex_check("metronome", m::make_set_metronome_message(g, e.byte(4), e.byte(5), e.byte(6), e.byte(7), e.byte(8), e.byte(9)), me, c);
    const u8 sh = u8(r.below(16)), to = u8(r.below(16));
    Pk ks = head(0, adr, ch, 0, 5); ks.set(4, u8(sh << 4 | to));
    flex_check("key-signature", m::make_set_key_signature_message(g, A, ch, sh, to), ks, c + " sharps=" + show(sh) + " tonic=" + show(to));
    Pk co = head(0, adr, ch, 0, 6); co.w[1] = d1; co.w[2] = d2; co.w[3] = d3;
    flex_check("chord", m::make_set_chord_message(g, A, ch, d1, d2, d3), co, c);
}

// builder histories: the model is the packet's raw bits
static void sysex7_case(Rng& r)
{
    op("sysex7 builder");
    u8             g = u8(r.below(16));
    const unsigned f = unsigned(r.below(4));
    m::sysex7_packet p = f == 0 ? m::make_sysex7_complete_packet(g) : f == 1 ? m::make_sysex7_start_packet(g) : f == 2 ? m::make_sysex7_continue_packet(g) : m::make_sysex7_end_packet(g);
    Pk e; e.w[0] = 0x30000000u | u32(g) << 24 | u32(f) << 20;
    string hist = "group=" + show(g) + " format=" + show(f);
    for (int i = 0, n = int(r.below(14)); i <= n; ++i)
    {
        VH_EQ("sysex7-packet", raw(p), e, hist);
        const unsigned size = e.byte(1) & 15;
        VH_EQ("sysex7-size", p.payload_size(), size_t(size), hist);
        VH_EQ("sysex7-format", unsigned(p.format()), f, hist);
        for (unsigned b = 0; b < 6; ++b) VH_EQ("sysex7-byte", unsigned(p.payload_byte(b)), unsigned(e.byte(2 + b)), hist);
        const m::universal_packet u = p;
        auto v = m::as_sysex7_packet_view(u);
        VH_TRUE("sysex7-view", v && m::is_sysex7_packet(u) && m::is_data_message(u), hist);
        VH_EQ("sysex7-view-group", unsigned(v->group()), unsigned(g), hist);
        VH_EQ("sysex7-view-status", unsigned(v->status()), unsigned(f << 4), hist);
        VH_EQ("sysex7-view-format", unsigned(v->format()), f, hist);
        VH_EQ("sysex7-view-size", v->payload_size(), size_t(size), hist);
        for (unsigned b = 0; b < size; ++b) VH_EQ("sysex7-view-byte", unsigned(v->payload_byte(b)), unsigned(e.byte(2 + b)), hist);
        VH_COUNT("sysex7 builder steps");
        done(e);
        const u8 d = r.ib7();
        switch (r.below(5))
        {
        case 2: g = u8(r.below(16)); hist += " group=" + show(g); p.set_group(g); e.set(0, u8(0x30 | g)); break;
        case 0: { const unsigned b = unsigned(r.below(6)); hist += " set[" + show(b) + "]=" + show(d); p.set_payload_byte(b, d); e.set(2 + b, d); break; }
        case 1: { const unsigned s = unsigned(r.below(7)); hist += " size=" + show(s); p.set_payload_size(s); e.set(1, u8(f << 4 | s)); break; }
        default: if (size < 6) { hist += " add " + show(d); p.add_payload_byte(d); e.set(2 + size, d); e.set(1, u8(f << 4 | (size + 1))); }
        }
    }
}
static void sysex8_case(Rng& r)
{
    op("sysex8 builder");
    u8             g = u8(r.below(16));
    u8             sid = r.chance(1, 3) ? 0 : r.ib();
    const unsigned f = unsigned(r.below(4));
    m::sysex8_packet p = f == 0 ? m::make_sysex8_complete_packet(sid, g) : f == 1 ? m::make_sysex8_start_packet(sid, g) : f == 2 ? m::make_sysex8_continue_packet(sid, g) : m::make_sysex8_end_packet(sid, g);
    Pk e; e.w[0] = 0x50000000u | u32(g) << 24 | u32(f << 4 | 1) << 16 | u32(sid) << 8;
    string hist = "group=" + show(g) + " stream=" + show(sid) + " format=" + show(f);
    for (int i = 0, n = int(r.below(24)); i <= n; ++i)
    {
        VH_EQ("sysex8-packet", raw(p), e, hist);
        const unsigned size = (e.byte(1) & 15) - 1;
        VH_EQ("sysex8-size", p.payload_size(), size_t(size), hist);
        VH_EQ("sysex8-format", unsigned(p.format()), f, hist);
        VH_EQ("sysex8-stream", unsigned(p.stream_id()), unsigned(sid), hist);
        for (unsigned b = 0; b < 13; ++b) VH_EQ("sysex8-byte", unsigned(p.payload_byte(b)), unsigned(e.byte(3 + b)), hist);
        const m::universal_packet u = p;
        auto v = m::as_sysex8_packet_view(u);
        VH_TRUE("sysex8-view", v && m::is_sysex8_packet(u) && m::is_extended_data_message(u), hist);
        VH_EQ("sysex8-view-group", unsigned(v->group()), unsigned(g), hist);
        VH_EQ("sysex8-view-format", unsigned(v->format()), f, hist);
        VH_EQ("sysex8-view-stream", unsigned(v->stream_id()), unsigned(sid), hist);
        VH_EQ("sysex8-view-size", v->payload_size(), size_t(size), hist);
        for (unsigned b = 0; b < size; ++b) VH_EQ("sysex8-view-byte", unsigned(v->payload_byte(b)), unsigned(e.byte(3 + b)), hist);
        VH_COUNT("sysex8 builder steps");
        done(e);
        const u8 d = r.ib();
        switch (r.below(7))
        {
        case 3: g = u8(r.below(16)); hist += " group=" + show(g); p.set_group(g); e.set(0, u8(0x50 | g)); break;
        case 0: { const unsigned b = unsigned(r.below(13)); hist += " set[" + show(b) + "]=" + show(d); p.set_payload_byte(b, d); e.set(3 + b, d); break; }
        case 1: { const unsigned s = unsigned(r.below(14)); hist += " size=" + show(s); p.set_payload_size(s); e.set(1, u8(f << 4 | (s + 1))); break; }
        case 2: sid = r.ib(); hist += " stream=" + show(sid); p.set_stream_id(sid); e.set(2, sid); break;
        default: if (size < 13) { hist += " add " + show(d); p.add_payload_byte(d); e.set(3 + size, d); e.set(1, u8(f << 4 | (size + 2))); }
        }
    }
    if (want_sample()) sample(hist);
}

// packets of another device: reserved bits may be set and must not leak into the fields
static void received(Rng& r, int flex_data = -1)
{
    Pk e = hostile_packet(r);
    static const u8 types[] = { 0, 1, 3, 5, 0xD };
    const u8 type = flex_data >= 0 ? 0xD : types[r.below(5)];
    if (flex_data >= 0)
        for (int i = 1; i < 4; ++i) e.w[i] = r.chance(1, 2) ? u32(flex_data) : u32(flex_data) << 16;
    e.w[0] = (e.w[0] & 0x0FFFFFFF) | u32(type) << 28;
    if (type == 1 && r.chance(3, 4)) e.set(1, u8(0xF0 | r.below(16)));
    if (type == 3) e.set(1, u8(r.below(4) << 4 | r.below(7)));
    if (type == 5) e.set(1, u8(r.below(4) << 4 | r.range(1, 14)));
    const auto   u = ump(e);
    const string c = show(e);
    op("views of received packets");
    switch (type)
    {
    case 0:
    {
        m::utility_message_view v(u);
        VH_EQ("received-utility-status", unsigned(v.status()), unsigned(e.byte(1)), c);
        VH_EQ("received-utility-payload", unsigned(v.payload()), e.w[0] & 0xFFFF, c);
        break;
    }
    case 1:
    {
        auto v = m::as_system_message_view(u);
        VH_TRUE("received-system-view", v.has_value(), c);
        VH_EQ("received-system-group", unsigned(v->group()), unsigned(e.byte(0) & 15), c);
        VH_EQ("received-system-status", unsigned(v->status()), unsigned(e.byte(1)), c);
        VH_EQ("received-system-data1", unsigned(v->data_byte_1()), unsigned(e.byte(2) & 0x7F), c);
        VH_EQ("received-system-data2", unsigned(v->data_byte_2()), unsigned(e.byte(3) & 0x7F), c);
        VH_EQ("received-song-position", unsigned(v->get_song_position()), e.byte(1) == 0xF2 ? unsigned((e.byte(2) & 0x7F) | (e.byte(3) & 0x7F) << 7) : 0u, c);
        break;
    }
    case 3:
    {
        auto v = m::as_sysex7_packet_view(u);
        if (!v) return;
        VH_EQ("received-sysex7-group", unsigned(v->group()), unsigned(e.byte(0) & 15), c);
        VH_EQ("received-sysex7-status", unsigned(v->status()), unsigned(e.byte(1) & 0xF0), c);
        VH_EQ("received-sysex7-format", unsigned(v->format()), unsigned(e.byte(1) >> 4 & 3), c);
        VH_EQ("received-sysex7-size", v->payload_size(), size_t(e.byte(1) & 15), c);
        for (unsigned b = 0; b < 6; ++b) VH_EQ("received-sysex7-byte", unsigned(v->payload_byte(b) & 0x7F), unsigned(e.byte(2 + b) & 0x7F), c);
        break;
    }
    case 5:
    {
        auto v = m::as_sysex8_packet_view(u);
        if (!v) return;
        VH_EQ("received-sysex8-group", unsigned(v->group()), unsigned(e.byte(0) & 15), c);
        VH_EQ("received-sysex8-format", unsigned(v->format()), unsigned(e.byte(1) >> 4 & 3), c);
        VH_EQ("received-sysex8-size", v->payload_size(), size_t((e.byte(1) & 15) - 1), c);
        VH_EQ("received-sysex8-stream", unsigned(v->stream_id()), unsigned(e.byte(2)), c);
        for (unsigned b = 0; b < 13; ++b) VH_EQ("received-sysex8-byte", unsigned(v->payload_byte(b)), unsigned(e.byte(3 + b)), c);
        break;
    }
    default:
    {
        auto v = m::as_flex_data_message_view(u);
        VH_TRUE("received-flex-view", v.has_value(), c);
        VH_EQ("received-flex-group", unsigned(v->group()), unsigned(e.byte(0) & 15), c);
        VH_EQ("received-flex-format", unsigned(v->format()), unsigned(e.byte(1) >> 6), c);
        VH_EQ("received-flex-address", unsigned(v->address()), unsigned(e.byte(1) >> 4 & 3), c);
        VH_EQ("received-flex-channel", unsigned(v->channel()), unsigned(e.byte(1) & 15), c);
        VH_EQ("received-flex-bank", unsigned(v->status_bank()), unsigned(e.byte(2)), c);
        VH_EQ("received-flex-status", unsigned(v->status()), unsigned(e.byte(3)), c);
        VH_TRUE("received-flex-data", v->data1() == e.w[1] && v->data2() == e.w[2] && v->data3() == e.w[3], c);
        string t;
        for (unsigned i = 4; i < 16 && e.byte(i); ++i) t += char(e.byte(i));
        VH_EQ("received-flex-text", string(v->payload_as_string()), t, c);
    }
    }
    VH_COUNT("received packets viewed");
    nontrivial(hash_bytes(e.w, sizeof e.w, 5));
}

static void plain_packets(Rng& r)
{
    op("plain packets");
    const u8 st = u8(r.below(4) << 4), g = u8(r.below(16)), sid = r.ib();
    auto head = [](u32 w) { Pk e; e.w[0] = w; return e; };
    const string c = "status=" + show(st) + " group=" + show(g) + " stream=" + show(sid);
    VH_EQ("data-default", raw(m::data_message{}), head(0x30000000u), c);
    VH_EQ("data-status", raw(m::data_message{ st }), head(0x30000000u | u32(st) << 16), c);
    VH_EQ("extended-default", raw(m::extended_data_message{}), head(0x50000000u), c);
    VH_EQ("extended-status", raw(m::extended_data_message{ st }), head(0x50000000u | u32(st) << 16), c);
    VH_EQ("sysex7-status", raw(m::sysex7_packet(st, g)), head(0x30000000u | u32(g) << 24 | u32(st) << 16), c);
    VH_EQ("sysex8-default", raw(m::sysex8_packet{}), head(0x50010000u), c);
    VH_EQ("sysex8-status", raw(m::sysex8_packet(st, sid, g)), head(0x50010000u | u32(g) << 24 | u32(st) << 16 | u32(sid) << 8), c);
    VH_EQ("flex-default", raw(m::flex_data_message{}), head(0xD0000000u), c);
    const Pk s7[] = { raw(m::make_sysex7_complete_packet()), raw(m::make_sysex7_start_packet()), raw(m::make_sysex7_continue_packet()), raw(m::make_sysex7_end_packet()) };
    const Pk s8[] = { raw(m::make_sysex8_complete_packet(sid)), raw(m::make_sysex8_start_packet(sid)), raw(m::make_sysex8_continue_packet(sid)), raw(m::make_sysex8_end_packet(sid)) };
    for (u32 f = 0; f < 4; ++f)
    {
        VH_EQ("sysex7-default-group", s7[f], head(0x30000000u | f << 20), c);
        VH_EQ("sysex8-default-group", s8[f], head(0x50010000u | f << 20 | u32(sid) << 8), c);
    }
    VH_COUNT("plain packets");
}

void vh_main()
{
    section("plain packets", 2000, [](Rng& r, u64) { plain_packets(r); }, false);
    section("received packets", 60000, [](Rng& r, u64) { received(r); });
    section("system", 20000, [](Rng& r, u64) { system_case(r); });
    section("utility", 20000, [](Rng& r, u64) { utility_case(r); });
    section("all 16 bit values", 65536, [](Rng& r, u64 i) { received(r, int(i)); received(r, int(i)); received(r, int(i)); }, false);
    section("all utility payloads", 65536, [](Rng& r, u64 i) { utility_case(r, int(i)); }, false);
    section("all song positions", 16384, [](Rng& r, u64 i) {
        const u8 g = u8(r.below(16));
        Pk       e;
        e.w[0] = 0x10F20000u | u32(g) << 24 | u32(i & 0x7F) << 8 | u32(i >> 7);
        op("song position");
        const m::universal_packet p = m::make_song_position_message(g, m::uint14_t(i));
        VH_EQ("song-position", raw(p), e, show(i));
        VH_EQ("song-position-value", unsigned(m::system_message_view(p).get_song_position()), unsigned(i), show(i));
        done(e);
    }, false);
    section("flex data", 8000, [](Rng& r, u64) { flex_case(r); });
    section("sysex7 builder", 8000, [](Rng& r, u64) { sysex7_case(r); });
    section("sysex8 builder", 8000, [](Rng& r, u64) { sysex8_case(r); });
}
