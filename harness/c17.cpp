// C17: every packet is recognised as exactly the kinds it is
#include "names.h"
#include "ref.h"
#include <midi/channel_voice_message.h>
#include <midi/data_message.h>
#include <midi/extended_data_message.h>
#include <midi/flex_data_message.h>
#include <midi/jitter_reduction_timestamps.h>
#include <midi/stream_message.h>
#include <midi/system_message.h>
#include <midi/universal_sysex.h>
#include <midi/utility_message.h>
#pragma clang diagnostic ignored "-Wdeprecated-declarations"
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
using namespace ref;
namespace m = midi;
namespace us = midi::universal_sysex;

static void judge(const Pk& p)
{
    const m::universal_packet u = ump(p);
    const unsigned t = p.w[0] >> 28, st = p.byte(1), hi = st & 0xF0, lo = st & 15, b3 = p.byte(2), b4 = p.byte(3);
    const auto c = [&] { return show_pk(p); };
    unsigned accepted = 0;
#define IS(key, got, exp)                                       \
    do {                                                        \
        op(key);                                                \
        const bool g_ = (got), e_ = (exp);                      \
        if (g_ != e_) fail(key, "%s is %s, expected %s for packet %s", #got, g_ ? "true" : "false", e_ ? "true" : "false", c().c_str()); \
        accepted += e_;                                         \
    } while (0)
    // the type is all that matters
    IS("utility", u.is_utility_message(), t == 0);
    IS("system", u.is_system_message(), t == 1);
    IS("system-fn", m::is_system_message(u), t == 1);
    IS("system-view", m::as_system_message_view(u).has_value(), t == 1);
    IS("channel-voice", u.is_channel_voice_message(), t == 2 || t == 4);
    IS("has-channel", u.has_channel(), t == 2 || t == 4 || t == 0xD);
    IS("any-data", u.is_data_message(), t == 3 || t == 5);
    IS("data", m::is_data_message(u), t == 3);
    IS("extended-data", m::is_extended_data_message(u), t == 5);
    IS("flex", m::is_flex_data_message(u), t == 0xD);
    IS("flex-view", m::as_flex_data_message_view(u).has_value(), t == 0xD);
    IS("stream", m::is_stream_message(u), t == 0xF);
    IS("midi1", m::is_midi1_channel_voice_message(u), t == 2);
    IS("midi1-view", m::as_midi1_channel_voice_message_view(u).has_value(), t == 2);
    IS("midi2", m::is_midi2_channel_voice_message(u), t == 4);
    IS("midi2-view", m::as_midi2_channel_voice_message_view(u).has_value(), t == 4);

    static const std::set<unsigned> sys{ 0xF1, 0xF2, 0xF3, 0xF6, 0xF8, 0xFA, 0xFB, 0xFC, 0xFE, 0xFF };
    IS("midi1-protocol", u.is_midi1_protocol_message(), (t == 1 && sys.count(st)) || (t == 2 && st >= 0x80 && st < 0xF0));


    IS("sysex7", m::is_sysex7_packet(u), t == 3 && hi <= 0x30 && lo <= 6);
    IS("sysex7-view", m::as_sysex7_packet_view(u).has_value(), t == 3 && hi <= 0x30 && lo <= 6);
    IS("sysex8", m::is_sysex8_packet(u), t == 5 && hi <= 0x30 && lo >= 1 && lo <= 14);
    IS("sysex8-view", m::as_sysex8_packet_view(u).has_value(), t == 5 && hi <= 0x30 && lo >= 1 && lo <= 14);

    const bool cv = t == 2 || t == 4;
    for (unsigned s = 0; s < 0x100; s += 0x10)
        IS("with-status", m::is_channel_voice_message_with_status(u, m::status_t(s)), cv && hi == s);
    IS("note-on", m::is_note_on_message(u), (t == 2 && hi == 0x90 && b4 != 0) || (t == 4 && hi == 0x90));
    IS("note-off", m::is_note_off_message(u), (cv && hi == 0x80) || (t == 2 && hi == 0x90 && b4 == 0));
    IS("poly-pressure", m::is_poly_pressure_message(u), cv && hi == 0xA0);
    IS("control-change", m::is_control_change_message(u), cv && hi == 0xB0);
    IS("program-change", m::is_program_change_message(u), cv && hi == 0xC0);
    IS("channel-pressure", m::is_channel_pressure_message(u), cv && hi == 0xD0);
    IS("pitch-bend", m::is_channel_pitch_bend_message(u), cv && hi == 0xE0);

    const bool m2 = t == 4;
    IS("registered", m::is_registered_controller_message(u), m2 && hi == 0x20);
    IS("assignable", m::is_assignable_controller_message(u), m2 && hi == 0x30);
    IS("registered-per-note", m::is_registered_per_note_controller_message(u), m2 && hi == 0x00);
    IS("registered-per-note-pitch", m::is_registered_per_note_controller_pitch_message(u), m2 && hi == 0x00 && b4 == 3);
    IS("assignable-per-note", m::is_assignable_per_note_controller_message(u), m2 && hi == 0x10);
    IS("per-note-bend", m::is_per_note_pitch_bend_message(u), m2 && hi == 0x60);
    IS("registered-dep", m::is_midi2_registered_controller_message(u), m2 && hi == 0x20);
    IS("assignable-dep", m::is_midi2_assignable_controller_message(u), m2 && hi == 0x30);
    IS("registered-per-note-dep", m::is_midi2_registered_per_note_controller_message(u), m2 && hi == 0x00);
    IS("assignable-per-note-dep", m::is_midi2_assignable_per_note_controller_message(u), m2 && hi == 0x10);
    IS("per-note-bend-dep", m::is_midi2_per_note_pitch_bend_message(u), m2 && hi == 0x60);
    for (unsigned a : { b4, b4 ^ 0x80, b4 ^ 1, 0u, 1u, 2u, 3u, 0xFFu })
    {
        IS("on-attribute", m::is_note_on_with_attribute(u, u8(a)), m2 && hi == 0x90 && b4 == a);
        IS("off-attribute", m::is_note_off_with_attribute(u, u8(a)), m2 && hi == 0x80 && b4 == a);
    }
    IS("pitch-7-9", m::is_note_on_with_pitch_7_9(u), m2 && hi == 0x90 && b4 == 3);
    // 7 bit index fields with their reserved bit set are no defined message
    if (!((b3 | b4) & 0x80))
    {
        IS("bend-sensitivity", m::is_pitch_bend_sensitivity_message(u), m2 && hi == 0x20 && b3 == 0 && b4 == 0);
        IS("per-note-bend-sensitivity", m::is_per_note_pitch_bend_sensitivity_message(u), m2 && hi == 0x20 && b3 == 0 && b4 == 7);
    }
    // the upper bits of the 10 bit stream status are in byte 0; they are zero for all defined messages
    if (!(t == 0xF && (p.w[0] & 0x03000000)))
    {
        const bool s = t == 0xF;
        IS("endpoint-discovery", m::as_endpoint_discovery_view(u).has_value(), s && st == 0x00);
        IS("endpoint-info", m::as_endpoint_info_view(u).has_value(), s && st == 0x01);
        IS("device-identity", m::as_device_identity_view(u).has_value(), s && st == 0x02);
        IS("endpoint-name", m::as_endpoint_name_view(u).has_value(), s && st == 0x03);
        IS("product-instance-id", m::as_product_instance_id_view(u).has_value(), s && st == 0x04);
        IS("stream-configuration", m::as_stream_configuration_view(u).has_value(), s && (st == 0x05 || st == 0x06));
        IS("function-block-discovery", m::as_function_block_discovery_view(u).has_value(), s && st == 0x10);
        IS("function-block-info", m::as_function_block_info_view(u).has_value(), s && st == 0x11);
        IS("function-block-name", m::as_function_block_name_view(u).has_value(), s && st == 0x12);
    }
    VH_EQ("unchanged", raw(u), p, c());
    VH_COUNT("packets judged");
    VH_ADD("recognisers accepting", accepted);
    nontrivial(hash_bytes(p.w, sizeof p.w));
}

static void universal(Rng& r, u64 i)
{
    const u32 mf = r.chance(1, 3) ? 0x7E0000 : r.chance(1, 2) ? 0x7F0000 : r.chance(1, 3) ? 0 : r.chance(1, 3) ? u32(r.pick({ 0x7D0000, 0x00007E, 0x00007F, 0x7E0001, 0x007E00, 0x017E0000 })) : mfr(r);
    size_t n = i < 5000 ? i % 20 : i >= 1000000000 ? size_t(i - 1000000000) : r.size(24, 300);
    vector<u8> d = r.chance(1, 4) ? r.bytes(n) : r.bytes7(n);
    if (i < 1000000000 && r.chance(1, 4)) { d = r.bytes7(n = r.pick({ size_t(12), size_t(14) })); }
    if (n > 1 && r.chance(2, 3)) d[1] = 0x06;
    if (n > 2 && r.chance(2, 3)) d[2] = u8(r.pick({ 1, 2, 2, 3 }));
    if (n > 3 && r.chance(1, 2)) d[3] = 0;
    m::sysex7 s(mf, m::sysex7::data_type(d.begin(), d.end()));
    s.data.shrink_to_fit();
    const string c = show(mf) + " " + hexc(d);
    const bool   uni = (mf == 0x7E0000 || mf == 0x7F0000) && n >= 2;
    VH_EQ("is-universal", m::is_universal_sysex_message(s), uni, c);
    const unsigned type = uni ? (mf >> 8) | d[1] : 0, sub = uni && n > 2 ? d[2] : 0, dev = uni ? d[0] : 0xFF;
    VH_EQ("universal-type", unsigned(m::universal_sysex_type_of(s)), type, c);
    VH_EQ("universal-subtype", unsigned(m::universal_sysex_subtype_of(s)), sub, c);
    VH_EQ("universal-device", unsigned(m::universal_sysex_device_id_of(s)), dev, c);
    auto v = m::as_universal_sysex_view(s);
    VH_EQ("universal-view", v.has_value(), uni, c);
    if (v)
    {
        VH_EQ("view-type", unsigned(v->type()), type, c);
        VH_EQ("view-subtype", unsigned(v->subtype()), sub, c);
        VH_EQ("view-device", unsigned(v->device_id()), dev, c);
        VH_EQ("view-size", size_t(v->data_size()), n, c);
        VH_COUNT("universal messages");
    }
    if (mf == 0x7E0000 || mf == 0x7F0000)
    {
        us::message msg(mf, m::sysex7::data_type(d.begin(), d.end()));
        const unsigned dev = n ? d[0] : 0xFF; // needs one byte only
        VH_EQ("message-type", unsigned(msg.type()), type, c);
        VH_EQ("message-subtype", unsigned(msg.subtype()), sub, c);
        VH_EQ("message-device", unsigned(msg.device_id()), dev, c);
    }
    VH_EQ("identity-request", us::is_identity_request(s), type == 0x7E06 && n > 2 && sub == 1, c);
    const bool reply_head = type == 0x7E06 && sub == 2;
    if (!(reply_head && n == 14 && d[3] != 0)) // a one byte ID with two extra bytes: not defined
    {
        const bool reply = reply_head && ((n == 12 && d[3] != 0) || (n == 14 && d[3] == 0));
        VH_EQ("identity-reply", us::is_identity_reply(s), reply, c);
        auto iv = us::as_identity_reply_view(s);
        VH_EQ("identity-reply-view", iv.has_value(), reply, c);
        VH_EQ("identity-reply-view-as", v && v->as<us::identity_reply_view>().has_value(), reply, c);
        if (reply) VH_COUNT("identity replies");
    }
    else
        VH_EQ("identity-reply-agree", us::is_identity_reply(s), us::as_identity_reply_view(s).has_value(), c);
    VH_TRUE("sysex-unchanged", s.manufacturerID == mf && s.data.size() == n && std::equal(d.begin(), d.end(), s.data.begin()), c);
    VH_COUNT("sysex messages judged");
    nontrivial(hash_bytes(d.data(), d.size(), mf + 1));
    if (reply_head && want_sample()) sample("universal sysex " + c);
}

void vh_main()
{
    section("names", std::size(names::all), [](Rng&, u64 i) {
        const auto& n = names::all[i];
        op(n.name);
        VH_EQ("named-number", n.value, n.expected, string(n.name));
        VH_COUNT("names compared");
    }, false);
    section("all types, status and fourth bytes", 16 * 256 * 256, [](Rng& r, u64 i) {
        Pk p;
        for (auto& w : p.w) w = r.iw();
        p.w[0] = (p.w[0] & 0x0F000000) | u32(i / 65536) << 28 | u32(i % 65536) / 256 << 16 | u32(r.chance(1, 2) ? 0 : r.b()) << 8 | u32(i % 256);
        judge(p);
    }, false);
    section("all types, status and third bytes", 16 * 256 * 256, [](Rng& r, u64 i) {
        Pk p;
        for (auto& w : p.w) w = r.iw();
        p.w[0] = (p.w[0] & 0x0F000000) | u32(i / 65536) << 28 | u32(i % 65536) / 256 << 16 | u32(i % 256) << 8 | (r.chance(1, 2) ? u32(r.pick({ 0, 3, 7 })) : r.b());
        judge(p);
    }, false);
    section("random packets", 60000, [](Rng& r, u64) { judge(hostile_packet(r)); });
    section("universal sysex of every size", 4096, [](Rng& r, u64 i) { universal(r, 1000000000 + i); universal(r, 1000000000 + i); universal(r, 1000000000 + i); }, false);
    section("universal sysex", 40000, [](Rng& r, u64 i) { universal(r, i); });
}
