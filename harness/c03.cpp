// C03: MIDI-CI messages read back exactly as they were built.
#include "ci_views.h"
using namespace ci_ref;
using mc::message;
namespace pe = mc::property_exchange;

static VH_TLS u32 kinds_seen[64];

// the message equals the reference encoding, all views accept what they have to, all fields read back
static void judge(int kind, const message& m, const Bytes& e, int view, const char* what)
{
    op(what);
    auto c = [&] { return string(what) + " expected " + hexc(e) + " got " + hexc(bytes_of(m)); };
    if (u32(m.manufacturerID) != 0x7E0000) fail("manufacturer", "%s: %06X", what, u32(m.manufacturerID));
    const Bytes g = bytes_of(m);
    if (g != e)
    {
        size_t i = 0;
        while (i < g.size() && i < e.size() && g[i] == e[i]) ++i;
        fail("bytes", "%s: %zu bytes, expected %zu; first difference at %zu: %s / expected %s; message %s", what, g.size(), e.size(), i,
             i < g.size() ? hex(&g[i], std::min<size_t>(8, g.size() - i)).c_str() : "(end)", i < e.size() ? hex(&e[i], std::min<size_t>(8, e.size() - i)).c_str() : "(end)",
             hexc(g).c_str());
    }
    VH_TRUE("7bit", m.is_7bit() && m.is_valid(), c());
    VH_EQ("message-device", unsigned(m.device_id()), unsigned(e[0]), c());
    VH_EQ("message-type", unsigned(m.type()), 0x7E0Du, c());
    VH_EQ("message-subtype", unsigned(m.subtype()), unsigned(e[2]), c());
    VH_EQ("message-version", unsigned(m.message_version()), unsigned(e[3]), c());
    VH_EQ("message-source", u32(m.source_muid()), get28(e, 4), c());
    VH_EQ("message-destination", u32(m.destination_muid()), get28(e, 8), c());
    if (view >= 0 && !accepts(view, 0x7E0000, e)) fail("harness", "reference refuses its own encoding: %s", c().c_str());
    probe_all(m, e, 0x7E0000);
    nontrivial(hash_bytes(e.data(), e.size()));
    VH_COUNT("messages built");
    if (!kinds_seen[kind]++) VH_COUNT("constructor forms per shard");
    if (want_sample()) sample(string(what) + ": " + hexc(e));
}

static mc::profile_id prof(const Bytes& b) { return { b[0], b[1], b[2], b[3], b[4] }; }
static string text(Rng& r, size_t n) { string s(n, ' '); for (auto& c : s) c = char(r.b7()); return s; }
static string ident(Rng& r, size_t n) { string s(n, 'a'); for (auto& c : s) c = "abcXYZ059-_ .,:{}[]/"[r.below(20)]; return s; }

static void management(Rng& r)
{
    const u32 src = muid(r), dst = muid(r);
    const u8  dev = r.ib7();
    const Identity i = identity(r);
    const mc::identity_t id{ i.manufacturer, u16(i.family), u16(i.model), i.revision };
    const u8  cat = r.ib7(), path = r.ib7(), fb = r.ib7();
    const u32 ms = r.iw() & 0x0FFFFFFF;
    auto disc = [&](u8 st, u32 d, u8 ver) { Bytes e = header(st, src, d, 0x7F, ver); put(e, i); put7(e, cat); put28(e, ms); return e; };
    switch (r.below(13))
    {
    case 0: { auto e = disc(0x70, 0x0FFFFFFF, 2); put7(e, path); judge(0, mc::make_discovery_inquiry(src, id, cat, ms, path), e, v_disc_inq, "make_discovery_inquiry"); break; }
    case 1: { auto e = disc(0x70, 0x0FFFFFFF, 2); put7(e, 0); judge(1, mc::make_discovery_inquiry(src, id, cat, ms), e, v_disc_inq, "make_discovery_inquiry(default path)"); break; }
    case 2: judge(2, mc::make_discovery_inquiry_v1(src, id, cat, ms), disc(0x70, 0x0FFFFFFF, 1), v_disc_inq, "make_discovery_inquiry_v1"); break;
    case 3: { auto e = disc(0x71, dst, 2); put7(e, path); put7(e, fb); judge(3, mc::make_discovery_reply(src, dst, id, cat, ms, path, fb), e, v_disc_rep, "make_discovery_reply"); break; }
    case 4: { auto e = disc(0x71, dst, 2); put7(e, path); put7(e, 0x7F); judge(4, mc::make_discovery_reply(src, dst, id, cat, ms, path), e, v_disc_rep, "make_discovery_reply(default block)"); break; }
    case 5: judge(5, mc::make_discovery_reply_v1(src, dst, id, cat, ms), disc(0x71, dst, 1), v_disc_rep, "make_discovery_reply_v1"); break;
    case 6: { auto e = header(0x72, src, dst); put7(e, path); judge(6, mc::make_endpoint_information_inquiry(src, dst, path), e, v_ep_inq, "make_endpoint_information_inquiry"); break; }
    case 7:
    {
        auto data = r.bytes7(len(r));
        auto e = header(0x73, src, dst); put7(e, path); put14(e, u32(data.size())); put(e, data);
        judge(7, mc::make_endpoint_information_reply(src, dst, path, data.data(), data.size()), e, v_ep_rep, "make_endpoint_information_reply");
        break;
    }
    case 8:
    case 9:
    {
        const bool ack = r.chance(1, 2);
        const u8 tr = r.ib7();
        u8 det[5]; for (auto& b : det) b = r.b7();
        const string msg = text(r, len(r));
        auto e = header(ack ? 0x7D : 0x7F, src, dst, dev);
        for (u8 b : { tr, cat, path, det[0], det[1], det[2], det[3], det[4] }) e.push_back(b);
        put14(e, u32(msg.size())); put(e, msg);
        judge(ack ? 8 : 9, ack ? mc::make_ack_message(src, dst, dev, tr, cat, path, det, msg) : mc::make_nak_message(src, dst, dev, tr, cat, path, det, msg), e,
              ack ? v_ack : v_nak, ack ? "make_ack_message" : "make_nak_message");
        break;
    }
    case 10: judge(10, mc::make_nak_message_v1(src, dst, dev), header(0x7F, src, dst, dev, 1), -1, "make_nak_message_v1"); break;
    case 11:
    {
        // replies to a received message of any kind
        const Bytes q = generate(r, subtype(r), version(r));
        const auto sx = exact(0x7E0000, q);
        const auto v  = midi::as_capability_inquiry_view(sx);
        VH_TRUE("query-view", v.has_value(), show_ci(0x7E0000, q));
        judge(11, mc::make_nak_message_v1(*v), header(0x7F, get28(q, 8), get28(q, 4), q[0], 1), -1, "make_nak_message_v1(view)");
        u8 det[5]; for (auto& b : det) b = r.b7();
        const string msg = text(r, len(r));
        auto e = header(0x7F, get28(q, 8), get28(q, 4), q[0]);
        for (u8 b : { q[2], cat, path, det[0], det[1], det[2], det[3], det[4] }) e.push_back(b);
        put14(e, u32(msg.size())); put(e, msg);
        judge(12, mc::make_nak_message(*v, cat, path, det, msg), e, v_nak, "make_nak_message(view)");
        VH_COUNT("replies");
        break;
    }
    default: { auto e = header(0x7E, src, 0x0FFFFFFF); put28(e, dst); judge(13, mc::make_invalidate_muid_message(src, dst), e, v_invalidate, "make_invalidate_muid_message"); }
    }
}

static void profiles(Rng& r)
{
    const u32 src = muid(r), dst = muid(r);
    const bool def = r.chance(1, 4);
    const u8  dev = def ? 0x7F : r.ib7();
    const Bytes pb = r.bytes7(5);
    const auto p = prof(pb);
    const u32 ch = n14(r);
    const u8 tg = r.ib7();
    auto hd = [&](u8 st) { return header(st, src, dst, dev); };
    switch (r.below(13))
    {
    case 0: judge(14, def ? mc::make_profile_inquiry_message(src, dst) : mc::make_profile_inquiry_message(src, dst, dev), hd(0x20), v_prof_inq, "make_profile_inquiry_message"); break;
    case 1:
    case 2:
    {
        const auto ne = len(r, r.chance(1, 200) ? 16383 : 1500), nd = len(r, 1500);
        vector<mc::profile_id> en, di;
        auto e = hd(0x21);
        put14(e, u32(ne));
        for (size_t k = 0; k < ne; ++k) { auto b = r.bytes7(5); en.push_back(prof(b)); put(e, b); }
        put14(e, u32(nd));
        for (size_t k = 0; k < nd; ++k) { auto b = r.bytes7(5); di.push_back(prof(b)); put(e, b); }
        if (r.chance(1, 2))
            judge(15, def ? mc::make_profile_inquiry_reply(src, dst, en, di) : mc::make_profile_inquiry_reply(src, dst, en, di, dev), e, v_prof_inq_rep, "make_profile_inquiry_reply(vector)");
        else
            judge(16, def ? mc::make_profile_inquiry_reply(src, dst, en.data(), u16(ne), di.data(), u16(nd)) : mc::make_profile_inquiry_reply(src, dst, en.data(), u16(ne), di.data(), u16(nd), dev),
                  e, v_prof_inq_rep, "make_profile_inquiry_reply");
        if (ne + nd > 1000) VH_COUNT("large profile lists");
        break;
    }
    case 3: case 4: case 5: case 6:
    {
        const int k = int(r.below(4));
        // scope is the device id
        mc::profile_destination dest{ dev, u16(ch) };
        if (r.chance(1, 6)) dest = mc::group_profile;
        else if (r.chance(1, 6)) dest = mc::function_block_profile;
        else if (r.chance(1, 4)) dest = r.chance(1, 2) ? mc::channel_profile(u8(tg & 15)) : mc::channel_profile(u8(tg & 15), u16(ch));
        auto e = header(u8(0x22 + k), src, dst, dest.scope);
        put(e, pb); put14(e, k == 1 ? 0 : dest.num_channels);
        judge(17 + k, k == 0 ? mc::make_profile_on_request(src, dst, p, dest) : k == 1 ? mc::make_profile_off_request(src, dst, p, dest)
                    : k == 2 ? mc::make_profile_enabled_notification(src, dst, p, dest) : mc::make_profile_disabled_notification(src, dst, p, dest),
              e, v_prof_dest, k == 0 ? "make_profile_on_request" : k == 1 ? "make_profile_off_request" : k == 2 ? "make_profile_enabled_notification" : "make_profile_disabled_notification");
        break;
    }
    case 7: { auto e = hd(0x26); put(e, pb); judge(21, def ? mc::make_profile_added_notification(src, dst, p) : mc::make_profile_added_notification(src, dst, p, dev), e, v_prof_id, "make_profile_added_notification"); break; }
    case 8: { auto e = hd(0x27); put(e, pb); judge(22, def ? mc::make_profile_removed_notification(src, dst, p) : mc::make_profile_removed_notification(src, dst, p, dev), e, v_prof_id, "make_profile_removed_notification"); break; }
    case 9: { auto e = hd(0x28); put(e, pb); put7(e, tg); judge(23, def ? mc::make_profile_details_inquiry(src, dst, p, tg) : mc::make_profile_details_inquiry(src, dst, p, tg, dev), e, v_details_inq, "make_profile_details_inquiry"); break; }
    case 10:
    {
        const auto data = r.bytes7(len(r));
        auto e = hd(0x29); put(e, pb); put7(e, tg); put14(e, u32(data.size())); put(e, data);
        judge(24, def ? mc::make_profile_details_reply(src, dst, p, tg, data.data(), data.size()) : mc::make_profile_details_reply(src, dst, p, tg, data.data(), data.size(), dev),
              e, v_details_rep, "make_profile_details_reply");
        break;
    }
    default:
    {
        const auto data = r.bytes7(r.chance(1, 20) ? 16380 + r.below(r.chance(1, 20) ? 2200000 : 20000) : len(r));
        auto e = hd(0x2F); put(e, pb); put28(e, u32(data.size())); put(e, data);
        if (data.size() > 16383) VH_COUNT("profile data over 16383 bytes");
        if (data.size() > 2097151) VH_COUNT("profile data over 2097151 bytes");
        if (r.chance(1, 2))
            judge(25, def ? mc::make_profile_specific_data_message(src, dst, p, data) : mc::make_profile_specific_data_message(src, dst, p, data, dev), e, v_specific, "make_profile_specific_data_message(vector)");
        else
            judge(26, def ? mc::make_profile_specific_data_message(src, dst, p, data.data(), data.size()) : mc::make_profile_specific_data_message(src, dst, p, data.data(), data.size(), dev),
                  e, v_specific, "make_profile_specific_data_message");
    }
    }
}

static pe::chunk chunk_of(Rng& r, const Bytes& b, const string& s)
{
    switch (r.below(5))
    {
    case 0: return pe::chunk(b.data(), b.size());
    case 1: return pe::chunk(b);
    case 2: return pe::chunk(s);
    case 3: return pe::chunk(std::string_view(s));
    default: return pe::chunk(s.data(), s.size());
    }
}

static void exchange(Rng& r)
{
    const u32 src = muid(r), dst = muid(r);
    const int defs = int(r.below(3)); // trailing default arguments
    const u8  dev = defs >= 1 ? 0x7F : r.ib7();
    const u8  rid = defs >= 2 ? 0 : r.ib7();
    // header only with the first chunk, data only in numbered chunks
    const bool with_header = r.chance(1, 2);
    u32 n, cur;
    if (with_header) { n = r.chance(1, 4) ? 0 : std::max<u32>(1, n14(r)); cur = r.chance(7, 8) ? 1 : 0; }
    else { cur = n14(r); n = r.chance(1, 4) ? 0 : u32(r.range(cur, 16383)); }
    const Bytes  cb = cur ? r.bytes7(len(r)) : Bytes();
    const string cs(cb.begin(), cb.end());
    const auto   ch = !cur || (cb.empty() && r.chance(1, 2)) ? pe::chunk() : chunk_of(r, cb, cs);
    VH_EQ("chunk-size", ch.size, cb.size());
    VH_TRUE("chunk-content", ch.as_string_view() == std::string_view(cs));
    const string res = ident(r, len(r, 200)), cmd = ident(r, r.below(12)) + "c", sub = ident(r, 1 + r.below(8)) + "x", msg = ident(r, len(r, 300)) + "m";
    const int st = int(r.chance(1, 2) ? r.pick({ 200, 202, 341, 342, 343, 400, 403, 404, 405, 408, 413, 415, 445, 500 }) : r.w());
    auto enc = [&](u8 s, const string& h, u32 nn, u32 cc, const Bytes& c) {
        auto e = header(s, src, dst, dev);
        put7(e, rid); put14(e, u32(h.size())); put(e, h); put14(e, nn); put14(e, cc); put14(e, u32(c.size())); put(e, c);
        return e;
    };
    const string rh = "{\"resource\":\"" + res + "\"}";
    const string ro = "{\"resource\":\"" + res + "\",\"k\":\"" + msg + "\",\"limit\":" + std::to_string(n) + "}";
    const string nums = std::to_string(n);
    const pe::header_options opts{ { "k", msg }, { "limit", nums } };
    const string sh = "{\"status\":" + std::to_string(st) + "}";
    const string sm = "{\"status\":" + std::to_string(st) + ",\"message\":\"" + msg + "\"}";
    const string su = "{\"resource\":\"" + res + "\",\"command\":\"" + cmd + "\",\"subscribeId\":\"" + sub + "\"}";
    const auto bad = su.size() > 16383 || rh.size() > 16383 || ro.size() > 16383 || sm.size() > 16383;
    if (bad) return;
#define DEF3(call, ...) (defs == 0 ? call(__VA_ARGS__, rid, dev) : defs == 1 ? call(__VA_ARGS__, rid) : call(__VA_ARGS__))
    if (r.chance(1, 6))
    {
        const u8 k = r.ib7();
        const bool d1 = r.chance(1, 4), inq = r.chance(1, 2);
        const u8 dv = d1 ? 0x7F : r.ib7();
        auto e = header(inq ? 0x30 : 0x31, src, dst, dv); put7(e, k); put7(e, 0); put7(e, 0);
        if (inq) judge(27, d1 ? mc::make_property_exchange_capabilities_inquiry(src, dst, k) : mc::make_property_exchange_capabilities_inquiry(src, dst, k, dv), e, v_pe_caps, "make_property_exchange_capabilities_inquiry");
        else judge(28, d1 ? mc::make_property_exchange_capabilities_reply(src, dst, k) : mc::make_property_exchange_capabilities_reply(src, dst, k, dv), e, v_pe_caps, "make_property_exchange_capabilities_reply");
        return;
    }
    switch (with_header ? r.below(18) : 18 + r.below(5))
    {
    case 0: case 1: judge(29, DEF3(mc::make_get_property_data_inquiry, src, dst, res), enc(0x34, rh, 1, 1, {}), v_pe_get, "make_get_property_data_inquiry"); break;
    case 2: judge(30, DEF3(mc::make_get_property_data_inquiry, src, dst, res, opts), enc(0x34, ro, 1, 1, {}), v_pe_get, "make_get_property_data_inquiry(options)"); break;
    case 3:
    case 4:
    {
        const Bytes hb = r.bytes7(len(r));
        const string hs(hb.begin(), hb.end());
        if (hb.size() && cur > 1) return;
        judge(31, DEF3(mc::make_get_property_data_reply, src, dst, pe::header(hb.data(), hb.size()), u16(n), u16(cur), ch), enc(0x35, hs, n, cur, cb), v_pe_get, "make_get_property_data_reply(header)");
        break;
    }
    case 5: judge(32, DEF3(mc::make_get_property_data_reply, src, dst, st, u16(n), u16(cur), ch), enc(0x35, sh, n, cur, cb), v_pe_get, "make_get_property_data_reply(status)"); break;
    case 6: judge(33, DEF3(mc::make_get_property_data_reply, src, dst, st, std::string_view(msg), u16(n), u16(cur), ch), enc(0x35, sm, n, cur, cb), v_pe_get, "make_get_property_data_reply(status, message)"); break;
    case 7: judge(34, DEF3(mc::make_set_property_data_inquiry, src, dst, std::string_view(res), u16(n), u16(cur), ch), enc(0x36, rh, n, cur, cb), v_pe_set, "make_set_property_data_inquiry(resource)"); break;
    case 8: judge(35, DEF3(mc::make_set_property_data_inquiry, src, dst, std::string_view(res), opts, u16(n), u16(cur), ch), enc(0x36, ro, n, cur, cb), v_pe_set, "make_set_property_data_inquiry(options)"); break;
    case 9: judge(36, DEF3(mc::make_set_property_data_reply, src, dst, st), enc(0x37, sh, 1, 1, {}), v_pe_set, "make_set_property_data_reply"); break;
    case 10: judge(37, DEF3(mc::make_set_property_data_reply, src, dst, st, std::string_view(msg)), enc(0x37, sm, 1, 1, {}), v_pe_set, "make_set_property_data_reply(message)"); break;
    case 11: judge(38, DEF3(mc::make_subscription_inquiry, src, dst, std::string_view(res), std::string_view(cmd), std::string_view(sub)), enc(0x38, su, 0, 0, {}), v_pe_sub, "make_subscription_inquiry"); break;
    case 12: judge(39, DEF3(mc::make_subscription_inquiry, src, dst, std::string_view(res), std::string_view(cmd), std::string_view(sub), u16(n), u16(cur), ch), enc(0x38, su, n, cur, cb), v_pe_sub, "make_subscription_inquiry(chunk)"); break;
    case 13: judge(40, DEF3(mc::make_subscription_reply, src, dst, st), enc(0x39, sh, 1, 1, {}), v_pe_sub, "make_subscription_reply"); break;
    case 14: judge(41, DEF3(mc::make_subscription_reply, src, dst, st, std::string_view(msg)), enc(0x39, sm, 1, 1, {}), v_pe_sub, "make_subscription_reply(message)"); break;
    case 15: judge(42, DEF3(mc::make_notify_message, src, dst, st), enc(0x3F, sh, 1, 1, {}), v_pe_notify, "make_notify_message"); break;
    case 16: judge(43, DEF3(mc::make_notify_message, src, dst, st, std::string_view(msg)), enc(0x3F, sm, 1, 1, {}), v_pe_notify, "make_notify_message(message)"); break;
    case 17:
    {
        const u8 s = r.pick<u8>({ 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3F });
        const string hs = text(r, len(r));
        if (hs.size() && cur > 1) return;
        judge(44, DEF3(pe::make_property_data_message, s, src, dst, pe::header(hs), u16(n), u16(cur), ch), enc(s, hs, n, cur, cb), v_pe_any, "make_property_data_message");
        break;
    }
    case 18: judge(45, DEF3(mc::make_get_property_data_reply, src, dst, u16(n), u16(cur), ch), enc(0x35, "", n, cur, cb), v_pe_get, "make_get_property_data_reply(chunk)"); break;
    case 19: judge(46, DEF3(mc::make_set_property_data_inquiry, src, dst, u16(n), u16(cur), ch), enc(0x36, "", n, cur, cb), v_pe_set, "make_set_property_data_inquiry(chunk)"); break;
    case 20: judge(47, DEF3(mc::make_subscription_inquiry, src, dst, u16(n), u16(cur), ch), enc(0x38, "", n, cur, cb), v_pe_sub, "make_subscription_inquiry(chunk only)"); break;
    default:
    {
        const u8 s = r.pick<u8>({ 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3F });
        judge(48, DEF3(pe::make_property_data_message, s, src, dst, pe::header(), u16(n), u16(cur), ch), enc(s, "", n, cur, cb), v_pe_any, "make_property_data_message(no header)");
    }
    }
    VH_COUNT("property exchange messages");
    if (cb.size() > 8191) VH_COUNT("chunks over 8191 bytes");
}

static void process(Rng& r)
{
    const u32 src = muid(r), dst = muid(r);
    const bool def = r.chance(1, 4);
    const u8  dev = def ? 0x7F : r.ib7();
    const u8 a = r.ib7(), b = r.ib7(), c = r.ib7(), d = r.ib7();
    switch (r.below(5))
    {
    case 0: judge(49, def ? mc::make_process_inquiry_capabilities_inquiry(src, dst) : mc::make_process_inquiry_capabilities_inquiry(src, dst, dev), header(0x40, src, dst, dev), v_ci, "make_process_inquiry_capabilities_inquiry"); break;
    case 1: { auto e = header(0x41, src, dst, dev); put7(e, a); judge(50, def ? mc::make_process_inquiry_capabilities_reply(src, dst, a) : mc::make_process_inquiry_capabilities_reply(src, dst, a, dev), e, v_proc_rep, "make_process_inquiry_capabilities_reply"); break; }
    case 2:
    {
        auto e = header(0x42, src, dst, dev); for (u8 x : { a, b, u8(0), c, d }) e.push_back(x);
        judge(51, def ? mc::make_midi_message_report_inquiry(src, dst, a, b, c, d) : mc::make_midi_message_report_inquiry(src, dst, a, b, c, d, dev), e, v_report_inq, "make_midi_message_report_inquiry");
        break;
    }
    case 3:
    {
        auto e = header(0x43, src, 0x0FFFFFFF, dev); for (u8 x : { b, u8(0), c, d }) e.push_back(x);
        judge(52, def ? mc::make_midi_message_report_reply(src, b, c, d) : mc::make_midi_message_report_reply(src, b, c, d, dev), e, v_report_rep, "make_midi_message_report_reply");
        break;
    }
    default: judge(53, def ? mc::make_midi_message_report_end(src) : mc::make_midi_message_report_end(src, dev), header(0x44, src, 0x0FFFFFFF, dev), v_ci, "make_midi_message_report_end");
    }
}

// plain messages and edits of the address fields
static void plain(Rng& r)
{
    u32 src = muid(r), dst = muid(r);
    u8 dev = r.ib7();
    const u8 st = r.ib7();
    const bool def = r.chance(1, 4);
    if (def) dev = 0x7F;
    auto pay = r.bytes7(r.chance(1, 2) ? 0 : r.below(30));
    message m = pay.empty() ? (def ? message(st, src, dst) : message(st, src, dst, dev))
                            : (def ? message::make_with_payload_size(pay.size(), st, src, dst) : message::make_with_payload_size(r.below(40), st, src, dst, dev));
    if (pay.size()) m.add_data(pay.data(), pay.size());
    for (auto k = r.below(6); k; --k)
        switch (r.below(3))
        {
        case 0: op("set_source_muid"); m.set_source_muid(src = muid(r)); break;
        case 1: op("set_destination_muid"); m.set_destination_muid(dst = muid(r)); break;
        default: op("set_device_id"); m.set_device_id(dev = r.ib7());
        }
    auto e = header(st, src, dst, dev);
    put(e, pay);
    op("message");
    if (bytes_of(m) != e) fail("bytes", "message(subtype %02X): %s, expected %s", st, hexc(bytes_of(m)).c_str(), hexc(e).c_str());
    VH_EQ("message-source", u32(m.source_muid()), src);
    VH_EQ("message-destination", u32(m.destination_muid()), dst);
    VH_EQ("message-device", unsigned(m.device_id()), unsigned(dev));
    probe_all(m, e, 0x7E0000);
    VH_COUNT("address edits");
    nontrivial(hash_bytes(e.data(), e.size()));
}

static void values(Rng& r)
{
    const Bytes a = r.bytes7(5);
    Bytes b = a;
    if (r.chance(3, 4)) b[r.below(5)] ^= u8(1u << r.below(7));
    VH_EQ("profile-id-equality", prof(a) == prof(b), a == b, hexc(a) + " " + hexc(b));
    mc::profile_destination p{ r.ib7(), u16(n14(r)) }, q = p;
    const auto k = r.below(3);
    if (k == 0) q.scope ^= u8(1u << r.below(7));
    if (k == 1) q.num_channels ^= u16(1u << r.below(14));
    VH_EQ("profile-destination-equality", p == q, k == 2);
    const u8 first = u8(r.below(16));
    const u16 cnt = u16(n14(r));
    VH_TRUE("profile-destination-names", mc::group_profile.scope == 0x7E && mc::group_profile.num_channels == 0 && mc::function_block_profile.scope == 0x7F && mc::function_block_profile.num_channels == 0 &&
                                           mc::channel_profile(first).scope == first && mc::channel_profile(first).num_channels == 1 && mc::channel_profile(first, cnt).num_channels == cnt, show(first) + " " + show(cnt));
    const mc::profile_destination d0{};
    const mc::profile_id i0{};
    VH_TRUE("profile-defaults", d0.scope == 0x7F && d0.num_channels == 0 && i0.byte1 == 0x7E && i0.byte2 == 0 && i0.byte3 == 0 && i0.byte4 == 0 && i0.byte5 == 0);
    VH_COUNT("profile comparisons");
}

void vh_main()
{
    section("management", 6000, [](Rng& r, u64) { management(r); });
    section("profiles", 4000, [](Rng& r, u64) { profiles(r); });
    section("property exchange", 6000, [](Rng& r, u64) { exchange(r); });
    section("process inquiry", 2000, [](Rng& r, u64) { process(r); });
    section("plain messages", 3000, [](Rng& r, u64) { plain(r); });
    section("profile values", 2000, [](Rng& r, u64) { values(r); });
    // data of every size to 4095 and around the 14 bit boundary, all numbers of channels
    section("data sizes", 4096 + 130, [](Rng& r, u64 i) {
        const size_t n = i < 4096 ? i : i < 4116 ? 16383 - (i - 4096) : 4096 + (i - 4116) * 107;
        const u32 src = muid(r), dst = muid(r);
        const u8 dev = r.ib7();
        const auto data = r.bytes7(n);
        const string s(data.begin(), data.end());
        u8 det[5] = { 1, 2, 3, 4, 5 };
        { auto e = header(0x73, src, dst); put7(e, 0); put14(e, u32(n)); put(e, data); judge(7, mc::make_endpoint_information_reply(src, dst, 0, data.data(), n), e, v_ep_rep, "make_endpoint_information_reply"); }
        for (int ack = 0; ack < 2; ++ack)
        {
            auto e = header(ack ? 0x7D : 0x7F, src, dst, dev); for (u8 b : { 0x34, 1, 2, 1, 2, 3, 4, 5 }) e.push_back(b);
            put14(e, u32(n)); put(e, data);
            judge(8 + !ack, ack ? mc::make_ack_message(src, dst, dev, 0x34, 1, 2, det, s) : mc::make_nak_message(src, dst, dev, 0x34, 1, 2, det, s), e, ack ? v_ack : v_nak, "make_(n)ack_message");
        }
        const auto pb = r.bytes7(5);
        { auto e = header(0x29, src, dst, dev); put(e, pb); put7(e, 9); put14(e, u32(n)); put(e, data); judge(24, mc::make_profile_details_reply(src, dst, prof(pb), 9, data.data(), n, dev), e, v_details_rep, "make_profile_details_reply"); }
        { auto e = header(0x2F, src, dst, dev); put(e, pb); put28(e, u32(n)); put(e, data); judge(25, mc::make_profile_specific_data_message(src, dst, prof(pb), data, dev), e, v_specific, "make_profile_specific_data_message"); }
        { auto e = header(0x35, src, dst, dev); put7(e, 3); put14(e, u32(n)); put(e, data); put14(e, 1); put14(e, 1); put14(e, u32(n)); put(e, data);
          judge(31, mc::make_get_property_data_reply(src, dst, pe::header(s), 1, 1, pe::chunk(data), 3, dev), e, v_pe_get, "make_get_property_data_reply"); }
        if (n < 4096 || i % 8 == 0)
        {
            vector<mc::profile_id> ids[2];
            auto e = header(0x21, src, dst, dev);
            const size_t other = r.below(4);
            const bool   first = i & 1;
            for (int k = 0; k < 2; ++k)
            {
                const size_t c = (k == 0) == first ? n : other;
                put14(e, u32(c));
                for (size_t x = 0; x < c; ++x) { const auto b = r.bytes7(5); ids[k].push_back(prof(b)); put(e, b); }
            }
            judge(15, mc::make_profile_inquiry_reply(src, dst, ids[0], ids[1], dev), e, v_prof_inq_rep, "make_profile_inquiry_reply(vector)");
        }
        for (u64 c = i * 4; c < 16384 && c < i * 4 + 4; ++c)
        {
            auto e = header(0x22, src, dst, dev); put(e, pb); put14(e, u32(c));
            judge(17, mc::make_profile_on_request(src, dst, prof(pb), mc::profile_destination{ dev, u16(c) }), e, v_prof_dest, "make_profile_on_request");
        }
        VH_COUNT("data sizes");
    }, false);
    section("huge profile data", 6, [](Rng& r, u64 i) {
        static const size_t sizes[] = { 16383, 16384, 16385, 2097151, 2097152, 2300001 };
        const u32 src = muid(r), dst = muid(r);
        const auto pb = r.bytes7(5);
        const auto data = r.bytes7(sizes[i]);
        auto e = header(0x2F, src, dst); put(e, pb); put28(e, u32(data.size())); put(e, data);
        judge(25, mc::make_profile_specific_data_message(src, dst, prof(pb), data), e, v_specific, "make_profile_specific_data_message(vector)");
        judge(26, mc::make_profile_specific_data_message(src, dst, prof(pb), data.data(), data.size()), e, v_specific, "make_profile_specific_data_message");
        if (data.size() > 16383) VH_COUNT("profile data over 16383 bytes");
        if (data.size() > 2097151) VH_COUNT("profile data over 2097151 bytes");
    }, false);
}
