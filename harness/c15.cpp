// C15: stream messages and multi-packet names read back as built
#include "ref.h"
#include <midi/stream_message.h>
using namespace ref;
namespace m = midi;

static Pk pk(u32 st, u32 fmt = 0) { Pk p; p.w[0] = 0xF0000000u | fmt << 26 | st << 16; return p; }

template<typename P> static m::universal_packet layout(const char* key, const P& p, const Pk& e, const string& ctx)
{
    VH_EQ(key, raw(p), e, ctx);
    VH_EQ("format", unsigned(p.format()), unsigned((e.w[0] >> 26) & 3), ctx);
    const m::universal_packet u = p;
    VH_TRUE("is-stream", m::is_stream_message(u), ctx);
    VH_EQ("status", unsigned(u.status()), unsigned(e.byte(1)), ctx);
    VH_EQ("size", size_t(u.size()), size_t(4), ctx);
    VH_COUNT("built messages compared");
    nontrivial(hash_bytes(e.w, sizeof e.w));
    // exactly one view is offered
    const int n = !!m::as_endpoint_discovery_view(u) + !!m::as_endpoint_info_view(u) + !!m::as_device_identity_view(u) + !!m::as_endpoint_name_view(u) +
                  !!m::as_product_instance_id_view(u) + !!m::as_stream_configuration_view(u) + !!m::as_function_block_discovery_view(u) +
                  !!m::as_function_block_info_view(u) + !!m::as_function_block_name_view(u);
    VH_EQ("views-offered", n, 1, ctx);
    return u;
}

static void fixed_messages(Rng& r)
{
    const u8 major = r.ib(), minor = r.ib();
    {
        op("endpoint discovery");
        const u8 f = u8(r.below(32));
        const string c = "filter=" + show(f) + " version=" + show(major) + "." + show(minor);
        Pk e = pk(0x00); e.set(2, major); e.set(3, minor); e.set(7, f);
        auto u = layout("endpoint-discovery", m::make_endpoint_discovery_message(f, major, minor), e, c);
        auto v = m::as_endpoint_discovery_view(u);
        VH_TRUE("view", v.has_value(), c);
        VH_EQ("discovery-major", unsigned(v->ump_version_major()), unsigned(major), c);
        VH_EQ("discovery-minor", unsigned(v->ump_version_minor()), unsigned(minor), c);
        VH_EQ("discovery-version", unsigned(v->ump_version()), unsigned(major << 8 | minor), c);
        VH_EQ("discovery-filter", unsigned(v->filter()), unsigned(f), c);
        VH_EQ("discovery-info", v->requests_info(), bool(f & 1), c);
        VH_EQ("discovery-identity", v->requests_device_identity(), bool(f & 2), c);
        VH_EQ("discovery-name", v->requests_name(), bool(f & 4), c);
        VH_EQ("discovery-product", v->requests_product_instance_id(), bool(f & 8), c);
        VH_EQ("discovery-config", v->requests_stream_configuration(), bool(f & 16), c);
        e.set(2, 1); e.set(3, 1);
        layout("endpoint-discovery-default", m::make_endpoint_discovery_message(f), e, c);
    }
    {
        op("endpoint info");
        const u8   n = u8(r.chance(3, 4) ? r.below(33) : r.below(128)), pr = u8(r.below(4)), ex = u8(r.below(4));
        const bool st = r.chance(1, 2);
        const string c = "blocks=" + show(n) + " static=" + show(st) + " protocols=" + show(pr) + " ext=" + show(ex) + " version=" + show(major) + "." + show(minor);
        Pk e = pk(0x01); e.set(2, major); e.set(3, minor); e.set(4, u8(st << 7 | n)); e.set(6, pr); e.set(7, ex);
        auto u = layout("endpoint-info", m::make_endpoint_info_message(n, st, pr, ex, major, minor), e, c);
        auto v = m::as_endpoint_info_view(u);
        VH_TRUE("view", v.has_value(), c);
        VH_EQ("info-major", unsigned(v->ump_version_major()), unsigned(major), c);
        VH_EQ("info-minor", unsigned(v->ump_version_minor()), unsigned(minor), c);
        VH_EQ("info-version", unsigned(v->ump_version()), unsigned(major << 8 | minor), c);
        VH_EQ("info-blocks", unsigned(v->num_function_blocks()), unsigned(n), c);
        VH_EQ("info-static", v->static_function_blocks(), st, c);
        VH_EQ("info-protocols", unsigned(v->protocols()), unsigned(pr), c);
        VH_EQ("info-extensions", unsigned(v->extensions()), unsigned(ex), c);
        e.set(2, 1); e.set(3, 1);
        layout("endpoint-info-default", m::make_endpoint_info_message(n, st, pr, ex), e, c);
    }
    {
        op("device identity");
        const u32 mf = mfr(r), fa = r.iw() & 0x3FFF, mo = r.iw() & 0x3FFF, re = r.iw() & 0xFFFFFFF;
        const string c = "manufacturer=" + show(mf) + " family=" + show(fa) + " model=" + show(mo) + " revision=" + show(re);
        Pk e = pk(0x02);
        e.set(5, u8(mf >> 16)); e.set(6, u8(mf >> 8)); e.set(7, u8(mf));
        e.set(8, fa & 0x7F); e.set(9, fa >> 7); e.set(10, mo & 0x7F); e.set(11, mo >> 7);
        for (int i = 0; i < 4; ++i) e.set(12 + i, (re >> (7 * i)) & 0x7F);
        const m::device_identity id{ mf, m::uint14_t(fa), m::uint14_t(mo), re };
        auto u = layout("device-identity", m::make_device_identity_message(id), e, c);
        auto v = m::as_device_identity_view(u);
        VH_TRUE("view", v.has_value(), c);
        const auto o = v->identity();
        VH_EQ("identity-manufacturer", u32(o.manufacturer), mf, c);
        VH_EQ("identity-family", u32(o.family), fa, c);
        VH_EQ("identity-model", u32(o.model), mo, c);
        VH_EQ("identity-revision", u32(o.revision), re, c);
    }
    for (int req = 0; req < 2; ++req)
    {
        op("stream configuration");
        const u8 p = u8(r.range(1, 2)), x = u8(r.below(4));
        const string c = "protocol=" + show(p) + " extensions=" + show(x) + (req ? " request" : " notify");
        Pk e = pk(req ? 0x05 : 0x06); e.set(2, p); e.set(3, x);
        auto u = layout("stream-configuration", req ? m::make_stream_configuration_request(p, x) : m::make_stream_configuration_notification(p, x), e, c);
        auto v = m::as_stream_configuration_view(u);
        VH_TRUE("view", v.has_value(), c);
        VH_EQ("config-protocol", unsigned(v->protocol()), unsigned(p), c);
        VH_EQ("config-extensions", unsigned(v->extensions()), unsigned(x), c);
        e.set(3, 0);
        layout("stream-configuration-default", req ? m::make_stream_configuration_request(p) : m::make_stream_configuration_notification(p), e, c);
    }
    {
        op("function block discovery");
        const u8 b = r.chance(1, 3) ? 0xFF : u8(r.below(32)), f = u8(r.below(16));
        const string c = "block=" + show(b) + " filter=" + show(f);
        Pk e = pk(0x10); e.set(2, b); e.set(3, f);
        auto u = layout("fb-discovery", m::make_function_block_discovery_message(b, f), e, c);
        auto v = m::as_function_block_discovery_view(u);
        VH_TRUE("view", v.has_value(), c);
        VH_EQ("fb-discovery-block", unsigned(v->function_block()), unsigned(b), c);
        VH_EQ("fb-discovery-filter", unsigned(v->filter()), unsigned(f), c);
        VH_EQ("fb-discovery-info", v->requests_info(), bool(f & 1), c);
        VH_EQ("fb-discovery-name", v->requests_name(), bool(f & 2), c);
        for (unsigned i = 0; i < 32; ++i) VH_EQ("fb-discovery-requests", v->requests_function_block(u8(i)), b == 0xFF || b == i, c + " asked " + show(i));
    }
    {
        op("function block info");
        m::function_block_options o;
        const u8 b = u8(r.below(32)), g = u8(r.below(16)), n = u8(r.chance(1, 3) ? r.pick({ 1, 15, 16 }) : int(r.range(1, 16)));
        const u8 dir = u8(r.range(1, 3));
        o.active = r.chance(1, 2); o.direction = dir; o.midi1 = u8(r.below(3)); o.ci_message_version = r.ib7(); o.max_num_sysex8_streams = r.ib();
        do o.ui_hint = u8(r.below(4)); while (o.ui_hint && !(o.ui_hint & dir));
        const u8     hint = o.ui_hint ? o.ui_hint : dir;
        const string c = "block=" + show(b) + " active=" + show(o.active) + " direction=" + show(dir) + " midi1=" + show(o.midi1) + " hint=" + show(o.ui_hint) + " first=" + show(g) + " groups=" + show(n) +
                         " ci=" + show(o.ci_message_version) + " sysex8=" + show(o.max_num_sysex8_streams);
        Pk e = pk(0x11);
        e.set(2, u8(o.active << 7 | b)); e.set(3, u8(hint << 4 | o.midi1 << 2 | dir)); e.set(4, g); e.set(5, n); e.set(6, o.ci_message_version); e.set(7, o.max_num_sysex8_streams);
        auto u = layout("fb-info", m::make_function_block_info_message(b, o, g, n), e, c);
        auto v = m::as_function_block_info_view(u);
        VH_TRUE("view", v.has_value(), c);
        VH_EQ("fb-info-active", v->active(), o.active, c);
        VH_EQ("fb-info-block", unsigned(v->function_block()), unsigned(b), c);
        VH_EQ("fb-info-direction", unsigned(v->direction()), unsigned(dir), c);
        VH_EQ("fb-info-midi1", unsigned(v->midi1()), unsigned(o.midi1), c);
        VH_EQ("fb-info-hint", unsigned(v->ui_hint()), unsigned(hint), c);
        VH_EQ("fb-info-first", unsigned(v->first_group()), unsigned(g), c);
        VH_EQ("fb-info-groups", unsigned(v->num_groups_spanned()), unsigned(n), c);
        VH_EQ("fb-info-ci", unsigned(v->ci_message_version()), unsigned(o.ci_message_version), c);
        VH_EQ("fb-info-sysex8", unsigned(v->max_num_sysex8_streams()), unsigned(o.max_num_sysex8_streams), c);
        Pk d = e; d.set(5, 1);
        layout("fb-info-default-groups", m::make_function_block_info_message(b, o, g), d, c);
        Pk s = pk(0x11);
        s.set(2, u8(0x80 | b)); s.set(3, u8(dir << 4 | dir)); s.set(4, g); s.set(5, n);
        auto u2 = layout("fb-info-direction-only", m::make_function_block_info_message(b, m::uint2_t(dir), g, n), s, c);
        auto v2 = m::as_function_block_info_view(u2);
        VH_TRUE("view", v2 && v2->active() && v2->direction() == dir && v2->midi1() == 0 && v2->num_groups_spanned() == n, c);
        VH_COUNT("function block infos");
        if (n == 16) VH_COUNT("function blocks spanning 16 groups");
    }
    {
        op("plain stream messages");
        const u8 st = r.ib(), f = u8(r.below(4));
        Pk       e; e.w[0] = 0xF0000000u;
        VH_EQ("stream-default", raw(m::stream_message{}), e, "default");
        e.w[0] |= u32(st) << 16;
        VH_EQ("stream-status", raw(m::stream_message(st)), e, "status " + show(st));
        e.w[0] |= u32(f) << 26;
        VH_EQ("stream-format", raw(m::stream_message(st, m::packet_format(f))), e, "status " + show(st) + " format " + show(f));
    }
    {
        op("set_format");
        m::stream_message s(r.ib(), m::packet_format(r.below(4)));
        for (int i = 0; i < 4; ++i) s.data[i] = (i ? r.iw() : (s.data[0] & 0xFFFF0000u) | (r.iw() & 0xFFFF));
        Pk       e = raw(s);
        const u8 f = u8(r.below(4));
        s.set_format(m::packet_format(f));
        e.w[0] = (e.w[0] & ~0x0C000000u) | u32(f) << 26;
        VH_EQ("set-format", raw(s), e, "format " + show(f));
        VH_EQ("get-format", unsigned(s.format()), unsigned(f), show(e));
    }
}

static string text(Rng& r, size_t n, bool utf8)
{
    string s;
    const unsigned mode = unsigned(r.below(4));
    while (s.size() < n)
    {
        const size_t left = n - s.size();
        if (!utf8 || mode == 0 || (mode == 1 && r.chance(2, 3))) s += char(r.range(0x20, 0x7E));
        else if (mode == 3) s += char(r.range(1, 0xFF)); // any non-zero bytes
        else if (left >= 4 && r.chance(1, 3)) { s += "\xF0\x9F\x8E"; s += char(0x80 + r.below(64)); }
        else if (left >= 3 && r.chance(1, 2)) { s += "\xE2\x99"; s += char(0x80 + r.below(64)); }
        else if (left >= 2) { s += char(0xC3); s += char(0x80 + r.below(64)); }
        else s += 'x';
    }
    return s;
}

enum Kind { endpoint, product, block };

// monitor of a sequence of name packets
static void names(Rng& r, Kind k, size_t len)
{
    const string t  = text(r, len, k != product);
    const u8     fb = u8(r.below(32));
    const string c  = string(k == endpoint ? "endpoint name " : k == product ? "product instance id " : "function block name ") + show(t) + " length " + show(len);
    const size_t cap = k == block ? 13 : 14, off = k == block ? 3 : 2;
    const u32    st  = k == endpoint ? 0x03 : k == product ? 0x04 : 0x12;
    vector<m::universal_packet> got;
    // an exactly sized, not zero terminated copy: reading past its end is caught by ASan
    std::vector<char> buf(t.begin(), t.end());
    std::string_view  sv(buf.data(), buf.size());
    op("send name");
    auto send = [&](const m::universal_packet& p) { got.push_back(p); };
    if (k == endpoint) m::send_endpoint_name(sv, send);
    else if (k == product) m::send_product_instance_id(sv, send);
    else m::send_function_block_name(fb, sv, send);

    const size_t np = len <= cap ? 1 : (len + cap - 1) / cap;
    VH_EQ("name-packet-count", got.size(), np, c);
    string joined;
    for (size_t i = 0; i < np; ++i)
    {
        const u32 fmt = np == 1 ? 0 : i == 0 ? 1 : i + 1 == np ? 3 : 2;
        Pk        e   = pk(st, fmt);
        if (k == block) e.set(2, fb);
        for (size_t j = 0; j < cap && i * cap + j < len; ++j) e.set(unsigned(off + j), u8(t[i * cap + j]));
        VH_EQ("name-packet", raw(got[i]), e, c + " packet " + show(i));
        string    p;
        unsigned  f = 9;
        op("name view");
        if (k == endpoint)
        {
            auto v = m::as_endpoint_name_view(got[i]);
            VH_TRUE("view", v.has_value(), c);
            p = v->payload(); f = unsigned(v->format());
        }
        else if (k == product)
        {
            auto v = m::as_product_instance_id_view(got[i]);
            VH_TRUE("view", v.has_value(), c);
            p = v->payload(); f = unsigned(v->format());
        }
        else
        {
            auto v = m::as_function_block_name_view(got[i]);
            VH_TRUE("view", v.has_value(), c);
            p = v->payload(); f = unsigned(v->format());
            VH_EQ("name-block", unsigned(v->function_block()), unsigned(fb), c);
        }
        VH_EQ("name-format", f, unsigned(fmt), c);
        VH_EQ("name-payload-size", p.size(), std::min(cap, len - i * cap), c + " packet " + show(i));
        joined += p;
        VH_COUNT("name packets observed");
        if (fmt == 2) VH_COUNT("continue packets observed");
    }
    VH_EQ("name-roundtrip", joined, t, c);
    VH_COUNT("names round-tripped");
    nontrivial(hash_str(t) ^ k);
    if (np > 2 && want_sample()) sample(c + " -> " + show(np) + " packets");

    // single packet constructors
    const size_t n1 = std::min(len, cap);
    const string t1 = t.substr(0, n1);
    const u32    fmt = k == product ? u32(r.pick({ 0, 1, 3 })) : u32(r.below(4));
    Pk           e = pk(st, fmt);
    if (k == block) e.set(2, fb);
    for (size_t j = 0; j < n1; ++j) e.set(unsigned(off + j), u8(t1[j]));
    std::vector<char> b1(t1.begin(), t1.end());
    std::string_view  s1(b1.data(), n1);
    const auto        f = m::packet_format(fmt);
    layout("name-message", k == endpoint ? m::make_endpoint_name_message(f, s1) : k == product ? m::make_product_instance_id_message(f, s1) : m::make_function_block_name_message(f, fb, s1), e, c);
}

// stream messages of another device: reserved bits may be set and must not leak into the fields
static void received(Rng& r, int status = -1, int low = -1)
{
    static const u8 sts[] = { 0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x10, 0x11, 0x12 };
    Pk e;
    for (auto& w : e.w) w = r.iw();
    const u8  st  = sts[status < 0 ? int(r.below(10)) : status];
    if (low >= 0) e.w[0] = (e.w[0] & 0xFFFF0000u) | u32(low);
    const u32 fmt = u32(r.below(4));
    e.w[0] = (e.w[0] & 0xFFFF) | 0xF0000000u | fmt << 26 | u32(st) << 16;
    const auto   u = ump(e);
    const string c = show(e);
    op("views of received packets");
    switch (st)
    {
    case 0x00:
    {
        // filter bits above the lowest five are reserved
        auto v = m::as_endpoint_discovery_view(u);
        if (!v) { VH_COUNT("not offered"); return; }
        const u8 f = e.byte(7) & 0x1F;
        VH_EQ("received-filter", unsigned(v->filter()), unsigned(f), c);
        VH_EQ("received-version", unsigned(v->ump_version()), e.w[0] & 0xFFFF, c);
        VH_EQ("received-major", unsigned(v->ump_version_major()), unsigned(e.byte(2)), c);
        VH_EQ("received-minor", unsigned(v->ump_version_minor()), unsigned(e.byte(3)), c);
        VH_TRUE("received-requests", v->requests_info() == bool(f & 1) && v->requests_device_identity() == bool(f & 2) && v->requests_name() == bool(f & 4) && v->requests_product_instance_id() == bool(f & 8) && v->requests_stream_configuration() == bool(f & 16), c);
        break;
    }
    case 0x01:
    {
        auto v = m::as_endpoint_info_view(u);
        if (!v) { VH_COUNT("not offered"); return; }
        VH_EQ("received-version", unsigned(v->ump_version()), e.w[0] & 0xFFFF, c);
        VH_EQ("received-major", unsigned(v->ump_version_major()), unsigned(e.byte(2)), c);
        VH_EQ("received-minor", unsigned(v->ump_version_minor()), unsigned(e.byte(3)), c);
        VH_EQ("received-blocks", unsigned(v->num_function_blocks()), unsigned(e.byte(4) & 0x7F), c);
        VH_EQ("received-static", v->static_function_blocks(), bool(e.byte(4) & 0x80), c);
        VH_EQ("received-protocols", unsigned(v->protocols()), unsigned(e.byte(6) & 3), c);
        VH_EQ("received-extensions", unsigned(v->extensions()), unsigned(e.byte(7) & 3), c);
        break;
    }
    case 0x02:
    {
        auto v = m::as_device_identity_view(u);
        if (!v) { VH_COUNT("not offered"); return; }
        const auto o = v->identity();
        auto       b = [&](unsigned i) { return u32(e.byte(i) & 0x7F); };
        VH_EQ("received-manufacturer", u32(o.manufacturer), e.w[1] & 0x7F7F7Fu, c);
        VH_EQ("received-family", u32(o.family), b(8) | b(9) << 7, c);
        VH_EQ("received-model", u32(o.model), b(10) | b(11) << 7, c);
        VH_EQ("received-revision", u32(o.revision), b(12) | b(13) << 7 | b(14) << 14 | b(15) << 21, c);
        break;
    }
    case 0x05: case 0x06:
    {
        auto v = m::as_stream_configuration_view(u);
        if (!v) { VH_COUNT("not offered"); return; }
        VH_EQ("received-protocol", unsigned(v->protocol()), unsigned(e.byte(2) & 3), c);
        VH_EQ("received-config-extensions", unsigned(v->extensions()), unsigned(e.byte(3) & 3), c);
        break;
    }
    case 0x10:
    {
        auto v = m::as_function_block_discovery_view(u);
        if (!v) { VH_COUNT("not offered"); return; }
        VH_EQ("received-block", unsigned(v->function_block()), unsigned(e.byte(2)), c);
        VH_EQ("received-block-filter", unsigned(v->filter() & 3), unsigned(e.byte(3) & 3), c);
        VH_TRUE("received-block-filter-range", v->filter() < 16, c);
        VH_TRUE("received-block-requests", v->requests_info() == bool(e.byte(3) & 1) && v->requests_name() == bool(e.byte(3) & 2), c);
        break;
    }
    case 0x11:
    {
        auto v = m::as_function_block_info_view(u);
        if (!v) { VH_COUNT("not offered"); return; }
        VH_EQ("received-active", v->active(), bool(e.byte(2) & 0x80), c);
        VH_EQ("received-info-block", unsigned(v->function_block()), unsigned(e.byte(2) & 0x7F), c);
        VH_EQ("received-direction", unsigned(v->direction()), unsigned(e.byte(3) & 3), c);
        VH_EQ("received-midi1", unsigned(v->midi1()), unsigned(e.byte(3) >> 2 & 3), c);
        VH_EQ("received-hint", unsigned(v->ui_hint()), unsigned(e.byte(3) >> 4 & 3), c);
        if (e.byte(4) < 16) VH_EQ("received-first", unsigned(v->first_group()), unsigned(e.byte(4)), c);
        if (e.byte(5) <= 16) VH_EQ("received-groups", unsigned(v->num_groups_spanned()), unsigned(e.byte(5)), c);
        if (e.byte(6) < 128) VH_EQ("received-ci", unsigned(v->ci_message_version()), unsigned(e.byte(6)), c);
        VH_EQ("received-sysex8", unsigned(v->max_num_sysex8_streams()), unsigned(e.byte(7)), c);
        break;
    }
    default:
    {
        // names: what counts is the text up to the first NUL; malformed formats may be refused
        const unsigned off = st == 0x12 ? 3 : 2;
        string t;
        for (unsigned i = off; i < 16 && e.byte(i); ++i) t += char(e.byte(i));
        string   p;
        unsigned f = fmt;
        if (st == 0x03) { auto v = m::as_endpoint_name_view(u); if (!v) return; p = v->payload(); f = unsigned(v->format()); }
        else if (st == 0x04) { auto v = m::as_product_instance_id_view(u); if (!v) return; p = v->payload(); f = unsigned(v->format()); }
        else { auto v = m::as_function_block_name_view(u); if (!v) return; p = v->payload(); f = unsigned(v->format()); VH_EQ("received-name-block", unsigned(v->function_block()), unsigned(e.byte(2) & 0x7F), c); }
        VH_EQ("received-text", p, t, c);
        VH_EQ("received-format", f, fmt, c);
    }
    }
    VH_COUNT("received packets viewed");
    nontrivial(hash_bytes(e.w, sizeof e.w, 5));
}

static void defaults(Rng& r)
{
    op("default function block options");
    const u8 b = u8(r.below(32)), g = u8(r.below(16));
    const string c = "block=" + show(b) + " first=" + show(g);
    // active, bidirectional (hint as direction), not MIDI 1, no CI, no SysEx8
    Pk e = pk(0x11); e.set(2, u8(0x80 | b)); e.set(3, 0x33); e.set(4, g); e.set(5, 1);
    layout("fb-info-default-options", m::make_function_block_info_message(b, m::function_block_options{}, g), e, c);
    m::function_block_options o;
    o.direction = o.direction_input; o.ui_hint = o.ui_hint_receiver; o.midi1 = o.midi1_31250;
    e.set(3, 0x19);
    layout("fb-info-named-options", m::make_function_block_info_message(b, o, g), e, c);
    o.direction = o.direction_output; o.ui_hint = o.ui_hint_sender; o.midi1 = o.midi1_unrestricted;
    e.set(3, 0x26);
    layout("fb-info-named-options", m::make_function_block_info_message(b, o, g), e, c);
    o.direction = o.bidirectional; o.ui_hint = o.ui_hint_as_direction; o.midi1 = o.not_midi1;
    e.set(3, 0x33);
    layout("fb-info-named-options", m::make_function_block_info_message(b, o, g), e, c);
    VH_COUNT("default options");
}

void vh_main()
{
    section("received packets", 40000, [](Rng& r, u64) { received(r); });
    section("all 16 bit values", 65536, [](Rng& r, u64 i) {
        for (int k = 0; k < 10; ++k) received(r, k, int(i));
    }, false);
    section("default options", 64, [](Rng& r, u64) { defaults(r); }, false);
    section("fixed messages", 12000, [](Rng& r, u64) { fixed_messages(r); });
    section("every name length", 3 * 300, [](Rng& r, u64 i) {
        const Kind   k = Kind(i % 3);
        const size_t n = i / 3;
        names(r, k, k == product ? n % 17 : n);
    });
    section("random names", 20000, [](Rng& r, u64) {
        const Kind k = Kind(r.below(3));
        names(r, k, k == product ? r.below(17) : r.chance(1, 200) ? r.range(100, 5000) : r.below(99));
    });
}
