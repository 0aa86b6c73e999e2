// C27: messages survive every transport path
#include "ci_ref.h"
#include <memory>
#include <midi/midi1_byte_stream.h>
#include <midi/channel_voice_message.h>
#include <midi/midi1_channel_voice_message.h>
#include <midi/midi2_channel_voice_message.h>
#include <midi/sysex_collector.h>
#include <midi/system_message.h>
#include <midi/utility_message.h>
#include <sstream>
#include <map>
using namespace ref;
namespace m = midi;

// what a receiver sees, in the order it sees it
struct Event
{
    int        kind; // 0 packet, 7 SysEx, 8 SysEx8
    Pk         p;
    u32        mfr    = 0;
    u8         stream = 0;
    vector<u8> data;
    bool operator==(const Event& o) const { return kind == o.kind && p == o.p && mfr == o.mfr && stream == o.stream && data == o.data; }
};
static string show_ev(const Event& e)
{
    return e.kind == 0 ? show_pk(e.p) : "sysex" + std::to_string(e.kind) + "(" + show(e.mfr) + (e.kind == 8 ? " stream " + show(e.stream) : "") + " " + std::to_string(e.data.size()) + " bytes " + hexc(e.data) + ")";
}
static string show_evs(const vector<Event>& v, size_t from = 0)
{
    string s;
    for (size_t i = from; i < v.size() && i < from + 6; ++i) s += "[" + std::to_string(i) + "] " + show_ev(v[i]) + " ";
    return s + "(" + std::to_string(v.size()) + ")";
}
static void same(const char* key, const vector<Event>& sent, const vector<Event>& got, const string& path)
{
    size_t i = 0;
    while (i < sent.size() && i < got.size() && sent[i] == got[i]) ++i;
    if (i < sent.size() || i < got.size()) fail(key, "%s: sent %s but received %s", path.c_str(), show_evs(sent, i).c_str(), show_evs(got, i).c_str());
    VH_ADD("messages received", got.size());
}
static Event ev(const m::universal_packet& p) { Event e; e.kind = 0; e.p = sig(p); return e; }
static Event ev(const m::sysex7& s) { Event e; e.kind = 7; e.mfr = s.manufacturerID; e.data.assign(s.data.begin(), s.data.end()); return e; }
static Event ev(const m::sysex8& s, u8 stream) { Event e; e.kind = 8; e.mfr = s.manufacturerID; e.stream = stream; e.data.assign(s.data.begin(), s.data.end()); return e; }

static bool realtime(const Pk& p) { return p.w[0] >> 28 == 1 && p.byte(1) >= 0xF8; }

static size_t data_len(Rng& r)
{
    switch (r.below(20))
    {
    case 0: return 0;
    case 1: return 1 + r.below(6);
    case 2: return r.below(400);
    case 3: return r.below(3000);
    default: return r.below(40);
    }
}
static m::sysex7 any_sysex7(Rng& r)
{
    if (r.chance(1, 3))
    {
        const auto d = ci_ref::generate(r, ci_ref::subtype(r), 2);
        if (d.size() < 4000) return m::sysex7(0x7E0000, d.data(), d.size());
    }
    const auto d = r.bytes7(data_len(r));
    return m::sysex7(mfr(r), d.data(), d.size());
}
static m::universal_packet system_packet(Rng& r, u8 g)
{
    switch (r.below(5))
    {
    case 0: return m::make_song_position_message(g, m::uint14_t(r.iw() & 0x3FFF));
    case 1: return m::make_system_message(g, 0xF3, r.ib7());
    case 2: return m::make_system_message(g, 0xF1, r.ib7());
    default: return m::make_system_message(g, u8(r.pick({ 0xF6, 0xF8, 0xFA, 0xFB, 0xFC, 0xFE, 0xFF })));
    }
}
static m::universal_packet realtime_packet(Rng& r, u8 g) { return m::make_system_message(g, u8(r.pick({ 0xF8, 0xFA, 0xFB, 0xFC, 0xFE, 0xFF }))); }
static m::universal_packet midi1_packet(Rng& r, u8 g)
{
    const u8  st = u8(r.range(0x80, 0xEF)), a = r.ib7();
    u8        b = (st >> 4) == 0xC || (st >> 4) == 0xD ? 0 : r.ib7();
    return m::universal_packet(0x20000000u | u32(g) << 24 | u32(st) << 16 | u32(a) << 8 | b);
}

// through text and back
static vector<m::universal_packet> as_text(const vector<m::universal_packet>& in, Rng& r, string& text)
{
    std::ostringstream o;
    const bool         lines = r.chance(1, 2);
    for (auto& p : in) o << p << (lines ? '\n' : ' ');
    text = o.str();
    std::istringstream             i(text);
    vector<m::universal_packet>    out;
    while (out.size() < in.size())
    {
        m::universal_packet p;
        i >> p;
        if (i.fail()) break;
        out.push_back(p);
    }
    VH_ADD("packets through text", out.size());
    return out;
}

static void mixed_groups(Rng& r)
{
    // several senders, each on a group of its own
    const unsigned n_groups = unsigned(r.range(1, 5));
    const u8       first    = u8(r.below(16));
    struct Sender
    {
        u8                          g;
        vector<m::universal_packet> packets; // in sending order
        vector<Event>               sent;
    };
    vector<Sender> senders(n_groups);
    const bool     upgrade = r.chance(1, 2); // MIDI 1 channel voice messages travel as MIDI 2
    for (unsigned k = 0; k < n_groups; ++k)
    {
        auto& s = senders[k];
        s.g     = u8((first + 3 * k) & 15);
        auto plain = [&](const m::universal_packet& p) { s.packets.push_back(p); s.sent.push_back(ev(p)); };
        auto between = [&] {
            if (r.chance(2, 3)) return realtime_packet(r, s.g);
            m::universal_packet p = m::make_utility_message(r.pick<u8>({ 0, 0x10, 0x20 }), u16(r.iw()));
            p.set_group(s.g);
            return p;
        };
        for (auto n = r.range(1, r.chance(1, 10) ? 60 : 10); n--;)
        {
            op("send");
            switch (r.below(8))
            {
            case 0:
            case 1: {
                const auto x = any_sysex7(r);
                // other packets of the group may lie between those of the message: they arrive before it
                auto out = [&](const m::data_message& p) {
                    s.packets.push_back(p);
                    if (r.chance(1, 12)) plain(between());
                };
                const size_t at = s.packets.size();
                if (r.chance(1, 2)) { m::send_sysex7(x, s.g, out); }
                else for (auto& p : m::as_sysex7_packets(x, s.g)) out(p);
                // a realtime packet behind the last packet of the message arrives after it
                Event  e  = ev(x);
                auto   it = s.sent.end();
                if (s.packets.size() > at && !m::is_sysex7_packet(s.packets.back())) --it;
                s.sent.insert(it, e);
                break;
            }
            case 2: {
                const auto d = r.bytes(data_len(r));
                m::sysex8  x(mfr(r), d.data(), d.size());
                const u8   id  = r.ib();
                auto       out = [&](const m::extended_data_message& p) { s.packets.push_back(p); };
                if (r.chance(1, 2)) m::send_sysex8(x, id, s.g, out);
                else for (auto& p : m::as_sysex8_packets(x, id, s.g)) out(p);
                s.sent.push_back(ev(x, id));
                break;
            }
            case 3: plain(system_packet(r, s.g)); break;
            case 4: plain(m::universal_packet(0x40800000u | u32(s.g) << 24 | u32(r.range(0, 6)) << 20 | u32(r.below(16)) << 16 | (r.iw() & 0x7F7F), r.iw())); break;
            case 5: plain(m::make_utility_message(0x20, u16(r.iw()))); s.packets.back().set_group(s.g); s.sent.back() = ev(s.packets.back()); break;
            default: {
                auto p = midi1_packet(r, s.g);
                if (upgrade)
                {
                    op("translate");
                    s.sent.push_back(ev(p));
                    if ((raw(p).byte(1) >> 4) == 9 && raw(p).byte(3) == 0) // arrives as the note off it stands for
                    {
                        s.sent.back().p.w[0] = (s.sent.back().p.w[0] & 0xFF0FFF00u) | 0x00800040u;
                        VH_COUNT("notes on with velocity zero");
                    }
                    if (auto t = m::as_midi2_channel_voice_message(m::midi1_channel_voice_message_view{ p })) { s.packets.push_back(*t); VH_COUNT("translated on the way"); }
                    else s.packets.push_back(p);
                }
                else
                    plain(p);
            }
            }
        }
    }
    // one cable: any interleaving that keeps the order of each sender
    vector<m::universal_packet> cable;
    vector<size_t>              pos(n_groups, 0);
    u64                         h = 0;
    for (unsigned left = n_groups; left;)
    {
        const unsigned k = unsigned(r.below(n_groups));
        if (pos[k] == senders[k].packets.size()) continue;
        for (auto burst = r.range(1, r.chance(1, 4) ? 12 : 2); burst-- && pos[k] < senders[k].packets.size();) { cable.push_back(senders[k].packets[pos[k]++]); h = mix(h ^ raw(cable.back()).w[0]); }
        if (pos[k] == senders[k].packets.size()) --left;
    }
    string path = "groups", text;
    if (r.chance(1, 3))
    {
        op("text");
        const size_t n = cable.size();
        cable          = as_text(cable, r, text);
        path += " through text";
        VH_EQ("packets-lost-in-text", cable.size(), n, text);
    }
    // receivers, one set per group, see all packets of their group
    struct Receiver
    {
        vector<Event>                         got;
        std::unique_ptr<m::sysex7_collector>  c7;
        std::unique_ptr<m::sysex8_collector>  c8;
    };
    std::map<u8, Receiver> rx;
    for (auto& s : senders)
    {
        auto& x = rx[s.g];
        x.c7    = std::make_unique<m::sysex7_collector>([&x](const m::sysex7& d) { x.got.push_back(ev(d)); });
        x.c8    = std::make_unique<m::sysex8_collector>([&x](const m::sysex8& d, u8 id) { x.got.push_back(ev(d, id)); });
    }
    op("receive");
    for (auto& p : cable)
    {
        auto it = rx.find(u8(p.group()));
        if (it == rx.end()) fail("foreign-group", "packet %s arrives on a group nobody sent on", show_pk(raw(p)).c_str());
        auto& x = it->second;
        if (m::is_sysex7_packet(p)) x.c7->feed(p);
        else if (m::is_sysex8_packet(p)) x.c8->feed(p);
        else
        {
            // collectors that see everything must not mind
            if (r.chance(1, 4)) { x.c7->feed(p); x.c8->feed(p); }
            auto t = upgrade && m::is_midi2_channel_voice_message(p) ? m::as_midi1_channel_voice_message(m::midi2_channel_voice_message_view{ p }) : std::nullopt;
            x.got.push_back(t ? ev(*t) : ev(p));
        }
        VH_COUNT("packets transported");
    }
    if (upgrade)
        for (auto& s : senders)
            for (auto& e : s.sent) // MIDI 2 messages of the sender arrive as MIDI 1 where the receiver translates
                if (e.kind == 0 && e.p.w[0] >> 28 == 4)
                    if (auto t = m::as_midi1_channel_voice_message(m::midi2_channel_voice_message_view{ ump(e.p) })) e = ev(*t);
    for (auto& s : senders) same("transport-groups", s.sent, rx[s.g].got, path + " group " + show(s.g));
    if (n_groups > 1) VH_COUNT("interleavings");
    nontrivial(mix(h ^ cable.size()));
    if (want_sample()) sample(path + ": " + std::to_string(n_groups) + " senders, " + std::to_string(cable.size()) + " packets");
}

// MIDI 1 cable: bytes, with running status, realtime bytes anywhere, any chunking, several hops
static void midi1_cable(Rng& r)
{
    const u8                    g = u8(r.below(16));
    vector<Event>               sent;    // realtime messages left out: they may overtake
    vector<Event>               rt_sent;
    vector<m::universal_packet> packets;
    for (auto n = r.range(1, r.chance(1, 10) ? 120 : 16); n--;)
    {
        op("send");
        if (r.chance(1, 4))
        {
            const auto x = any_sysex7(r);
            for (auto& p : m::as_sysex7_packets(x, g)) packets.push_back(p);
            sent.push_back(ev(x));
        }
        else
        {
            auto p = r.chance(1, 4) ? system_packet(r, g) : midi1_packet(r, g);
            if (r.chance(1, 2) && !packets.empty() && m::is_midi1_channel_voice_message(packets.back())) p = m::universal_packet((raw(packets.back()).w[0] & 0xFFFF0000u) | (raw(midi1_packet(r, g)).w[0] & 0x7F7F)); // same status again
            if ((raw(p).byte(1) >> 4) == 0xC || (raw(p).byte(1) >> 4) == 0xD) p = m::universal_packet(raw(p).w[0] & ~0xFFu);
            packets.push_back(p);
            (realtime(raw(p)) ? rt_sent : sent).push_back(ev(p));
        }
    }
    const int hops = int(r.range(1, 3));
    u64       h    = g;
    for (int hop = 0; hop < hops; ++hop)
    {
        vector<u8> bytes;
        u8         running    = 0;
        const bool compress   = r.chance(1, 2), disturb = r.chance(1, 2);
        vector<Event> rt      = {};
        op("to bytes");
        for (auto& p : packets)
        {
            u8 b[8];
            const size_t n = m::to_midi1_byte_stream(p, b);
            VH_TRUE("packet-without-bytes", n > 0 && n <= 8, show_pk(raw(p)));
            size_t from = 0;
            if (b[0] >= 0x80 && b[0] < 0xF0)
            {
                if (compress && b[0] == running) { from = 1; VH_COUNT("running status"); }
                running = b[0];
            }
            else if (b[0] < 0xF8)
                running = 0;
            for (size_t i = from; i < n; ++i)
            {
                if (disturb && r.chance(1, 16))
                {
                    const auto x = realtime_packet(r, g);
                    bytes.push_back(raw(x).byte(1));
                    rt.push_back(ev(x));
                    VH_COUNT("realtime in between");
                }
                bytes.push_back(b[i]);
            }
            if (realtime(raw(p))) rt.push_back(ev(p));
        }
        h = hash_bytes(bytes.data(), bytes.size(), h);
        auto feed = [&](m::midi1_byte_stream_parser& p) {
            op("parse");
            const int mode = int(r.below(3));
            for (size_t i = 0; i < bytes.size();)
            {
                const size_t n = mode == 0 ? bytes.size() : mode == 1 ? 1 : std::min<size_t>(bytes.size() - i, size_t(r.range(1, 40)));
                if (n == 1) p.feed(bytes[i]);
                else p.feed(bytes.data() + i, n);
                i += n;
            }
        };
        const string path = "hop " + std::to_string(hop) + (compress ? " with running status" : "") + (disturb ? " with realtime" : "") + " bytes " + hexc(bytes);
        // whole messages
        {
            vector<Event>               got, got_rt;
            m::midi1_byte_stream_parser p(g, [&](m::universal_packet u) { (realtime(raw(u)) ? got_rt : got).push_back(ev(u)); }, [&](const m::sysex7& s) { got.push_back(ev(s)); });
            feed(p);
            same("transport-bytes", sent, got, path);
            same("transport-bytes-realtime", rt, got_rt, path);
        }
        // packets, which are what the next hop sends
        {
            vector<Event>               got, got_rt;
            vector<m::universal_packet> next;
            m::sysex7_collector         c([&](const m::sysex7& s) { got.push_back(ev(s)); });
            m::midi1_byte_stream_parser p(g, [&](m::universal_packet u) {
                next.push_back(u);
                if (m::is_sysex7_packet(u)) c.feed(u);
                else (realtime(raw(u)) ? got_rt : got).push_back(ev(u));
            });
            feed(p);
            same("transport-packets", sent, got, path);
            same("transport-packets-realtime", rt, got_rt, path);
            packets = next;
        }
        VH_ADD("bytes transported", bytes.size());
    }
    counter("hops") += u64(hops);
    nontrivial(h);
    if (want_sample()) sample("MIDI 1 cable, " + std::to_string(hops) + " hops, " + std::to_string(sent.size()) + " messages");
}

// SysEx8 messages on several streams of one group at the same time, one collector per stream
static void streams(Rng& r)
{
    const unsigned n_streams = unsigned(r.range(2, 5));
    const u8       g = u8(r.below(16)), first = r.ib();
    struct Stream
    {
        u8                          id;
        vector<m::universal_packet> packets;
        vector<Event>               sent, got;
        std::unique_ptr<m::sysex8_collector> c;
    };
    vector<Stream> st(n_streams);
    for (unsigned k = 0; k < n_streams; ++k)
    {
        auto& s = st[k];
        s.id    = u8(first + k);
        s.c     = std::make_unique<m::sysex8_collector>([&s](const m::sysex8& d, u8 id) { s.got.push_back(ev(d, id)); });
        for (auto n = r.range(1, 5); n--;)
        {
            const auto d = r.bytes(data_len(r));
            m::sysex8  x(mfr(r), d.data(), d.size());
            op("send");
            m::send_sysex8(x, s.id, g, [&](const m::extended_data_message& p) { s.packets.push_back(p); });
            s.sent.push_back(ev(x, s.id));
        }
    }
    vector<size_t> pos(n_streams, 0);
    u64            h = g;
    for (unsigned left = n_streams; left;)
    {
        const unsigned k = unsigned(r.below(n_streams));
        if (pos[k] == st[k].packets.size()) continue;
        const auto& p = st[k].packets[pos[k]++];
        h             = mix(h ^ raw(p).w[0]);
        op("receive");
        auto v = m::as_sysex8_packet_view(p);
        VH_TRUE("stream-packet", v.has_value(), show_pk(raw(p)));
        for (auto& s : st)
            if (s.id == v->stream_id()) s.c->feed(p);
        VH_COUNT("stream packets transported");
        if (pos[k] == st[k].packets.size()) --left;
    }
    for (auto& s : st) same("transport-streams", s.sent, s.got, "stream " + show(s.id));
    nontrivial(h);
}

// a message is carried over a random path and answered
static m::sysex7 carry(const m::sysex7& s, Rng& r, string& path)
{
    vector<m::sysex7>           got;
    const u8                    g = u8(r.below(16));
    vector<m::universal_packet> ps;
    m::send_sysex7(s, g, [&](const m::data_message& p) { ps.push_back(p); });
    string text;
    if (r.chance(1, 3)) { ps = as_text(ps, r, text); path += " text"; }
    if (r.chance(1, 2))
    {
        vector<u8> bytes;
        for (auto& p : ps)
        {
            u8 b[8];
            bytes.insert(bytes.end(), b, b + m::to_midi1_byte_stream(p, b));
        }
        ps.clear();
        if (r.chance(1, 2))
        {
            path += " bytes";
            m::midi1_byte_stream_parser p(g, [&](m::universal_packet) {}, [&](const m::sysex7& x) { got.push_back(x); });
            p.feed(bytes.data(), bytes.size());
        }
        else
        {
            path += " bytes/packets";
            m::midi1_byte_stream_parser p(g, [&](m::universal_packet u) { ps.push_back(u); });
            p.feed(bytes.data(), bytes.size());
        }
    }
    if (!ps.empty())
    {
        path += " collector";
        m::sysex7_collector c([&](const m::sysex7& x) { got.push_back(x); });
        for (auto& p : ps) c.feed(p);
    }
    VH_EQ("carried-once", got.size(), size_t(1), path);
    VH_COUNT("messages carried");
    return got[0];
}
static void conversation(Rng& r)
{
    const u8   st = ci_ref::subtype(r);
    const auto d  = ci_ref::generate(r, st, 2);
    if (d.size() > 20000) return;
    m::sysex7 q = ci_ref::exact(0x7E0000, d);
    string    path;
    op("request");
    m::sysex7 rq = carry(q, r, path);
    VH_TRUE("request-changed", rq.manufacturerID == q.manufacturerID && ci_ref::bytes_of(rq) == d, path + " of " + ci_ref::show_ci(0x7E0000, d) + " became " + hexc(rq.data));
    auto v = m::as_capability_inquiry_view(rq), w = m::as_capability_inquiry_view(q);
    VH_EQ("request-view", v.has_value(), w.has_value(), path);
    if (v)
    {
        VH_TRUE("request-fields", v->subtype() == w->subtype() && v->source_muid() == w->source_muid() && v->destination_muid() == w->destination_muid() && v->device_id() == w->device_id() && v->message_version() == w->message_version(), path + " of " + ci_ref::show_ci(0x7E0000, d));
        op("answer");
        m::uint7_t      details[5] = { 1, 2, 3, 4, 127 };
        const m::sysex7 a = r.chance(1, 2) ? m::sysex7(m::ci::make_nak_message(*v, 0x21, 3, details, "refused")) : m::sysex7(m::ci::make_nak_message_v1(*v));
        const m::sysex7 b = carry(a, r, path);
        auto            n = m::as_capability_inquiry_view(b);
        VH_TRUE("answer-changed", b == a, path);
        VH_TRUE("answer-view", n.has_value(), path);
        VH_TRUE("answer-addresses", n->source_muid() == w->destination_muid() && n->destination_muid() == w->source_muid() && n->device_id() == w->device_id(), path);
        VH_COUNT("answers");
    }
    nontrivial(hash_bytes(d.data(), d.size(), hash_bytes(path.data(), path.size())));
}

// every MIDI 1 channel voice message on every path
static void all_midi1(Rng& r, u64 i)
{
    const u8                    st = u8(0x80 + i / 128), a = u8(i % 128), g = u8(r.below(16));
    const bool                  two = (st >> 4) != 0xC && (st >> 4) != 0xD;
    vector<m::universal_packet> ps;
    vector<Event>               sent, up, got;
    vector<u8>                  bytes;
    for (unsigned b = 0; b < (two ? 128u : 1u); ++b)
    {
        const m::universal_packet p(0x20000000u | u32(g) << 24 | u32(st) << 16 | u32(a) << 8 | b);
        ps.push_back(p);
        sent.push_back(ev(p));
        u8 o[8];
        op("to bytes");
        const size_t n = m::to_midi1_byte_stream(p, o);
        VH_EQ("message-bytes", n, size_t(two ? 3 : 2), show_pk(raw(p)));
        bytes.insert(bytes.end(), o + (b & 1), o + n); // every other one with running status
        op("translate");
        auto t    = m::as_midi2_channel_voice_message(m::midi1_channel_voice_message_view{ p });
        auto back = t ? m::as_midi1_channel_voice_message(m::midi2_channel_voice_message_view{ *t }) : std::nullopt;
        if (t) VH_TRUE("not-translated-back", back.has_value(), show_pk(raw(p)));
        up.push_back(back ? ev(*back) : ev(p));
        if ((st >> 4) == 9 && b == 0) up.back().p.w[0] = (up.back().p.w[0] == ((sent.back().p.w[0] & 0xFF0FFF00u) | 0x00800040u)) ? sent.back().p.w[0] : up.back().p.w[0];
    }
    same("transport-translated", sent, up, "translated");
    m::midi1_byte_stream_parser parser(g, [&](m::universal_packet u) { got.push_back(ev(u)); });
    op("parse");
    parser.feed(bytes.data(), bytes.size());
    same("transport-all-bytes", sent, got, "bytes " + hexc(bytes));
    string text;
    got.clear();
    for (auto& p : as_text(ps, r, text)) got.push_back(ev(p));
    same("transport-all-text", sent, got, text);
    VH_ADD("MIDI 1 messages enumerated", ps.size());
    nontrivial(mix(i));
}

void vh_main()
{
    section("all MIDI 1 messages", 112 * 128, [](Rng& r, u64 i) { all_midi1(r, i); }, false);
    section("SysEx7 of every size", 3000, [](Rng& r, u64 i) {
        auto d = r.bytes(size_t(i));
        for (auto& b : d) b &= 0x7F;
        const m::sysex7 x(mfr(r), d.data(), d.size());
        for (int k = 0; k < 3; ++k)
        {
            string path;
            op("carry");
            const auto y = carry(x, r, path);
            VH_TRUE("carried-content", y.manufacturerID == x.manufacturerID && y.data == x.data, path + " of " + std::to_string(i) + " bytes: " + hexc(x.data) + " became " + hexc(y.data));
        }
        VH_COUNT("sizes carried");
        nontrivial(mix(i ^ 0x27270000));
    }, false);
    section("mixed groups", 3000, [](Rng& r, u64) { mixed_groups(r); });
    section("streams", 1500, [](Rng& r, u64) { streams(r); });
    section("MIDI 1 cable", 2500, [](Rng& r, u64) { midi1_cable(r); });
    section("conversation", 2500, [](Rng& r, u64) { conversation(r); });
}
