// C10: packets <-> MIDI 1 byte stream
#include "bs_ref.h"
#include <memory>
#include <midi/midi1_byte_stream.h>
#include <midi/sysex.h>
#include <midi/sysex_collector.h>
using namespace ref;

static int system_len(u8 s)
{
    switch (s)
    {
    case 0xF2: return 3;
    case 0xF1: case 0xF3: return 2;
    case 0xF6: case 0xF8: case 0xFA: case 0xFB: case 0xFC: case 0xFE: case 0xFF: return 1;
    default: return 0;
    }
}

// expected bytes; 'size' is what midi1_byte_stream_size has to report
static vector<u8> expected(const Pk& p, size_t& size)
{
    vector<u8> b;
    const u8   st = p.byte(1);
    size          = 0;
    switch (p.w[0] >> 28)
    {
    case 1:
        size = size_t(system_len(st));
        for (unsigned i = 0; i < size; ++i) b.push_back(p.byte(1 + i));
        break;
    case 2:
        if (st >= 0x80 && st < 0xF0)
        {
            size = 1 + size_t(channel_data_bytes(st));
            for (unsigned i = 0; i < size; ++i) b.push_back(p.byte(1 + i));
        }
        break;
    case 3:
        if ((st >> 4) <= 3 && (st & 15) <= 6)
        {
            size = st & 15;
            if ((st >> 4) <= 1) b.push_back(0xF0);
            for (unsigned i = 0; i < size; ++i) b.push_back(p.byte(2 + i));
            if ((st >> 4) == 0 || (st >> 4) == 3) b.push_back(0xF7);
        }
        break;
    }
    return b;
}

static void check_packet(const Pk& p)
{
    size_t     size;
    const auto e = expected(p, size);
    const auto u = ump(p);
    std::unique_ptr<u8[]> buf(new u8[8]); // exactly eight: more is a sanitizer event
    std::memset(buf.get(), 0xA5, 8);
    op("to_midi1_byte_stream");
    const size_t n = midi::to_midi1_byte_stream(u, buf.get());
    VH_TRUE("too-many-bytes", n <= 8, show(p));
    VH_EQ("byte-count", n, e.size(), show(p));
    vector<u8> g(buf.get(), buf.get() + n);
    bool clean = true; // data bytes of valid MIDI 1 packets are 7 bit
    for (size_t i = 0; i < e.size(); ++i) clean = clean && (e[i] < 0x80 || i == 0 || (e[i] == 0xF7 && i + 1 == e.size()));
    if (clean) VH_TRUE("bytes", g == e, show(p) + " got " + hexc(g) + " expected " + hexc(e));
    op("midi1_byte_stream_size");
    VH_EQ("size", midi::midi1_byte_stream_size(u), size, show(p));
    for (size_t i = n; i < 8; ++i) VH_EQ("wrote-behind-result", unsigned(buf[i]), 0xA5u, show(p));
    VH_TRUE("packet-modified", raw(u) == p, show(p));
    VH_COUNT("packets converted");
    if (n) VH_COUNT("packets with bytes");
    nontrivial(hash_bytes(&p, sizeof p));
}

static Pk word(u32 w) { Pk p; p.w[0] = w; return p; }

// a random valid MIDI 1 packet (not SysEx)
static Pk valid_packet(Rng& r, u8 g)
{
    if (r.chance(1, 3))
    {
        const u8 s = u8(r.pick({ 0xF1, 0xF2, 0xF3, 0xF6, 0xF8, 0xFA, 0xFB, 0xFC, 0xFE, 0xFF }));
        const int n = system_len(s);
        return word(0x10000000u | u32(g) << 24 | u32(s) << 16 | (n > 1 ? u32(r.ib7()) << 8 : 0) | (n > 2 ? r.ib7() : 0));
    }
    const u8 s = u8(r.range(0x80, 0xEF));
    return word(0x20000000u | u32(g) << 24 | u32(s) << 16 | u32(r.ib7()) << 8 | (channel_data_bytes(s) > 1 ? r.ib7() : 0));
}

static void to_bytes(const Pk& p, vector<u8>& out)
{
    u8 b[8];
    op("to_midi1_byte_stream");
    const size_t n = midi::to_midi1_byte_stream(ump(p), b);
    VH_TRUE("too-many-bytes", n <= 8, show(p));
    out.insert(out.end(), b, b + n);
}

void vh_main()
{
    section("all first words of types 1..3", 3 * 256 * 16, [](Rng& r, u64 i) {
        const u32 type = 1 + u32(i / 4096), st = u32(i / 16) & 255, g = u32(i % 16);
        for (int k = 0; k < 6; ++k)
        {
            Pk p;
            p.w[0] = type << 28 | g << 24 | st << 16 | u32(k < 4 ? r.ib7() : r.ib()) << 8 | (k < 4 ? r.ib7() : r.ib());
            p.w[1] = k < 4 ? r.iw() & 0x7F7F7F7F : r.iw();
            p.w[2] = r.iw();
            p.w[3] = r.iw();
            check_packet(p);
        }
    }, false);
    section("random packets", 60000, [](Rng& r, u64) { check_packet(hostile_packet(r)); });

    section("from all bytes", 256 * 8, [](Rng& r, u64 i) {
        const u8 s = u8(i / 8);
        for (int k = 0; k < 64; ++k)
        {
            const u8 a = r.ib7(), b = r.ib7();
            op("from_midi1_byte_stream");
            const auto p = midi::from_midi1_byte_stream(s, a, b);
            u32 e = 0;
            if (s >= 0x80 && s < 0xF0) e = 0x20000000u | u32(s) << 16 | u32(a) << 8 | b;
            else if (s >= 0xF0 && system_len(s)) e = 0x10000000u | u32(s) << 16 | u32(a) << 8 | b;
            VH_EQ("from-bytes", raw(p), word(e), "status " + show(s) + " data " + show(a) + "," + show(b));
            if (e)
            {
                // and back again
                vector<u8> back;
                to_bytes(raw(p), back);
                vector<u8> eb{ s, a, b };
                eb.resize(size_t(s < 0xF0 ? 1 + channel_data_bytes(s) : system_len(s)));
                VH_TRUE("from-bytes-and-back", back == eb, "status " + show(s) + " got " + hexc(back) + " expected " + hexc(eb));
            }
            VH_COUNT("byte triples converted");
        }
    }, false);

    section("packets to bytes to packets", 5000, [](Rng& r, u64) {
        const u8 g = u8(r.below(16));
        vector<Pk> in, out;
        vector<u8> bytes;
        for (auto n = r.range(1, 40); n--;)
        {
            const auto p = valid_packet(r, g);
            in.push_back(p);
            to_bytes(p, bytes);
        }
        midi::midi1_byte_stream_parser parser(g, [&](midi::universal_packet u) { out.push_back(sig(u)); });
        op("parse");
        parser.feed(bytes.data(), bytes.size());
        VH_TRUE("round-trip", in == out, "in: " + show_pks(in) + " out: " + show_pks(out) + " bytes " + hexc(bytes));
        VH_ADD("packets round-tripped", in.size());
        nontrivial(hash_bytes(bytes.data(), bytes.size()));
        if (want_sample()) sample("bytes " + hexc(bytes));
    });

    section("sysex through bytes", 4000, [](Rng& r, u64) {
        const u8 g = u8(r.below(16));
        struct M { u32 mfr; vector<u8> data; };
        vector<M> in, via_packets, via_callback;
        vector<u8> bytes;
        vector<Pk> other, other_out;
        for (auto n = r.range(1, 6); n--;)
        {
            M m{ mfr(r), r.bytes7(r.chance(1, 40) ? r.below(4000) : r.below(40)) };
            midi::sysex7 s(m.mfr, m.data.data(), m.data.size());
            op("as_sysex7_packets");
            for (auto& p : midi::as_sysex7_packets(s, g))
            {
                to_bytes(raw(p), bytes);
                if (r.chance(1, 10))
                {
                    // realtime inside of the SysEx
                    Pk rt = word(0x10000000u | u32(g) << 24 | u32(r.pick({ 0xF8, 0xFA, 0xFB, 0xFC, 0xFE, 0xFF })) << 16);
                    other.push_back(rt);
                    to_bytes(rt, bytes);
                }
            }
            in.push_back(m);
            if (r.chance(1, 2)) { other.push_back(valid_packet(r, g)); to_bytes(other.back(), bytes); }
        }
        midi::sysex7_collector col([&](const midi::sysex7& s) { via_packets.push_back({ s.manufacturerID, { s.data.begin(), s.data.end() } }); });
        midi::midi1_byte_stream_parser p1(g, [&](midi::universal_packet u) {
            col.feed(u);
            if (raw(u).w[0] >> 28 != 3) other_out.push_back(sig(u));
        });
        midi::midi1_byte_stream_parser p2(g, [&](midi::universal_packet) {}, [&](const midi::sysex7& s) { via_callback.push_back({ s.manufacturerID, { s.data.begin(), s.data.end() } }); });
        op("parse");
        p1.feed(bytes.data(), bytes.size());
        p2.feed(bytes.data(), bytes.size());
        auto same = [&](const vector<M>& v) {
            if (v.size() != in.size()) return false;
            for (size_t i = 0; i < v.size(); ++i)
                if (v[i].mfr != in[i].mfr || v[i].data != in[i].data) return false;
            return true;
        };
        VH_TRUE("sysex-round-trip-packets", same(via_packets), "bytes " + hexc(bytes));
        VH_TRUE("sysex-round-trip-callback", same(via_callback), "bytes " + hexc(bytes));
        VH_TRUE("round-trip-others", other == other_out, "bytes " + hexc(bytes));
        VH_ADD("sysex messages round-tripped", in.size());
        nontrivial(hash_bytes(bytes.data(), bytes.size()));
    });
}
