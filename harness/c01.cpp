// C01: inspecting hostile packets and SysEx data is memory safe and free of undefined behaviour.
#include "ci_views.h"
#include "pk_read.h"
#include <midi/sysex_collector.h>
#include <memory>
#include <sstream>
using namespace ci_ref;
using pk_read::Sink;
namespace m  = midi;
namespace us = midi::universal_sysex;

static VH_TLS u64 digest;

static void packet(const Pk& p)
{
    const auto u = std::make_unique<m::universal_packet>(ump(p)); // any access beyond the packet leaves the heap block
    Sink k;
    pk_read::read_packet(*u, k);
    op("byte stream");
    const size_t announced = m::midi1_byte_stream_size(*u);
    const auto   bytes = std::make_unique<u8[]>(8);
    std::memset(bytes.get(), 0, 8);
    const size_t n = m::to_midi1_byte_stream(*u, bytes.get());
    if (n > 8) fail("byte-stream-size", "%zu bytes from %s", n, show_pk(p).c_str());
    for (size_t i = 0; i < n; ++i) k.n(bytes[i]);
    k.n(announced);
    op("print");
    std::ostringstream os;
    os << *u;
    k.s(os.str().size() > 14 ? string() : os.str());
    k.n(hash_str(os.str()));
    if (raw(*u) != p) fail("packet-changed", "%s became %s", show_pk(p).c_str(), show_pk(raw(*u)).c_str());
    VH_COUNT("packets inspected");
    VH_ADD("packet views read", k.offered);
    digest = mix(digest ^ k.h);
    nontrivial(hash_bytes(p.w, sizeof p.w));
}

static void sysex_any(const m::sysex7& sx, u32 mf, const Bytes& d)
{
    // universal SysEx
    op("universal sysex");
    u64 h = 0;
    auto n = [&](u64 v) { h = mix(h ^ v); };
    n(m::is_universal_sysex_message(sx)); n(m::universal_sysex_type_of(sx)); n(m::universal_sysex_subtype_of(sx)); n(m::universal_sysex_device_id_of(sx));
    n(us::is_identity_request(sx)); n(us::is_identity_reply(sx));
    if (auto v = m::as_universal_sysex_view(sx)) { n(v->device_id()); n(v->type()); n(v->subtype()); n(v->data_size()); VH_COUNT("universal views read"); }
    if (auto v = us::as_identity_reply_view(sx))
    {
        const auto i = v->identity();
        n(i.manufacturer); n(i.family); n(i.model); n(i.revision); n(v->device_id());
        VH_COUNT("identity replies read");
    }
    op("sysex queries");
    n(sx.total_data_size()); n(sx.empty()); n(sx.is_7bit()); n(sx.is_8bit()); n(sx.is_valid()); n(sx == sx);
    // MIDI-CI: every view; acceptance itself is C02's business
    if (probe_all(sx, d, mf, false) > 1) VH_COUNT("ci messages read");
    if (u32(sx.manufacturerID) != mf || bytes_of(sx) != d) fail("message-changed", "reading changed %s", show_ci(mf, d).c_str());
    // segmentation of whatever it is
    if (d.size() < 200)
    {
        op("packets");
        for (auto& p : m::as_sysex7_packets(sx, 3)) { n(p.data[0]); n(p.data[1]); }
    }
    VH_COUNT("sysex messages inspected");
    digest = mix(digest ^ h);
    nontrivial(hash_bytes(d.data(), d.size(), mf));
}
static void sysex(u32 mf, const Bytes& d)
{
    const auto sx = std::make_unique<m::sysex7>(mf, d.data(), d.size());
    if (sx->data.capacity() != d.size()) sx->data.shrink_to_fit();
    sysex_any(*sx, mf, d);
}

static u32 any_mfr(Rng& r)
{
    switch (r.below(8))
    {
    case 0: return r.iw();
    case 1: return 0;
    case 2: return 0x7F0000;
    case 3: return mfr(r);
    default: return 0x7E0000;
    }
}
static Bytes hostile_message(Rng& r)
{
    Bytes d;
    switch (r.below(4))
    {
    case 0: d = r.bytes(r.size(40, 400)); break;
    case 1: d = r.bytes7(r.size(40, 400)); break;
    default: d = generate(r, subtype(r), version(r));
    }
    if (d.size() > 1 && r.chance(2, 3)) d[1] = r.pick<u8>({ 0x0D, 0x0D, 0x0D, 0x06 });
    if (d.size() > 2 && r.chance(1, 2)) d[2] = r.chance(1, 8) ? r.b() : subtype(r);
    if (d.size() > 3 && r.chance(1, 4)) d[3] = r.b();
    for (auto k = r.below(4); k && d.size(); --k)
        switch (r.below(4))
        {
        case 0: d[r.below(d.size())] = r.ib(); break;
        case 1: d[12 % d.size()] = r.ib(); break;
        case 2: if (d.size() > 12) { const size_t p = 12 + r.below(std::min<size_t>(d.size() - 12, 12)); d[p] = r.ib(); } break;
        default: d.resize(r.below(d.size() + 1));
        }
    if (r.chance(1, 6)) for (auto& b : d) b |= 0x80;
    return d;
}

void vh_main()
{
    // fixed part, whose observations all builds have to agree on
    section("all packet heads", 16 * 256 * 16, [](Rng& r, u64 i) {
        Pk p;
        for (auto& w : p.w) w = r.chance(1, 3) ? 0xFFFFFFFF : r.iw();
        p.w[0] = (p.w[0] & 0x0F00FFFF) | u32(i / 4096) << 28 | u32(i / 16 % 256) << 16;
        if (i % 16 == 0) p.w[0] &= 0xFFFF0000;
        if (i % 16 == 1) p.w[0] |= 0x0000FFFF;
        packet(p);
    }, false);
    section("all short sysex heads", 128 * 40, [](Rng& r, u64 i) {
        for (int fill = 0; fill < 5; ++fill)
        {
            Bytes d(size_t(i / 128));
            for (auto& b : d) b = fill == 0 ? 0 : fill == 1 ? 0x7F : fill == 2 ? 0xFF : fill == 3 ? r.b() : r.b7();
            if (d.size() > 1) d[1] = 0x0D;
            if (d.size() > 2) d[2] = u8(i % 128);
            sysex(0x7E0000, d);
        }
        Bytes d = r.bytes7(size_t(i / 128));
        if (d.size() > 1) d[1] = 0x06;
        if (d.size() > 2) d[2] = u8(i % 4);
        sysex(i % 2 ? 0x7E0000 : 0x7F0000, d);
    }, false);
    if (!S().only) std::printf("VH-DIGEST inspection %016llx\n", (unsigned long long)digest);

    section("identity replies", 4000, [](Rng& r, u64) {
        Bytes d = r.bytes7(12 + r.below(6));
        d[1] = 6; d[2] = u8(1 + r.below(2)); d[3] = r.chance(1, 2) ? 0 : r.b7();
        for (auto k = r.below(3); k; --k) d[r.below(d.size())] = r.ib();
        sysex(r.chance(7, 8) ? 0x7E0000 : any_mfr(r), d);
    });
    section("random packets", 60000, [](Rng& r, u64) { packet(hostile_packet(r)); });
    section("hostile sysex", 12000, [](Rng& r, u64) { sysex(any_mfr(r), hostile_message(r)); });
    // announced sizes far beyond the message
    section("huge announced sizes", 4000, [](Rng& r, u64) {
        Bytes d = generate(r, r.pick<u8>({ 0x21, 0x29, 0x2F, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3F, 0x73, 0x7D, 0x7F }), version(r));
        d.resize(std::min<size_t>(d.size(), 60));
        for (size_t k = 12; k < d.size() && k < 24; ++k)
            if (r.chance(1, 3)) d[k] = r.pick<u8>({ 0x7F, 0xFF, 0x80, 0x01 });
        sysex(0x7E0000, d);
    });
    // whatever collectors and parsers deliver for garbage is inspected as well
    section("collectors", 1500, [](Rng& r, u64) {
        u64 h = 0;
        m::sysex7_collector c7([&](const m::sysex7& s) { VH_COUNT("messages delivered"); sysex_any(s, s.manufacturerID, bytes_of(s)); op("collector"); });
        m::sysex8_collector c8([&](const m::sysex8& s, u8 id) {
            VH_COUNT("messages delivered");
            h += s.total_data_size() + s.is_7bit() + s.is_8bit() + s.empty() + id;
            if (s.data.size() < 300) for (auto& p : m::as_sysex8_packets(s, id, 1)) h += p.data[3];
        });
        if (r.chance(1, 2)) { const auto lim = r.below(60); c7.set_max_sysex_data_size(lim); c8.set_max_sysex_data_size(lim); }
        for (auto k = r.below(60); k; --k)
        {
            Pk p = hostile_packet(r);
            if (r.chance(7, 8)) p.w[0] = (p.w[0] & 0x0F00FFFF) | (r.chance(1, 2) ? 0x30000000u : 0x50000000u) | u32(r.below(r.chance(1, 8) ? 16 : 4)) << 20 | u32(r.below(16)) << 16;
            if (r.chance(1, 6)) { p.w[0] = 0x30160000 | 0x7E7F; p.w[1] = 0x0D000000 | u32(subtype(r)) << 16 | (r.w() & 0x7F7F); }
            const auto u = std::make_unique<m::universal_packet>(ump(p));
            op("collector");
            c7.feed(*u); c8.feed(*u);
            if (r.chance(1, 40)) { c7.reset(); c8.reset(); }
            VH_COUNT("packets fed to collectors");
        }
    });
    section("byte streams", 1500, [](Rng& r, u64) {
        unsigned packets = 0;
        m::midi1_byte_stream_parser::sysex_callback sc;
        if (r.chance(2, 3)) sc = [&](const m::sysex7& s) { VH_COUNT("messages delivered"); sysex_any(s, s.manufacturerID, bytes_of(s)); op("parser"); };
        m::midi1_byte_stream_parser ps(u8(r.below(16)), [&](m::universal_packet u) { ++packets; packet(raw(u)); op("parser"); }, sc);
        Bytes d;
        for (auto k = 1 + r.below(6); k; --k)
        {
            if (r.chance(1, 2)) put(d, r.bytes(r.below(60)));
            else { d.push_back(0xF0); if (r.chance(2, 3)) d.push_back(0x7E); auto h = hostile_message(r); if (r.chance(3, 4)) for (auto& b : h) b &= 0x7F; put(d, h); if (r.chance(3, 4)) d.push_back(0xF7); }
        }
        const auto exact_buf = std::make_unique<u8[]>(d.size());
        std::copy(d.begin(), d.end(), exact_buf.get());
        op("parser");
        ps.feed(exact_buf.get(), d.size());
        VH_ADD("bytes fed to parsers", d.size());
        VH_ADD("packets from parsers", packets);
    });
    section("packet texts", 3000, [](Rng& r, u64) {
        string t;
        for (auto k = r.below(60); k; --k) t += r.chance(3, 4) ? "0123456789abcdefABCDEF"[r.below(22)] : r.chance(1, 2) ? ' ' : char(r.b());
        std::istringstream is(t);
        op("parse text");
        for (int k = 0; k < 6 && is; ++k)
        {
            auto u = std::make_unique<m::universal_packet>();
            if (is >> *u) packet(raw(*u));
        }
        VH_COUNT("texts parsed");
    });
}
