// C26: memory use is bounded by what was actually received; packet processing needs none.
// All requests to operator new and the SysEx allocator are logged with their size while the library works.
#include "mem.h"
#define CI_VALUES_JUDGED false
#include "ci_views.h"
#include "pk_read.h"
#include <midi/sysex_collector.h>
#include <memory>
using namespace ci_ref;
using pk_read::Sink;
namespace m  = midi;
namespace pe = midi::ci::property_exchange;

//! nothing may be requested in the scope
struct NoMemory
{
    const char* what;
    Arm         a{ 0 };
    explicit NoMemory(const char* w) : what(w) {}
    ~NoMemory()
    {
        Pause p;
        if (faults.requests)
            fail("memory-requested", "%s requests memory %llu times (largest request %zu bytes)", what, (unsigned long long)faults.requests, faults.largest);
        VH_COUNT("operations without memory");
    }
};
//! no request may be larger than announced
struct AtMost
{
    const char* what;
    size_t      limit, for_bytes;
    Arm         a{ 0 };
    AtMost(const char* w, size_t l, size_t n) : what(w), limit(l), for_bytes(n) {}
    ~AtMost()
    {
        Pause p;
        if (faults.largest > limit)
            fail("memory-unbounded", "%s of %zu bytes requests a block of %zu bytes (expected at most %zu)", what, for_bytes, faults.largest, limit);
        VH_COUNT("operations with bounded memory");
        if (faults.requests) VH_ADD("requests observed", faults.requests);
    }
};

static void packet(Rng& r, const Pk& p)
{
    const auto u = ump(p);
    const auto t = u.data[0] >> 28;
    Sink k;
    if (t == 0xD || t == 0xF) { AtMost b("reading a packet", 64, 16); pk_read::read_packet(u, k); }
    else { NoMemory b("reading a packet"); pk_read::read_packet(u, k); }
    u8 out[8];
    {
        op("to_midi1_byte_stream");
        NoMemory b("to_midi1_byte_stream");
        k.n(m::to_midi1_byte_stream(u, out));
        k.n(m::midi1_byte_stream_size(u));
    }
    {
        op("from_midi1_byte_stream");
        NoMemory b("from_midi1_byte_stream");
        k.n(m::from_midi1_byte_stream(p.byte(1), p.byte(2) & 0x7F, p.byte(3) & 0x7F).data[0]);
    }
    VH_COUNT("packets read");
    nontrivial(hash_bytes(p.w, sizeof p.w));
    (void)r;
}

static Bytes stream(Rng& r, size_t max)
{
    Bytes d;
    for (auto k = 1 + r.below(6); k; --k)
        switch (r.below(4))
        {
        case 0: put(d, r.bytes(r.below(80))); break;
        case 1: for (auto n = r.below(30); n; --n) { d.push_back(u8(0x80 | r.below(0x70))); d.push_back(r.b7()); d.push_back(r.b7()); if (r.chance(1, 4)) d.push_back(r.b7()); } break;
        default:
            d.push_back(0xF0);
            put(d, r.bytes7(r.size(100, max)));
            if (r.chance(4, 5)) d.push_back(0xF7);
        }
    return d;
}

static void parser_packets(Rng& r)
{
    op("parser");
    const Bytes d = stream(r, 5000);
    u64 h = 0, n = 0;
    m::midi1_byte_stream_parser ps(u8(r.below(16)), [&](m::universal_packet u) { h = mix(h ^ u.data[0] ^ u64(u.data[1]) << 32); ++n; });
    {
        NoMemory b("parsing a byte stream into packets");
        ps.feed(d.data(), d.size());
        if (d.size() & 1) ps.reset();
        ps.feed(d.data(), d.size());
    }
    VH_ADD("bytes parsed", d.size() * 2);
    nontrivial(h + n);
}

static void parser_sysex(Rng& r)
{
    op("parser");
    u64 n = 0, h = 0;
    m::midi1_byte_stream_parser ps(u8(r.below(16)), [&](m::universal_packet u) { h = mix(h ^ u.data[0]); }, [&](const m::sysex7& s) { h = mix(h ^ s.data.size()); ++n; });
    const size_t before = faults.bytes_live;
    for (int k = 0; k < 4; ++k)
    {
        const Bytes d = stream(r, r.chance(1, 8) ? 200000 : 9000);
        const size_t own = before; // harness: d itself
        {
            AtMost b("parsing a byte stream", 4 * d.size() + 4096, d.size());
            ps.feed(d.data(), d.size());
        }
        // a terminated or forgotten message is not kept
        const size_t with = faults.bytes_live;
        if (r.chance(1, 2)) ps.reset();
        else { const Bytes e{ 0xF0, 0x7D, 1, 0xF7 }; ps.feed(e.data(), e.size()); }
        (void)with;
        const size_t kept = faults.bytes_live - own - d.capacity();
        if (kept > 16384 + 2048) fail("memory-kept", "parser keeps %zu bytes after a reset or a short message, fed with %zu bytes before", kept, d.size());
        VH_COUNT("kept memory compared");
        VH_ADD("bytes parsed", d.size());
    }
    VH_ADD("messages delivered", n);
    nontrivial(h);
}

template<typename C, typename F> static void collector(Rng& r, F packets)
{
    op("collector");
    const size_t L = r.chance(2, 3) ? 1 + r.size(300, r.chance(1, 4) ? 60000 : 5000) : 0;
    u64 n = 0, h = 0;
    struct Cb { u64 &n, &h; void operator()(const m::sysex7& s) const { ++n; h = mix(h ^ s.data.size()); } void operator()(const m::sysex8& s, u8 i) const { ++n; h = mix(h ^ s.data.size() ^ i); } };
    const size_t before = faults.bytes_live;
    C c(Cb{ n, h });
    if (L)
    {
        AtMost b("setting the data size limit", std::max<size_t>(L, 256), L);
        c.set_max_sysex_data_size(L);
    }
    size_t run = 0;
    for (auto k = 2 + r.below(4); k; --k)
    {
        const size_t size = L && r.chance(1, 2) ? L / 2 + r.below(L * 3 + 20) : r.size(300, r.chance(1, 6) ? 60000 : 3000);
        const size_t lb   = faults.bytes_live;
        auto         ps   = packets(size, r);
        if (r.chance(1, 4)) ps.pop_back();
        for (auto& p : ps)
        {
            run += 13;
            const size_t limit = L ? std::max<size_t>(L, 256) : 4 * run + 4096;
            AtMost b("collecting", limit, run);
            c.feed(p);
        }
        (void)lb;
        if (r.chance(1, 4)) c.reset();
        else
        {
            // a short message ends whatever was open
            for (auto& p : packets(1, r)) c.feed(p);
        }
        const size_t kept = faults.bytes_live - before - ps.capacity() * sizeof ps[0];
        if (kept > std::max<size_t>(16384, L) + 2048) fail("memory-kept", "collector with limit %zu keeps %zu bytes after a reset or a short message, fed with %zu bytes before", L, kept, size);
        VH_COUNT("kept memory compared");
        VH_ADD("packets collected", ps.size());
        if (L && size > L) VH_COUNT("oversized messages");
        run = 0;
    }
    VH_ADD("messages delivered", n);
    nontrivial(h + n + L);
}
static auto packets7 = [](size_t n, Rng& r) { const Bytes d = r.bytes7(n); return m::as_sysex7_packets(m::sysex7(mfr(r), d.data(), d.size())); };
static auto packets8 = [](size_t n, Rng& r) { const Bytes d = r.bytes(n); return m::as_sysex8_packets(m::sysex8(mfr(r), d.data(), d.size()), 5); };

static void senders(Rng& r)
{
    const Bytes d = r.bytes7(r.size(100, 20000));
    const u32   mf = mfr(r);
    const m::sysex7 s7(mf, d.data(), d.size());
    const m::sysex8 s8(mf, d.data(), d.size());
    string nm(1 + r.below(90), 'x');
    u64 h = 0;
    auto f = [&](const m::universal_packet& p) { h = mix(h ^ p.data[0]); };
    op("send");
    { NoMemory b("send_sysex7"); m::send_sysex7(s7, 3, f); }
    { NoMemory b("send_sysex8"); m::send_sysex8(s8, 7, 3, f); }
    { NoMemory b("send_endpoint_name"); m::send_endpoint_name(nm, f); }
    { NoMemory b("send_function_block_name"); m::send_function_block_name(3, nm, f); }
    { NoMemory b("send_product_instance_id"); m::send_product_instance_id(std::string_view(nm).substr(0, 16), f); }
    const size_t pk = (d.size() / 6 + 4) * sizeof(m::universal_packet);
    { AtMost b("as_sysex7_packets", 4 * pk + 1024, d.size()); h += m::as_sysex7_packets(s7, 3).size(); }
    { AtMost b("as_sysex8_packets", 4 * pk + 1024, d.size()); h += m::as_sysex8_packets(s8, 7, 3).size(); }
    nontrivial(hash_bytes(d.data(), d.size(), h));
}

static void sysex(Rng& r)
{
    Bytes d = r.chance(3, 4) ? generate(r, subtype(r), version(r)) : r.bytes7(r.size(60, 400));
    if (d.size() > 60 && r.chance(1, 2)) d.resize(20 + r.below(40));
    for (auto k = r.below(6); k && d.size() > 12; --k) d[12 + r.below(std::min<size_t>(d.size() - 12, 14))] = r.chance(1, 2) ? 0x7F : r.ib();
    const u32 mf = r.chance(7, 8) ? 0x7E0000 : mfr(r);
    const m::sysex7 sx(mf, d.data(), d.size());
    unsigned n;
    {
        // an own copy first: counters are registered on first use
        static bool warm = false;
        if (!warm) { probe_all(sx, d, mf, false); for (u8 st = 0x20; st < 0x80; ++st) { const auto g = generate(r, st, 2); probe_all(exact(0x7E0000, g), g, 0x7E0000, false); } warm = true; }
        AtMost b("reading a message", 2 * d.size() + 1024, d.size());
        n = probe_all(sx, d, mf, false);
        op("universal sysex");
        n += m::is_universal_sysex_message(sx) + m::universal_sysex_device_id_of(sx) + m::universal_sysex::as_identity_reply_view(sx).has_value() + sx.is_7bit() + sx.is_valid();
    }
    VH_COUNT("messages read");
    nontrivial(hash_bytes(d.data(), d.size(), n));
}

static void building(Rng& r)
{
    const u32   a = muid(r), b = muid(r);
    const size_t n = r.size(100, 16383);
    const Bytes d = r.bytes7(n);
    const string t(1 + r.below(300), 'r');
    const mc::profile_id pid{ 0x7E, 1, 2, 3, 4 };
    const vector<mc::profile_id> en(r.below(400), pid), dis(r.below(400), pid);
    const pe::header_options opts{ { "k", t }, { "limit", "12" } };
    const auto k = r.below(7);
    const size_t given = k == 1 ? 5 * (en.size() + dis.size()) : k == 4 ? 2 * t.size() : k == 5 ? n + 2 * t.size() : k == 3 ? 12 : n;
    size_t got = 0;
    op("building");
    {
        AtMost w("building a message", 4 * given + 1024, given);
        switch (k)
        {
        case 0: got = mc::make_profile_specific_data_message(a, b, pid, d).data.size(); break;
        case 1: got = mc::make_profile_inquiry_reply(a, b, en, dis).data.size(); break;
        case 2: got = mc::make_endpoint_information_reply(a, b, 0, d.data(), d.size()).data.size(); break;
        case 3: got = mc::make_discovery_inquiry(a, m::device_identity{ 1, 2, 3, 4 }, 0xC, 0xFFFFFFF).data.size(); break;
        case 4: got = mc::make_get_property_data_inquiry(a, b, t, opts).data.size(); break;
        case 5: got = mc::make_set_property_data_inquiry(a, b, std::string_view(t), opts, 0x3FFF, 1, pe::chunk(d)).data.size(); break;
        default: { m::sysex7 s(1); for (u8 x : d) s.add_uint7(x); got = s.data.size(); }
        }
    }
    VH_COUNT("messages built");
    nontrivial(mix(a ^ u64(b) << 32) + got);
}

static void clocks(Rng& r)
{
    op("jitter reduction");
    u64 h = 0;
    {
        NoMemory b("following a clock");
        m::jr_clock_follower f;
        auto now = std::chrono::high_resolution_clock::now();
        u16  ts = u16(r.below(65536));
        for (int k = 0; k < 50; ++k)
        {
            ts += u16(r.below(20000));
            now += std::chrono::microseconds(r.below(600000));
            if (r.chance(1, 2)) { f.process_clock(now, m::jr_timestamp_t{ ts }); }
            else h += u64(f.schedule_message(now, m::jr_timestamp_t{ ts }).time_since_epoch().count());
            h += m::jr_clock::now().value;
            if (r.chance(1, 20)) f.reset();
        }
    }
    VH_COUNT("clock histories");
    nontrivial(r.next());
}

static void body()
{
    for (auto k : { "operations without memory", "operations with bounded memory", "requests observed", "packets read", "bytes parsed", "kept memory compared", "messages delivered", "packets collected",
                    "oversized messages", "messages read", "messages built", "clock histories" }) counter(k);
    section("packets", 20000, [](Rng& r, u64) { packet(r, hostile_packet(r)); });
    section("parser into packets", 1000, [](Rng& r, u64) { parser_packets(r); });
    section("parser with sysex callback", 400, [](Rng& r, u64) { parser_sysex(r); });
    section("sysex7 collector", 500, [](Rng& r, u64) { collector<m::sysex7_collector>(r, packets7); });
    section("sysex8 collector", 500, [](Rng& r, u64) { collector<m::sysex8_collector>(r, packets8); });
    section("senders", 1000, [](Rng& r, u64) { senders(r); });
    section("messages", 4000, [](Rng& r, u64) { sysex(r); });
    section("building", 2000, [](Rng& r, u64) { building(r); });
    section("clocks", 1000, [](Rng& r, u64) { clocks(r); });
}
void vh_main() { mem_main(body); }
