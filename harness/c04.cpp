// C04 / C05: segmentation of SysEx messages into packets (compile with -DSX8=0/1)
#include "ref.h"
#include <midi/sysex.h>
#include <midi/sysex_collector.h>
using namespace ref;

#if SX8
using sx                        = midi::sysex8;
static constexpr unsigned CAP   = 13, TYPE = 5, FIRST = 3, EXTRA = 1;
#else
using sx                        = midi::sysex7;
static constexpr unsigned CAP   = 6, TYPE = 3, FIRST = 2, EXTRA = 0;
#endif

struct Delivery { u32 mfr; vector<u8> data; unsigned stream; };

static vector<Pk> send(const sx& s, u8 stream, u8 group)
{
    vector<Pk> out;
#if SX8
    midi::send_sysex8(s, stream, group, [&](const midi::universal_packet& p) { out.push_back(raw(p)); });
#else
    (void)stream;
    midi::send_sysex7(s, group, [&](const midi::universal_packet& p) { out.push_back(raw(p)); });
#endif
    return out;
}
static vector<Pk> as_vec(const sx& s, u8 stream, u8 group)
{
    vector<Pk> out;
#if SX8
    for (auto& p : group ? midi::as_sysex8_packets(s, stream, group) : midi::as_sysex8_packets(s, stream)) out.push_back(raw(p));
#else
    (void)stream;
    for (auto& p : group ? midi::as_sysex7_packets(s, group) : midi::as_sysex7_packets(s)) out.push_back(raw(p));
#endif
    return out;
}

static void check_message(u32 m, const vector<u8>& data, u8 stream, u8 group, Rng& r)
{
    const string ctx = "mfr=" + show(m) + " data(" + std::to_string(data.size()) + ")=" + hexc(data) + " stream=" + show(stream) + " group=" + show(group);
    op("build");
    sx s(m, data.data(), data.size());
    op("send");
    const auto out = send(s, stream, group);
    op("check packets");
    const string pctx = ctx + " packets: " + show_pks(out);
    VH_TRUE("no-packets", !out.empty(), pctx);

    vector<u8> expect = SX8 ? id8(m) : id7(m);
    expect.insert(expect.end(), data.begin(), data.end());
    const size_t n_exp = (expect.size() + CAP - 1) / CAP;

    vector<u8> got;
    for (size_t i = 0; i < out.size(); ++i)
    {
        const auto& p = out[i];
        VH_EQ("packet-type", p.w[0] >> 28, TYPE, pctx);
        VH_EQ("packet-group", (p.w[0] >> 24) & 15, u32(group), pctx);
        const unsigned fmt = p.byte(1) >> 4, sz = p.byte(1) & 15;
        const unsigned ef  = out.size() == 1 ? 0 : i == 0 ? 1 : i + 1 == out.size() ? 3 : 2;
        VH_EQ("packet-format", fmt, ef, pctx + " at packet " + std::to_string(i));
        VH_TRUE("packet-size", sz >= 1 + EXTRA && sz <= CAP + EXTRA, pctx + " at packet " + std::to_string(i));
        const unsigned n = sz - EXTRA;
        if (i + 1 < out.size()) VH_EQ("packet-not-full", n, CAP, pctx + " at packet " + std::to_string(i));
#if SX8
        VH_EQ("packet-stream", unsigned(p.byte(2)), unsigned(stream), pctx);
#endif
        for (unsigned b = 0; b < n; ++b) got.push_back(p.byte(FIRST + b));
        VH_COUNT("packets observed");
        static const char* names[] = { "complete packets", "start packets", "continue packets", "end packets" };
        counter(names[fmt])++;
    }
    VH_TRUE("payload", got == expect, pctx + " got " + hexc(got) + " expected " + hexc(expect));
    VH_EQ("packet-count", out.size(), n_exp, pctx);

    op("vector form");
    VH_TRUE("vector-differs", as_vec(s, stream, group) == out, pctx + " vector: " + show_pks(as_vec(s, stream, group)));

    // the source message is not modified
    VH_TRUE("source-modified", s.manufacturerID == m && vector<u8>(s.data.begin(), s.data.end()) == data, ctx);

    op("collect");
    vector<Delivery> got_msgs;
#if SX8
    midi::sysex8_collector c([&](const midi::sysex8& x, u8 id) { got_msgs.push_back({ x.manufacturerID, { x.data.begin(), x.data.end() }, id }); });
#else
    midi::sysex7_collector c([&](const midi::sysex7& x) { got_msgs.push_back({ x.manufacturerID, { x.data.begin(), x.data.end() }, 0 }); });
#endif
    if (r.chance(1, 3)) c.set_max_sysex_data_size(data.size() + r.below(3)); // the message still fits
    const unsigned reps = 1 + unsigned(r.chance(1, 3));
    for (unsigned k = 0; k < reps; ++k)
    {
        for (size_t i = 0; i < out.size(); ++i)
        {
            VH_EQ("early-delivery", got_msgs.size(), size_t(k), pctx);
            c.feed(ump(out[i]));
        }
        VH_EQ("delivery-count", got_msgs.size(), size_t(k + 1), pctx);
        VH_EQ("delivered-manufacturer", got_msgs[k].mfr, m, ctx);
        VH_TRUE("delivered-data", got_msgs[k].data == data, ctx + " delivered " + hexc(got_msgs[k].data));
        if (SX8) VH_EQ("delivered-stream", got_msgs[k].stream, unsigned(stream), ctx);
        VH_COUNT("deliveries observed");
    }
    nontrivial(hash_bytes(data.data(), data.size(), m * 31 + stream * 7 + group));
    if (want_sample() && out.size() > 1 && out.size() < 5) sample(pctx);
}

static vector<u8> content(Rng& r, size_t n)
{
    vector<u8> d(n);
    const auto mode = r.below(4);
    for (size_t i = 0; i < n; ++i)
    {
        u8 v = mode == 0 ? u8(i + 1) : mode == 1 ? r.ib() : r.b();
        d[i] = SX8 ? v : (v & 0x7F);
    }
    return d;
}

void vh_main()
{
    // every data size around all packet boundaries, all id kinds, all groups
    section("every size", 2 * 4200, [](Rng& r, u64 i) {
        const u32 m = (i & 1) ? mfr3(r) : mfr1(r);
        const auto n = (i / 2);
        check_message(m, content(r, n), r.ib(), u8(r.below(16)), r);
        check_message(m, content(r, n), r.ib(), u8(n % 16), r);
        VH_COUNT("messages with exhaustive small size");
    }, false);
    section("sizes around powers of two", n_boundary_sizes, [](Rng& r, u64 i) {
        // the whole encoded message and the data alone
        const u32 m = r.chance(1, 2) ? mfr3(r) : mfr1(r);
        const size_t n = boundary_size(i);
        check_message(m, content(r, n), r.ib(), u8(r.below(16)), r);
        check_message(m, content(r, n - (SX8 ? id8(m) : id7(m)).size()), r.ib(), u8(r.below(16)), r);
        VH_COUNT("messages around powers of two");
    }, false);
    section("every manufacturer", 127 + 16383, [](Rng& r, u64 i) {
        const u32 m = i < 127 ? u32(i + 1) << 16 : (((u32(i - 127 + 1) >> 7) & 0x7F) << 8) | (u32(i - 127 + 1) & 0x7F);
        check_message(m, content(r, r.below(16)), r.ib(), u8(r.below(16)), r);
    }, false);
    section("random", 12000, [](Rng& r, u64) { check_message(mfr(r), content(r, r.size(40, 600)), r.ib(), u8(r.below(16)), r); });
    section("large", 120, [](Rng& r, u64) {
        check_message(mfr(r), content(r, r.range(1000, r.chance(1, 4) ? 70000 : 8000)), r.ib(), u8(r.below(16)), r);
        VH_COUNT("large messages");
    });
}
