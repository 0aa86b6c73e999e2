// C21: SysEx containers encode numbers and identities losslessly
#include "ref.h"
#include <midi/sysex.h>
#include <midi/universal_sysex.h>
using namespace ref;
namespace m = midi;
namespace us = midi::universal_sysex;

static m::sysex7::data_type dt(const vector<u8>& d) { return m::sysex7::data_type(d.begin(), d.end()); }

static bool valid_id(u32 mf) { return (mf & 0xFF808080u) == 0; }

// all queries against the model (manufacturer, bytes)
template<typename SX> static void queries(const SX& s, u32 mf, const vector<u8>& d, const string& c)
{
    VH_EQ("manufacturer", u32(s.manufacturerID), mf, c);
    VH_EQ("data-size", s.data.size(), d.size(), c);
    VH_TRUE("data", std::equal(d.begin(), d.end(), s.data.begin()), c + " has " + hexc(s.data));
    VH_EQ("total-size", size_t(s.total_data_size()), d.size() + (mf == 0 ? 0 : (mf & 0xFF0000) ? 1 : 3), c);
    VH_EQ("empty", s.empty(), mf == 0 && d.empty(), c);
    bool eight = false;
    for (auto b : d) eight |= b > 0x7F;
    VH_EQ("is-7bit", s.is_7bit(), !eight, c);
    VH_EQ("is-8bit", s.is_8bit(), eight, c);
    if constexpr (std::is_base_of_v<m::sysex7, SX>) VH_EQ("is-valid", s.is_valid(), valid_id(mf) && !eight, c);
    VH_COUNT("query rounds");
}

struct Item
{
    int    kind;
    size_t pos;
    u32    v;
    m::device_identity id;
    vector<u8>         block;
};

static void numbers(Rng& r, size_t prefix = 0)
{
    const u32   mf = r.chance(1, 8) ? 0 : mfr(r);
    m::sysex7   s(mf);
    if (r.chance(1, 3)) s = m::sysex7(mf, size_t(r.below(200)));
    vector<u8>   d;
    vector<Item> items;
    string       hist = "manufacturer=" + show(mf);
    if (prefix)
    {
        Item it{};
        it.kind  = 5;
        it.block = r.bytes7(prefix);
        s.add_data(it.block.data(), it.block.size());
        d    = it.block;
        hist += " block" + show(prefix);
        items.push_back(it);
    }
    const int    n = int(r.below(r.chance(1, 10) ? 120 : 12));
    for (int i = 0; i <= n; ++i)
    {
        Item it{};
        it.kind = int(r.below(6));
        it.pos  = d.size();
        switch (it.kind)
        {
        case 0: it.v = r.ib7(); s.add_uint7(u8(it.v)); d.push_back(u8(it.v)); hist += " u7=" + show(it.v); break;
        case 1: it.v = r.iw() & 0x3FFF; s.add_uint14(u16(it.v)); d.push_back(it.v & 0x7F); d.push_back(u8(it.v >> 7)); hist += " u14=" + show(it.v); break;
        case 2: it.v = r.iw() & 0xFFFFFFF; s.add_uint28(it.v); for (int k = 0; k < 4; ++k) d.push_back((it.v >> (7 * k)) & 0x7F); hist += " u28=" + show(it.v); break;
        case 3: it.v = r.iw(); s.add_uint32(it.v); for (int k = 0; k < 5; ++k) d.push_back((it.v >> (7 * k)) & 0x7F); hist += " u32=" + show(it.v); break;
        case 4:
        {
            it.id.manufacturer = mfr(r); it.id.family = u16(r.iw() & 0x3FFF); it.id.model = u16(r.iw() & 0x3FFF); it.id.revision = r.iw() & 0xFFFFFFF;
            s.add_device_identity(it.id);
            for (int k = 2; k >= 0; --k) d.push_back((it.id.manufacturer >> (8 * k)) & 0x7F);
            for (u32 x : { u32(it.id.family), u32(it.id.model) }) { d.push_back(x & 0x7F); d.push_back(u8(x >> 7)); }
            for (int k = 0; k < 4; ++k) d.push_back((it.id.revision >> (7 * k)) & 0x7F);
            hist += " identity";
            break;
        }
        case 5:
        {
            it.block = r.bytes7(r.chance(1, 50) ? r.range(1, 20000) : r.range(1, 40));
            s.add_data(it.block.data(), it.block.size());
            d.insert(d.end(), it.block.begin(), it.block.end());
            hist += " block" + show(it.block.size());
            break;
        }
        }
        items.push_back(it);
        VH_COUNT("values appended");
        if (r.chance(1, 4)) queries(s, mf, d, hist);
        if (r.chance(1, 60))
        {
            op("clear");
            s.clear(); d.clear(); items.clear();
            queries(s, 0, d, hist + " clear");
            VH_TRUE("clear-equals-new", s == m::sysex7{}, hist);
            s.manufacturerID = mf;
            VH_COUNT("clears");
            hist += " clear";
        }
    }
    queries(s, mf, d, hist);
    VH_TRUE("only-7bit", s.is_7bit(), hist);
    const m::sysex7 cs = s;
    for (auto& it : items)
    {
        const string c = hist + " at " + show(it.pos);
        op("make_*");
        switch (it.kind)
        {
        case 0: VH_EQ("uint7", u32(cs.data[it.pos]), it.v, c); break;
        case 1: VH_EQ("uint14", u32(cs.make_uint14(it.pos)), it.v, c); break;
        case 2: VH_EQ("uint28", u32(cs.make_uint28(it.pos)), it.v, c); break;
        case 3: VH_EQ("uint32", u32(cs.make_uint32(it.pos)), it.v, c); break;
        case 4:
        {
            const auto i = cs.make_device_identity(it.pos);
            VH_EQ("identity-manufacturer", u32(i.manufacturer), u32(it.id.manufacturer), c);
            VH_EQ("identity-family", u32(i.family), u32(it.id.family), c);
            VH_EQ("identity-model", u32(i.model), u32(it.id.model), c);
            VH_EQ("identity-revision", u32(i.revision), u32(it.id.revision), c);
            break;
        }
        case 5: VH_TRUE("block", std::equal(it.block.begin(), it.block.end(), cs.data.begin() + it.pos), c); break;
        }
        VH_COUNT("values read back");
    }
    nontrivial(hash_bytes(d.data(), d.size(), mf + 1));
    if (want_sample()) sample(hist.substr(0, 300));
}

template<typename SX> static void construct(Rng& r, size_t max = 40000)
{
    const u32 mf = r.chance(1, 8) ? 0 : r.chance(1, 8) ? r.iw() : mfr(r);
    auto d = r.chance(1, 2) ? r.bytes7(r.size(30, max)) : r.bytes(r.size(30, max / 100));
    const string c = show(mf) + " " + hexc(d);
    if (r.chance(1, 3) && !d.empty()) { for (auto& b : d) b &= 0x7F; d[r.below(d.size())] |= 0x80; } // exactly one 8 bit byte anywhere
    queries(SX(mf), mf, {}, c);
    queries(SX{}, 0, {}, c);
    SX cap(mf, size_t(r.below(3000)));
    queries(cap, mf, {}, c);
    SX a(mf, d.data(), d.size());
    queries(a, mf, d, c);
    SX b(mf, dt(d));
    queries(b, mf, d, c);
    VH_TRUE("equal", a == b && !(a != b), c);
    const u8 l0 = r.b(), l1 = r.b();
    SX l(mf, { l0, l1, 0x7F });
    queries(l, mf, { l0, l1, 0x7F }, c);

    SX e(a);
    queries(e, mf, d, c);
    SX mv(std::move(e));
    queries(mv, mf, d, c);
    e = mv;
    queries(e, mf, d, c);
    l = std::move(e);
    queries(l, mf, d, c);

    // equality
    auto d2 = d;
    u32  m2 = mf;
    switch (r.below(4))
    {
    case 0: m2 ^= 1u << r.below(24); break;
    case 1: d2.push_back(r.chance(1, 2) ? 0 : r.b()); break;
    case 2: if (!d2.empty()) d2[r.below(d2.size())] ^= u8(1 << r.below(8)); break;
    default: if (!d2.empty()) d2.pop_back();
    }
    SX o(m2, dt(d2));
    const bool eq = m2 == mf && d2 == d;
    VH_EQ("equality", a == o, eq, c);
    VH_EQ("equality-symmetric", o == a, eq, c);
    VH_EQ("inequality", a != o, !eq, c);
    VH_EQ("equality-base", static_cast<const m::sysex&>(a) == static_cast<const m::sysex&>(o), eq, c);
    VH_EQ("inequality-base", static_cast<const m::sysex&>(a) != static_cast<const m::sysex&>(o), !eq, c);
    VH_COUNT("comparisons");
    a.clear();
    queries(a, 0, {}, c);
    queries(b, mf, d, c + " (clearing another message)");
    VH_COUNT("messages constructed");
    nontrivial(hash_bytes(d.data(), d.size(), mf + 77));
}

static void identity(Rng& r)
{
    const u32    mf = mfr(r);
    const u16    fa = u16(r.iw() & 0x3FFF), mo = u16(r.iw() & 0x3FFF);
    const u32    re = r.iw() & 0xFFFFFFF;
    const u8     dev = r.ib7();
    const bool   def = r.chance(1, 3);
    const string c = "manufacturer=" + show(mf) + " family=" + show(fa) + " model=" + show(mo) + " revision=" + show(re) + " device=" + show(dev) + (def ? " default device" : "");
    {
        op("identity request");
        us::message q = def ? us::make_identity_request() : us::make_identity_request(dev);
        queries(q, 0x7E0000, { u8(def ? 0x7F : dev), 6, 1 }, c);
        VH_TRUE("request", us::is_identity_request(q) && !us::is_identity_reply(q) && !us::as_identity_reply_view(q), c);
        VH_EQ("request-device", unsigned(q.device_id()), unsigned(def ? 0x7F : dev), c);
        VH_EQ("request-device-of", unsigned(m::universal_sysex_device_id_of(q)), unsigned(def ? 0x7F : dev), c);
        VH_EQ("request-type", unsigned(q.type()), 0x7E06u, c);
        VH_EQ("request-subtype", unsigned(q.subtype()), 1u, c);
        const u8 nd = r.ib7();
        q.set_device_id(nd);
        queries(q, 0x7E0000, { nd, 6, 1 }, c);
        VH_COUNT("identity requests");
    }
    {
        op("identity reply");
        const m::device_identity id{ mf, fa, mo, re };
        us::message p = def ? us::make_identity_reply(id) : us::make_identity_reply(mf, fa, mo, re, dev);
        vector<u8> e{ u8(def ? 0x7F : dev), 6, 2 };
        for (u8 b : id7(mf)) e.push_back(b);
        for (u32 x : { u32(fa), u32(mo) }) { e.push_back(x & 0x7F); e.push_back(u8(x >> 7)); }
        for (int k = 0; k < 4; ++k) e.push_back((re >> (7 * k)) & 0x7F);
        queries(p, 0x7E0000, e, c);
        VH_TRUE("reply", us::is_identity_reply(p) && !us::is_identity_request(p), c);
        auto v = us::as_identity_reply_view(p);
        VH_TRUE("reply-view", v.has_value(), c);
        VH_EQ("reply-device", unsigned(v->device_id()), unsigned(e[0]), c);
        VH_EQ("reply-subtype", unsigned(v->subtype()), 2u, c);
        const auto i = v->identity();
        VH_EQ("reply-manufacturer", u32(i.manufacturer), mf, c);
        VH_EQ("reply-family", u32(i.family), u32(fa), c);
        VH_EQ("reply-model", u32(i.model), u32(mo), c);
        VH_EQ("reply-revision", u32(i.revision), re, c);
        VH_COUNT("identity replies");
        nontrivial(hash_bytes(e.data(), e.size()));
    }
}

void vh_main()
{
    section("numbers", 10000, [](Rng& r, u64) { numbers(r); });
    section("all 7 and 14 bit numbers", 16384, [](Rng&, u64 i) {
        m::sysex7 s(0x7E0000);
        s.add_uint7(u8(i & 0x7F));
        s.add_uint14(u16(i));
        VH_EQ("uint7-bytes", unsigned(s.data[0]), unsigned(i & 0x7F));
        VH_EQ("uint14-bytes", unsigned(s.data[1] | s.data[2] << 7), unsigned(i));
        VH_EQ("uint14-exhaustive", unsigned(s.make_uint14(1)), unsigned(i));
        VH_EQ("numbers-size", s.data.size(), size_t(3));
        // small, large and middle 28 and 32 bit numbers
        for (u32 v : { u32(i), u32(i) << 14, u32(i) << 7, 0x0FFFFFFFu - u32(i) })
        {
            m::sysex7 t(0x7E0000);
            t.add_uint28(v);
            VH_EQ("uint28-bytes", u32(t.data[0]) | u32(t.data[1]) << 7 | u32(t.data[2]) << 14 | u32(t.data[3]) << 21, v, show(v));
            VH_EQ("uint28-small", u32(t.make_uint28(0)), v, show(v));
            t.add_uint32(v << 4 | v >> 24);
            VH_EQ("uint32-small", u32(t.make_uint32(4)), v << 4 | v >> 24, show(v));
            t.add_uint32(v);
            VH_EQ("uint32-small", u32(t.make_uint32(9)), v, show(v));
        }
    }, false);
    section("containers", 6000, [](Rng& r, u64) { r.chance(1, 2) ? construct<m::sysex7>(r) : construct<m::sysex8>(r); });
    // positions and sizes around and beyond 2^16
    section("numbers in large messages", 33 * 4 + 20, [](Rng& r, u64 i) {
        static const size_t near[] = { 16384, 32768, 65536, 131072 };
        numbers(r, i < 33 * 4 ? near[i / 33] - 24 + i % 33 : size_t(r.range(40000, 300000)));
        VH_COUNT("large messages");
    }, false);
    section("large containers", 40, [](Rng& r, u64) {
        r.chance(1, 2) ? construct<m::sysex7>(r, 400000) : construct<m::sysex8>(r, 400000);
    }, false);
    section("identities", 10000, [](Rng& r, u64) { identity(r); });
}
