// C02: a MIDI-CI view is offered exactly for complete messages of its kind.
#include "ci_views.h"
using namespace ci_ref;

static unsigned judge(u32 mf, const Bytes& d)
{
    const auto sx = exact(mf, d);
    const auto n  = probe_all(sx, d, mf);
    if (u32(sx.manufacturerID) != mf || bytes_of(sx) != d) fail("message-changed", "reading changed %s", show_ci(mf, d).c_str());
    VH_COUNT("messages judged");
    if (n > 1) VH_COUNT("messages with a specific view");
    nontrivial(hash_bytes(d.data(), d.size(), mf));
    return n;
}

// positions of the length / count fields of a message
static vector<size_t> length_fields(const Bytes& d)
{
    if (d.size() < 12) return {};
    switch (d[2])
    {
    case 0x73: return { 13 };
    case 0x7D: case 0x7F: return { 20 };
    case 0x21:
    {
        vector<size_t> r{ 12 };
        if (d.size() >= 14 && d.size() >= 16 + size_t(get14(d, 12)) * 5) r.push_back(14 + size_t(get14(d, 12)) * 5);
        return r;
    }
    case 0x29: return { 18 };
    case 0x2F: return { 17, 19 };
    case 0x34: case 0x35: case 0x36: case 0x37: case 0x38: case 0x39: case 0x3F:
    {
        vector<size_t> r{ 13 };
        if (d.size() >= 21 && d.size() >= 21 + size_t(get14(d, 13)))
            for (size_t k : { 15u, 17u, 19u }) r.push_back(k + get14(d, 13));
        return r;
    }
    default: return {};
    }
}

static void mutate(Rng& r, Bytes& d, u32& mf)
{
    switch (r.below(9))
    {
    case 0: d.resize(r.below(d.size() + 1)); break;
    case 1: put(d, r.bytes7(1 + r.below(12))); break;
    case 2: if (d.size() > 2) d[2] = subtype(r); break;
    case 3: if (d.size() > 3) d[3] = version(r); break;
    case 4:
    case 5:
    {
        auto f = length_fields(d);
        if (f.empty()) break;
        const size_t p = f[r.below(f.size())];
        if (p + 1 >= d.size()) break;
        u32 v = get14(d, p);
        switch (r.below(5))
        {
        case 0: v += 1; break;
        case 1: v -= 1; break;
        case 2: v = n14(r); break;
        case 3: v = u32(d.size()) - u32(p) - u32(r.below(12)); break;
        default: v ^= 1u << r.below(14);
        }
        d[p] = v & 0x7F; d[p + 1] = (v >> 7) & 0x7F;
        break;
    }
    case 6: if (d.size()) d[r.below(d.size())] = r.b7(); break;
    case 7: if (d.size()) d[r.below(std::min<size_t>(d.size(), 30))] |= 0x80; break;
    default:
        if (r.chance(1, 2)) mf = r.pick<u32>({ 0x7F0000, 0x7E, 0x7E00, 0, 0x7E0001, 0x7E0D00, 0x7D0000, 0x017E0000, 0x2109 });
        else if (d.size() > 1) d[1] = r.pick<u8>({ 0x0C, 0x0E, 0x06, 0x0D, 0x00, 0x8D, 0x7E });
    }
}

void vh_main()
{
    // every subtype, size 0..47 and version with zero, one, maximal and random fill
    section("sizes", 128 * 48, [](Rng& r, u64 i) {
        const u8 st = u8(i & 127);
        const size_t n = size_t(i >> 7);
        for (u8 ver : { 0, 1, 2, 3, 127 })
            for (int fill = 0; fill < 4; ++fill)
            {
                Bytes d(n);
                for (auto& b : d) b = fill == 0 ? 0 : fill == 1 ? 1 : fill == 2 ? 0x7F : r.b7();
                if (n > 1) d[1] = 0x0D;
                if (n > 2) d[2] = st;
                if (n > 3) d[3] = ver;
                judge(0x7E0000, d);
            }
    }, false);
    // every announced size or count: complete, one byte short, one byte more
    section("every announced size", 4096, [](Rng& r, u64 i) {
        const u32 n = u32(i);
        auto tri = [&](Bytes d) {
            judge(0x7E0000, d);
            VH_COUNT("announced sizes");
            d.push_back(r.b7());
            judge(0x7E0000, d);
            d.resize(d.size() - 2);
            judge(0x7E0000, d);
        };
        const u8 pes[] = { 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3F };
        auto head = [&](u8 st) { return header(st, muid(r), muid(r), r.ib7(), 2); };
        { auto d = head(0x73); put7(d, r.ib7()); put14(d, n); put(d, r.bytes7(n)); tri(d); }
        { auto d = head(i & 1 ? 0x7D : 0x7F); put(d, r.bytes7(8)); put14(d, n); put(d, r.bytes7(n)); tri(d); }
        { auto d = head(0x29); put(d, r.bytes7(6)); put14(d, n); put(d, r.bytes7(n)); tri(d); }
        { auto d = head(0x2F); put(d, r.bytes7(5)); put28(d, n); put(d, r.bytes7(n)); tri(d); }
        { const u32 o = u32(r.below(3)); auto d = head(0x21); put14(d, i & 1 ? n : o); put(d, r.bytes7(5 * (i & 1 ? n : o))); put14(d, i & 1 ? o : n); put(d, r.bytes7(5 * (i & 1 ? o : n))); tri(d); }
        { auto d = head(pes[i % 7]); put7(d, r.ib7()); put14(d, n); put(d, r.bytes7(n)); put14(d, 1); put14(d, 1); put14(d, 0); tri(d); }
        { auto d = head(pes[r.below(7)]); put7(d, r.ib7()); put14(d, 0); put14(d, 1); put14(d, 1); put14(d, n); put(d, r.bytes7(n)); tri(d); }
        for (u32 v = n * 4; v < n * 4 + 4; ++v)
        {
            // small and large 28 bit numbers: addresses, revisions, message sizes
            auto w = [&] { return r.chance(2, 3) ? v : v << 14; };
            { auto d = header(0x7E, w(), w(), r.ib7(), 2); put28(d, w()); judge(0x7E0000, d); }
            { auto d = header(v & 1 ? 0x71 : 0x70, w(), w(), r.ib7(), 2); put(d, Identity{ mfr(r), v, v, w() }); put7(d, r.ib7()); put28(d, w()); put7(d, r.ib7()); put7(d, r.ib7()); judge(0x7E0000, d); }
            { auto d = head(u8(0x22 + v % 4)); put(d, r.bytes7(5)); put14(d, v); judge(0x7E0000, d); }
            { auto d = head(pes[v % 7]); put7(d, r.ib7()); put14(d, 0); put14(d, v); put14(d, u32(r.below(v + 1))); put14(d, 0); judge(0x7E0000, d); }
            { auto d = head(pes[v % 7]); put7(d, r.ib7()); put14(d, 0); put14(d, v & 1 ? 0 : u32(r.range(v, 16383))); put14(d, v); put14(d, 1); put7(d, 5); judge(0x7E0000, d); }
        }
    }, false);
    // complete messages cut anywhere: accepted only at full length, extended messages stay accepted
    section("truncations", 400, [](Rng& r, u64) {
        const u8 st = subtype(r), ver = version(r);
        Bytes d = generate(r, st, ver);
        if (d.size() > 700) return;
        const unsigned full = judge(0x7E0000, d);
        if (full > 1) VH_COUNT("complete messages");
        for (size_t n = 0; n < d.size(); ++n)
        {
            judge(0x7E0000, Bytes(d.begin(), d.begin() + long(n)));
            VH_COUNT("truncations");
        }
        for (size_t k : { 1u, 2u, 5u, 17u })
        {
            Bytes e = d;
            put(e, r.bytes7(k));
            judge(0x7E0000, e);
        }
    });
    section("messages", 4000, [](Rng& r, u64) {
        Bytes d = generate(r, subtype(r), version(r));
        judge(0x7E0000, d);
        if (want_sample()) sample("complete " + hexc(d));
    });
    section("mutations", 20000, [](Rng& r, u64) {
        Bytes d = generate(r, subtype(r), version(r));
        u32 mf = 0x7E0000;
        for (auto k = 1 + r.below(3); k; --k) mutate(r, d, mf);
        judge(mf, d);
        VH_COUNT("mutants");
    });
    // property exchange: all small combinations of header size, chunk count, chunk number and chunk size with every size
    section("chunk numbering", 7 * 4 * 5 * 5 * 4, [](Rng& r, u64 i) {
        const u8 st = r.pick<u8>({ 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3F });
        const size_t h = i % 4; i /= 4;
        const u32 n = u32(i % 5), cur = u32(i / 5 % 5);
        const size_t c = i / 25 % 4;
        Bytes d = header(st, muid(r), muid(r));
        put7(d, r.b7()); put14(d, u32(h)); put(d, r.bytes7(h)); put14(d, n); put14(d, cur); put14(d, u32(c)); put(d, r.bytes7(c));
        judge(0x7E0000, d);
        d.resize(d.size() + 2); judge(0x7E0000, d);
        d.resize(d.size() - 3); judge(0x7E0000, d);
    }, false);
    // wide chunk numbers: both bytes of the 14 bit numbers count
    section("wide chunk numbers", 4000, [](Rng& r, u64) {
        Bytes d = header(r.pick<u8>({ 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3F }), muid(r), muid(r));
        const size_t h = r.chance(1, 2) ? 0 : r.below(300), c = r.chance(1, 2) ? 0 : r.below(300);
        put7(d, r.b7()); put14(d, u32(h)); put(d, r.bytes7(h)); put14(d, n14(r)); put14(d, n14(r)); put14(d, u32(c)); put(d, r.bytes7(c));
        judge(0x7E0000, d);
    });
    section("random", 10000, [](Rng& r, u64) {
        Bytes d = r.chance(1, 2) ? r.bytes7(r.below(60)) : r.bytes(r.below(60));
        if (d.size() > 1 && r.chance(3, 4)) d[1] = 0x0D;
        if (d.size() > 2 && r.chance(3, 4)) d[2] = subtype(r);
        judge(r.chance(7, 8) ? 0x7E0000 : r.iw(), d);
    });
}
