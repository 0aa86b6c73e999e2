// C06 / C07: SysEx collectors in lock-step with a reference automaton (compile with -DSX8=0/1)
#include "ref.h"
#include <midi/sysex_collector.h>
#include <optional>
using namespace ref;

#if SX8
using collector               = midi::sysex8_collector;
static constexpr unsigned CAP = 13, TYPE = 5, FIRST = 3, EXTRA = 1;
#else
using collector               = midi::sysex7_collector;
static constexpr unsigned CAP = 6, TYPE = 3, FIRST = 2, EXTRA = 0;
#endif

struct Delivery
{
    u32        mfr;
    bool       mfr_defined; // the run carried a complete and valid manufacturer id
    vector<u8> data;
    unsigned   stream;
    vector<Pk> run; // the packets that made up the message, kept when the ID is not defined by the property
};

// Independent statement of the property: collect all payload bytes of the current run, decide at its end.
struct Model
{
    bool       open = false;
    unsigned   stream = 0;
    vector<u8> bytes;
    vector<Pk> run;
    size_t     limit = 0;
    vector<Delivery> out;

    static size_t id_len(const vector<u8>& b)
    {
        if (SX8) return 2;
        return (!b.empty() && b[0] == 0) ? 3 : 1;
    }
    size_t data_len() const { return bytes.size() > id_len(bytes) ? bytes.size() - id_len(bytes) : 0; }

    void finish()
    {
        Delivery d;
        d.stream      = stream;
        const auto il = id_len(bytes);
        d.mfr_defined = bytes.size() >= il;
        d.mfr         = 0;
        if (d.mfr_defined)
        {
            if (SX8)
            {
                if (bytes[0] & 0x80) { d.mfr = (u32(bytes[0] & 0x7F) << 8) | bytes[1]; d.mfr_defined = bytes[1] < 0x80; }
                else if (bytes[0] == 0) { d.mfr = u32(bytes[1]) << 16; d.mfr_defined = bytes[1] < 0x80; }
                else d.mfr_defined = false; // reserved encoding
            }
            else
                d.mfr = il == 1 ? u32(bytes[0]) << 16 : (u32(bytes[1]) << 8) | bytes[2];
        }
        if (data_len()) d.data.assign(bytes.begin() + long(il), bytes.end());
        if (!d.mfr_defined) d.run = run;
        out.push_back(d);
        reset();
    }
    void reset()
    {
        open   = false;
        stream = 0;
        bytes.clear();
        run.clear();
    }
    void feed(const Pk& p)
    {
        if (p.w[0] >> 28 != TYPE) return;
        const unsigned fmt = p.byte(1) >> 4, sz = p.byte(1) & 15;
        if (fmt > 3 || sz < EXTRA || sz > CAP + EXTRA) return;
        if (fmt == 0 || fmt == 1)
        {
            if (open) VH_COUNT("interrupted messages");
            reset();
            stream = SX8 ? p.byte(2) : 0;
        }
        else
        {
            if (!open) { VH_COUNT("stray continue/end"); return; }
            if (SX8 && p.byte(2) != stream) { VH_COUNT("other stream id"); return; }
        }
        run.push_back(p);
        for (unsigned i = 0; i < sz - EXTRA; ++i) bytes.push_back(p.byte(FIRST + i));
        if (limit && data_len() > limit)
        {
            VH_COUNT("oversized messages");
            reset();
            return;
        }
        if (fmt == 0 || fmt == 3) finish();
        else open = true;
    }
};

// what a new collector delivers for these packets
static vector<Delivery> alone(const vector<Pk>& run, size_t limit)
{
    vector<Delivery> got;
#if SX8
    collector c([&](const midi::sysex8& x, u8 id) { got.push_back({ x.manufacturerID, true, { x.data.begin(), x.data.end() }, id, {} }); });
#else
    collector c([&](const midi::sysex7& x) { got.push_back({ x.manufacturerID, true, { x.data.begin(), x.data.end() }, 0, {} }); });
#endif
    if (limit) c.set_max_sysex_data_size(limit);
    for (auto& p : run) c.feed(ump(p));
    return got;
}

struct Session
{
    Model            m;
    vector<Delivery> got;
    size_t           seen = 0;
    vector<Pk>       history;
    string           notes;
    collector        c;
    bool             cb_on = true;

    auto cb()
    {
#if SX8
        return [this](const midi::sysex8& x, u8 id) { got.push_back({ x.manufacturerID, true, { x.data.begin(), x.data.end() }, id, {} }); };
#else
        return [this](const midi::sysex7& x) { got.push_back({ x.manufacturerID, true, { x.data.begin(), x.data.end() }, 0, {} }); };
#endif
    }
    Session() : c(cb()) {}

    string ctx() const
    {
        vector<Pk> tail(history.end() - long(std::min<size_t>(history.size(), 24)), history.end());
        return "limit=" + std::to_string(m.limit) + " ops: " + notes.substr(notes.size() > 200 ? notes.size() - 200 : 0) + " last packets: " + show_pks(tail);
    }
    void feed(const Pk& p)
    {
        if (history.size() > 4000) history.clear();
        history.push_back(p);
        const auto before = m.out.size();
        m.feed(p);
        op("feed");
        c.feed(ump(p));
        VH_COUNT("packets fed");
        if (!cb_on) { m.out.resize(before); }
        compare();
    }
    void compare()
    {
        VH_EQ("delivery-count", got.size(), m.out.size(), ctx());
        for (; seen < got.size(); ++seen)
        {
            const auto& g = got[seen];
            const auto& e = m.out[seen];
            if (e.mfr_defined) VH_EQ("delivered-manufacturer", g.mfr, e.mfr, ctx());
            else
            {
                // a message without a complete ID: still independent of what was received before it
                const auto a = alone(e.run, m.limit);
                VH_EQ("alone-count", a.size(), size_t(1), ctx());
                if (a.size() == 1) VH_EQ("delivered-manufacturer-independent-of-history", g.mfr, a[0].mfr, ctx());
                VH_COUNT("messages without ID compared with a new collector");
            }
            VH_TRUE("delivered-data", g.data == e.data, ctx() + " delivered " + hexc(g.data) + " expected " + hexc(e.data));
            VH_EQ("delivered-stream", g.stream, e.stream, ctx());
            VH_COUNT("deliveries compared");
            if (e.data.size() > 64) VH_COUNT("deliveries over 64 bytes");
            if (e.data.size() > 16384) VH_COUNT("deliveries over 16384 bytes");
        }
#if SX8
        if (m.open) VH_EQ("stream-id-of-open-message", unsigned(c.stream_id()), m.stream, ctx());
#endif
        if (got.size() > 64) { got.clear(); m.out.clear(); seen = 0; }
    }
};

static Pk packet(Rng& r, unsigned fmt, unsigned n, u8 stream, u8 group)
{
    Pk p;
    p.set(0, u8(TYPE << 4 | group));
    p.set(1, u8(fmt << 4 | (n + EXTRA)));
    if (SX8) p.set(2, stream);
    for (unsigned i = FIRST; i < (SX8 ? 16 : 8); ++i) p.set(i, SX8 ? r.ib() : r.ib7()); // also behind the payload
    return p;
}
// packets of one well-formed message with random fill
static vector<Pk> message(Rng& r, size_t total, u8 stream, u8 group, bool full)
{
    vector<unsigned> sizes;
    size_t left = total;
    while (left)
    {
        unsigned n = full ? unsigned(std::min<size_t>(CAP, left)) : unsigned(r.below(std::min<size_t>(CAP, left) + 1));
        sizes.push_back(n);
        left -= n;
        if (!full && sizes.size() > total + 8) { full = true; }
    }
    if (sizes.empty()) sizes.push_back(0);
    if (r.chance(1, 8)) sizes.push_back(0);
    vector<Pk> v;
    for (size_t i = 0; i < sizes.size(); ++i)
    {
        unsigned fmt = sizes.size() == 1 ? 0 : i == 0 ? 1 : i + 1 == sizes.size() ? 3 : 2;
        v.push_back(packet(r, fmt, sizes[i], stream, group));
    }
    // manufacturer id of all kinds at the beginning
    unsigned k = 0;
    vector<u8> id = SX8 ? id8(mfr(r)) : id7(mfr(r));
    if (SX8 && r.chance(1, 12)) id[0] = u8(r.range(1, 0x7F));
    for (size_t i = 0; i < v.size() && k < id.size(); ++i)
        for (unsigned b = 0; b < sizes[i] && k < id.size(); ++b) v[i].set(FIRST + b, id[k++]);
    return v;
}
static Pk other_packet(Rng& r)
{
    Pk p = hostile_packet(r);
    if (r.chance(1, 2))
    {
        // nearly a packet of the collector's kind: wrong status or size
        p.set(0, u8(TYPE << 4 | r.below(16)));
        if (r.chance(1, 2)) p.set(1, u8(r.range(4, 15) << 4 | r.below(16)));
        else p.set(1, u8(r.below(4) << 4 | (SX8 ? (r.chance(1, 2) ? 0 : 15) : r.range(7, 15))));
        return p;
    }
    if ((p.w[0] >> 28) == TYPE) p.w[0] ^= 0x80000000u;
    return p;
}

static void run_history(Rng& r, unsigned steps, size_t maxlen, size_t limit)
{
    Session s;
    if (limit) { s.m.limit = limit; s.c.set_max_sysex_data_size(limit); }
    u64 h = limit;
    const u8 streams[3] = { r.ib(), r.ib(), u8(r.below(3)) };
    for (unsigned k = 0; k < steps; ++k)
    {
        tick();
        const u8 stream = streams[r.below(3)], group = u8(r.below(16));
        switch (r.below(14))
        {
        default:
        {
            size_t total = r.size(20, maxlen);
            if (s.m.limit && r.chance(1, 2)) total = std::min<size_t>(s.m.limit + r.below(9), 60000); // around the limit
            auto         v         = message(r, total, stream, group, r.chance(1, 2));
            const size_t cut       = r.chance(1, 4) ? r.below(v.size() + 1) : v.size();
            const bool   interleave = r.chance(1, 3);
            const auto   weird     = r.chance(1, 6) ? r.below(v.size() + 1) : v.size();
            for (size_t i = 0; i < cut; ++i)
            {
                if (interleave && r.chance(1, 3)) s.feed(other_packet(r));
                if (SX8 && r.chance(1, 12)) s.feed(packet(r, unsigned(r.range(2, 3)), unsigned(r.below(CAP + 1)), u8(stream + r.range(1, 255)), group));
                if (i == weird) continue; // lost packet
                if (r.chance(1, 40)) s.feed(v[i]); // duplicated packet
                s.feed(v[i]);
            }
            h = mix(h ^ total ^ cut << 20);
            break;
        }
        case 0: s.feed(packet(r, unsigned(r.range(2, 3)), unsigned(r.below(CAP + 1)), stream, group)); break;
        case 1: s.feed(packet(r, unsigned(r.below(4)), unsigned(r.below(CAP + 1)), stream, group)); break;
        case 2: s.feed(other_packet(r)); break;
        case 3:
            if (r.chance(1, 2))
            {
                op("reset");
                s.c.reset();
                s.m.reset();
                s.notes += 'R';
                VH_COUNT("resets");
            }
            break;
        case 4:
            if (!s.m.open && r.chance(1, 2))
            {
                op("set_max_sysex_data_size");
                const size_t l = r.chance(1, 3) ? 0 : r.size(24, maxlen);
                s.c.set_max_sysex_data_size(l);
                s.m.limit = l;
                s.notes += "L" + std::to_string(l) + " ";
                VH_COUNT("limit changes");
            }
            break;
        case 5:
            if (r.chance(1, 4))
            {
                op("set_callback");
                s.cb_on = !s.cb_on;
                if (s.cb_on) s.c.set_callback(s.cb());
                else s.c.set_callback({});
                s.notes += s.cb_on ? "C+" : "C-";
                VH_COUNT("callback changes");
            }
            break;
        }
    }
    nontrivial(mix(h ^ s.history.size() ^ (s.history.empty() ? 0 : hash_bytes(s.history.data(), s.history.size() * sizeof(Pk)))));
    if (want_sample()) sample(s.ctx());
}

void vh_main()
{
    // all sequences of up to four packets over a small alphabet of packet kinds
    section("all short histories", 12 * 12 * 12 * 12, [](Rng& r, u64 i) {
        Session s;
        const size_t limit = r.pick({ 0, 0, 5, 11, 12 });
        if (limit) { s.m.limit = limit; s.c.set_max_sysex_data_size(limit); }
        for (int k = 0; k < 4; ++k, i /= 12)
        {
            const unsigned a = i % 12;
            if (a < 8) s.feed(packet(r, a & 3, a < 4 ? CAP : unsigned(r.below(CAP + 1)), 7, u8(r.below(16))));
            else if (a == 8) s.feed(other_packet(r));
            else if (a == 9) { s.c.reset(); s.m.reset(); }
            else if (a == 10) s.feed(packet(r, 2, unsigned(r.below(CAP + 1)), SX8 ? 8 : 7, 1));
            else s.feed(packet(r, 3, 0, SX8 ? 8 : 7, 1));
        }
        // afterwards a complete and a multi packet message still have to arrive
        for (auto& p : message(r, r.below(40), 9, 3, true)) s.feed(p);
        nontrivial(hash_bytes(s.history.data(), s.history.size() * sizeof(Pk)));
    }, false);
    section("every size", 4200, [](Rng& r, u64 i) {
        Session s;
        const size_t n = size_t(i);
        const size_t limit = r.chance(1, 2) || n < 5 ? 0 : n - 4 + r.below(9);
        if (limit) { s.m.limit = limit; s.c.set_max_sysex_data_size(limit); }
        for (int k = 0; k < 2; ++k)
            for (auto& p : message(r, k ? r.below(40) : n, 9, 3, true)) s.feed(p);
        VH_COUNT("messages of every size");
        nontrivial(mix(n ^ limit << 32 ^ 0x51));
    }, false);
    section("sizes around powers of two", 11 * 33, [](Rng& r, u64 i) {
        Session s;
        const size_t n = boundary_size(i);
        const size_t limit = r.chance(1, 3) ? 0 : n - 8 + r.below(17);
        if (limit) { s.m.limit = limit; s.c.set_max_sysex_data_size(limit); }
        for (int k = 0; k < 2; ++k)
        {
            for (auto& p : message(r, n, 9, 3, true)) s.feed(p);
            for (auto& p : message(r, r.below(40), 9, 3, true)) s.feed(p);
        }
        VH_COUNT("messages around powers of two");
        nontrivial(mix(n ^ limit << 32));
    }, false);
    section("unlimited", 1500, [](Rng& r, u64) { run_history(r, 60, 300, 0); });
    section("limited", 2500, [](Rng& r, u64) { run_history(r, 60, 120, r.range(1, 60)); });
    section("around limits", 1500, [](Rng& r, u64) { run_history(r, 40, 300, r.pick({ 1, 6, 12, 13, 64, 127, 128, 129, 130, 255, 256, 257 })); });
    section("large", 60, [](Rng& r, u64) { run_history(r, 12, 40000, r.pick({ 0, 0, 16384, 16385, 20000, 30000 })); });
    // many messages through one collector
    section("long sessions, large", 16, [](Rng& r, u64 i) {
        run_history(r, i < 2 ? 80000 : 8000, 40, r.pick({ 0, 0, 10, 100 }));
        VH_COUNT("long sessions");
    }, false);
    // memory safety only: SysEx7 packets with bytes above 127
    section("hostile bytes", 1500, [](Rng& r, u64) {
        unsigned n = 0;
#if SX8
        collector c([&](const midi::sysex8& x, u8) { n += unsigned(x.data.size()); });
#else
        collector c([&](const midi::sysex7& x) { n += unsigned(x.data.size()); });
#endif
        if (r.chance(1, 2)) c.set_max_sysex_data_size(r.range(1, 30));
        for (int k = 0; k < 100; ++k)
        {
            Pk p = hostile_packet(r);
            if (r.chance(3, 4)) p.set(0, u8(TYPE << 4 | r.below(16)));
            if (r.chance(3, 4)) p.set(1, u8(r.below(5) << 4 | r.below(16)));
            op("feed hostile");
            c.feed(ump(p));
        }
        VH_COUNT("hostile byte histories");
    });
}
