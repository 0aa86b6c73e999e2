// C08 / C09: byte stream parser in lock-step with the reference receiver (compile with -DCALLBACK=0/1)
#include "bs_ref.h"
#include <midi/midi1_byte_stream.h>
#include <memory>
using namespace ref;

struct Session
{
    StreamModel   m;
    vector<Event> got, got2;
    vector<u8>    fed;
    string        notes;
    midi::midi1_byte_stream_parser p;

    static midi::midi1_byte_stream_parser make(Session* s, u8 group, bool cb, bool enabled, int ctor)
    {
        auto pc = [s](midi::universal_packet x) {
            Event e;
            e.p = sig(x);
            s->got.push_back(e);
        };
        midi::midi1_byte_stream_parser::sysex_callback sc;
        if (cb)
            sc = [s](const midi::sysex7& x) {
                Event e;
                e.is_sysex = true;
                e.mfr      = x.manufacturerID;
                e.data.assign(x.data.begin(), x.data.end());
                s->got.push_back(e);
            };
        if (group == 0 && ctor == 0)
        {
            if (enabled && !cb) return midi::midi1_byte_stream_parser(pc);
            if (enabled) return midi::midi1_byte_stream_parser(pc, sc);
            return midi::midi1_byte_stream_parser(pc, sc, enabled);
        }
        return midi::midi1_byte_stream_parser(group, pc, sc, enabled);
    }
    Session(u8 group, bool cb, bool enabled, int ctor) : p(make(this, group, cb, enabled, ctor))
    {
        m.group         = group;
        m.callback_mode = cb;
        m.enabled       = enabled;
    }
    string ctx() const
    {
        vector<u8> tail(fed.end() - long(std::min<size_t>(fed.size(), 120)), fed.end());
        return string(m.callback_mode ? "sysex callback" : "packet mode") + " group=" + show(m.group) + " ops=" + notes.substr(notes.size() > 120 ? notes.size() - 120 : 0) +
               " last bytes: " + hex(tail.data(), tail.size(), 120);
    }
    void compare()
    {
        if (got == m.out)
        {
            for (auto& e : m.out)
            {
                VH_COUNT("events compared");
                if (e.is_sysex) VH_COUNT("sysex messages delivered");
                else if (e.p.w[0] >> 28 == 3)
                {
                    static const char* n[] = { "sysex complete packets", "sysex start packets", "sysex continue packets", "sysex end packets" };
                    counter(n[(e.p.byte(1) >> 4) & 3])++;
                }
                else if (e.p.w[0] >> 28 == 2) VH_COUNT("channel voice packets");
                else VH_COUNT("system packets");
                if (e.is_sysex && e.data.size() > 1024) VH_COUNT("sysex over 1024 bytes");
                if (e.is_sysex && e.data.size() > 16384) VH_COUNT("sysex over 16384 bytes");
            }
            got.clear();
            m.out.clear();
            return;
        }
        size_t k = 0;
        while (k < got.size() && k < m.out.size() && got[k] == m.out[k]) ++k;
        const bool sx = (k < got.size() && (got[k].is_sysex || got[k].p.w[0] >> 28 == 3)) || (k < m.out.size() && (m.out[k].is_sysex || m.out[k].p.w[0] >> 28 == 3));
        fail(sx ? "sysex-event" : "event", "event %zu differs; observed: %s expected: %s [%s]", k, show_events(got, k).c_str(), show_events(m.out, k).c_str(), ctx().c_str());
    }
    void feed(const u8* b, size_t n, int how)
    {
        if (fed.size() > 100000) fed.clear();
        for (size_t i = 0; i < n; ++i)
        {
            m.feed(b[i]);
            fed.push_back(b[i]);
        }
        op("feed");
        // exactly sized heap copy: reading beyond the chunk is a sanitizer event
        std::unique_ptr<u8[]> copy(new u8[n ? n : 1]);
        std::memcpy(copy.get(), b, n);
        switch (how)
        {
        case 0: for (size_t i = 0; i < n; ++i) p.feed(copy[i]); break;
        case 1: p.feed(copy.get(), n); break;
        default: p.feed(copy.get(), copy.get() + n); break;
        }
        VH_ADD("bytes fed", n);
        VH_COUNT("chunks fed");
        compare();
    }
    void enable(bool e)
    {
        op("enable_callbacks");
        p.enable_callbacks(e);
        m.enabled = e;
        notes += e ? "E" : "D";
        VH_EQ("callbacks-enabled", p.callbacks_enabled(), e, ctx());
        VH_COUNT("enable toggles");
    }
    void reset()
    {
        op("reset");
        p.reset();
        m.reset();
        notes += "R";
        compare();
        VH_COUNT("resets");
    }
    void group(u8 g)
    {
        op("set_group");
        p.set_group(g);
        m.group = g;
        // the pending running status carries the group it was received with: let it go
        notes += "G";
        VH_EQ("group", unsigned(p.group()), unsigned(g), ctx());
    }
};

static void run_stream(Rng& r, size_t len, size_t max_sysex, bool control)
{
    Session    s(u8(r.below(16)), CALLBACK, control ? r.chance(5, 6) : true, int(r.below(2)));
    vector<u8> b;
    gen_bytes(r, b, len, max_sysex);
    size_t pos = 0;
    const auto chunking = r.below(4);
    while (pos < b.size())
    {
        tick();
        size_t n = chunking == 0 ? 1 : chunking == 1 ? r.range(1, 4) : chunking == 2 ? r.range(0, 40) : std::min<size_t>(b.size(), 100000);
        n        = std::min(n, b.size() - pos);
        s.feed(b.data() + pos, n, int(r.below(3)));
        pos += n;
        if (control)
        {
            if (r.chance(1, 12)) s.enable(!s.m.enabled);
            if (r.chance(1, 30)) s.reset();
            if (r.chance(1, 30) && s.m.idle())
            {
                // a new group takes effect with the next status
                u8 cancel = 0xF4;
                s.feed(&cancel, 1, 0);
                s.group(u8(r.below(16)));
            }
        }
    }
    nontrivial(hash_bytes(b.data(), b.size()));
    if (want_sample()) sample(s.ctx());
}

void vh_main()
{
    // all sequences of four bytes over a representative alphabet, each followed by probes
    section("all short streams", 20 * 20 * 20 * 20, [](Rng& r, u64 i) {
        static const u8 alpha[20] = { 0x00, 0x01, 0x40, 0x7F, 0x80, 0x93, 0xA1, 0xB2, 0xC3, 0xD4, 0xE5, 0xF0, 0xF1, 0xF2, 0xF3, 0xF4, 0xF6, 0xF7, 0xF8, 0xFD };
        Session s(u8(r.below(16)), CALLBACK, true, 1);
        u8 b[4];
        for (auto& x : b) { x = alpha[i % 20]; i /= 20; }
        for (unsigned k = 0; k < 4; ++k) s.feed(b + k, 1, 0);
        static const vector<u8> probes[] = { { 0x11, 0x22, 0x33, 0x44 }, { 0x11, 0xF8, 0x22, 0xF7, 0x33 }, { 0xF7, 0x11, 0x22 }, { 0xF0, 0x41, 1, 2, 3, 4, 5, 6, 0xF7 }, { 1, 2, 3, 4, 5, 6, 7, 8, 0xF7, 9 } };
        const auto pi = r.below(5);
        auto& pr = probes[pi];
        s.feed(pr.data(), pr.size(), int(r.below(3)));
        nontrivial(hash_bytes(b, 4, pi + 77));
    }, false);
    section("sysex of every length", 4200, [](Rng& r, u64 i) {
        Session s(u8(r.below(16)), CALLBACK, true, 1);
        vector<u8> b{ 0x90, 0x40, 0x41, 0xF0 };
        for (u64 k = 0; k < i; ++k)
        {
            if (r.chance(1, 20)) b.push_back(u8(r.pick({ 0xF8, 0xFE, 0xF9, 0xFF })));
            b.push_back(r.ib7());
        }
        b.push_back(u8(r.chance(4, 5) ? 0xF7 : r.pick({ 0xF0, 0x90, 0xF1, 0xF6, 0xF5 })));
        for (int k = 0; k < 5; ++k) b.push_back(r.b7());
        b.push_back(0xF7);
        vector<u8> t(b);
        b.insert(b.end(), t.begin(), t.end());
        s.feed(b.data(), b.size(), int(r.below(3)));
        nontrivial(hash_bytes(b.data(), b.size()));
    }, false);
    section("sysex around powers of two", n_boundary_sizes, [](Rng& r, u64 i) {
        Session s(u8(r.below(16)), CALLBACK, true, 1);
        vector<u8> b{ 0x90, 0x40, 0x41, 0xF0 };
        const auto n = boundary_size(i);
        for (size_t k = 0; k < n; ++k) b.push_back(r.b7());
        if (r.chance(1, 2)) b[4] = 0;
        b.push_back(0xF7);
        for (u8 x : { 0x22, 0xF0, 0x41, 0x01, 0xF7, 0x80, 0x10, 0x20 }) b.push_back(x);
        s.feed(b.data(), b.size(), int(r.below(3)));
        VH_COUNT("sysex around powers of two");
        nontrivial(hash_bytes(b.data(), b.size()));
    }, false);
    section("streams", 4000, [](Rng& r, u64) { run_stream(r, r.range(20, 400), 200, false); });
    section("controlled", 4000, [](Rng& r, u64) { run_stream(r, r.range(20, 400), 200, true); });
    section("random bytes", 2000, [](Rng& r, u64) {
        Session s(u8(r.below(16)), CALLBACK, true, 1);
        auto b = r.bytes(r.range(1, 300));
        const auto mode = r.below(3);
        for (auto& x : b)
        {
            if (mode == 1 && r.chance(1, 2)) x = u8(0xF0 | (x & 0x0F));
            if (mode == 2 && r.chance(2, 3)) x &= 0x7F;
        }
        for (auto x : b) s.feed(&x, 1, 0);
        nontrivial(hash_bytes(b.data(), b.size()));
    });
    section("large sysex", 40, [](Rng& r, u64) { run_stream(r, r.range(3000, 80000), r.pick({ 3000, 20000, 70000 }), r.chance(1, 4)); });
    // a connection open for long: counters and buffers over many messages
    section("long streams, large", 12, [](Rng& r, u64 i) {
        run_stream(r, i < 2 ? 900000 : 150000, r.pick({ 20, 20, 300 }), r.chance(1, 2));
        VH_COUNT("long streams");
    }, false);
#if CALLBACK
    // everything else is emitted exactly as by a parser without callback
    section("same as packet mode", 1500, [](Rng& r, u64) {
        const u8   g = u8(r.below(16));
        Session    a(g, true, true, 1), b(g, false, true, 1);
        vector<u8> bytes;
        gen_bytes(r, bytes, r.range(20, 300), 100);
        vector<Event> ea, eb;
        for (auto x : bytes) { a.p.feed(x); b.p.feed(x); }
        for (auto& e : a.got) { VH_TRUE("sysex-packet-in-callback-mode", e.is_sysex || e.p.w[0] >> 28 != 3, "bytes " + hexc(bytes)); if (!e.is_sysex) ea.push_back(e); }
        for (auto& e : b.got) if (e.p.w[0] >> 28 != 3) eb.push_back(e);
        VH_TRUE("differs-from-packet-mode", ea == eb, "bytes " + hexc(bytes) + " with callback: " + show_events(ea) + " without: " + show_events(eb));
        VH_ADD("events compared with packet mode", ea.size());
    });
#endif
}
