// Reference MIDI 1.0 byte stream receiver, written from the MIDI 1.0 specification and the documented parser behaviour.
#pragma once
#include "ref.h"

namespace ref {

struct Event
{
    bool       is_sysex = false;
    Pk         p;
    u32        mfr = 0;
    vector<u8> data;
    bool operator==(const Event& o) const { return is_sysex == o.is_sysex && p == o.p && mfr == o.mfr && data == o.data; }
    string str() const
    {
        if (!is_sysex) return show_pk(p).substr(0, words_of_type(p.w[0] >> 28) * 9);
        return "SYSEX mfr=" + show(mfr) + " data(" + std::to_string(data.size()) + ")=" + hexc(data);
    }
};
inline string show_events(const vector<Event>& v, size_t from = 0)
{
    string r;
    for (size_t i = from; i < v.size() && i < from + 16; ++i) r += v[i].str() + " | ";
    if (v.size() > from + 16) r += "...";
    return r;
}

inline int channel_data_bytes(u8 status) { const u8 k = status >> 4; return (k == 0xC || k == 0xD) ? 1 : 2; }

struct StreamModel
{
    u8   group = 0;
    bool callback_mode = false;
    bool enabled = true;

    // message being assembled
    u8         status = 0;  // current (running) status, 0: none
    vector<u8> args;
    // sysex
    bool       in_sysex = false;
    bool       collect  = false; // callback mode: callbacks were enabled at F0
    vector<u8> sx;               // bytes since F0 (callback mode) or not yet sent (packet mode)
    bool       sx_sent_start = false;

    vector<Event> out;

    void emit(const Pk& p)
    {
        if (!enabled) return;
        Event e;
        e.p = p;
        out.push_back(e);
    }
    Pk word(unsigned type, u8 st, u8 d1, u8 d2) const
    {
        Pk p;
        p.w[0] = (u32(type) << 28) | (u32(group) << 24) | (u32(st) << 16) | (u32(d1) << 8) | d2;
        return p;
    }
    void emit_sysex_packet(unsigned fmt, const vector<u8>& b)
    {
        Pk p;
        p.set(0, u8(0x30 | group));
        p.set(1, u8(fmt << 4 | b.size()));
        for (unsigned i = 0; i < b.size(); ++i) p.set(2 + i, b[i]);
        emit(p);
    }
    bool idle() const { return !in_sysex && args.empty(); }
    void reset()
    {
        status = 0;
        args.clear();
        in_sysex = false;
        sx.clear();
    }
    void feed(u8 b)
    {
        if (b >= 0xF8)
        {
            if (b != 0xF9 && b != 0xFD) emit(word(1, b, 0, 0));
            return;
        }
        if (in_sysex)
        {
            if (b < 0x80)
            {
                sx.push_back(b);
                if (!callback_mode && sx.size() == 6)
                {
                    emit_sysex_packet(sx_sent_start ? 2 : 1, sx);
                    sx_sent_start = true;
                    sx.clear();
                }
                return;
            }
            in_sysex = false;
            if (b == 0xF7)
            {
                if (callback_mode)
                {
                    const size_t idl = (!sx.empty() && sx[0] == 0) ? 3 : 1;
                    if (collect && enabled && sx.size() >= idl)
                    {
                        Event e;
                        e.is_sysex = true;
                        e.mfr      = idl == 1 ? u32(sx[0]) << 16 : (u32(sx[1]) << 8) | sx[2];
                        e.data.assign(sx.begin() + long(idl), sx.end());
                        out.push_back(e);
                    }
                }
                else if (sx_sent_start) emit_sysex_packet(3, sx);
                else if (!sx.empty()) emit_sysex_packet(0, sx);
                sx.clear();
                return;
            }
            sx.clear(); // interrupted, abandoned
        }
        if (b == 0xF0)
        {
            status = 0;
            args.clear();
            in_sysex      = true;
            sx_sent_start = false;
            collect       = enabled;
            sx.clear();
            return;
        }
        if (b >= 0x80)
        {
            args.clear();
            if (b < 0xF0) { status = b; return; }
            switch (b)
            {
            case 0xF1: case 0xF2: case 0xF3: status = b; return;
            case 0xF6: status = 0; emit(word(1, b, 0, 0)); return;
            default: status = 0; return;
            }
        }
        if (!status) return; // stray data
        args.push_back(b);
        const int need = status < 0xF0 ? channel_data_bytes(status) : status == 0xF2 ? 2 : 1;
        if (int(args.size()) < need) return;
        emit(word(status < 0xF0 ? 2 : 1, status, args[0], need == 2 ? args[1] : 0));
        args.clear();
        if (status >= 0xF0) status = 0; // no running status for system common
    }
};

// hostile / realistic byte streams
inline void gen_bytes(Rng& r, vector<u8>& out, size_t target, size_t max_sysex)
{
    while (out.size() < target)
    {
        switch (r.below(14))
        {
        case 0: out.push_back(u8(r.range(0xF8, 0xFF))); break;
        case 1: out.push_back(u8(r.range(0xF0, 0xF7))); break;
        case 2: out.push_back(r.b()); break;
        case 3: for (auto n = r.below(6); n--;) out.push_back(r.b7()); break;
        case 4: // system common
        {
            const u8 s = u8(r.pick({ 0xF1, 0xF2, 0xF3, 0xF6, 0xF4, 0xF5 }));
            out.push_back(s);
            for (auto n = r.below(4); n--;) out.push_back(r.b7());
            break;
        }
        case 5: case 6: // sysex
        {
            out.push_back(0xF0);
            const auto id = id7(mfr(r));
            if (r.chance(9, 10)) out.insert(out.end(), id.begin(), id.end());
            auto n = r.chance(1, 2) ? r.below(14) : r.size(30, max_sysex);
            while (n--)
            {
                if (r.chance(1, 30)) out.push_back(u8(r.range(0xF8, 0xFF)));
                out.push_back(r.ib7());
            }
            if (r.chance(5, 6)) out.push_back(0xF7);
            break;
        }
        case 7: // incomplete or empty sysex
            out.push_back(0xF0);
            for (auto n = r.below(4); n--;) out.push_back(r.chance(1, 2) ? 0 : r.b7());
            if (r.chance(2, 3)) out.push_back(0xF7);
            break;
        default: // channel voice, with running status and interleaved realtime
        {
            const u8 s = u8(r.range(0x80, 0xEF));
            out.push_back(s);
            for (auto n = r.below(5) * unsigned(channel_data_bytes(s)) + r.chance(1, 5); n--;)
            {
                if (r.chance(1, 8)) out.push_back(u8(r.range(0xF8, 0xFF)));
                out.push_back(r.ib7());
            }
        }
        }
    }
}
} // namespace ref
