// Helpers shared by the drivers: raw packet model that does not use the library's own accessors.
#pragma once
#include "vh.h"

#include <midi/universal_packet.h>

namespace ref {
using namespace vh;
using std::string;
using std::vector;

struct Pk
{
    u32 w[4]{ 0, 0, 0, 0 };
    bool operator==(const Pk& o) const { return !std::memcmp(w, o.w, sizeof w); }
    bool operator!=(const Pk& o) const { return !(*this == o); }
    u8   byte(unsigned i) const { return u8(w[i / 4] >> (24 - 8 * (i % 4))); }
    void set(unsigned i, u8 v)
    {
        const unsigned sh = 24 - 8 * (i % 4);
        w[i / 4]          = (w[i / 4] & ~(0xFFu << sh)) | (u32(v) << sh);
    }
};

inline unsigned words_of_type(unsigned t)
{
    // UMP specification table of message sizes
    switch (t)
    {
    case 0x3: case 0x4: case 0x8: case 0x9: case 0xA: return 2;
    case 0xB: case 0xC: return 3;
    case 0x5: case 0xD: case 0xE: case 0xF: return 4;
    default: return 1;
    }
}

inline Pk raw(const midi::universal_packet& p)
{
    Pk r;
    for (int i = 0; i < 4; ++i) r.w[i] = p.data[i];
    return r;
}
// only the significant words
inline Pk sig(const midi::universal_packet& p)
{
    Pk       r = raw(p);
    unsigned n = words_of_type(r.w[0] >> 28);
    for (unsigned i = n; i < 4; ++i) r.w[i] = 0;
    return r;
}
inline midi::universal_packet ump(const Pk& p) { return midi::universal_packet(p.w[0], p.w[1], p.w[2], p.w[3]); }

inline string show_pk(const Pk& p)
{
    char t[64];
    std::snprintf(t, sizeof t, "%08X %08X %08X %08X", p.w[0], p.w[1], p.w[2], p.w[3]);
    return t;
}
inline string show_pks(const vector<Pk>& v, size_t max = 24)
{
    string r;
    for (size_t i = 0; i < v.size() && i < max; ++i)
    {
        const unsigned n = words_of_type(v[i].w[0] >> 28);
        r += show_pk(v[i]).substr(0, n * 9) + "| ";
    }
    if (v.size() > max) r += "...(" + std::to_string(v.size()) + ")";
    return r;
}

// a valid manufacturer id as the library encodes it
inline u32 mfr1(Rng& r) { return u32(r.chance(1, 4) ? r.pick({ 1, 0x7D, 0x7E, 0x7F }) : int(r.range(1, 0x7F))) << 16; }
inline u32 mfr3(Rng& r)
{
    switch (r.below(6))
    {
    case 0: return 0x002109;
    case 1: return u32(r.range(1, 0x7F));       // 00 00 xx
    case 2: return u32(r.range(1, 0x7F)) << 8;  // 00 xx 00
    case 3: return 0x007F7F;
    default:
    {
        u32 v = (u32(r.b7()) << 8) | r.b7();
        return v ? v : 1;
    }
    }
}
inline u32 mfr(Rng& r) { return r.chance(1, 2) ? mfr1(r) : mfr3(r); }

inline vector<u8> id7(u32 m)
{
    if (m & 0xFF0000) return { u8(m >> 16) };
    return { 0, u8(m >> 8), u8(m) };
}
inline vector<u8> id8(u32 m)
{
    if (m & 0xFF0000) return { 0, u8(m >> 16) };
    return { u8(0x80 | (m >> 8)), u8(m) };
}

// random packet of any type with hostile content
inline Pk hostile_packet(Rng& r)
{
    Pk p;
    for (auto& w : p.w) w = r.iw();
    if (r.chance(3, 4))
    {
        static const u8 types[] = { 0, 1, 2, 3, 4, 5, 0xD, 0xF };
        p.w[0]                  = (p.w[0] & 0x0FFFFFFF) | (u32(types[r.below(8)]) << 28);
    }
    if (r.chance(1, 2)) p.set(1, u8((r.below(16) << 4) | r.below(16)));
    return p;
}
} // namespace ref

namespace vh {
inline std::string show(const ref::Pk& p) { return ref::show_pk(p); }
}
