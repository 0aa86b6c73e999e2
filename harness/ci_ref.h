// Reference encoder and acceptance rules of MIDI-CI messages, independent of the library's own helpers.
#pragma once
#include "ref.h"

#include <midi/capability_inquiry.h>
#include <midi/universal_sysex.h>

namespace ci_ref {
using namespace ref;
using Bytes = vector<u8>;

inline void put7(Bytes& d, u32 v) { d.push_back(u8(v & 0x7F)); }
inline void put14(Bytes& d, u32 v) { put7(d, v); put7(d, v >> 7); }
inline void put28(Bytes& d, u32 v) { put14(d, v); put14(d, v >> 14); }
inline void put(Bytes& d, const Bytes& s) { d.insert(d.end(), s.begin(), s.end()); }
inline void put(Bytes& d, const string& s) { d.insert(d.end(), s.begin(), s.end()); }

inline u32 get14(const Bytes& d, size_t p) { return u32(d[p]) | u32(d[p + 1]) << 7; }
inline u32 get28(const Bytes& d, size_t p) { return get14(d, p) | get14(d, p + 2) << 14; }

inline Bytes header(u8 subtype, u32 src, u32 dst, u8 dev = 0x7F, u8 version = 2)
{
    Bytes d{ dev, 0x0D, subtype, version };
    put28(d, src);
    put28(d, dst);
    return d;
}

struct Identity { u32 manufacturer, family, model, revision; };
inline void put(Bytes& d, const Identity& i)
{
    put7(d, i.manufacturer >> 16);
    put7(d, i.manufacturer >> 8);
    put7(d, i.manufacturer);
    put14(d, i.family);
    put14(d, i.model);
    put28(d, i.revision);
}

enum View {
    v_ci, v_disc_inq, v_disc_rep, v_ep_inq, v_ep_rep, v_ack, v_nak, v_invalidate, v_prof_inq, v_prof_inq_rep, v_prof_id, v_prof_dest,
    v_details_inq, v_details_rep, v_specific, v_pe_caps, v_pe_any, v_pe_get, v_pe_set, v_pe_sub, v_pe_notify, v_proc_rep, v_report_inq, v_report_rep,
    v_count
};
inline const char* view_name(int v)
{
    static const char* n[] = { "capability_inquiry_view", "discovery_inquiry_view", "discovery_reply_view", "endpoint_information_inquiry_view",
        "endpoint_information_reply_view", "ack_view", "nak_view", "invalidate_muid_view", "profile_inquiry_view", "profile_inquiry_reply_view",
        "profile_id_view", "profile_destination_view", "profile_details_inquiry_view", "profile_details_reply_view", "profile_specific_data_view",
        "property_exchange_capabilities_view", "property_data_message_view", "get_property_data_view", "set_property_data_view", "subscription_view",
        "notify_view", "process_inquiry_capabilities_reply_view", "midi_message_report_inquiry_view", "midi_message_report_reply_view" };
    return n[v];
}

// consistent property exchange message (sizes and chunk numbering)
inline bool pe_ok(const Bytes& d)
{
    if (d.size() < 21) return false;
    const size_t h = get14(d, 13);
    if (d.size() < 21 + h) return false;
    const u32    n = get14(d, 15 + h), cur = get14(d, 17 + h);
    const size_t c = get14(d, 19 + h);
    if (d.size() < 21 + h + c) return false;
    if (n && cur > n) return false;  // chunk number beyond the announced number of chunks
    if (h && cur > 1) return false;  // a header belongs to the first chunk
    if (c && cur < 1) return false;  // data belongs to a numbered chunk
    return true;
}

//! is a view of this kind to be offered?
inline bool accepts(int v, u32 mf, const Bytes& d)
{
    if (mf != 0x7E0000 || d.size() < 12 || d[1] != 0x0D) return false;
    const u8     st = d[2], ver = d[3];
    const size_t n = d.size();
    switch (v)
    {
    case v_ci: return true;
    case v_disc_inq: return st == 0x70 && n >= (ver >= 2 ? 29u : 28u);
    case v_disc_rep: return st == 0x71 && n >= (ver >= 2 ? 30u : 28u);
    case v_ep_inq: return st == 0x72 && n >= 13;
    case v_ep_rep: return st == 0x73 && n >= 15 && n >= 15 + size_t(get14(d, 13));
    case v_ack: return st == 0x7D && n >= 22 && n >= 22 + size_t(get14(d, 20));
    case v_nak: return st == 0x7F && ver >= 2 && n >= 22 && n >= 22 + size_t(get14(d, 20));
    case v_invalidate: return st == 0x7E && n >= 16;
    case v_prof_inq: return st == 0x20;
    case v_prof_inq_rep:
    {
        if (st != 0x21 || n < 16) return false;
        const size_t e = get14(d, 12) * 5;
        if (n < 16 + e) return false;
        return n >= 16 + e + size_t(get14(d, 14 + e)) * 5;
    }
    case v_prof_id: return st >= 0x22 && st <= 0x27 && n >= 17;
    case v_prof_dest: return st >= 0x22 && st <= 0x25 && n >= 19;
    case v_details_inq: return st == 0x28 && n >= 18;
    case v_details_rep: return st == 0x29 && n >= 20 && n >= 20 + size_t(get14(d, 18));
    case v_specific: return st == 0x2F && n >= 21 && n >= 21 + size_t(get28(d, 17));
    case v_pe_caps: return (st == 0x30 || st == 0x31) && n >= (ver >= 2 ? 15u : 13u);
    case v_pe_any: return ((st >= 0x34 && st <= 0x39) || st == 0x3F) && pe_ok(d);
    case v_pe_get: return (st == 0x34 || st == 0x35) && pe_ok(d);
    case v_pe_set: return (st == 0x36 || st == 0x37) && pe_ok(d);
    case v_pe_sub: return (st == 0x38 || st == 0x39) && pe_ok(d);
    case v_pe_notify: return st == 0x3F && pe_ok(d);
    case v_proc_rep: return st == 0x41 && n >= 13;
    case v_report_inq: return st == 0x42 && n >= 17;
    case v_report_rep: return st == 0x43 && n >= 16;
    }
    return false;
}
//! is acceptance defined? (bytes of a 7 bit message with bit 7 set may be read masked or unmasked)
inline bool judged(int v, u32 mf, const Bytes& d, bool& expect)
{
    expect = accepts(v, mf, d);
    if (v == v_prof_id && d.size() > 2 && (d[2] & 0x7F) == 0x2F) return false; // documented for, but not offered on specific data
    Bytes m = d;
    for (auto& b : m) b &= 0x7F;
    return accepts(v, mf, m) == expect;
}

// ------------------------------------------------------------------ generators

inline u32 muid(Rng& r) { return r.iw() & 0x0FFFFFFF; }
inline u32 n14(Rng& r)
{
    switch (r.below(5))
    {
    case 0: return u32(r.below(4));
    case 1: return r.pick<u32>({ 0, 1, 127, 128, 129, 255, 256, 8191, 8192, 16382, 16383 });
    default: return r.w() & 0x3FFF;
    }
}
inline size_t len(Rng& r, size_t max = 16383) // payload sizes
{
    switch (r.below(24))
    {
    case 0: return 0;
    case 1: return std::min<size_t>(max, r.pick<size_t>({ 126, 127, 128, 129, 255, 256, 257 }));
    case 2: return std::min<size_t>(max, r.below(2000));
    case 3: return r.chance(1, 6) ? max - r.below(3) % (max + 1) : r.below(300) % (max + 1);
    default: return r.below(40) % (max + 1);
    }
}
inline Identity identity(Rng& r) { return { mfr(r), r.iw() & 0x3FFF, r.iw() & 0x3FFF, r.iw() & 0x0FFFFFFF }; }

//! a complete message of the given subtype (valid unless the subtype is not assigned); fields random
inline Bytes generate(Rng& r, u8 st, u8 ver)
{
    Bytes d = header(st, muid(r), muid(r), r.ib7(), ver);
    switch (st)
    {
    case 0x70:
    case 0x71:
        put(d, identity(r));
        put7(d, r.ib7());
        put28(d, r.iw() & 0x0FFFFFFF);
        if (ver >= 2) put7(d, r.ib7());
        if (ver >= 2 && st == 0x71) put7(d, r.ib7());
        break;
    case 0x72: put7(d, r.ib7()); break;
    case 0x73: { auto n = len(r); put7(d, r.ib7()); put14(d, u32(n)); put(d, r.bytes7(n)); break; }
    case 0x7D:
    case 0x7F: { auto n = len(r); put(d, r.bytes7(8)); put14(d, u32(n)); put(d, r.bytes7(n)); break; }
    case 0x7E: put28(d, muid(r)); break;
    case 0x20: break;
    case 0x21:
    {
        auto a = len(r, 1200), b = len(r, 1200);
        put14(d, u32(a)); put(d, r.bytes7(a * 5)); put14(d, u32(b)); put(d, r.bytes7(b * 5));
        break;
    }
    case 0x22: case 0x23: case 0x24: case 0x25: put(d, r.bytes7(5)); put14(d, n14(r)); break;
    case 0x26: case 0x27: put(d, r.bytes7(5)); break;
    case 0x28: put(d, r.bytes7(6)); break;
    case 0x29: { auto n = len(r); put(d, r.bytes7(6)); put14(d, u32(n)); put(d, r.bytes7(n)); break; }
    case 0x2F: { auto n = r.chance(1, 60) ? size_t(16380 + r.below(60000)) : len(r); put(d, r.bytes7(5)); put28(d, u32(n)); put(d, r.bytes7(n)); break; }
    case 0x30: case 0x31: put7(d, r.ib7()); if (ver >= 2) put(d, r.bytes7(2)); break;
    case 0x34: case 0x35: case 0x36: case 0x37: case 0x38: case 0x39: case 0x3F:
    {
        put7(d, r.ib7());
        const bool first = r.chance(3, 4);
        const size_t h = first ? len(r) : 0;
        u32 n, cur;
        if (first) { n = r.chance(1, 4) ? 0 : r.chance(1, 2) ? 1 : std::max<u32>(1, n14(r)); cur = r.chance(7, 8) ? 1 : 0; }
        else { cur = n14(r); n = r.chance(1, 4) ? 0 : u32(r.range(cur, 16383)); }
        const size_t c = cur ? len(r) : 0;
        put14(d, u32(h)); put(d, r.bytes7(h)); put14(d, n); put14(d, cur); put14(d, u32(c)); put(d, r.bytes7(c));
        break;
    }
    case 0x41: put7(d, r.ib7()); break;
    case 0x42: put(d, r.bytes7(5)); break;
    case 0x43: put(d, r.bytes7(4)); break;
    default: if (r.chance(1, 2)) put(d, r.bytes7(r.below(40)));
    }
    return d;
}
inline u8 subtype(Rng& r)
{
    if (r.chance(1, 12)) return r.b7();
    return r.pick<u8>({ 0x70, 0x71, 0x72, 0x73, 0x7D, 0x7E, 0x7F, 0x20, 0x21, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2F, 0x30, 0x31,
                        0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3A, 0x3E, 0x3F, 0x40, 0x41, 0x42, 0x43, 0x44 });
}
inline u8 version(Rng& r) { return r.chance(1, 8) ? r.ib7() : r.pick<u8>({ 0, 1, 1, 2, 2, 2, 3 }); }

//! message in storage of exactly its size
inline midi::sysex7 exact(u32 mf, const Bytes& d) { return midi::sysex7(mf, d.data(), d.size()); }
inline Bytes bytes_of(const midi::sysex& s) { return Bytes(s.data.begin(), s.data.end()); }
inline string show_ci(u32 mf, const Bytes& d)
{
    char t[40];
    std::snprintf(t, sizeof t, "mf=%06X size=%zu ", mf, d.size());
    return t + hexc(d);
}
} // namespace ci_ref
