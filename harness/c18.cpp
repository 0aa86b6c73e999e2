// C18: universal packets store, compare, print and parse their words exactly
#include "ref.h"
#include <iomanip>
#include <iostream>
#include <midi/channel_voice_message.h>
#include <midi/flex_data_message.h>
#include <sstream>
using namespace ref;
namespace m = midi;

static Pk rnd(Rng& r)
{
    Pk p;
    for (auto& w : p.w) w = r.iw();
    p.w[0] = (p.w[0] & 0x0FFFFFFF) | u32(r.below(16)) << 28;
    if (r.chance(1, 4)) p.w[0] &= 0xF00000FF;
    return p;
}
static string ref_text(const Pk& p)
{
    string s;
    for (unsigned i = 0; i < words_of_type(p.w[0] >> 28); ++i)
    {
        char t[16];
        std::snprintf(t, sizeof t, "%s%08x", i ? " " : "", p.w[i]);
        s += t;
    }
    return s;
}
static string lower(string s)
{
    for (auto& c : s) c = char(std::tolower(c));
    return s;
}

static void reads(const m::universal_packet& u, const Pk& e, const string& c)
{
    VH_EQ("words", raw(u), e, c);
    VH_EQ("type", unsigned(u.type()), unsigned(e.w[0] >> 28), c);
    VH_EQ("group", unsigned(u.group()), unsigned((e.w[0] >> 24) & 15), c);
    VH_EQ("status", unsigned(u.status()), unsigned(e.byte(1)), c);
    VH_EQ("byte2", unsigned(u.byte2()), unsigned(e.byte(1)), c);
    VH_EQ("byte3", unsigned(u.byte3()), unsigned(e.byte(2)), c);
    VH_EQ("byte4", unsigned(u.byte4()), unsigned(e.byte(3)), c);
    VH_EQ("size", size_t(u.size()), size_t(words_of_type(e.w[0] >> 28)), c);
    for (unsigned i = 0; i < 16; ++i)
    {
        VH_EQ("get-byte", unsigned(u.get_byte(i)), unsigned(e.byte(i)), c + " byte " + show(i));
        VH_EQ("get-byte-7bit", unsigned(u.get_byte_7bit(i)), unsigned(e.byte(i) & 0x7F), c + " byte " + show(i));
    }
    const unsigned t = e.w[0] >> 28;
    if (t == 2 || t == 4 || t == 0xD) VH_EQ("channel", unsigned(u.channel()), unsigned(e.byte(1) & 15), c);
    VH_COUNT("packets read");
}

// a history of writes against the bit model
static void writes(Rng& r)
{
    Pk                  e = rnd(r);
    m::universal_packet u = ump(e);
    string              hist = show_pk(e);
    for (int i = 0, n = int(r.below(12)); i <= n; ++i)
    {
        reads(u, e, hist);
        nontrivial(hash_bytes(e.w, sizeof e.w));
        switch (r.below(8))
        {
        case 0: { const unsigned t = unsigned(r.below(16)); hist += " type=" + show(t); u.set_type(m::packet_type(t)); e.w[0] = (e.w[0] & 0x0FFFFFFF) | t << 28; break; }
        case 1: { const unsigned g = unsigned(r.below(16)); hist += " group=" + show(g); u.set_group(m::group_t(g)); e.w[0] = (e.w[0] & 0xF0FFFFFF) | g << 24; break; }
        case 2: { const unsigned b = unsigned(r.below(16)); const u8 v = r.ib(); hist += " 7bit[" + show(b) + "]=" + show(v); u.set_byte_7bit(b, v); e.set(b, v & 0x7F); break; }
        case 3: if (r.chance(1, 4)) { hist += " reset"; u.reset(); e = Pk{}; } break;
        case 4: { m::universal_packet k(u); m::universal_packet o(1, 2, 3, 4); o = k; u = std::move(o); hist += " copy"; break; }
        default: { const unsigned b = unsigned(r.below(16)); const u8 v = r.ib(); hist += " [" + show(b) + "]=" + show(v); u.set_byte(b, v); e.set(b, v); break; }
        }
        VH_COUNT("writes");
    }
    if (want_sample()) sample("writes: " + hist);
}

static void constructors(Rng& r)
{
    const Pk p = rnd(r);
    Pk e;
    VH_EQ("ctor0", raw(m::universal_packet{}), e, show_pk(p));
    e.w[0] = p.w[0]; VH_EQ("ctor1", raw(m::universal_packet(p.w[0])), e, show_pk(p));
    e.w[1] = p.w[1]; VH_EQ("ctor2", raw(m::universal_packet(p.w[0], p.w[1])), e, show_pk(p));
    e.w[2] = p.w[2]; VH_EQ("ctor3", raw(m::universal_packet(p.w[0], p.w[1], p.w[2])), e, show_pk(p));
    e.w[3] = p.w[3]; VH_EQ("ctor4", raw(m::universal_packet(p.w[0], p.w[1], p.w[2], p.w[3])), e, show_pk(p));
}

static void equality(Rng& r)
{
    const Pk a = rnd(r);
    Pk       b = a;
    switch (r.below(5))
    {
    case 0: break;
    case 1: b.w[r.below(4)] ^= 1u << r.below(32); break;
    case 2: b.w[r.range(1, 3)] = r.iw(); break;
    case 3: { unsigned n = words_of_type(a.w[0] >> 28); for (unsigned i = n; i < 4; ++i) b.w[i] = r.iw(); break; }
    default: b = rnd(r); if (r.chance(1, 2)) b.w[0] = a.w[0];
    }
    bool eq = a.w[0] == b.w[0];
    for (unsigned i = 1; i < words_of_type(a.w[0] >> 28); ++i) eq = eq && a.w[i] == b.w[i];
    const auto x = ump(a), y = ump(b);
    const string c = show_pk(a) + " / " + show_pk(b);
    VH_EQ("equal", x == y, eq, c);
    VH_EQ("equal-symmetric", y == x, eq, c);
    VH_EQ("not-equal", x != y, !eq, c);
    VH_TRUE("equal-self", x == x && !(x != x), c);
    VH_COUNT("comparisons");
    if (eq && a != b) VH_COUNT("equal packets with different unused words");
    nontrivial(hash_bytes(a.w, sizeof a.w) ^ hash_bytes(b.w, sizeof b.w));
}

static void print(Rng& r)
{
    const Pk p = rnd(r);
    const auto u = ump(p);
    std::ostringstream o;
    using F = std::ios_base;
    if (r.chance(1, 2)) o << std::hex;
    else if (r.chance(1, 3)) o << std::oct;
    if (r.chance(1, 4)) o << std::uppercase;
    if (r.chance(1, 6)) o << std::left;
    if (r.chance(1, 6)) o << std::showbase;
    if (r.chance(1, 6)) o << std::showpos;
    if (r.chance(1, 6)) o << std::boolalpha << std::scientific;
    if (r.chance(1, 4)) o << std::setfill(char(r.pick({ '*', '0', 'x' })));
    if (r.chance(1, 6)) o << std::setprecision(3);
    const auto fl = o.flags();
    const auto pr = o.precision();
    const auto fi = o.fill();
    o << u;
    const string c = show_pk(p) + " flags " + show(unsigned(fl));
    VH_EQ("text", lower(o.str()), ref_text(p), c);
    if (!(fl & F::uppercase)) VH_EQ("text-case", o.str(), ref_text(p), c);
    VH_TRUE("flags-restored", o.flags() == fl, c);
    VH_TRUE("precision-kept", o.precision() == pr, c);
    VH_TRUE("fill-restored", o.fill() == fi, c);
    VH_TRUE("width-used", o.width() == 0, c);
    VH_COUNT("packets printed");
    nontrivial(hash_bytes(p.w, sizeof p.w));
}

// sequences of packets, printed and read back
static void parse(Rng& r)
{
    std::stringstream s;
    vector<Pk>        ps;
    const int         n = int(r.range(1, 12));
    for (int i = 0; i < n; ++i)
    {
        ps.push_back(rnd(r));
        if (i) s << (r.chance(1, 2) ? "\n" : r.chance(1, 2) ? " " : "\t \r\n");
        if (r.chance(1, 8)) s << (r.chance(1, 2) ? std::uppercase : std::nouppercase);
        s << ump(ps.back());
        if (r.chance(1, 8)) s << " ";
    }
    s.str(s.str());
    if (r.chance(1, 3)) s << std::oct;
    s.clear(); s.seekg(0);
    const auto fl = s.flags();
    const string c = s.str();
    for (int i = 0; i < n; ++i)
    {
        m::universal_packet u = ump(rnd(r)); // whatever was there before
        s >> u;
        VH_TRUE("parse", !s.fail(), c + " packet " + show(i));
        VH_TRUE("parse-equal", u == ump(ps[i]), c + " packet " + show(i) + " gave " + show(raw(u)));
        VH_EQ("parse-words", sig(u), sig(ump(ps[i])), c);
        VH_TRUE("parse-flags", s.flags() == fl, c);
        VH_COUNT("packets parsed");
    }
    m::universal_packet u;
    VH_TRUE("parse-end", !(s >> u), c);
    nontrivial(hash_str(c));
}

static void bad_text(Rng& r)
{
    const Pk p = rnd(r);
    string   t = ref_text(p);
    const unsigned n = words_of_type(p.w[0] >> 28);
    if (r.chance(1, 2))
    {
        // cut whole words
        if (n < 2) { t = r.chance(1, 2) ? "" : "  \n"; }
        else t = t.substr(0, 9 * r.range(1, n - 1) - r.below(2));
        t += r.pick({ string(""), string(""), string("\n"), string("\r\n"), string(" \n\n"), string("\t"), string("\n# comment\n"), string("\nxyz") });
        VH_COUNT("truncated texts");
    }
    else
    {
        // replace one word
        const unsigned w = unsigned(r.below(n));
        string x = r.pick({ string("xyz"), string("g0000000"), string("*"), string("123456789"), string("fffffffff"), string("_"), string("note"), string("...") });
        t = t.substr(0, 9 * w) + x + (9 * w + 8 <= t.size() ? t.substr(9 * w + 8) : "");
        VH_COUNT("non-hexadecimal texts");
    }
    std::istringstream  s(t);
    m::universal_packet u = ump(rnd(r));
    const auto fl = s.flags();
    s >> u;
    VH_TRUE("bad-text-fails", s.fail(), show(t) + " gave " + show(raw(u)));
    VH_TRUE("bad-text-flags", s.flags() == fl, show(t));
    // and stays failed: no packet appears out of nothing
    VH_TRUE("bad-text-stays-failed", !(s >> u), show(t));
    nontrivial(hash_str(t));
    if (want_sample()) sample("rejected text: " + show(t));
}

void vh_main()
{
    section("all first bytes and status", 65536, [](Rng& r, u64 i) {
        Pk p = rnd(r);
        p.w[0] = (p.w[0] & 0xFFFF) | u32(i) << 16;
        reads(ump(p), p, show_pk(p));
        nontrivial(hash_bytes(p.w, sizeof p.w));
    }, false);
    section("writes", 15000, [](Rng& r, u64) { writes(r); });
    section("constructors", 5000, [](Rng& r, u64) { constructors(r); });
    section("equality", 50000, [](Rng& r, u64) { equality(r); });
    section("print", 15000, [](Rng& r, u64) { print(r); });
    section("parse", 6000, [](Rng& r, u64) { parse(r); });
    section("bad text", 10000, [](Rng& r, u64) { bad_text(r); });
}
