// C23: all allocator configurations give the same results and return all memory.
// global operator new/delete, the custom allocator and all memory resources keep an allocation log.
#define VH_OWN_NEW
#include "alloc_log.h"
#include "ci_ref.h"
#include <memory>
#include <midi/midi1_byte_stream.h>
#include <midi/sysex_collector.h>
#if NIMIDI2_PMR_SYSEX_DATA
#include <memory_resource>
#endif
using namespace ci_ref;
using alloc_log::Log;
namespace m = midi;

static Log& global_log()
{
    alignas(Log) static char storage[sizeof(Log)];
    static Log*              l = ::new (storage) Log("operator new");
    return *l;
}
void* operator new(size_t n) { return global_log().allocate(n); }
void* operator new[](size_t n) { return global_log().allocate(n); }
void  operator delete(void* p) noexcept { if (p) global_log().deallocate(p, size_t(-1)); }
void  operator delete[](void* p) noexcept { if (p) global_log().deallocate(p, size_t(-1)); }
void  operator delete(void* p, size_t n) noexcept { if (p) global_log().deallocate(p, n); }
void  operator delete[](void* p, size_t n) noexcept { if (p) global_log().deallocate(p, size_t(-1)); }

#if NIMIDI2_CUSTOM_SYSEX_DATA_ALLOCATOR
extern Log& custom_log();
static Log& default_log() { return custom_log(); }
static const bool separate = true;
#elif NIMIDI2_PMR_SYSEX_DATA
struct Resource : std::pmr::memory_resource
{
    Log log;
    explicit Resource(const char* n) : log(n) {}
    void* do_allocate(size_t n, size_t) override { return log.allocate(n); }
    void  do_deallocate(void* p, size_t n, size_t) override { log.deallocate(p, n); }
    bool  do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
static Resource r_default("default resource"), r_a("resource A"), r_b("resource B");
static Log& default_log() { return r_default.log; }
static const bool separate = true;
#else
static Log& default_log() { return global_log(); }
static const bool separate = false;
#endif

static u64 digest;
static void dg(u64 v) { digest = mix(digest ^ v); }
static void dg(const void* p, size_t n) { digest = hash_bytes(p, n, digest); }

template<typename SX> static Log& log_of(const SX& s)
{
#if NIMIDI2_PMR_SYSEX_DATA
    auto* r = s.data.get_allocator().resource();
    if (r == &r_default) return r_default.log;
    if (r == &r_a) return r_a.log;
    if (r == &r_b) return r_b.log;
    fail("foreign-resource", "a message uses a memory resource that was never configured");
#endif
    return default_log();
}

//! storage of a message is one live block of its allocator, of the capacity's size
template<typename SX> static void owned(const SX& s, const char* what)
{
    if (!s.data.capacity()) return;
    Log& l = log_of(s);
    auto* slot = l.find(s.data.data());
    if (!slot) fail("storage-not-from-allocator", "after %s: storage is not a live block of %s", what, l.name);
    if (slot->n < s.data.capacity()) fail("storage-size", "after %s: capacity %zu but the block has %zu bytes", what, s.data.capacity(), slot->n);
}

//! no SysEx data sized block may come from the global heap while another allocator is configured
struct Watch
{
    size_t      limit;
    const char* what;
    Watch(size_t payload, const char* w) : limit(payload), what(w) { global_log().largest = 0; }
    ~Watch()
    {
        if (separate && limit >= 512 && global_log().largest >= limit / 2)
            fail("data-on-global-heap", "%s with %zu bytes of data obtained %zu bytes from operator new", what, limit, global_log().largest);
    }
};

//! all memory obtained in the scope is returned
struct Balance
{
    size_t      g = global_log().live;
    size_t      d = separate ? default_log().live : 0;
    const char* what;
    explicit Balance(const char* w) : what(w) {}
    ~Balance()
    {
        if (separate && default_log().live != d) fail("leak", "%s: %zu blocks of %s not returned", what, default_log().live - d, default_log().name);
        if (global_log().live != g) fail("leak", "%s: %zu blocks of operator new not returned", what, global_log().live - g);
#if NIMIDI2_PMR_SYSEX_DATA
        if (r_a.log.live || r_b.log.live) fail("leak", "%s: blocks of explicit resources not returned", what);
#endif
    }
};

template<typename SX> struct Obj
{
    SX    s;
    u32   mf = 0;
    Bytes d;
    bool  known = true; // false: moved from
#if NIMIDI2_PMR_SYSEX_DATA
    std::pmr::memory_resource* res = &r_default;
#endif
    Obj() = default;
    template<typename... A> explicit Obj(std::in_place_t, A&&... a) : s(std::forward<A>(a)...) {}
};

template<typename SX> static void history(Rng& r, u64 steps, u64& ops, u64& blocks)
{
    using P = std::unique_ptr<Obj<SX>>;
    using data_type = typename SX::data_type;
    const size_t a0 = default_log().allocs;
    vector<P>    v;
    auto content = [&]() { return std::is_same_v<SX, m::sysex7> ? r.bytes7(r.size(40, r.chance(1, 8) ? 40000 : 600)) : r.bytes(r.size(40, r.chance(1, 8) ? 40000 : 600)); };
    for (u64 k = 0; k < steps; ++k)
    {
        const char* what = "";
        const auto  o = r.below(16);
        if (v.size() < 2 || (v.size() < 6 && o < 4))
        {
            const u32 mf = mfr(r);
            Bytes     d = content();
            P         n;
            const auto kind = r.below(6), where = r.below(3);
            what = "construction";
            auto make = [&](auto... mr) {
                switch (kind)
                {
                case 0: d.clear(); n = std::make_unique<Obj<SX>>(std::in_place, mf, mr...); break;
                case 1: n = std::make_unique<Obj<SX>>(std::in_place, mf, d.size(), mr...); n->s.data.insert(n->s.data.end(), d.begin(), d.end()); break;
                case 2: n = std::make_unique<Obj<SX>>(std::in_place, mf, d.data(), d.size(), mr...); break;
                case 3: { data_type t(d.begin(), d.end()); n = std::make_unique<Obj<SX>>(std::in_place, mf, std::move(t), mr...); break; }
                case 4: { const data_type t(d.begin(), d.end()); n = std::make_unique<Obj<SX>>(std::in_place, mf, t, mr...); break; }
                default: //
                    d = { 1, 2, 3, 0x7F, 5 };
                    n = std::make_unique<Obj<SX>>(std::in_place, mf, std::initializer_list<u8>{ 1, 2, 3, 0x7F, 5 }, mr...);
                }
            };
#if NIMIDI2_PMR_SYSEX_DATA
            std::pmr::memory_resource* res = where == 0 ? static_cast<std::pmr::memory_resource*>(&r_default) : where == 1 ? &r_a : &r_b;
            if (where == 0) make();
            else make(res);
            n->res = res;
#else
            (void)where;
            make();
#endif
            n->mf = mf;
            n->d  = d;
            v.push_back(std::move(n));
        }
        else
        {
            const size_t i = r.below(v.size()), j = r.below(v.size());
            auto &       x = *v[i], &y = *v[j];
            switch (o)
            {
            case 4: case 5:
                what = "append";
                if (!x.known) break;
                if constexpr (std::is_same_v<SX, m::sysex7>)
                    switch (r.below(5))
                    {
                    case 0: x.s.add_uint7(5); x.d.push_back(5); break;
                    case 1: x.s.add_uint14(0x1234); x.d.push_back(0x34); x.d.push_back(0x24); break;
                    case 2: x.s.add_uint28(0x0ABCDEF); put(x.d, Bytes{ 0x6F, 0x1B, 0x2F, 0x05 }); break;
                    case 3: x.s.add_uint32(0xFFFFFFFF); put(x.d, Bytes{ 0x7F, 0x7F, 0x7F, 0x7F, 0x0F }); break;
                    default: { const Bytes b = r.bytes7(1 + r.size(60, 20000)); x.s.add_data(b.data(), b.size()); put(x.d, b); }
                    }
                else
                    for (auto n = r.below(40); n; --n) { x.s.data.push_back(u8(n)); x.d.push_back(u8(n)); }
                break;
            case 6: case 7:
                what = "copy assignment";
                if (!y.known) break;
                x.s = y.s;
                if (i != j) { x.mf = y.mf; x.d = y.d; x.known = true; }
                break;
            case 8: case 9:
                what = "move assignment";
                if (!y.known || i == j) break;
                x.s = std::move(y.s);
                x.mf = y.mf; x.d = y.d; x.known = true; y.known = false;
                break;
            case 10:
            {
                what = "copy construction";
                if (!y.known) break;
                SX c(y.s);
                owned(c, what);
                if (c.data.capacity() && c.data.data() == y.s.data.data()) fail("shared-storage", "a copy shares the storage of its source");
                VH_TRUE("copy-equal", c == y.s && !(c != y.s), "");
                if (!c.data.empty()) { c.data[0] ^= 1; if (c == y.s) fail("shared-storage", "changing a copy changes its source"); }
                break;
            }
            case 11:
            {
                what = "move construction";
                if (!y.known) break;
                auto n = std::make_unique<Obj<SX>>(std::in_place, std::move(y.s));
                n->mf = y.mf; n->d = y.d;
#if NIMIDI2_PMR_SYSEX_DATA
                n->res = y.res;
#endif
                v[j] = std::move(n);
                break;
            }
            case 12:
                what = "clear";
                x.s.clear();
                if (x.s.data.capacity() > 16384)
                    fail("clear-keeps-buffer", "a cleared message still holds a buffer of %zu bytes", x.s.data.capacity());
                x.mf = 0; x.d.clear(); x.known = true;
                break;
            case 13:
                what = "swap";
                if (!x.known || !y.known) break;
                std::swap(x.s, y.s);
                if (i != j) { std::swap(x.mf, y.mf); std::swap(x.d, y.d); }
                break;
            default:
                what = "destruction";
                v.erase(v.begin() + long(i));
            }
        }
        ++ops;
        for (size_t i = 0; i < v.size(); ++i)
        {
            auto& x = *v[i];
            if (x.s.data.size() > x.s.data.capacity()) fail("storage-size", "after %s", what);
            owned(x.s, what);
#if NIMIDI2_PMR_SYSEX_DATA
            if (x.s.data.get_allocator().resource() != x.res) fail("wrong-resource", "after %s a message constructed with one memory resource uses another", what);
#endif
            for (size_t j = 0; j < i; ++j)
                if (x.s.data.capacity() && v[j]->s.data.capacity() && x.s.data.data() == v[j]->s.data.data()) fail("shared-storage", "after %s two messages share storage", what);
            if (!x.known) continue;
            if (u32(x.s.manufacturerID) != x.mf || Bytes(x.s.data.begin(), x.s.data.end()) != x.d)
                fail("content", "after %s: message has %zu bytes %s (manufacturer %06X), expected %zu bytes %s (%06X)", what, x.s.data.size(), hexc(x.s.data).c_str(),
                     unsigned(x.s.manufacturerID), x.d.size(), hexc(x.d).c_str(), x.mf);
        }
    }
    for (auto& x : v)
        if (x->known) { dg(x->mf); dg(x->d.data(), x->d.size()); dg(x->s.total_data_size()); dg(x->s.is_7bit()); dg(x->s.empty()); }
    blocks += default_log().allocs - a0;
}

template<typename SX, typename V> static void see(const SX& s, V&& extra)
{
    dg(s.manufacturerID); dg(s.data.size());
    for (auto b : s.data) dg(b);
    dg(extra);
    owned(s, "delivery");
}

static void collectors(Rng& r, u64& delivered, u64& packets)
{
    size_t  total = 0;
    m::sysex7_collector c7([&](const m::sysex7& s) { see(s, 0); ++delivered; });
    m::sysex8_collector c8([&](const m::sysex8& s, u8 id) { see(s, id); ++delivered; });
    if (r.chance(1, 3)) { const size_t lim = r.size(100, 20000); c7.set_max_sysex_data_size(lim); c8.set_max_sysex_data_size(lim); }
    for (auto k = 1 + r.below(6); k; --k)
    {
        const Bytes d7 = r.bytes7(r.size(60, r.chance(1, 4) ? 30000 : 2000)), d8 = r.bytes(r.size(60, r.chance(1, 4) ? 30000 : 2000));
        const u32   mf = mfr(r);
        m::sysex7   s7(mf, d7.data(), d7.size());
        m::sysex8   s8(mf, d8.data(), d8.size());
        vector<m::universal_packet> ps;
        for (auto& p : m::as_sysex7_packets(s7, u8(k))) ps.push_back(p);
        for (auto& p : m::as_sysex8_packets(s8, u8(k * 7), u8(k))) ps.push_back(p);
        if (r.chance(1, 4)) ps.resize(r.below(ps.size() + 1));
        if (r.chance(1, 4) && !ps.empty()) ps.erase(ps.begin() + long(r.below(ps.size())));
        total += d7.size() + d8.size();
        Watch w(std::max(d7.size(), d8.size()), "collecting");
        for (auto& p : ps) { dg(p.data, p.size() * 4); c7.feed(p); c8.feed(p); ++packets; }
        if (r.chance(1, 6)) { c7.reset(); c8.reset(); }
    }
    // collectors can be copied and moved like messages
    if (r.chance(1, 2))
    {
        const Bytes d = r.bytes7(200);
        m::sysex7   s(0x7D0000, d.data(), d.size());
        auto        ps = m::as_sysex7_packets(s);
        m::sysex7_collector a(c7);
        const size_t cut = r.below(ps.size());
        for (size_t i = 0; i < cut; ++i) a.feed(ps[i]);
        m::sysex7_collector b(a), c(std::move(a));
        for (size_t i = cut; i < ps.size(); ++i) { b.feed(ps[i]); c.feed(ps[i]); }
        c7 = b;
        c7 = std::move(b);
        for (auto& p : ps) c7.feed(p);
    }
}

static void parser(Rng& r, u64& delivered, u64& bytes)
{
    m::midi1_byte_stream_parser ps(u8(r.below(16)), [&](m::universal_packet u) { dg(u.data, u.size() * 4); }, [&](const m::sysex7& s) { see(s, 1); ++delivered; });
    for (auto k = 1 + r.below(5); k; --k)
    {
        Bytes d;
        size_t n = 0;
        if (r.chance(1, 3)) d = r.bytes(r.below(100));
        else { d.push_back(0xF0); n = r.size(60, r.chance(1, 4) ? 30000 : 2000); put(d, r.bytes7(n)); if (r.chance(5, 6)) d.push_back(0xF7); }
        Watch w(n, "parsing");
        ps.feed(d.data(), d.size());
        bytes += d.size();
        if (r.chance(1, 8)) ps.reset();
    }
}

static void ci(Rng& r, u64& built)
{
    namespace c = midi::ci;
    const u32    a = r.w() & 0xFFFFFFF, b = r.w() & 0xFFFFFFF;
    const size_t n = r.size(60, r.chance(1, 2) ? 8000 : 300);
    const Bytes  d = r.bytes7(n);
    {
        Watch w(n, "make_profile_specific_data_message");
        const auto x = c::make_profile_specific_data_message(a, b, c::profile_id{ 1, 2, 3, 4, 5 }, d, 9);
        see(x, 2);
    }
    for (auto t : { 0, 1, 2 })
    {
        const auto x = c::make_discovery_inquiry(a + t > 0xFFFFFFF ? a : a + t, m::device_identity{ mfr(r), 1, 2, 3 }, 0x0C, 512);
        see(x, 3);
        if (auto v = c::as<c::discovery_inquiry_view>(x)) { const auto i = v->identity(); dg(i.manufacturer); dg(i.family); dg(v->maximum_message_size()); }
    }
    {
        const size_t np = r.below(200);
        vector<c::profile_id> en(np, c::profile_id{ 0x7E, 1, 2, 3, 4 }), dis(r.below(20), c::profile_id{ 1, 2, 3, 4, 5 });
        const auto x = c::make_profile_inquiry_reply(a, b, en, dis, 3);
        see(x, 4);
        if (auto v = c::as<c::profile_inquiry_reply_view>(x)) { for (auto& p : v->enabled_profiles()) dg(&p, sizeof p); for (auto& p : v->disabled_profiles()) dg(&p, sizeof p); }
    }
    {
        const auto x = c::make_get_property_data_inquiry(a, b, "DeviceInfo", 3);
        see(x, 5);
        const auto y = c::make_set_property_data_inquiry(a, b, "X", 1, 1, c::property_exchange::chunk{ d.data(), d.size() }, 3);
        see(y, 6);
    }
    built += 7;
}

static void all()
{
    auto run = [](const char* name, auto f, const char* c1, const char* c2) {
        return [=](Rng& r, u64) {
            u64 a = 0, b = 0;
            {
                Balance bal(name);
                f(r, a, b);
            }
            S().counters[c1] += a;
            if (c2) S().counters[c2] += b;
            nontrivial(r.next() ^ digest);
        };
    };
    auto both = [](Rng& r, u64& a, u64& b) { if (r.chance(1, 2)) history<m::sysex7>(r, 30, a, b); else history<m::sysex8>(r, 30, a, b); };
    auto cir  = [](Rng& r, u64& a, u64&) { ci(r, a); };
    for (int pass = 0; pass < 2; ++pass)
    {
        const bool fixed = pass == 0;
        section(fixed ? "histories" : "more histories", 2000, run("message history", both, "message operations", "blocks obtained"), !fixed);
        section(fixed ? "collectors" : "more collectors", 1000, run("collector history", collectors, "messages delivered", "packets fed"), !fixed);
        section(fixed ? "parser" : "more parser", 1000, run("parser history", parser, "messages delivered", "bytes fed"), !fixed);
        section(fixed ? "ci" : "more ci", 1000, run("MIDI-CI messages", cir, "ci messages built", nullptr), !fixed);
        if (fixed && !S().only) std::printf("VH-DIGEST results %016llx\n", (unsigned long long)digest);
    }
}

void vh_main()
{
    for (auto c : { "message operations", "blocks obtained", "messages delivered", "packets fed", "bytes fed", "ci messages built" }) counter(c);
    nontrivial(1);
    default_log();
#if NIMIDI2_PMR_SYSEX_DATA
    auto* old = std::pmr::set_default_resource(&r_default);
    all();
    std::pmr::set_default_resource(old);
#else
    all();
#endif
    sample("allocations logged: operator new " + std::to_string(global_log().allocs) + ", " + default_log().name + " " + std::to_string(default_log().allocs));
}
