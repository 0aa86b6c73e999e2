// C25: running out of memory or a throwing callback at any point leaves nothing behind.
// Every operation is run once undisturbed to learn how often it asks for memory, then again with each of those requests
// failing in turn; every callback is made to throw at each of its calls in turn.
#include "mem.h"
#include "ci_ref.h"
#include <functional>
#include <midi/midi1_byte_stream.h>
#include <midi/stream_message.h>
#include <midi/flex_data_message.h>
#include <midi/sysex_collector.h>
#include <midi/universal_sysex.h>
using namespace ci_ref;
namespace m  = midi;
namespace c  = midi::ci;
namespace pe = midi::ci::property_exchange;

struct Boom { u64 n; };

template<typename SX> static u64 digest(const SX& s) { return hash_bytes(s.data.data(), s.data.size(), mix(u64(s.manufacturerID) + 1)); }
static u64 digest(const string& s) { return hash_bytes(s.data(), s.size(), 7); }
static u64 digest(const vector<c::profile_id>& v)
{
    u64 h = v.size();
    for (auto& p : v) h = mix(h ^ (u64(p.byte1) << 32 | u64(p.byte2) << 24 | u64(p.byte3) << 16 | u64(p.byte4) << 8 | p.byte5));
    return h;
}
template<typename P, typename = std::enable_if_t<std::is_base_of_v<m::universal_packet, P>>> static u64 digest(const vector<P>& v)
{
    u64 h = v.size();
    for (auto& p : v) for (auto w : p.data) h = mix(h ^ w);
    return h;
}

//! the points at which to fail: all if few, otherwise the first ones and a sample
static vector<u64> points(Rng& r, u64 n)
{
    vector<u64> v;
    for (u64 k = 1; k <= n && k <= 12; ++k) v.push_back(k);
    for (u64 k = 0; n > 12 && k < 8; ++k) v.push_back(13 + r.below(n - 12));
    return v;
}

//! f() produces a value from inputs it must not change
template<typename F, typename I> static void produce(Rng& r, const char* name, F f, I inputs)
{
    op(name);
    u64       want, n;
    const u64 in = inputs();
    {
        Balance b(name, 0);
        Arm     a(0);
        const auto v = f();
        n    = faults.requests;
        want = digest(v);
    }
    VH_COUNT("operations");
    for (u64 k : points(r, n))
    {
        bool thrown = false;
        {
            Balance b(name, k);
            Arm     a(k);
            u64     got = want;
            try { const auto v = f(); got = digest(v); }
            catch (const std::bad_alloc&) { thrown = true; }
            Pause p;
            if (!thrown && got != want) fail("failure-hidden", "%s: request %llu of %llu for memory fails, no exception, but another result", name, (unsigned long long)k, (unsigned long long)n);
            if (faults.fired) VH_COUNT("requests failed");
            if (thrown) VH_COUNT("failures reported");
        }
        if (inputs() != in) fail("inputs-changed", "%s: inputs are changed after request %llu for memory failed", name, (unsigned long long)k);
    }
    {
        Balance b(name, 0);
        Arm     a(0);
        const auto v = f();
        const u64 again = digest(v);
        if (again != want) { Pause p; fail("later-result", "%s gives another result after earlier failures", name); }
    }
    nontrivial(mix(want ^ in) + n);
}

static string word(Rng& r, size_t n) { string s(n, 'a'); for (auto& x : s) x = char('a' + r.below(26)); return s; }

static void messages(Rng& r)
{
    const u32   a = muid(r), b = muid(r), mf = mfr(r);
    const u8    dev = r.ib7();
    const Bytes d = r.bytes7(r.size(60, r.chance(1, 3) ? 20000 : 700));
    const c::profile_id pid{ 0x7E, 1, 2, 3, 4 };
    vector<c::profile_id> en(r.below(60), pid), dis(r.below(60), c::profile_id{ 1, 2, 3, 4, 5 });
    const string t1 = word(r, r.size(20, 400)), t2 = word(r, 1 + r.below(40));
    const string num = std::to_string(r.below(100000));
    const pe::header_options opts{ { "limit", num }, { "k", t2 } };
    u8 det[5] = { 1, 2, 3, 4, 5 };
    const m::sysex7 s7(mf, d.data(), d.size());
    const m::sysex8 s8(mf, d.data(), d.size());
    const auto profiles = c::make_profile_inquiry_reply(a, b, en, dis, dev);
    const m::device_identity id{ mfr(r), 1, 2, 3 };
    auto in = [&] { return mix(digest(s7) ^ mix(digest(s8)) ^ mix(digest(profiles) + 3) ^ hash_bytes(d.data(), d.size()) ^ digest(en) ^ mix(digest(dis))); };
#define PRODUCE(name, ...) produce(r, name, [&] { return __VA_ARGS__; }, in)
    switch (r.below(28))
    {
    case 0: PRODUCE("sysex7(data)", m::sysex7(mf, d.data(), d.size())); break;
    case 1: PRODUCE("sysex7(capacity)", m::sysex7(mf, d.size())); break;
    case 2: PRODUCE("copy of a sysex7", m::sysex7(s7)); break;
    case 3: PRODUCE("copy of a sysex8", m::sysex8(s8)); break;
    case 4: { const m::sysex7::data_type t(d.begin(), d.end()); PRODUCE("sysex7(data_type)", m::sysex7(mf, t)); break; }
    case 5: PRODUCE("as_sysex7_packets", m::as_sysex7_packets(s7, 3)); break;
    case 6: PRODUCE("as_sysex8_packets", m::as_sysex8_packets(s8, 9, 3)); break;
    case 7: PRODUCE("make_identity_request", m::universal_sysex::make_identity_request(dev)); break;
    case 8: PRODUCE("make_identity_reply", m::universal_sysex::make_identity_reply(id.manufacturer, id.family, id.model, id.revision, dev)); break;
    case 9: PRODUCE("make_discovery_inquiry", c::make_discovery_inquiry(a, id, 0x0C, 512)); break;
    case 10: PRODUCE("make_discovery_reply", c::make_discovery_reply(a, b, id, 0x0C, 512, 0)); break;
    case 11: PRODUCE("make_endpoint_information_reply", c::make_endpoint_information_reply(a, b, 0, d.data(), std::min<size_t>(d.size(), 16383))); break;
    case 12: PRODUCE("make_ack_message", c::make_ack_message(a, b, dev, 1, 2, 3, det, t1)); break;
    case 13: PRODUCE("make_nak_message", c::make_nak_message(a, b, dev, 1, 2, 3, det, t1)); break;
    case 14: PRODUCE("make_invalidate_muid_message", c::make_invalidate_muid_message(a, b)); break;
    case 15: PRODUCE("make_profile_inquiry_reply", c::make_profile_inquiry_reply(a, b, en, dis, dev)); break;
    case 16: PRODUCE("make_profile_details_reply", c::make_profile_details_reply(a, b, pid, 1, d.data(), std::min<size_t>(d.size(), 16383), dev)); break;
    case 17: PRODUCE("make_profile_specific_data_message", c::make_profile_specific_data_message(a, b, pid, d, dev)); break;
    case 18: PRODUCE("enabled_profiles", c::as<c::profile_inquiry_reply_view>(profiles)->enabled_profiles()); break;
    case 19: PRODUCE("disabled_profiles", c::as<c::profile_inquiry_reply_view>(profiles)->disabled_profiles()); break;
    case 20: PRODUCE("make_get_property_data_inquiry", c::make_get_property_data_inquiry(a, b, t1, opts, 3, dev)); break;
    case 21: PRODUCE("make_get_property_data_reply", c::make_get_property_data_reply(a, b, 200, std::string_view(t1), 1, 1, pe::chunk(d.data(), std::min<size_t>(d.size(), 16383)), 3, dev)); break;
    case 22: PRODUCE("make_set_property_data_inquiry", c::make_set_property_data_inquiry(a, b, std::string_view(t1), opts, 1, 1, pe::chunk(d.data(), std::min<size_t>(d.size(), 16383)), 3, dev)); break;
    case 23: PRODUCE("make_subscription_inquiry", c::make_subscription_inquiry(a, b, std::string_view(t1), std::string_view(t2), std::string_view(num), 3, dev)); break;
    case 24: PRODUCE("make_notify_message", c::make_notify_message(a, b, 400, std::string_view(t1), 3, dev)); break;
    case 25: PRODUCE("make_rjson", pe::make_rjson("resource", t1, opts)); break;
    case 26:
    {
        const string nm = word(r, 1 + r.below(14));
        const auto   p = m::make_endpoint_name_message(m::packet_format::complete, nm);
        PRODUCE("endpoint name payload", m::endpoint_name_view(p).payload());
        break;
    }
    default:
    {
        m::sysex7 x(mf);
        PRODUCE("message(payload)", [&] { auto v = c::message::make_with_payload_size(d.size(), 0x34, a, b, dev); if (!d.empty()) v.add_data(d.data(), d.size()); v.add_uint28(a); return v; }());
    }
    }
}

//! a failed append loses nothing, a failed copy leaves its source alone; the object stays usable
static void edits(Rng& r)
{
    const u32   mf = mfr(r);
    const Bytes base = r.bytes7(r.size(60, 600)), extra = r.bytes7(1 + r.size(60, r.chance(1, 3) ? 20000 : 300));
    const auto  kind = r.below(8);
    const u32   val = r.iw();
    const m::device_identity id{ mfr(r), u16(r.below(16384)), u16(r.below(16384)), r.iw() & 0xFFFFFFF };
    const m::sysex7 other(mfr(r), extra.data(), extra.size());
    static const char* const names[] = { "add_uint7", "add_uint14", "add_uint28", "add_uint32", "add_data", "add_device_identity", "copy assignment", "move assignment" };
    auto edit = [&](m::sysex7& x, m::sysex7& y) {
        switch (kind)
        {
        case 0: x.add_uint7(u8(val & 0x7F)); break;
        case 1: x.add_uint14(u16(val & 0x3FFF)); break;
        case 2: x.add_uint28(val & 0xFFFFFFF); break;
        case 3: x.add_uint32(val); break;
        case 4: x.add_data(extra.data(), extra.size()); break;
        case 5: x.add_device_identity(id); break;
        case 6: x = other; break;
        default: x = std::move(y);
        }
    };
    op(names[kind]);
    auto begin = [&](m::sysex7& x) { x.data.shrink_to_fit(); };
    u64 want, n;
    {
        m::sysex7 x(mf, base.data(), base.size()), y(other);
        begin(x);
        Arm a(0);
        edit(x, y);
        n    = faults.requests;
        want = digest(x);
    }
    VH_COUNT("edits");
    for (u64 k = 1; k <= n; ++k)
    {
        Balance   bal(names[kind], k);
        m::sysex7 x(mf, base.data(), base.size()), y(other);
        begin(x);
        bool thrown = false;
        {
            Arm a(k);
            try { edit(x, y); }
            catch (const std::bad_alloc&) { thrown = true; }
        }
        VH_COUNT("requests failed");
        if (!thrown)
        {
            if (digest(x) != want) fail("failure-hidden", "%s: request %llu for memory fails, no exception, but another result", names[kind], (unsigned long long)k);
            continue;
        }
        VH_COUNT("failures reported");
        if (kind < 6 && (u32(x.manufacturerID) != mf || x.data.size() < base.size() || !std::equal(base.begin(), base.end(), x.data.begin())))
            fail("content-lost", "%s: after request %llu for memory failed the message of %zu bytes is %s", names[kind], (unsigned long long)k, base.size(), hexc(x.data).c_str());
        if (digest(other) != digest(m::sysex7(u32(other.manufacturerID), extra.data(), extra.size()))) fail("inputs-changed", "%s", names[kind]);
        // still a message like any other
        x.clear();
        if (!x.empty() || x.total_data_size() != 0 + m::sysex7().total_data_size()) fail("not-usable", "%s: the message cannot be cleared after a failure", names[kind]);
        x = m::sysex7(mf, base.data(), base.size());
        m::sysex7 z(other);
        edit(x, z);
        if (digest(x) != want) fail("later-result", "%s gives another result after an earlier failure", names[kind]);
    }
    nontrivial(hash_bytes(base.data(), base.size(), val) + kind);
}

// ---------------------------------------------------------------------------------------------------- histories

//! what a receiver delivers; throws at the boom-th delivery
struct Recorder
{
    vector<u64> seen;
    u64         boom = 0, calls = 0, resets_at = 0;
    std::function<void()> reset;
    void event(u64 h)
    {
        Pause p;
        if (++calls == boom) throw Boom{ calls };
        seen.push_back(h);
        if (calls == resets_at) reset();
    }
};
static u64 digest(const m::universal_packet& u) { u64 h = 5; for (size_t i = 0; i < u.size(); ++i) h = mix(h ^ u.data[i]); return h; }

struct Collect7
{
    static constexpr const char* name = "sysex7_collector";
    m::sysex7_collector c;
    size_t limit;
    Collect7(Recorder& rec, size_t lim, Rng&) : c([&rec](const m::sysex7& s) { rec.event(digest(s)); }), limit(lim) { if (lim) c.set_max_sysex_data_size(lim); }
    using item = m::universal_packet;
    void feed(const item& p) { c.feed(p); }
    void reset() { c.reset(); }
};
struct Collect8
{
    static constexpr const char* name = "sysex8_collector";
    m::sysex8_collector c;
    Collect8(Recorder& rec, size_t lim, Rng&) : c([&rec](const m::sysex8& s, u8 id) { rec.event(digest(s) + id); }) { if (lim) c.set_max_sysex_data_size(lim); }
    using item = m::universal_packet;
    void feed(const item& p) { c.feed(p); }
    void reset() { c.reset(); }
};
template<bool SX> struct Parse
{
    static constexpr const char* name = SX ? "byte stream parser with SysEx callback" : "byte stream parser";
    m::midi1_byte_stream_parser p;
    Parse(Recorder& rec, size_t lim, Rng&)
      : p(m::group_t(lim & 15), [&rec](m::universal_packet u) { rec.event(digest(u)); },
          SX ? m::midi1_byte_stream_parser::sysex_callback([&rec](const m::sysex7& s) { rec.event(digest(s)); }) : m::midi1_byte_stream_parser::sysex_callback())
    {
    }
    using item = Bytes;
    void feed(const item& b) { p.feed(b.data(), b.size()); }
    void reset() { p.reset(); }
};

static vector<m::universal_packet> stream_of(Rng& r, const m::universal_packet*)
{
    vector<m::universal_packet> v;
    for (auto k = 1 + r.below(4); k; --k)
    {
        const Bytes d7 = r.bytes7(r.size(40, r.chance(1, 6) ? 20000 : 700)), d8 = r.bytes(r.size(40, r.chance(1, 6) ? 20000 : 700));
        const u32   mf = mfr(r);
        const auto  at = v.size();
        if (r.chance(1, 2)) for (auto& p : m::as_sysex7_packets(m::sysex7(mf, d7.data(), d7.size()), u8(k))) v.push_back(p);
        else for (auto& p : m::as_sysex8_packets(m::sysex8(mf, d8.data(), d8.size()), u8(k * 7), u8(k))) v.push_back(p);
        if (r.chance(1, 4)) v.resize(at + r.below(v.size() - at + 1));
        if (r.chance(1, 6) && v.size() > at) v.erase(v.begin() + long(at + r.below(v.size() - at)));
        if (r.chance(1, 4)) v.push_back(ump(hostile_packet(r)));
    }
    return v;
}
static vector<Bytes> stream_of(Rng& r, const Bytes*)
{
    vector<Bytes> v;
    for (auto k = 1 + r.below(4); k; --k)
    {
        Bytes d;
        if (r.chance(1, 3)) d = r.bytes(r.below(60));
        else { d.push_back(0xF0); put(d, r.bytes7(r.size(60, r.chance(1, 4) ? 20000 : 2500))); if (r.chance(4, 5)) d.push_back(0xF7); }
        // in pieces
        for (size_t p = 0; p < d.size();)
        {
            const size_t n = std::min<size_t>(d.size() - p, 1 + r.size(20, 4000));
            v.emplace_back(d.begin() + long(p), d.begin() + long(p + n));
            p += n;
        }
    }
    return v;
}

//! a new object fed with a stream
template<typename T> static vector<u64> alone(const vector<typename T::item>& s, size_t lim, Rng& r, u64* requests = nullptr)
{
    Recorder rec;
    T        t(rec, lim, r);
    Arm      a(0);
    for (auto& x : s) t.feed(x);
    if (requests) *requests = faults.requests;
    return rec.seen;
}

static const vector<m::universal_packet>& singles(const vector<m::universal_packet>& v) { return v; }
static vector<Bytes> singles(const vector<Bytes>& v)
{
    vector<Bytes> o;
    for (auto& b : v) for (u8 x : b) o.push_back(Bytes{ x });
    return o;
}

//! the receiver goes on after an exception of its callback as if it had returned; a callback may reset the receiver
template<typename T> static void going_on(Rng& r)
{
    using I = typename T::item;
    const auto   A = singles(stream_of(r, static_cast<I*>(nullptr)));
    const size_t lim = r.chance(1, 3) ? 1 + r.size(100, 20000) : 0;
    op(T::name);
    const auto wa = alone<T>(A, lim, r);
    for (u64 k : points(r, wa.size()))
    {
        if (r.chance(1, 2))
        {
            Balance  bal(T::name, k);
            Recorder rec;
            rec.boom = k;
            {
                T   t(rec, lim, r);
                u64 thrown = 0;
                for (auto& x : A)
                    try { t.feed(x); }
                    catch (const Boom&) { ++thrown; }
                if (thrown != 1) fail("exception-lost", "%s: %llu exceptions arrive instead of one", T::name, (unsigned long long)thrown);
            }
            auto want = wa;
            want.erase(want.begin() + long(k - 1));
            if (rec.seen != want)
            {
                size_t i = 0;
                while (i < want.size() && i < rec.seen.size() && want[i] == rec.seen[i]) ++i;
                fail("disturbed-by-exception", "%s: after callback %llu of %zu threw, delivery %zu is not as if it had returned (%zu deliveries, expected %zu)", T::name,
                     (unsigned long long)k, wa.size(), i, rec.seen.size(), want.size());
            }
            VH_COUNT("continued after exceptions");
        }
        else
        {
            Balance  bal(T::name, k);
            Recorder rec;
            size_t   at = 0;
            {
                T t(rec, lim, r);
                rec.resets_at = k;
                size_t i      = 0;
                rec.reset     = [&] { t.reset(); at = i; };
                for (; i < A.size(); ++i) t.feed(A[i]);
                rec.reset = {};
            }
            const vector<I> rest(A.begin() + long(std::min(A.size(), at + 1)), A.end());
            auto            want = alone<T>(rest, lim, r);
            want.insert(want.begin(), wa.begin(), wa.begin() + long(std::min<size_t>(k, wa.size())));
            if (rec.seen != want)
                fail("reset-in-callback", "%s: reset by callback %llu of %zu, then %zu deliveries, a new object fed with the rest makes %zu or others", T::name, (unsigned long long)k, wa.size(),
                     rec.seen.size() - std::min<size_t>(k, rec.seen.size()), want.size() - std::min<size_t>(k, want.size()));
            VH_COUNT("resets in callbacks");
        }
    }
    u64 h = A.size();
    for (auto x : wa) h = mix(h ^ x);
    nontrivial(h);
}

template<typename T> static void receiver(Rng& r)
{
    using I = typename T::item;
    const auto   A = stream_of(r, static_cast<I*>(nullptr)), B = stream_of(r, static_cast<I*>(nullptr));
    const size_t lim = r.chance(1, 3) ? 1 + r.size(100, 20000) : 0;
    op(T::name);
    u64        n = 0;
    const auto wa = alone<T>(A, lim, r, &n), wb = alone<T>(B, lim, r);
    VH_COUNT("histories");
    const u64 calls = wa.size();
    struct Point { u64 alloc, call; };
    vector<Point> ps;
    for (u64 k : points(r, n)) ps.push_back({ k, 0 });
    for (u64 k : points(r, calls)) ps.push_back({ 0, k });
    for (auto pt : ps)
    {
        char what[160];
        std::snprintf(what, sizeof what, "%s, %s %llu fails", T::name, pt.alloc ? "request for memory" : "callback", (unsigned long long)(pt.alloc + pt.call));
        Balance  bal(what, pt.alloc + pt.call);
        Recorder rec;
        rec.boom = pt.call;
        {
            T    t(rec, lim, r);
            bool thrown = false;
            size_t i = 0;
            {
                Arm a(pt.alloc);
                try { for (; i < A.size(); ++i) t.feed(A[i]); }
                catch (const Boom& b) { thrown = pt.call != 0 && b.n == pt.call; Pause p; if (!thrown) fail("exception-changed", "%s: another exception arrives", what); }
                catch (const std::bad_alloc&) { thrown = true; Pause p; if (pt.call) fail("exception-changed", "%s: the callback's exception arrives as bad_alloc", what); }
                catch (...) { Pause p; fail("exception-changed", "%s: an unknown exception arrives", what); }
            }
            if (pt.call)
            {
                if (!thrown) fail("exception-lost", "%s: the exception of the callback does not reach the caller", what);
                VH_COUNT("callbacks thrown");
            }
            else
            {
                if (!thrown && rec.seen != wa) fail("failure-hidden", "%s: no exception, but other messages are delivered", what);
                if (faults.fired) VH_COUNT("requests failed");
                if (thrown) VH_COUNT("failures reported");
            }
            if (rec.seen.size() > wa.size() || !std::equal(rec.seen.begin(), rec.seen.end(), wa.begin()))
                fail("partial-delivery", "%s: something was delivered that the stream does not contain", what);
            rec.boom = 0;
            rec.seen.clear();
            if (r.chance(1, 8)) continue; // destroyed as it is
            if (r.chance(1, 8)) { T u(t); (void)u; } // copied as it is
            t.reset();
            for (auto& x : B) t.feed(x);
            if (rec.seen != wb)
                fail("not-like-new", "%s: after a reset %zu instead of %zu messages or other messages are delivered than by a new object", what, rec.seen.size(), wb.size());
            VH_COUNT("recoveries compared");
        }
    }
    u64 h = n;
    for (auto x : wa) h = mix(h ^ x);
    for (auto x : wb) h = mix(h ^ x);
    nontrivial(h);
}

//! senders that give up
static void senders(Rng& r)
{
    const Bytes d = r.bytes7(r.size(60, 3000));
    const u32   mf = mfr(r);
    const m::sysex7 s7(mf, d.data(), d.size());
    const m::sysex8 s8(mf, d.data(), d.size());
    const string nm = word(r, 1 + r.below(90));
    const auto kind = r.below(5);
    static const char* const names[] = { "send_sysex7", "send_sysex8", "send_endpoint_name", "send_product_instance_id", "send_function_block_name" };
    op(names[kind]);
    auto send = [&](Recorder& rec) {
        auto f = [&rec](const m::universal_packet& p) { rec.event(digest(p)); };
        switch (kind)
        {
        case 0: m::send_sysex7(s7, 5, f); break;
        case 1: m::send_sysex8(s8, 77, 5, f); break;
        case 2: m::send_endpoint_name(nm, f); break;
        case 3: m::send_product_instance_id(std::string_view(nm).substr(0, 16), f); break;
        default: m::send_function_block_name(3, nm, f);
        }
    };
    Recorder all;
    send(all);
    for (u64 k : points(r, all.seen.size()))
    {
        Balance  bal(names[kind], k);
        Recorder rec;
        rec.boom = k;
        bool thrown = false;
        try { send(rec); }
        catch (const Boom& b) { thrown = b.n == k; }
        catch (...) {}
        if (!thrown) fail("exception-lost", "%s: the exception of the sender at packet %llu does not reach the caller", names[kind], (unsigned long long)k);
        if (rec.calls != k) fail("sends-after-failure", "%s: %llu packets are sent, the sender gave up at packet %llu", names[kind], (unsigned long long)rec.calls, (unsigned long long)k);
        if (!std::equal(rec.seen.begin(), rec.seen.end(), all.seen.begin())) fail("partial-delivery", "%s: other packets than in an undisturbed run", names[kind]);
        VH_COUNT("senders thrown");
    }
    if (digest(s7) != digest(m::sysex7(mf, d.data(), d.size()))) fail("inputs-changed", "%s", names[kind]);
    nontrivial(hash_bytes(d.data(), d.size(), digest(nm)) + kind);
}

static void body()
{
    for (auto k : { "operations", "edits", "histories", "requests failed", "failures reported", "callbacks thrown", "recoveries compared", "senders thrown", "continued after exceptions", "resets in callbacks" }) counter(k);
    section("messages", 4000, [](Rng& r, u64) { messages(r); });
    section("edits", 3000, [](Rng& r, u64) { edits(r); });
    section("sysex7 collector", 500, [](Rng& r, u64) { receiver<Collect7>(r); });
    section("sysex8 collector", 500, [](Rng& r, u64) { receiver<Collect8>(r); });
    section("parser with sysex callback", 500, [](Rng& r, u64) { receiver<Parse<true>>(r); });
    section("parser", 300, [](Rng& r, u64) { receiver<Parse<false>>(r); });
    section("sysex7 collector goes on", 500, [](Rng& r, u64) { going_on<Collect7>(r); });
    section("sysex8 collector goes on", 500, [](Rng& r, u64) { going_on<Collect8>(r); });
    section("parser with sysex callback goes on", 300, [](Rng& r, u64) { going_on<Parse<true>>(r); });
    section("parser goes on", 300, [](Rng& r, u64) { going_on<Parse<false>>(r); });
    section("senders", 1000, [](Rng& r, u64) { senders(r); });
}
void vh_main() { mem_main(body); }
