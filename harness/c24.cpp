// C24: distinct objects in different threads, shared messages and packets read concurrently.
// Compiled with VH_THREADS: monitors record per thread. ThreadSanitizer watches the library; results are compared with a sequential run.
#include "ci_views.h"
#include "pk_read.h"
#include "vtime.h"
#include <memory>
#include <midi/jitter_reduction_timestamps.h>
#include <midi/sysex_collector.h>
#include <sched.h>
#include <sstream>
#include <thread>
using namespace ci_ref;
using pk_read::Sink;
namespace m = midi;

static std::atomic<u64> ticket{ 0 }; // relaxed: orders nothing, only records the interleaving

struct Task
{
    Rng         r{ 0 };
    u64         h = 0;
    vector<u64> tickets;
    bool        concurrent = false;
    void n(u64 v) { h = mix(h ^ v); }
    void bytes(const void* p, size_t k) { h = hash_bytes(p, k, h); }
    void step()
    {
        if (!concurrent) return;
        tickets.push_back(ticket.fetch_add(1, std::memory_order_relaxed));
    }
};
struct Shared
{
    vector<m::sysex7>           sx;
    vector<Bytes>               raw_sx;
    vector<m::universal_packet> pk;
    vector<m::sysex8>           sx8;
};

static void t_parser(Task& t)
{
    m::midi1_byte_stream_parser::sysex_callback sc;
    if (t.r.chance(1, 2)) sc = [&](const m::sysex7& s) { t.n(s.manufacturerID); t.bytes(s.data.data(), s.data.size()); };
    m::midi1_byte_stream_parser ps(u8(t.r.below(16)), [&](m::universal_packet u) { t.bytes(u.data, 16); }, sc);
    for (auto k = 3 + t.r.below(8); k; --k)
    {
        Bytes d = t.r.bytes(t.r.below(80));
        if (t.r.chance(1, 2)) { d.push_back(0xF0); put(d, t.r.bytes7(t.r.size(30, 3000))); d.push_back(0xF7); }
        t.step();
        ps.feed(d.data(), d.size());
        if (t.r.chance(1, 10)) ps.reset();
    }
    VH_COUNT("parser tasks");
}
static void t_collectors(Task& t)
{
    m::sysex7_collector c7([&](const m::sysex7& s) { t.n(s.manufacturerID); t.bytes(s.data.data(), s.data.size()); });
    m::sysex8_collector c8([&](const m::sysex8& s, u8 id) { t.n(s.manufacturerID + id); t.bytes(s.data.data(), s.data.size()); });
    for (auto k = 2 + t.r.below(5); k; --k)
    {
        const Bytes a = t.r.bytes7(t.r.size(40, 2000)), b = t.r.bytes(t.r.size(40, 2000));
        m::sysex7   s7(mfr(t.r), a.data(), a.size());
        m::sysex8   s8(mfr(t.r), b.data(), b.size());
        for (auto& p : m::as_sysex7_packets(s7, 1)) { t.bytes(p.data, 8); c7.feed(p); }
        t.step();
        m::send_sysex8(s8, 7, 2, [&](const auto& p) { t.bytes(p.data, 16); c8.feed(p); });
        for (int i = 0; i < 6; ++i) { const auto u = ump(hostile_packet(t.r)); c7.feed(u); c8.feed(u); }
        t.step();
    }
    VH_COUNT("collector tasks");
}
static void t_follower(Task& t)
{
    m::jr_clock_follower f;
    using tp = m::jr_clock_follower::time_point;
    using dur = m::jr_clock_follower::duration;
    long long base = 4000000000000000000ll, tick = (long long)t.r.below(65536);
    for (auto k = 20 + t.r.below(40); k; --k)
    {
        tick += (long long)t.r.below(9000);
        const long long rec = base + tick * 32000 + (long long)t.r.below(4000000);
        const m::jr_timestamp_t ts{ u16(tick & 0xFFFF) };
        if (t.r.chance(1, 2)) f.process_clock(tp(dur(rec)), ts);
        else t.n(u64(f.schedule_message(tp(dur(rec)), ts).time_since_epoch().count()));
        t.n(u64(f.jitter().count())); t.n(u64(f.security_offset().count()));
        if (t.r.chance(1, 30)) { f.reset(); base += 10000000000ll; }
        if (t.r.chance(1, 4)) t.step();
    }
    VH_COUNT("follower tasks");
}
//! each thread has its own virtual time: what the clock returns elsewhere must not matter
static void t_clock(Task& t)
{
    vtime::on = true;
    long long now = 1000000000000000ll + (long long)t.r.below(1000000000000ull);
    vtime::ns = now;
    u16       a = m::jr_clock::now().value;
    for (auto k = 20 + t.r.below(60); k; --k)
    {
        const long long d = (long long)t.r.below(t.r.chance(1, 2) ? 200000 : 2000000000);
        now += d;
        vtime::ns = now;
        const u16 b = m::jr_clock::now().value;
        const u16 diff = u16(b - a), exp = u16(d / 32000);
        if (diff != exp && diff != u16(exp + 1) && u16(diff + 1) != exp)
            t.n(diff); // wrong; the sequential run decides whether because of concurrency
        a = b;
        if (t.r.chance(1, 4)) t.step();
        VH_COUNT("clock readings");
    }
    vtime::on = false;
}
static void t_messages(Task& t)
{
    namespace c = midi::ci;
    namespace pe = midi::ci::property_exchange;
    const u32   a = t.r.w() & 0xFFFFFFF, b = t.r.w() & 0xFFFFFFF;
    auto see = [&](const m::sysex7& s) { t.n(s.manufacturerID); t.bytes(s.data.data(), s.data.size()); t.step(); };
    const Bytes d = t.r.bytes7(t.r.size(40, 3000));
    see(c::make_discovery_inquiry(a, m::device_identity{ mfr(t.r), 5, 6, 7 }, 0x0C, 512));
    see(c::make_profile_specific_data_message(a, b, c::profile_id{ 1, 2, 3, 4, 5 }, d, 9));
    const string v = std::to_string(t.r.below(100000)), w = "x" + v;
    pe::header_options o{ { "offset", v }, { "limit", w }, { "resId", v } };
    see(c::make_get_property_data_inquiry(a, b, w, o, 3));
    see(c::make_set_property_data_inquiry(a, b, w, 1, 1, pe::chunk{ d.data(), d.size() }, 3));
    see(c::make_profile_inquiry_reply(a, b, { c::profile_id{ 1, 2, 3, 4, 5 } }, {}, 3));
    see(m::universal_sysex::make_identity_reply(m::device_identity{ mfr(t.r), 5, 6, 7 }));
    string name;
    for (auto k = t.r.below(80); k; --k) name += char('a' + t.r.below(26));
    m::send_endpoint_name(name, [&](const auto& p) { t.bytes(p.data, 16); });
    t.step();
    for (int k = 0; k < 20; ++k)
    {
        const auto u = ump(hostile_packet(t.r));
        std::ostringstream os;
        os << u;
        t.n(hash_str(os.str()));
        std::istringstream is(os.str());
        m::universal_packet back;
        is >> back;
        t.n(back == u);
        Sink k1;
        pk_read::read_packet(u, k1);
        t.n(k1.h);
        if (k % 4 == 0) t.step();
    }
    VH_COUNT("message tasks");
}
static void t_shared(Task& t, const Shared& sh)
{
    for (auto k = 6 + t.r.below(10); k; --k)
    {
        const size_t i = t.r.below(sh.sx.size()), j = t.r.below(sh.pk.size()), q = t.r.below(sh.sx8.size());
        t.step();
        t.n(probe_all(sh.sx[i], sh.raw_sx[i], 0x7E0000, false));
        m::sysex7 copy(sh.sx[i]);
        t.n(copy == sh.sx[i]);
        t.n(sh.sx[i].total_data_size() + sh.sx[i].is_7bit() + sh.sx[i].is_valid());
        for (auto& p : m::as_sysex7_packets(sh.sx[i])) t.bytes(p.data, 8);
        Sink k1;
        pk_read::read_packet(sh.pk[j], k1);
        t.n(k1.h);
        t.n(sh.pk[j] == sh.pk[t.r.below(sh.pk.size())]);
        for (auto& p : m::as_sysex8_packets(sh.sx8[q], 1, 2)) t.bytes(p.data, 16);
        t.n(sh.sx8[q].is_8bit());
        VH_COUNT("shared objects read");
    }
}

static void task(Task& t, const Shared& sh, u64 kind)
{
    switch (kind)
    {
    case 0: t_parser(t); break;
    case 1: t_collectors(t); break;
    case 2: t_follower(t); break;
    case 3: t_clock(t); break;
    case 4: t_messages(t); break;
    default: t_shared(t, sh);
    }
}

// ---- objects used alternately, by one thread or handed from thread to thread ----
struct Object
{
    Rng r;
    u64 h = 0;
    explicit Object(u64 seed) : r(seed) {}
    virtual ~Object() = default;
    virtual void step() = 0;
    void n(u64 v) { h = mix(h ^ v); }
    void bytes(const void* p, size_t k) { h = hash_bytes(p, k, h); }
    Object(const Object&) = delete;
};
struct ParserObject : Object
{
    Bytes                       d;
    size_t                      pos = 0;
    m::midi1_byte_stream_parser p;
    static m::midi1_byte_stream_parser make(ParserObject* o, bool cb)
    {
        m::midi1_byte_stream_parser::sysex_callback sc;
        if (cb) sc = [o](const m::sysex7& s) { o->n(s.manufacturerID); o->bytes(s.data.data(), s.data.size()); };
        return m::midi1_byte_stream_parser(u8(o->r.below(16)), [o](m::universal_packet u) { o->bytes(u.data, 16); }, sc);
    }
    ParserObject(u64 seed, bool cb) : Object(seed), p(make(this, cb)) {}
    void step() override
    {
        if (pos == d.size())
        {
            pos = 0;
            d   = r.bytes7(r.below(6));
            if (r.chance(1, 2)) { d.push_back(u8(r.range(0x80, 0xEF))); put(d, r.bytes7(r.below(7))); }
            else { d.push_back(0xF0); put(d, r.bytes7(r.size(20, 300))); if (r.chance(4, 5)) d.push_back(0xF7); }
        }
        const size_t k = std::min<size_t>(d.size() - pos, r.range(1, 9));
        p.feed(d.data() + pos, k);
        pos += k;
        if (r.chance(1, 60)) p.reset();
    }
};
struct Collector7Object : Object
{
    vector<m::data_message> q;
    size_t                  pos = 0;
    m::sysex7_collector     c{ [this](const m::sysex7& s) { n(s.manufacturerID); bytes(s.data.data(), s.data.size()); } };
    using Object::Object;
    void step() override
    {
        if (pos == q.size())
        {
            const Bytes a = r.bytes7(r.size(20, 200));
            pos = 0;
            q.clear();
            m::send_sysex7(m::sysex7(mfr(r), a.data(), a.size()), u8(r.below(16)), [&](const m::data_message& p) { q.push_back(p); });
            if (r.chance(1, 6)) q.pop_back();
            if (r.chance(1, 6)) c.set_max_sysex_data_size(r.below(100));
            if (r.chance(1, 6)) c.reset();
        }
        if (pos < q.size()) { bytes(q[pos].data, 8); c.feed(q[pos++]); }
    }
};
struct Collector8Object : Object
{
    vector<m::extended_data_message> q;
    size_t                           pos = 0;
    m::sysex8_collector              c{ [this](const m::sysex8& s, u8 id) { n(s.manufacturerID + id); bytes(s.data.data(), s.data.size()); } };
    using Object::Object;
    void step() override
    {
        if (pos == q.size())
        {
            const Bytes a = r.bytes(r.size(40, 400));
            pos = 0;
            q.clear();
            m::send_sysex8(m::sysex8(mfr(r), a.data(), a.size()), r.b(), u8(r.below(16)), [&](const m::extended_data_message& p) { q.push_back(p); });
            if (r.chance(1, 6)) q.pop_back();
            if (r.chance(1, 6)) c.set_max_sysex_data_size(r.below(200));
            if (r.chance(1, 6)) c.reset();
        }
        if (pos < q.size()) { bytes(q[pos].data, 16); c.feed(q[pos++]); }
    }
};
struct FollowerObject : Object
{
    m::jr_clock_follower f;
    long long            base = 4000000000000000000ll, t = 0;
    using Object::Object;
    void step() override
    {
        using tp = m::jr_clock_follower::time_point;
        using dur = m::jr_clock_follower::duration;
        t += (long long)r.below(9000);
        const long long rec = base + t * 32000 + (long long)r.below(4000000);
        const m::jr_timestamp_t ts{ u16(t & 0xFFFF) };
        if (r.chance(1, 2)) f.process_clock(tp(dur(rec)), ts);
        else n(u64(f.schedule_message(tp(dur(rec)), ts).time_since_epoch().count()));
        n(u64(f.jitter().count()));
        n(u64(f.security_offset().count()));
        if (r.chance(1, 40)) { f.reset(); base += 10000000000ll; }
    }
};
struct MessageObject : Object
{
    m::sysex7 s{ 0x7E0000 };
    using Object::Object;
    void step() override
    {
        namespace c = midi::ci;
        switch (r.below(9))
        {
        case 0: s.add_uint7(r.b7()); break;
        case 1: s.add_uint14(u16(r.w() & 0x3FFF)); break;
        case 2: s.add_uint28(r.w() & 0xFFFFFFF); break;
        case 3: s.add_uint32(r.w()); break;
        case 4: s.add_device_identity({ mfr(r), 1, 2, r.w() & 0xFFFFFFF }); break;
        case 5: { const Bytes a = r.bytes7(r.range(1, 40)); s.add_data(a.data(), a.size()); break; }
        case 6: if (r.chance(1, 4)) { s.clear(); s.manufacturerID = mfr(r); } break;
        case 7: s = c::make_get_property_data_inquiry(r.w() & 0xFFFFFFF, 5, "res" + std::to_string(r.below(1000)), {}, 3); break;
        case 8: { m::sysex7 o(s); s = std::move(o); break; }
        }
        n(s.manufacturerID + s.total_data_size() + s.is_7bit() * 7);
        bytes(s.data.data(), s.data.size());
    }
};
static std::unique_ptr<Object> object(u64 kind, u64 seed)
{
    switch (kind)
    {
    case 0: return std::make_unique<ParserObject>(seed, false);
    case 1: return std::make_unique<ParserObject>(seed, true);
    case 2: return std::make_unique<Collector7Object>(seed);
    case 3: return std::make_unique<Collector8Object>(seed);
    case 4: return std::make_unique<FollowerObject>(seed);
    default: return std::make_unique<MessageObject>(seed);
    }
}
static void alternate(Rng& r, bool hand_over)
{
    const unsigned K = unsigned(2 + r.below(4)), steps = unsigned(r.range(5, 120));
    const u64      kind = r.below(6), seed = r.next();
    const bool     same = r.chance(2, 3);
    auto           kind_of = [&](unsigned i) { return same ? kind : (kind + i) % 6; };
    vector<u64>    alone(K), mixed(K);
    // alone: every object in a thread of its own, one after the other
    for (unsigned i = 0; i < K; ++i)
        std::thread([&] {
            auto o = object(kind_of(i), mix(seed ^ i));
            for (unsigned k = 0; k < steps; ++k) o->step();
            alone[i] = o->h;
        }).join();
    // the same steps, alternating between the objects
    vector<unsigned> order;
    for (unsigned i = 0; i < K; ++i) order.insert(order.end(), steps, i);
    for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
    vector<std::unique_ptr<Object>> os;
    for (unsigned i = 0; i < K; ++i) os.push_back(object(kind_of(i), mix(seed ^ i)));
    if (hand_over)
    {
        // a thread works on for a while, then another one goes on (synchronised by join)
        for (size_t b = 0; b < order.size();)
        {
            const size_t e = std::min(order.size(), b + size_t(r.range(1, 40)));
            std::thread([&] { for (size_t k = b; k < e; ++k) os[order[k]]->step(); }).join();
            b = e;
            VH_COUNT("hand-overs");
        }
    }
    else
        for (unsigned i : order) os[i]->step();
    for (unsigned i = 0; i < K; ++i)
    {
        mixed[i] = os[i]->h;
        if (alone[i] != mixed[i])
            fail("hidden-shared-state", "object %u of %u (kind %llu): results differ when used alternately with other objects%s", i, K, (unsigned long long)kind_of(i), hand_over ? " and handed between threads" : "");
        VH_COUNT("alternating objects compared");
    }
    VH_ADD("alternating steps", order.size());
    nontrivial(mix(seed ^ K ^ steps << 8));
}

// ---- copies of an object are objects of their own ----
template<typename T, typename Make, typename Step> static void copies(Rng& r, const char* what, Make&& make, Step&& step)
{
    if constexpr (std::is_copy_constructible_v<T>)
    {
        const u64      seed = r.next();
        const unsigned n0 = unsigned(r.below(40)), n1 = unsigned(r.range(1, 40));
        // alone: prefix and suffix 1 or 2 on an object of its own
        u64 alone[2] = { 0, 0 }, h[2] = { 0, 0 };
        for (u64 k = 0; k < 2; ++k)
        {
            u64* sink = nullptr;
            T    o    = make(&sink);
            u64  dummy = 0;
            sink = &dummy;
            Rng p(seed), q(mix(seed ^ (k + 1)));
            for (unsigned i = 0; i < n0; ++i) step(o, p, *sink);
            sink = &alone[k];
            for (unsigned i = 0; i < n1; ++i) step(o, q, *sink);
        }
        u64* sink = nullptr;
        u64  dummy = 0;
        auto a = std::make_unique<T>(make(&sink));
        sink = &dummy;
        Rng p(seed), q1(mix(seed ^ 1)), q2(mix(seed ^ 2));
        for (unsigned i = 0; i < n0; ++i) step(*a, p, *sink);
        auto b = std::make_unique<T>(*a);
        for (unsigned i = 0, j = 0; i < n1 || j < n1;)
        {
            if (j == n1 || (i < n1 && r.chance(1, 2))) { sink = &h[0]; step(*a, q1, h[0]); if (++i == n1 && r.chance(1, 2)) a.reset(); }
            else { sink = &h[1]; step(*b, q2, h[1]); ++j; }
        }
        for (int k = 0; k < 2; ++k)
            if (h[k] != alone[k]) fail("hidden-shared-state", "%s: %s and its copy do not behave like independent objects", what, k ? "a copy" : "an original");
        VH_COUNT("copies compared");
        nontrivial(mix(seed ^ n0 << 8 ^ n1));
    }
}
static void copy_case(Rng& r)
{
    auto hash_sx = [](const auto& s, u64& h) { h = mix(hash_bytes(s.data.data(), s.data.size(), h ^ s.manufacturerID)); };
    switch (r.below(5))
    {
    case 0: case 1:
    {
        const bool cb = r.chance(1, 2);
        copies<m::midi1_byte_stream_parser>(r, "parser",
            [&](u64** sink) {
                m::midi1_byte_stream_parser::sysex_callback sc;
                if (cb) sc = [=](const m::sysex7& s) { hash_sx(s, **sink); };
                return m::midi1_byte_stream_parser(3, [sink](m::universal_packet u) { **sink = hash_bytes(u.data, 16, **sink); }, sc);
            },
            [](m::midi1_byte_stream_parser& p, Rng& q, u64&) {
                Bytes d;
                for (auto k = q.below(6); k--;) d.push_back(u8(q.chance(1, 5) ? q.pick({ 0xF0, 0xF0, 0xF7, 0xF7, 0x90, 0xC1, 0xF2, 0xF8 }) : q.b7()));
                if (!d.empty()) p.feed(d.data(), d.size());
            });
        break;
    }
    case 2:
        copies<m::sysex7_collector>(r, "sysex7 collector", [&](u64** sink) { return m::sysex7_collector([=](const m::sysex7& s) { hash_sx(s, **sink); }); },
            [](m::sysex7_collector& c, Rng& q, u64&) {
                Pk p = hostile_packet(q);
                for (int i = 2; i < 8; ++i) p.set(unsigned(i), p.byte(unsigned(i)) & 0x7F);
                p.set(0, 0x31);
                p.set(1, u8(q.pick({ 0, 1, 2, 2, 2, 3 }) << 4 | q.below(7)));
                c.feed(ump(p));
            });
        break;
    case 3:
        copies<m::sysex8_collector>(r, "sysex8 collector", [&](u64** sink) { return m::sysex8_collector([=](const m::sysex8& s, u8 id) { **sink ^= id; hash_sx(s, **sink); }); },
            [](m::sysex8_collector& c, Rng& q, u64&) {
                Pk p = hostile_packet(q);
                p.set(0, 0x51);
                p.set(1, u8(q.pick({ 0, 1, 2, 2, 2, 3 }) << 4 | q.range(1, 14)));
                p.set(2, u8(q.below(2)));
                c.feed(ump(p));
            });
        break;
    default:
        copies<m::sysex7>(r, "message", [&](u64**) { return m::sysex7(0x7E0000); },
            [&](m::sysex7& s, Rng& q, u64& h) {
                if (q.chance(1, 30)) s.clear();
                else s.add_uint28(q.w() & 0xFFFFFFF);
                if (!s.data.empty() && q.chance(1, 8)) s.data[q.below(s.data.size())] = q.b7();
                hash_sx(s, h);
            });
    }
}

void vh_main()
{
    section("copies of objects", 300, [](Rng& r, u64) { copy_case(r); });
    section("objects used alternately", 150, [](Rng& r, u64) { alternate(r, false); });
    section("objects handed between threads", 60, [](Rng& r, u64) { alternate(r, true); });
    section("concurrent tasks", 120, [](Rng& r, u64) {
        const unsigned T = unsigned(2 + r.below(5));
        Shared         sh;
        for (int i = 0; i < 6; ++i)
        {
            sh.raw_sx.push_back(generate(r, subtype(r), version(r)));
            if (sh.raw_sx.back().size() > 3000) sh.raw_sx.back().resize(3000);
            sh.sx.emplace_back(0x7E0000, sh.raw_sx.back().data(), sh.raw_sx.back().size());
            const Bytes b = r.bytes(r.below(300));
            sh.sx8.emplace_back(mfr(r), b.data(), b.size());
        }
        for (int i = 0; i < 20; ++i) sh.pk.push_back(ump(hostile_packet(r)));
        // all threads of the first half of the cases do the same kind of work, the others mix
        const u64 seed = r.next(), mode = r.below(2), kind = r.below(6), rounds = 1 + r.below(4);
        auto work = [&](unsigned th, Task& t) {
            for (u64 k = 0; k < rounds; ++k)
            {
                t.r = Rng(mix(seed ^ (th * 1000 + k)));
                task(t, sh, mode == 0 ? kind : (th + k + seed) % 6);
            }
        };
        vector<Task> con(T), seq(T);
        ticket.store(0);
        run_in_threads(T, [&](unsigned th) {
            con[th].concurrent = true;
            work(th, con[th]);
        });
        // afterwards, so that nothing was initialised by a sequential run
        for (unsigned th = 0; th < T; ++th)
        {
            work(th, seq[th]);
            if (seq[th].h != con[th].h) fail("result-in-thread", "thread %u of %u (mode %llu kind %llu): results differ from the sequential run", th, T, (unsigned long long)mode, (unsigned long long)kind);
            VH_COUNT("thread results compared");
        }
        // the interleaving that was observed
        vector<std::pair<u64, unsigned>> order;
        for (unsigned th = 0; th < T; ++th) for (u64 k : con[th].tickets) order.push_back({ k, th });
        std::sort(order.begin(), order.end());
        u64 h = T, switches = 0;
        for (size_t i = 0; i < order.size(); ++i)
        {
            h = mix(h ^ order[i].second);
            switches += i && order[i].second != order[i - 1].second;
        }
        VH_ADD("operations recorded", order.size());
        VH_ADD("switches between threads", switches);
        nontrivial(h);
        if (want_sample()) sample(std::to_string(T) + " threads, " + std::to_string(order.size()) + " operations, " + std::to_string(switches) + " switches");
    });
}
