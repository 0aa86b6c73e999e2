// C19: jitter reduction ticks, timestamps and clock are exact
#include "ref.h"
#include "vtime.h"
#include <chrono>
#include <midi/jitter_reduction_timestamps.h>
#include <midi/utility_message.h>
using namespace ref;
namespace m = midi;
using namespace std::chrono;

static void diff(u32 a, u32 b)
{
    const m::jr_timestamp_t x{ u16(a) }, y{ u16(b) };
    const auto     d = x - y;
    const long long e = (long long)((a - b) & 0xFFFF);
    auto c = [&] { return show(a) + " - " + show(b); };
    if (d.count() != e) fail("difference", "%s = %lld ticks, expected %lld", c().c_str(), (long long)d.count(), e);
    if (duration_cast<nanoseconds>(d).count() != e * 32000) fail("nanoseconds", "%s", c().c_str());
    if (duration_cast<microseconds>(d).count() != e * 32) fail("microseconds", "%s", c().c_str());
    if (duration_cast<milliseconds>(d).count() != e * 32 / 1000) fail("milliseconds", "%s", c().c_str());
    if ((x == y) != (a == b) || (x != y) != (a != b)) fail("timestamp-equality", "%s", c().c_str());
    if (x.value != a || y.value != b) fail("timestamp-value", "%s", c().c_str());
    VH_COUNT("differences compared");
    if (a < b) VH_COUNT("differences across wrap-around");
    nontrivial((u64(a) << 16 | b) + 1);
}

static void messages(u32 a, u32 b, Rng& r)
{
    for (int k = 0; k < 2; ++k)
    {
        const u32 st = k ? 0x00200000u : 0x00100000u;
        auto check = [&](auto msg, const char* what) {
            Pk e;
            e.w[0] = st | a;
            const string c = string(what) + " " + show(a);
            VH_EQ("message", raw(msg), e, c);
            VH_EQ("message-timestamp", unsigned(msg.timestamp().value), a, c);
            const m::universal_packet u = msg;
            VH_TRUE("message-utility", u.is_utility_message() && u.size() == 1, c);
            m::utility_message_view v(u);
            VH_EQ("message-status", unsigned(v.status()), unsigned(st >> 16), c);
            VH_EQ("message-payload", unsigned(v.payload()), a, c);
            // other bits of the packet survive set_timestamp
            for (int i = 1; i < 4; ++i) msg.data[i] = e.w[i] = r.iw();
            msg.set_timestamp(m::jr_timestamp_t{ u16(b) });
            e.w[0] = st | b;
            VH_EQ("set-timestamp", raw(msg), e, c + " set to " + show(b));
            VH_EQ("set-timestamp-read", unsigned(msg.timestamp().value), b, c + " set to " + show(b));
            VH_COUNT("messages compared");
        };
        if (k) check(m::jr_timestamp_message{ m::jr_timestamp_t{ u16(a) } }, "timestamp message");
        else check(m::jr_clock_message{ m::jr_timestamp_t{ u16(a) } }, "clock message");
    }
    if (a == 0)
    {
        VH_EQ("default-clock", raw(m::jr_clock_message{}).w[0], 0x00100000u);
        VH_EQ("default-timestamp", raw(m::jr_timestamp_message{}).w[0], 0x00200000u);
        VH_EQ("default-value", unsigned(m::jr_timestamp_t{}.value), 0u);
    }
}

// Monitor of the clock: all readings have to be explained by one tick origin z: ts = floor((t - z) / 32us) mod 65536.
// lo < z <= hi (mod 65536 ticks) is the interval of origins still possible.
struct ClockMonitor
{
    static constexpr long long tick = 32000, wrap = 65536ll * 32000;
    bool      first = true;
    long long lo = 0, hi = 0;
    long long t0 = 0;
    void      observe(long long t, unsigned ts)
    {
        if (first)
        {
            first = false;
            t0 = t;
            hi = t - (long long)ts * tick;
            lo = hi - tick;
            return;
        }
        const long long mid = hi;
        long long       n   = (t - mid) / tick; // unwrapped tick count, close
        long long       k   = (n - (long long)ts) % 65536;
        if (k < 0) k += 65536;
        n -= k > 32768 ? k - 65536 : k; // nearest n with the observed low 16 bits
        const long long nh = t - n * tick, nl = nh - tick;
        const long long l2 = std::max(lo, nl), h2 = std::min(hi, nh);
        if (l2 >= h2)
            fail("clock-drift", "the clock reads %u (tick %lld) at %lld ns after the first reading; origins (%lld,%lld] and (%lld,%lld] relative to the first reading exclude each other", ts, n, t - t0,
                 lo - t0, hi - t0, nl - t0, nh - t0);
        lo = l2;
        hi = h2;
        VH_COUNT("clock readings");
        if (n > 65536) VH_COUNT("clock readings after wrap-around");
        if (t - t0 > 86400ll * 1000000000) VH_COUNT("clock readings after more than a day");
    }
};

void vh_main()
{
    section("all differences from anchors", 65536, [](Rng& r, u64 i) {
        for (u32 a : { 0u, 1u, 0x7FFFu, 0x8000u, 0x8001u, 0xFFFFu, u32(r.below(65536)), u32(r.below(65536)) })
        {
            diff(a, u32(i));
            diff(u32(i), a);
        }
        for (int k = -3; k < 4; ++k) diff(u32(i), (u32(i) + u32(k)) & 0xFFFF);
    }, false);
    section("random differences", 20000, [](Rng& r, u64) {
        for (int i = 0; i < 10; ++i) diff(u32(r.below(65536)), u32(r.below(65536)));
    });
    section("all messages", 65536, [](Rng& r, u64 i) { messages(u32(i), u32(r.below(65536)), r); }, false);

    // the clock under virtual time; one history per process and shard
    vtime::ns = 1700000000123456789ll + (long long)(S().seed % 100000);
    vtime::on = true;
    ClockMonitor mon;
    long long before = vtime::reads;
    op("jr_clock::now");
    mon.observe(vtime::ns, m::jr_clock::now().value);
    if (vtime::reads == before) { std::printf("virtual time is not in effect\n"); std::fflush(stdout); ::_exit(3); }
    section("clock", 60000, [&](Rng& r, u64 i) {
        long long step;
        switch (r.below(12))
        {
        case 0: step = 0; break;
        case 1: step = 1; break;
        case 2: step = 31999 + (long long)r.below(3); break;
        case 3: step = (long long)r.below(64000); break;
        case 4: step = (long long)r.below(1000000); break;
        case 5: step = 32000ll * 65535 + (long long)r.below(64000); break;
        case 6: step = 32000ll * (long long)r.below(70000); break;
        case 7: step = (long long)r.below(3600) * 1000000000 + (long long)r.below(1000000000); break;
        case 8: step = r.chance(1, 20) ? (long long)r.below(86400) * 1000000000 : 7; break;
        default: step = (long long)r.below(40000);
        }
        // stay far away from the range of the system clock
        if (vtime::ns > 6000000000000000000ll) step = (long long)r.below(40000);
        vtime::ns += step;
        const long long t = vtime::ns;
        op("jr_clock::now");
        const auto v = m::jr_clock::now().value;
        mon.observe(t, v);
        nontrivial(mix(u64(t)) + 3);
        if (want_sample() && i > 5000) sample("virtual time +" + std::to_string(t - mon.t0) + " ns -> timestamp " + std::to_string(v));
    });
    vtime::on = false;
    if (mon.hi - mon.lo < 200) VH_COUNT("clock histories pinning the origin below 200 ns");
}
