// C20: the clock follower schedules events in sender order, late enough
#include "ref.h"
#include "vtime.h"
#include <chrono>
#include <memory>
#include <midi/jitter_reduction_timestamps.h>
using namespace ref;
namespace m = midi;
using Follower = m::jr_clock_follower;
using tp = Follower::time_point;
using dur = Follower::duration;
static_assert(std::is_same_v<dur, std::chrono::nanoseconds>, "the monitor counts nanoseconds");
using ll = long long;

static tp at(ll ns) { return tp(dur(ns)); }

struct Ev
{
    int  kind; // 0 clock, 1 message, 2 reset, 3 set offset
    ll   tick; // sender time
    ll   recv; // reception time, ns
};
static string show_ev(const Ev& e)
{
    return (e.kind == 0 ? "clock" : e.kind == 1 ? "message" : e.kind == 2 ? "reset" : "offset") + string("(tick ") + std::to_string(e.tick) + ", received +" + std::to_string(e.recv) + " ns)";
}

// the oracle: what the sender and the transport really did
struct Monitor
{
    bool any = false;
    ll   dmin = 0, dmax = 0, last_sched = 0, offset_floor = 2000000;
    bool sched = false, custom = false;
    bool constant = true;
    ll   first_tick = 0, first_sched = 0; // constant delay spacing
    bool spacing = false;
};

struct Run
{
    std::unique_ptr<Follower> f;
    Monitor                   mo;
    ll                        base;
    vector<Ev>                log;
    string ctx() const
    {
        string s;
        size_t b = log.size() > 24 ? log.size() - 24 : 0;
        if (b) s = "...";
        for (size_t i = b; i < log.size(); ++i) s += show_ev(log[i]) + " ";
        return s + " dmin=" + std::to_string(mo.dmin) + " dmax=" + std::to_string(mo.dmax);
    }
    void stats()
    {
        const ll j = f->jitter().count(), o = f->security_offset().count();
        const ll spread = mo.any ? mo.dmax - mo.dmin : 0;
        VH_EQ("jitter", j, spread, ctx());
        // 120% in whole nanoseconds: rounding either way is fine
        if (!mo.custom) VH_TRUE("security-offset", std::llabs(o - std::max(2000000ll, spread * 12 / 10)) <= 1, ctx() + " offset " + std::to_string(o));
        VH_COUNT("jitter and offset readings");
    }
    void step(const Ev& e)
    {
        log.push_back(e);
        const m::jr_timestamp_t ts{ u16(e.tick & 0xFFFF) };
        switch (e.kind)
        {
        case 0:
        {
            op("process_clock");
            f->process_clock(at(base + e.recv), ts);
            const ll d = e.recv - e.tick * 32000;
            if (!mo.any) { mo.dmin = mo.dmax = d; mo.any = true; mo.spacing = false; }
            else
            {
                if (d != mo.dmin || d != mo.dmax) mo.constant = false;
                mo.dmin = std::min(mo.dmin, d);
                mo.dmax = std::max(mo.dmax, d);
            }
            VH_COUNT("clock messages");
            stats();
            break;
        }
        case 1:
        {
            op("schedule_message");
            const ll s   = (f->schedule_message(at(base + e.recv), ts)).time_since_epoch().count() - base;
            const ll off = f->security_offset().count();
            if (!mo.any)
                VH_EQ("before-first-clock", s, e.recv + off, ctx());
            else
            {
                const ll send = e.tick * 32000;
                VH_TRUE("not-too-early", s >= send + mo.dmin + off, ctx() + " scheduled +" + std::to_string(s) + " offset " + std::to_string(off));
                VH_TRUE("not-too-late", s <= send + mo.dmax + off, ctx() + " scheduled +" + std::to_string(s) + " offset " + std::to_string(off));
                const ll d = e.recv - send;
                if (!mo.custom && d <= mo.dmax)
                {
                    VH_TRUE("after-reception", s >= e.recv, ctx() + " scheduled +" + std::to_string(s));
                    VH_COUNT("events within the jitter seen");
                }
                if (mo.constant && !mo.custom)
                {
                    if (mo.spacing) { VH_EQ("spacing", s - mo.first_sched, (e.tick - mo.first_tick) * 32000, ctx()); VH_COUNT("constant delay spacings"); }
                    else { mo.spacing = true; mo.first_tick = e.tick; mo.first_sched = s; }
                }
            }
            if (mo.sched && !mo.custom) VH_TRUE("order", s >= mo.last_sched, ctx() + " scheduled +" + std::to_string(s) + " after +" + std::to_string(mo.last_sched));
            mo.last_sched = s;
            mo.sched      = true;
            VH_COUNT("events scheduled");
            stats();
            break;
        }
        case 2:
            op("reset");
            f->reset();
            mo = Monitor{};
            stats();
            VH_COUNT("resets");
            break;
        case 3:
            op("set_security_offset");
            f->set_security_offset(dur(e.tick));
            mo.custom = true;
            VH_EQ("set-offset", ll(f->security_offset().count()), e.tick, ctx());
            break;
        }
    }
};

static void history(Rng& r, bool with_offset, bool long_ = false)
{
    // the time since the epoch is small on a monotonic clock and large on a calendar one
    const ll start = (r.chance(1, 3) ? 1000000000ll : 1600000000000000000ll) + ll(r.below(1000000000)) * 1000;
    vtime::ns = start;
    vtime::on = true;
    Run run;
    const ll reads = vtime::reads;
    run.f = std::make_unique<Follower>();
    if (vtime::reads == reads && S().only == false && r.chance(1, 1000)) VH_COUNT("followers not reading the time");
    run.base = start;
    run.stats();

    std::unique_ptr<Follower> twin; // a new follower created at a reset
    const unsigned delay_mode = unsigned(r.below(long_ ? 7 : 6));
    ll tick = ll(r.below(200000)), recv = 1000 + ll(r.below(5000000)), last_clock = tick;
    ll base_delay = recv - tick * 32000 + ll(r.below(3000000));
    bool clocked = false;
    const int n = int(long_ ? r.range(500, 6000) : r.range(3, 60));
    const bool idle = long_ && r.chance(1, 2); // mostly as far apart as allowed: hours pass
    for (int i = 0; i < n; ++i)
    {
        if (with_offset && r.chance(1, 12)) { run.step({ 3, ll(r.below(20000000)), recv }); continue; }
        if (r.chance(1, long_ ? 2000 : 40))
        {
            run.step({ 2, 0, recv });
            vtime::ns = start + recv; // strictly before everything that follows
            twin = std::make_unique<Follower>();
            clocked = false;
            recv += 1 + ll(r.below(100000));
            if (r.chance(1, 2)) { tick = ll(r.below(200000)); base_delay = recv - tick * 32000 + ll(r.below(3000000)); }
        }
        // the sender's time goes on
        ll adv;
        switch (r.below(8))
        {
        case 0: adv = 0; break;
        case 1: adv = ll(r.below(10)); break;
        case 2: adv = ll(r.below(65536)); break;
        case 3: adv = 65535; break;
        default: adv = ll(r.below(4000));
        }
        if (idle && r.chance(3, 4)) adv = ll(r.range(60000, 65535));
        const bool clock = r.chance(1, 2);
        if (clocked && tick + adv - last_clock > 65535) adv = 65535 - (tick - last_clock);
        tick += adv;
        // and the transport takes its time, in order
        ll delay;
        switch (delay_mode)
        {
        case 0: delay = base_delay; break;                                              // constant
        case 1: delay = base_delay + ll(r.below(3000000)); break;                       // jitter
        case 2: delay = base_delay + (r.chance(1, 5) ? ll(r.below(80000000)) : 0); break; // spikes
        case 3: base_delay += ll(r.below(2000)); delay = base_delay; break;             // sender slower
        case 4: base_delay -= ll(r.below(20000)); delay = base_delay + ll(r.below(100000)); break; // sender faster, startup
        case 6: delay = base_delay + (r.chance(1, 300) ? ll(r.below(5000000000)) : ll(r.below(1000000))); break; // stalls of seconds
        default: delay = base_delay + ll(r.below(6)) * 500000; break;
        }
        const ll at_ = tick * 32000 + delay;
        recv = std::max(recv, at_);
        const Ev e{ clock ? 0 : 1, tick, recv };
        if (twin)
        {
            const m::jr_timestamp_t ts{ u16(tick & 0xFFFF) };
            if (clock) twin->process_clock(at(start + recv), ts);
            else
            {
                Follower copy = *run.f;
                const auto a = copy.schedule_message(at(start + recv), ts), b = twin->schedule_message(at(start + recv), ts);
                if (!run.mo.custom) VH_EQ("reset-like-new", ll(a.time_since_epoch().count()), ll(b.time_since_epoch().count()), run.ctx() + show_ev(e));
                VH_COUNT("schedules compared with a new follower");
            }
        }
        run.step(e);
        if (twin && !run.mo.custom)
        {
            VH_EQ("reset-like-new-jitter", ll(run.f->jitter().count()), ll(twin->jitter().count()), run.ctx());
            VH_EQ("reset-like-new-offset", ll(run.f->security_offset().count()), ll(twin->security_offset().count()), run.ctx());
        }
        if (clock)
        {
            if (clocked && (last_clock >> 16) != (tick >> 16)) VH_COUNT("clock wrap-arounds");
            last_clock = tick;
            clocked    = true;
        }
    }
    vtime::on = false;
    if (long_) { VH_COUNT("long histories"); VH_ADD("virtual minutes", u64(tick) * 32 / 1000000 / 60); }
    u64 h = 7;
    for (auto& e : run.log) h = mix(h ^ u64(e.kind) ^ u64(e.tick) * 31 ^ u64(e.recv) * 1000003);
    nontrivial(h);
    if (want_sample()) sample(run.ctx().substr(0, 400));
}

void vh_main()
{
    section("histories", 30000, [](Rng& r, u64) { history(r, false); });
    section("long histories, large", 240, [](Rng& r, u64) { history(r, false, true); }, false);
    section("histories with user offset", 6000, [](Rng& r, u64) { history(r, true); });
}
