// Virtual time: every clock the C++ library reads comes from here while vtime::on is set.
#pragma once
#include "vh.h"
#include <atomic>
#include <sys/syscall.h>
#include <time.h>

namespace vtime {
inline VH_TLS std::atomic<bool>      on{ false };
inline VH_TLS std::atomic<long long> ns{ 0 };
inline VH_TLS std::atomic<long long> reads{ 0 };
inline VH_TLS std::atomic<long long> step{ 0 }; // advance per reading
} // namespace vtime

extern "C" int clock_gettime(clockid_t id, struct timespec* ts)
{
    if (vtime::on.load(std::memory_order_relaxed))
    {
        const long long t = vtime::ns.fetch_add(vtime::step.load(std::memory_order_relaxed), std::memory_order_relaxed);
        vtime::reads.fetch_add(1, std::memory_order_relaxed);
        ts->tv_sec  = t / 1000000000;
        ts->tv_nsec = t % 1000000000;
        return 0;
    }
    return int(::syscall(SYS_clock_gettime, id, ts));
}
