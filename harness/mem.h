// Allocation logs on operator new and the configured SysEx allocator, with fault injection (C25, C26).
#pragma once
#define VH_OWN_NEW
#include "alloc_log.h"
#include <midi/sysex.h>
#if NIMIDI2_PMR_SYSEX_DATA
#include <memory_resource>
#endif
using vh::u64;
using alloc_log::faults;
using alloc_log::Log;

static Log& global_log()
{
    alignas(Log) static char storage[sizeof(Log)];
    static Log*              l = ::new (storage) Log("operator new");
    return *l;
}
void* operator new(size_t n) { return global_log().allocate(n); }
void* operator new[](size_t n) { return global_log().allocate(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return global_log().allocate(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return global_log().allocate(n); } catch (...) { return nullptr; } }
void  operator delete(void* p) noexcept { if (p) global_log().deallocate(p, size_t(-1)); }
void  operator delete[](void* p) noexcept { if (p) global_log().deallocate(p, size_t(-1)); }
void  operator delete(void* p, size_t n) noexcept { if (p) global_log().deallocate(p, n); }
void  operator delete[](void* p, size_t) noexcept { if (p) global_log().deallocate(p, size_t(-1)); }
void  operator delete(void* p, const std::nothrow_t&) noexcept { if (p) global_log().deallocate(p, size_t(-1)); }
void  operator delete[](void* p, const std::nothrow_t&) noexcept { if (p) global_log().deallocate(p, size_t(-1)); }

#if NIMIDI2_CUSTOM_SYSEX_DATA_ALLOCATOR
extern Log& custom_log();
static size_t live_blocks() { return global_log().live + custom_log().live; }
#elif NIMIDI2_PMR_SYSEX_DATA
struct Resource : std::pmr::memory_resource
{
    Log log{ "default resource" };
    void* do_allocate(size_t n, size_t) override { return log.allocate(n); }
    void  do_deallocate(void* p, size_t n, size_t) override { log.deallocate(p, n); }
    bool  do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
static Resource r_default;
static size_t live_blocks() { return global_log().live + r_default.log.live; }
#else
static size_t live_blocks() { return global_log().live; }
#endif

//! the harness' own requests neither count nor fail
struct Pause
{
    bool was = faults.paused;
    Pause() { faults.paused = true; }
    ~Pause() { faults.paused = was; }
};
//! counts (and with k > 0 fails the k-th of) the requests in its scope
struct Arm
{
    explicit Arm(u64 k) { faults.countdown = k; faults.fired = false; faults.paused = false; faults.requests = 0; faults.largest = 0; }
    ~Arm() { faults.countdown = 0; faults.paused = true; }
    Arm(const Arm&) = delete;
};
//! everything obtained in the scope is returned
struct Balance
{
    size_t      n = live_blocks();
    const char* what;
    u64         k;
    Balance(const char* w, u64 kk) : what(w), k(kk) {}
    ~Balance()
    {
        if (live_blocks() != n)
            vh::fail("leak", "%s, failure %llu: %lld blocks are not returned", what, (unsigned long long)k, (long long)live_blocks() - (long long)n);
    }
};
static void mem_main(void (*body)())
{
    faults.paused = true;
#if NIMIDI2_PMR_SYSEX_DATA
    auto* old = std::pmr::set_default_resource(&r_default);
    body();
    std::pmr::set_default_resource(old);
#elif NIMIDI2_CUSTOM_SYSEX_DATA_ALLOCATOR
    custom_log();
    body();
#else
    body();
#endif
}
