// Allocation event log: every block handed out has to come back exactly once, with its size.
#pragma once
#include "vh.h"
#include <new>

namespace alloc_log {
using namespace vh;

//! fault injection and accounting over all logs (single-threaded drivers only)
struct Faults
{
    u64    countdown = 0; //!< the countdown-th request from now on fails; 0: none
    bool   fired = false;
    bool   paused = false; //!< requests of the harness itself
    u64    requests = 0;   //!< since the last watch began
    size_t largest = 0;
    size_t bytes_live = 0;
    void request(size_t n)
    {
        if (paused) return;
        ++requests;
        if (n > largest) largest = n;
        if (countdown && --countdown == 0) { fired = true; throw std::bad_alloc(); }
    }
};
inline Faults faults;

//! open addressing table of live blocks that never allocates with operator new
struct Log
{
    struct Slot { void* p; size_t n; };
    const char* name;
    Slot*       slots = nullptr;
    size_t      cap = 0, used = 0;
    size_t      live = 0, allocs = 0, largest = 0;
    static constexpr std::uintptr_t dead = 1;

    explicit Log(const char* n) : name(n) {}
    ~Log() { std::free(slots); slots = nullptr; cap = 0; }
    Slot* find(const void* p) const
    {
        if (!cap) return nullptr;
        for (size_t i = mix(u64(p)) & (cap - 1);; i = (i + 1) & (cap - 1))
        {
            if (!slots[i].p) return nullptr;
            if (slots[i].p == p) return &slots[i];
        }
    }
    void insert(void* p, size_t n)
    {
        if ((used + 1) * 2 > cap)
        {
            Slot*        old = slots;
            const size_t oc = cap;
            cap   = std::max<size_t>(1024, live * 4);
            while (cap & (cap - 1)) cap += cap & (~cap + 1);
            slots = static_cast<Slot*>(std::calloc(cap, sizeof(Slot)));
            used  = 0;
            for (size_t i = 0; i < oc; ++i)
                if (old[i].p && old[i].p != reinterpret_cast<void*>(dead)) put(old[i].p, old[i].n);
            std::free(old);
        }
        put(p, n);
    }
    void put(void* p, size_t n)
    {
        size_t i = mix(u64(p)) & (cap - 1);
        while (slots[i].p) i = (i + 1) & (cap - 1);
        slots[i] = { p, n };
        ++used;
    }

    void* allocate(size_t n)
    {
        faults.request(n);
        void* p = std::malloc(n ? n : 1);
        if (!p) throw std::bad_alloc();
        insert(p, n);
        faults.bytes_live += n;
        ++live;
        ++allocs;
        if (n > largest) largest = n;
        return p;
    }
    //! n == npos: size unknown to the caller
    void deallocate(void* p, size_t n)
    {
        Slot* s = find(p);
        if (!s) fail("block-not-live", "%s: block %p (size %zu) returned that is not live (returned twice, or obtained elsewhere)", name, p, n);
        if (n != size_t(-1) && s->n != n) fail("block-size", "%s: block of %zu bytes returned as %zu bytes", name, s->n, n);
        faults.bytes_live -= s->n;
        s->p = reinterpret_cast<void*>(dead);
        --live;
        std::free(p);
    }
};
} // namespace alloc_log
