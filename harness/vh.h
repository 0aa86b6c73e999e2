// Common runtime of all check drivers: replayable cases, violation recorder, event counters, watchdog.
#pragma once

#include <algorithm>
#include <array>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <sys/resource.h>
#include <sys/time.h>
#include <type_traits>
#ifdef VH_THREADS
#include <atomic>
#include <thread>
#endif
#include <unistd.h>
#include <vector>

extern "C" void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));

namespace vh {

using u8  = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i32 = std::int32_t;
using i64 = std::int64_t;

#ifdef VH_GUIDED
__attribute__((noinline, no_sanitize("coverage")))
#endif
inline u64 mix(u64 z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
#ifdef VH_GUIDED
__attribute__((noinline, no_sanitize("coverage")))
#endif
inline u64 hash_bytes(const void* p, size_t n, u64 h = 0xcbf29ce484222325ull)
{
    auto b = static_cast<const u8*>(p);
    for (size_t i = 0; i < n; ++i)
        h = (h ^ b[i]) * 0x100000001b3ull;
    return mix(h ^ n);
}
inline u64 hash_str(std::string_view s) { return hash_bytes(s.data(), s.size()); }

#ifdef VH_GUIDED // choices are read from the fuzzer's input, so that it can steer them
#define VH_NOCOV __attribute__((noinline, no_sanitize("coverage")))
#else
#define VH_NOCOV
#endif

struct Rng
{
    u64 s;
    explicit Rng(u64 seed) : s(seed) {}
#ifdef VH_GUIDED
    const u8 *t = nullptr, *te = nullptr;
    VH_NOCOV u64 take(unsigned n)
    {
        if (size_t(te - t) < n) t = te; // exhausted: go on pseudo randomly
        if (t == te)
        {
            s += 0x9E3779B97F4A7C15ull;
            return n == 8 ? mix(s) : mix(s) >> (64 - 8 * n);
        }
        u64 v = 0;
        for (unsigned i = 0; i < n; ++i) v |= u64(*t++) << (8 * i);
        return v;
    }
    VH_NOCOV u64 below(u64 n) { return n < 2 ? 0 : (n <= 256 ? take(1) : n <= 65536 ? take(2) : n <= (1ull << 32) ? take(4) : take(8)) % n; }
    u64 next() { return take(8); }
    u32 w() { return u32(take(4)); }
    u8  b() { return u8(take(1)); }
#else
    u64 next()
    {
        s += 0x9E3779B97F4A7C15ull;
        return mix(s);
    }
    u32 w() { return static_cast<u32>(next() >> 32); }
    u8  b() { return static_cast<u8>(next() >> 40); }
    u64 below(u64 n) { return n ? next() % n : 0; }
#endif
    u8  b7() { return b() & 0x7F; }
    u64 range(u64 a, u64 bb) { return a + below(bb - a + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template<typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    template<typename C> auto& pick_from(const C& c) { return c[below(c.size())]; }
    // words with interesting bit patterns
    u32 iw()
    {
        switch (below(8))
        {
        case 0: return 0;
        case 1: return 0xFFFFFFFF;
        case 2: return 1u << below(32);
        case 3: return ~(1u << below(32));
        case 4: return (1u << below(32)) - 1;
        case 5: return 0x80000000u + static_cast<u32>(below(5)) - 2;
        default: return w();
        }
    }
    u8 ib()
    {
        switch (below(6))
        {
        case 0: return 0;
        case 1: return 0xFF;
        case 2: return 0x7F;
        case 3: return 0x80;
        default: return b();
        }
    }
    u8 ib7() { return ib() & 0x7F; }
    std::vector<u8> bytes7(size_t n)
    {
        std::vector<u8> r(n);
        for (auto& x : r) x = b7();
        return r;
    }
    std::vector<u8> bytes(size_t n)
    {
        std::vector<u8> r(n);
        for (auto& x : r) x = b();
        return r;
    }
    // size distribution: mostly small, sometimes near boundaries, rarely large
    size_t size(size_t small, size_t large)
    {
        if (large < small) large = small;
        switch (below(10))
        {
        case 0: return 0;
        case 1: return range(small, large);
        default: return below(small + 1);
        }
    }
};

struct SkipCase {};

inline std::string hex(const void* p, size_t n, size_t max = 96)
{
    std::string r;
    char        t[4];
    for (size_t i = 0; i < n && i < max; ++i)
    {
        std::snprintf(t, sizeof t, "%02X ", static_cast<const u8*>(p)[i]);
        r += t;
    }
    if (n > max) r += "...(" + std::to_string(n) + " bytes)";
    return r;
}
// sizes around all powers of two from 128 to 131072 and around one and four megabytes
constexpr u64 n_boundary_sizes = 11 * 33 + 2 * 5;
inline size_t boundary_size(u64 i)
{
    if (i < 11 * 33) return (size_t(128) << (i / 33)) + i % 33 - 16;
    i -= 11 * 33;
    return (size_t(1048576) << (2 * (i / 5))) + i % 5 - 2;
}
template<typename C> std::string hexc(const C& c) { return c.size() ? hex(&*c.begin(), c.size()) : std::string("(empty)"); }

struct State
{
    std::string property = "?", tier = "quick", out, only_section, build = "?";
    u64         seed = 1;
    u64         mult = 1;
    u64         shard = 0, shards = 1;
    bool        only = false;
    u64         only_case = 0;
    std::set<std::string> known;
    std::map<std::string, u64> known_hits;

    const char*   section    = "(startup)";
    volatile u64  case_idx   = 0;
    const char*   op         = "";
    volatile u64  ticks      = 0;
    u64           last_ticks = 0;
    int           stalls     = 0;

    u64                        evaluations = 0;
    std::map<std::string, u64> counters;
    std::map<std::string, u64> section_cases;
    std::vector<std::string>   samples;
    std::vector<u64>           table; // open addressing set of hashes
    u64                        distinct = 0;
    bool                       distinct_full = false;
    // guided runs
    const u8 *tape = nullptr, *tape_end = nullptr;
    unsigned  pick = 0, seen = 0;
};
#ifdef VH_THREADS // every thread records on its own, the driver merges
#define VH_TLS thread_local
#define VH_TABLE (1u << 17)
#else
#define VH_TLS
#define VH_TABLE (1u << 22)
#endif
inline State& S()
{
    static VH_TLS State s;
    return s;
}

inline void tick() { S().ticks = S().ticks + 1; }
inline void op(const char* o) { S().op = o; }

inline u64& counter(const char* name) { return S().counters[name]; }
#define VH_COUNT(name)                          \
    do {                                        \
        static VH_TLS auto& c_ = ::vh::counter(name);  \
        ++c_;                                   \
    } while (0)
#define VH_ADD(name, n)                         \
    do {                                        \
        static VH_TLS auto& c_ = ::vh::counter(name);  \
        c_ += (n);                              \
    } while (0)

//! one evaluated case that is non-trivial by the driver's rule
VH_NOCOV inline void nontrivial(u64 h)
{
    auto& s = S();
    if (s.table.empty()) s.table.assign(VH_TABLE, 0);
    if (h == 0) h = 1;
    const u64 mask = s.table.size() - 1;
    if (s.distinct > s.table.size() / 2)
    {
        s.distinct_full = true;
        return;
    }
    for (u64 i = mix(h) & mask;; i = (i + 1) & mask)
    {
        if (s.table[i] == h) return;
        if (!s.table[i])
        {
            s.table[i] = h;
            ++s.distinct;
            return;
        }
    }
}
inline void sample(const std::string& t)
{
    if (S().samples.size() < 6) S().samples.push_back(t);
}
inline bool want_sample() { return S().samples.size() < 6; }

inline std::string jstr(const std::string& v)
{
    std::string r = "\"";
    for (unsigned char c : v)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c < 0x20 || c >= 0x7F) { char t[8]; std::snprintf(t, sizeof t, "\\u%04x", c); r += t; }
        else r += char(c);
    }
    return r + "\"";
}

inline void write_out(const char* verdict)
{
    auto& s = S();
    if (s.out.empty()) return;
    FILE* f = std::fopen(s.out.c_str(), "w");
    if (!f) return;
    std::fprintf(f, "{\"verdict\":\"%s\",\"build\":%s,\"seed\":%llu,\"shard\":%llu,\"evaluations\":%llu,\"distinct\":%llu,\"distinct_full\":%s",
                 verdict, jstr(s.build).c_str(), (unsigned long long)s.seed, (unsigned long long)s.shard,
                 (unsigned long long)s.evaluations, (unsigned long long)s.distinct, s.distinct_full ? "true" : "false");
    std::fprintf(f, ",\"counters\":{");
    bool first = true;
    for (auto& [k, v] : s.counters) { std::fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(k).c_str(), (unsigned long long)v); first = false; }
    std::fprintf(f, "},\"sections\":{");
    first = true;
    for (auto& [k, v] : s.section_cases) { std::fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(k).c_str(), (unsigned long long)v); first = false; }
    std::fprintf(f, "},\"known_hits\":{");
    first = true;
    for (auto& [k, v] : s.known_hits) { std::fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(k).c_str(), (unsigned long long)v); first = false; }
    std::fprintf(f, "},\"samples\":[");
    first = true;
    for (auto& v : s.samples) { std::fprintf(f, "%s%s", first ? "" : ",", jstr(v).c_str()); first = false; }
    std::fprintf(f, "]}\n");
    std::fclose(f);
}

[[gnu::noinline]] inline void fail(const char* key, const char* fmt, ...)
{
    char    buf[6000];
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    auto& s = S();
    if (s.known.count(key))
    {
        ++s.known_hits[key];
        throw SkipCase{};
    }
    std::printf("\nVH-VIOLATION key=%s build=%s section=%s case=%llu seed=%llu op=%s\n%s\n", key, s.build.c_str(), s.section,
                (unsigned long long)s.case_idx, (unsigned long long)s.seed, s.op, buf);
    std::fflush(stdout);
#ifdef VH_GUIDED
    std::abort(); // the fuzzer saves the input
#endif
    write_out("violation");
    ::_exit(1);
}

inline std::string show(bool v) { return v ? "true" : "false"; }
inline std::string show(const std::string& v) { return "\"" + jstr(v) + "\""; }
inline std::string show(std::string_view v) { return show(std::string(v)); }
inline std::string show(const char* v) { return show(std::string(v)); }
template<typename T, typename = std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>>> std::string show(T v)
{
    char t[64];
    if constexpr (std::is_floating_point_v<T>) std::snprintf(t, sizeof t, "%.20Lg", (long double)v);
    else if constexpr (std::is_enum_v<T>) std::snprintf(t, sizeof t, "enum 0x%llx", (unsigned long long)v);
    else if constexpr (std::is_signed_v<T>) std::snprintf(t, sizeof t, "%lld", (long long)v);
    else std::snprintf(t, sizeof t, "%llu (0x%llx)", (unsigned long long)v, (unsigned long long)v);
    return t;
}
template<typename T, typename A> std::string show(const std::vector<T, A>& v)
{
    if constexpr (sizeof(T) == 1) return hexc(v);
    else
    {
        std::string r = "[";
        for (auto& x : v) r += show(x) + " ";
        return r + "]";
    }
}

// Comparison of an observed with an expected value; ctxf is only evaluated on failure.
#define VH_EQ(key, got, exp, ...)                                                                          \
    do {                                                                                                   \
        const auto  g_ = (got);                                                                            \
        const auto  e_ = (exp);                                                                            \
        if (!(g_ == e_))                                                                                   \
            ::vh::fail(key, "%s:%d %s = %s, expected %s  [%s]", __FILE__, __LINE__, #got,                  \
                       ::vh::show(g_).c_str(), ::vh::show(e_).c_str(), (::vh::ctx_str(__VA_ARGS__)).c_str()); \
    } while (0)
#define VH_TRUE(key, cond, ...)                                                                            \
    do {                                                                                                   \
        if (!(cond))                                                                                       \
            ::vh::fail(key, "%s:%d expected: %s  [%s]", __FILE__, __LINE__, #cond,                         \
                       (::vh::ctx_str(__VA_ARGS__)).c_str());                                              \
    } while (0)

inline std::string ctx_str() { return ""; }
inline std::string ctx_str(const std::string& s) { return s; }

inline void on_death_common(const char* what)
{
    auto& s = S();
    char  t[512];
    int   n = std::snprintf(t, sizeof t, "\nVH-DEATH key=%s build=%s section=%s case=%llu seed=%llu op=%s\n", what, s.build.c_str(),
                            s.section, (unsigned long long)s.case_idx, (unsigned long long)s.seed, s.op);
    if (n > 0 && ::write(1, t, size_t(n)) < 0) {}
}
inline void on_sanitizer_death() { on_death_common("sanitizer"); }
inline void on_signal(int sig)
{
    on_death_common(sig == SIGABRT ? "abort" : sig == SIGSEGV ? "segv" : "signal");
    ::_exit(1);
}
inline void on_prof(int)
{
    auto& s = S();
    if (s.ticks == s.last_ticks)
    {
        if (++s.stalls >= 6)
        {
            on_death_common("no-progress");
            ::_exit(1);
        }
    }
    else
        s.stalls = 0;
    s.last_ticks = s.ticks;
}

//! run n (times the tier multiplier) cases of a section; fn(Rng&, case index)
//! leave varying garbage where the next case's stack objects will be: members nobody initialised become visible
__attribute__((noinline)) inline void dirty_stack(unsigned char v)
{
    unsigned char a[3072];
    std::memset(a, v, sizeof(a));
    __asm__ volatile("" : : "r"(a) : "memory");
}
inline unsigned char g_fill = 0xA5; //!< what fresh heap blocks contain (plain builds; ASan fills with 0xBE)

template<typename F> void section(const char* name, u64 n, F&& fn, bool scale = true)
{
    auto& s = S();
#ifdef VH_GUIDED
    for (const char* heavy : { "large", "huge", "powers of two", "data sizes", "cut at" }) // too slow to be steered
        if (std::strstr(name, heavy)) return;
    if (++s.seen != s.pick || !n) return;
    Rng r(0x5EED);
    r.t = s.tape; r.te = s.tape_end;
    const u64 i = r.below(n);
    r.s         = mix(i ^ hash_bytes(s.tape, size_t(s.tape_end - s.tape)));
    s.section = name; s.case_idx = i; s.op = "";
    dirty_stack(u8(i * 37));
    try { fn(r, i); }
    catch (const SkipCase&) {}
    ++s.evaluations;
    ++s.section_cases[name];
    return;
#endif
    if (s.only && s.only_section != name) return;
    s.section = name;
    const u64 total = scale ? n * s.mult : n;
    for (u64 i = 0; i < total; ++i)
    {
        if (s.only) { if (i != s.only_case) continue; }
        else if (i % s.shards != s.shard) continue;
        s.case_idx = i;
        s.op       = "";
        tick();
        Rng r(mix(s.seed * 0x1000193ull ^ hash_str(name)) ^ mix(i));
        static const unsigned char fills[] = { 0xA5, 0x03, 0xFF, 0x5C };
#ifndef VH_THREADS
        g_fill = fills[mix(i) >> 62];
#endif
        dirty_stack(fills[mix(i) >> 62]);
        try { fn(r, i); }
        catch (const SkipCase&) {}
        ++s.evaluations;
        ++s.section_cases[name];
    }
    s.section = "(between sections)";
}

#ifdef VH_THREADS
//! f(thread number) in n threads that start together; counters are added to the caller's afterwards
template<typename F> void run_in_threads(unsigned n, F&& f)
{
    State&                   mine = S();
    std::vector<State*>      done(n);
    std::vector<std::thread> ts;
    std::atomic<unsigned>    ready{ 0 };
    const bool               sequential = std::getenv("VH_SEQ"); // one after the other: does it fail without concurrency, too?
    for (unsigned t = 0; t < n; ++t)
    {
        ts.emplace_back([&, t] {
            State& s = S();
            s.build = mine.build; s.tier = mine.tier; s.seed = mine.seed; s.mult = mine.mult; s.shard = mine.shard; s.shards = mine.shards;
            s.only = mine.only; s.only_section = mine.only_section; s.only_case = mine.only_case; s.known = mine.known;
            s.section = mine.section; s.case_idx = mine.case_idx;
            ready.fetch_add(1, std::memory_order_relaxed);
            while (!sequential && ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
            f(t);
            done[t] = new State(std::move(s));
        });
        if (sequential) ts.back().join();
    }
    for (auto& t : ts)
        if (t.joinable()) t.join();
    for (auto* d : done)
    {
        for (auto& [k, v] : d->counters) mine.counters[k] += v;
        for (auto& [k, v] : d->section_cases) mine.section_cases[k] += v;
        for (auto& v : d->samples) if (mine.samples.size() < 6) mine.samples.push_back(v);
        mine.evaluations += d->evaluations;
        mine.distinct += d->distinct;
        delete d;
    }
}
#endif

//! the run is inconclusive unless at least n events of this kind were observed (over all shards: checked by check.py)
struct Require { const char* name; u64 n; };

} // namespace vh

void vh_main(); // provided by the driver

#if !defined(__has_feature)
#define __has_feature(x) 0
#endif
#if !defined(VH_OWN_NEW) && !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) && !__has_feature(address_sanitizer) && !__has_feature(thread_sanitizer) && !defined(VH_NO_MAIN)
void* operator new(std::size_t n)
{
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    std::memset(p, vh::g_fill, n < 4096 ? n : 4096);
    return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void  operator delete(void* p) noexcept { std::free(p); }
void  operator delete[](void* p) noexcept { std::free(p); }
void  operator delete(void* p, std::size_t) noexcept { std::free(p); }
void  operator delete[](void* p, std::size_t) noexcept { std::free(p); }
#endif

#if defined(VH_GUIDED)
extern "C" __attribute__((no_sanitize("coverage"))) int LLVMFuzzerTestOneInput(const unsigned char* d, size_t n)
{
    auto& s = vh::S();
    static unsigned sections = [&] {
        s.only = true;
        if (auto* o = std::getenv("VH_OUT")) s.out = o;
        if (auto* b = std::getenv("VH_BUILD")) s.build = b;
        if (auto* k = std::getenv("VH_KNOWN"))
            for (std::string t = std::string(k) + ","; t.size() > 1; t.erase(0, t.find(',') + 1)) s.known.insert(t.substr(0, t.find(',')));
        std::atexit([] { vh::write_out("held"); });
        s.pick = 0; s.seen = 0;
        vh_main();
        return s.seen;
    }();
    if (n < 2) return 0;
    s.pick = 1 + d[0] % sections;
    s.seen = 0;
    // an exactly sized copy is not needed: drivers copy what they hand to the library
    s.tape = d + 1; s.tape_end = d + n;
    vh_main();
    return 0;
}
#elif !defined(VH_NO_MAIN)
int main(int argc, char** argv)
{
    auto& s = vh::S();
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto        val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed") s.seed = std::strtoull(val().c_str(), nullptr, 10);
        else if (a == "--mult") s.mult = std::strtoull(val().c_str(), nullptr, 10);
        else if (a == "--shard") s.shard = std::strtoull(val().c_str(), nullptr, 10);
        else if (a == "--shards") s.shards = std::strtoull(val().c_str(), nullptr, 10);
        else if (a == "--tier") s.tier = val();
        else if (a == "--out") s.out = val();
        else if (a == "--build") s.build = val();
        else if (a == "--known") s.known.insert(val());
        else if (a == "--section") { s.only = true; s.only_section = val(); }
        else if (a == "--case") s.only_case = std::strtoull(val().c_str(), nullptr, 10);
        else { std::fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    struct sigaction sa;
    std::memset(&sa, 0, sizeof sa);
    sa.sa_handler = vh::on_signal;
    sigaction(SIGABRT, &sa, nullptr);
    if (&__sanitizer_set_death_callback)
        __sanitizer_set_death_callback(vh::on_sanitizer_death);
#ifndef VH_THREADS
    else
    {
        for (int sig : { SIGSEGV, SIGBUS, SIGFPE, SIGILL }) sigaction(sig, &sa, nullptr);
        rlimit rl{ 6ull << 30, 6ull << 30 };
        setrlimit(RLIMIT_AS, &rl);
    }
    std::memset(&sa, 0, sizeof sa);
    sa.sa_handler = vh::on_prof;
    sa.sa_flags   = SA_RESTART;
    sigaction(SIGPROF, &sa, nullptr);
    itimerval tv{ { 5, 0 }, { 5, 0 } };
    setitimer(ITIMER_PROF, &tv, nullptr);
#endif

#ifdef VH_PARALLEL_MAIN
    vh::run_in_threads(VH_PARALLEL_MAIN, [](unsigned t) {
        vh::S().shard  = vh::S().shard * VH_PARALLEL_MAIN + t;
        vh::S().shards = vh::S().shards * VH_PARALLEL_MAIN;
        vh_main();
    });
#else
    vh_main();
#endif

    vh::write_out("held");
    std::printf("VH-DONE evaluations=%llu distinct=%llu\n", (unsigned long long)s.evaluations, (unsigned long long)s.distinct);
    return 0;
}
#endif
