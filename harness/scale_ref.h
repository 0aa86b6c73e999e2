#pragma once
#include "ref.h"
namespace ref {
inline u32 up_ref(u32 v, unsigned x, unsigned y)
{
    const unsigned s = y - x;
    u64            r = u64(v) << s;
    if (v <= (1u << (x - 1))) return u32(r);
    for (unsigned i = 0; i < s; ++i)
        if ((v >> (x - 2 - i % (x - 1))) & 1) r |= 1ull << (s - 1 - i);
    return u32(r);
}
} // namespace ref
