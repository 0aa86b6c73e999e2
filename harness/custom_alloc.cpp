// user supplied SysEx data allocator for the "custom" build configuration
#define VH_NO_MAIN
#include "alloc_log.h"
#include <midi/sysex.h>
#if NIMIDI2_CUSTOM_SYSEX_DATA_ALLOCATOR
alloc_log::Log& custom_log() { static alloc_log::Log* l = new alloc_log::Log("custom allocator"); return *l; }
midi::sysex::data_allocator::value_type* midi::sysex::data_allocator::allocate(std::size_t n) { return static_cast<value_type*>(custom_log().allocate(n)); }
void midi::sysex::data_allocator::deallocate(value_type* p, std::size_t n) noexcept { custom_log().deallocate(p, n); }
#endif
