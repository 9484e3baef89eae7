// Replaced allocation functions that count the live blocks and bytes of the current thread's watched code and can
// make the n-th allocation fail. Blocks still come from malloc, so AddressSanitizer and LeakSanitizer see them.
#pragma once
#include <cstdlib>
#include <cstdint>
#include <malloc.h>
#include <new>
namespace h {
struct AllocState { long long live = 0, bytes = 0; unsigned long long count = 0; long long failAt = 0; bool failed = false, paused = false; };
inline AllocState AS;
struct Unwatched { bool old = AS.paused; Unwatched() { AS.paused = true; } ~Unwatched() { AS.paused = old; } }; // the harness's own allocations
inline constexpr size_t HDR = 32;
// each block carries its size and whether it is counted, before what the caller gets
inline void* take(size_t n, bool thrower) {
    bool counted = !AS.paused;
    if (counted) {
        ++AS.count;
        if (AS.failAt > 0 && --AS.failAt == 0) { AS.failed = true; if (thrower) throw std::bad_alloc(); return nullptr; }
    }
    char* p = n > (size_t(1) << 28) ? nullptr : (char*)malloc(n + HDR);
    if (!p) { if (thrower) throw std::bad_alloc(); return nullptr; }
    ((uint64_t*)p)[0] = n; ((uint64_t*)p)[1] = counted ? 0xC0C0C0C0C0C0C0C0ull : 0xDEDEDEDEDEDEDEDEull;
    if (counted) { ++AS.live; AS.bytes += (long long)n; }
    return p + HDR;
}
inline void give(void* q) noexcept {
    if (!q) return;
    char* p = (char*)q - HDR; uint64_t n = ((uint64_t*)p)[0], tag = ((uint64_t*)p)[1];
    if (tag == 0xC0C0C0C0C0C0C0C0ull) { --AS.live; AS.bytes -= (long long)n; }
    free(p);
}
} // namespace h
void* operator new(size_t n) { return h::take(n, true); }
void* operator new[](size_t n) { return h::take(n, true); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return h::take(n, false); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return h::take(n, false); }
void operator delete(void* p) noexcept { h::give(p); }
void operator delete[](void* p) noexcept { h::give(p); }
void operator delete(void* p, size_t) noexcept { h::give(p); }
void operator delete[](void* p, size_t) noexcept { h::give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { h::give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { h::give(p); }
