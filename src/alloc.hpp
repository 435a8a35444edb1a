// Replaces operator new/delete: counts, tags and poisons the blocks allocated inside a tracked scope, checks every
// release (exactly once, with the matching form), and can make the k-th tracked allocation fail.
#pragma once
#include "mon.hpp"
#include <new>
#ifndef ALLOC_ATTR
#define ALLOC_ATTR
#endif

namespace alloc {
    struct header { uint64_t magic, size; uint32_t kind, tracked; uint64_t guard; };
    static const uint64_t LIVE = 0x4c495645424c4b31ULL, DEAD = 0xdeaddeaddeaddeadULL, GUARD = 0x6775617264313233ULL;
    struct state_t { uint64_t live, live_bytes, count, fail_at, failed; bool on; uint64_t peak; };
    ALLOC_ATTR inline state_t& state() { static state_t s = {0, 0, 0, 0, 0, false, 0}; return s; }

    struct scope { bool old; explicit scope(bool on = true) : old(state().on) { state().on = on; } ~scope() { state().on = old; } };
    inline void arm(uint64_t k) { state().fail_at = k ? state().count + k : 0; if (k) state().failed = 0; }

    inline void bad(const char* what) {
        bool was = state().on; state().on = false; (void)was;
        mon::fail(std::string("heap:") + what, std::string("a block is released ") + what);
    }
    ALLOC_ATTR inline void* get(size_t n, uint32_t kind, bool may_throw) {
        state_t& s = state();
        bool tr = s.on;
#ifdef ALLOC_NOTE
        ALLOC_NOTE(n);
#endif
        if (tr) {
            ++s.count;
            if (may_throw && s.fail_at && s.count == s.fail_at) { ++s.failed; s.fail_at = 0; throw std::bad_alloc(); }
        }
        header* h = (header*)malloc(sizeof(header) + n);
        if (!h) { if (may_throw) throw std::bad_alloc(); return 0; }
        h->magic = LIVE; h->size = n; h->kind = kind; h->tracked = tr; h->guard = GUARD;
        if (tr) { ++s.live; s.live_bytes += n; if (s.live_bytes > s.peak) s.peak = s.live_bytes; }
        memset((void*)(h + 1), 0xCD, n < 65536 ? n : 65536);
        return h + 1;
    }
    ALLOC_ATTR inline void put(void* p, uint32_t kind) {
        if (!p) return;
        header* h = (header*)p - 1;
        if (h->magic == DEAD) bad("twice");
        if (h->magic != LIVE || h->guard != GUARD) bad("that was not allocated, or its header was overwritten");
        if (h->kind != kind) bad(kind ? "by delete[] but allocated by new" : "by delete but allocated by new[]");
        if (h->tracked) { --state().live; state().live_bytes -= h->size; }
        h->magic = DEAD;
        memset(p, 0xDD, h->size < 65536 ? h->size : 65536);
        free(h);
    }
}
ALLOC_ATTR void* operator new(size_t n) { return alloc::get(n, 0, true); }
ALLOC_ATTR void* operator new[](size_t n) { return alloc::get(n, 1, true); }
ALLOC_ATTR void* operator new(size_t n, std::nothrow_t const&) noexcept { return alloc::get(n, 0, false); }
ALLOC_ATTR void* operator new[](size_t n, std::nothrow_t const&) noexcept { return alloc::get(n, 1, false); }
ALLOC_ATTR void operator delete(void* p) noexcept { alloc::put(p, 0); }
ALLOC_ATTR void operator delete[](void* p) noexcept { alloc::put(p, 1); }
ALLOC_ATTR void operator delete(void* p, size_t) noexcept { alloc::put(p, 0); }
ALLOC_ATTR void operator delete[](void* p, size_t) noexcept { alloc::put(p, 1); }
ALLOC_ATTR void operator delete(void* p, std::nothrow_t const&) noexcept { alloc::put(p, 0); }
ALLOC_ATTR void operator delete[](void* p, std::nothrow_t const&) noexcept { alloc::put(p, 1); }
