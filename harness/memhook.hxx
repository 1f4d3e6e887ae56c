// Global operator new and delete: blocks made while `track` is on are counted, checked at release (once, with their size), and the k-th request fails while armed.
#pragma once
#include <cstdlib>
#include <cstring>
#include <new>
// ---- global memory: blocks made while `track` is on are counted, the k-th request fails while armed
namespace gm {
    struct H { unsigned long magic; H* next; size_t n; unsigned long tracked; };
    static unsigned long const LIVE = 0xA110C8ED5EEDul, DEAD = 0xDEADDEADDEADul;
    static bool track = false, armed = false, persist = false, fired = false; static long count = 0, at = 0, live = 0; static const char* bad = nullptr; static H* quarantine = nullptr;
#   if defined(__SANITIZE_ADDRESS__)
        static bool const keep = false;
#   else
        static bool const keep = true;
#   endif
    static void point() { if (!armed) return; ++count; if (count == at || (persist && count > at)) { fired = true; throw std::bad_alloc(); } }
    static void* get(size_t n) {
        if (track) point();
        H* h = static_cast<H*>(std::malloc(sizeof(H) + n)); if (!h) throw std::bad_alloc();
        h->magic = LIVE; h->next = nullptr; h->n = n; h->tracked = track; if (track) ++live; return h + 1;
    }
    static void put(void* p, size_t n = size_t(-1)) noexcept {
        if (!p) return;
        H* h = static_cast<H*>(p) - 1;
        if (h->magic != LIVE) { bad = h->magic == DEAD ? "a block is released twice" : "a block is released that was not allocated"; return; }
        if (n != size_t(-1) && n != h->n) bad = "a block is released with another size";
        h->magic = DEAD; if (h->tracked) { --live; if (keep) { std::memset(p, 0xDD, h->n); h->next = quarantine; quarantine = h; return; } }
        std::free(h);
    }
    static void flush() { while (quarantine) { H* n = quarantine->next; std::free(quarantine); quarantine = n; } }
    struct Off { bool t; Off() : t(track) { track = false; } ~Off() { track = t; } };
    static void arm(long k, bool p) { count = 0; at = k; persist = p; fired = false; armed = true; }
}
#if defined(__GNUC__) && !defined(__clang__)
#   pragma GCC diagnostic ignored "-Wsized-deallocation"
#endif
void* operator new(size_t n) { return gm::get(n); }
void* operator new[](size_t n) { return gm::get(n); }
void operator delete(void* p) noexcept { gm::put(p); }
void operator delete[](void* p) noexcept { gm::put(p); }
void operator delete(void* p, size_t n) noexcept { gm::put(p, n); }
void operator delete[](void* p, size_t n) noexcept { gm::put(p, n); }
