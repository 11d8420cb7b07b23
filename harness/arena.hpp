// Replaces operator new so that a driver can dictate the order of heap addresses.
// mode 0: malloc; 1: every new block lies below the previous one; 2: alternately above and below.
// Include in exactly one translation unit.
#pragma once
#include <cstddef>
#include <cstdlib>
#include <new>

namespace arena {
    struct A {
        char *base = nullptr, *lo = nullptr, *hi = nullptr, *end = nullptr;
        int mode = 0, flip = 0;
        long live = 0;
        size_t size = 64u << 20;
    };
    inline A &a() {
        static A x;
        return x;
    }
    // Starts a fresh arena; blocks of an earlier execution must all be gone, otherwise the arena goes on where it was.
    inline void use(int mode) {
        A &x = a();
        if (!x.base) {
            x.base = (char *) malloc(x.size);
            x.end = x.base + x.size;
        }
        if (x.live == 0) x.lo = x.hi = x.base + (mode == 2 ? x.size / 2 / 64 * 64 : x.size / 64 * 64);
        x.mode = mode;
    }
    inline void *get(size_t n) {
        A &x = a();
        if (x.mode) {
            size_t need = (n + 31) / 16 * 16;
            bool up = x.mode == 2 && (x.flip ^= 1);
            if (up && x.hi + need <= x.end) { void *p = x.hi; x.hi += need; x.live++; return p; }
            if (!up && x.lo - need >= x.base) { x.lo -= need; x.live++; return x.lo; }
        }
        void *p = malloc(n ? n : 1);
        if (!p) throw std::bad_alloc();
        return p;
    }
    inline void put(void *p) {
        A &x = a();
        if (p && x.base && (char *) p >= x.base && (char *) p < x.end) { x.live--; return; }
        free(p);
    }
}
void *operator new(size_t n) { return arena::get(n); }
void *operator new[](size_t n) { return arena::get(n); }
void operator delete(void *p) noexcept { arena::put(p); }
void operator delete[](void *p) noexcept { arena::put(p); }
void operator delete(void *p, size_t) noexcept { arena::put(p); }
void operator delete[](void *p, size_t) noexcept { arena::put(p); }
