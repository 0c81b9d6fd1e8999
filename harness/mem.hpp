// Accounting of every allocation made while library code runs.
// Replaces the global operator new/delete of the driver.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <new>
#include <vector>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) ASAN_POISON_MEMORY_REGION(p, n)
#define UNPOISON(p, n) ASAN_UNPOISON_MEMORY_REGION(p, n)
#else
#define POISON(p, n) ((void)0)
#define UNPOISON(p, n) ((void)0)
#endif

namespace mem {
struct Rec { char* p; size_t n; int tag; int alloc; int al; bool arr; };   // alloc -1: operator new, al its alignment argument or 0
constexpr int MaxRec = 4096;
inline Rec recs[MaxRec];
inline int nrec = 0;
inline int depth = 0;        // > 0: library code is running
inline int tag = 0;          // what is being created
inline int fail_in = -1;     // 0: the next library allocation fails
inline int live[2048];       // live allocations per tag
inline void (*on_free)(int tag) = nullptr;      // last allocation with that tag gone
inline const char* error = nullptr;
inline void (*on_get)(int tag) = nullptr;       // library code obtains memory

inline void add(void* p, size_t n, int alloc, int al = 0, bool arr = false) {
    if (nrec == MaxRec) { fprintf(stderr, "mem: too many allocations\n"); abort(); }
    recs[nrec++] = {(char*)p, n, tag, alloc, al, arr};
    ++live[tag];
}
inline Rec* find(void* p) {
    for (int i = nrec; i-- > 0;) if (recs[i].p == p) return &recs[i];
    return nullptr;
}
inline void remove(Rec* r) {
    int t = r->tag;
    *r = recs[--nrec];
    if (--live[t] == 0 && on_free) on_free(t);
}
inline void reset() { nrec = 0; memset(live, 0, sizeof live); depth = 0; tag = 0; fail_in = -1; error = nullptr; }

struct Lib { Lib() { ++depth; } ~Lib() { --depth; } };        // entering library code
struct User { int d; User() : d(depth) { depth = 0; } ~User() { depth = d; } }; // called back
struct Tag { int t; explicit Tag(int n) : t(tag) { tag = n; } ~Tag() { tag = t; } };

inline void* get(size_t n, size_t al, bool arr) {
    if (depth && fail_in >= 0 && fail_in-- == 0) throw std::bad_alloc();
    const size_t asked = n;
    if (!n) n = 1;
    void* p;
    if (al <= alignof(std::max_align_t)) p = malloc(n);
    else { if (posix_memalign(&p, al, n)) p = nullptr; }
    if (!p) throw std::bad_alloc();
    if (depth) { memset(p, 0xA5, n); add(p, asked, -1, int(al), arr); if (on_get) on_get(tag); }
    return p;
}
inline void put(void* p, size_t al, bool arr, size_t n = size_t(-1)) {
    if (!p) return;
    if (Rec* r = find(p)) {
        if (r->alloc != -1) error = "storage of a custom allocator given to operator delete";
        else {
            if (r->arr != arr) error = "new and delete do not match (array form)";
            if (size_t(r->al) != al) error = "new and delete do not match (alignment)";
            if (n != size_t(-1) && r->n != n) error = "new and delete do not match (size)";
        }
        UNPOISON(p, r->n);
        memset(p, 0xEE, r->n);
        remove(r);
    }
    free(p);
}
}
void* operator new(size_t n) { return mem::get(n, 0, false); }
void* operator new(size_t n, std::align_val_t a) { return mem::get(n, size_t(a), false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return mem::get(n, 0, false); } catch (...) { return nullptr; } }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { try { return mem::get(n, size_t(a), false); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { mem::put(p, 0, false); }
void operator delete(void* p, size_t n) noexcept { mem::put(p, 0, false, n); }
void operator delete(void* p, std::align_val_t a) noexcept { mem::put(p, size_t(a), false); }
void operator delete(void* p, size_t n, std::align_val_t a) noexcept { mem::put(p, size_t(a), false, n); }
void operator delete(void* p, const std::nothrow_t&) noexcept { mem::put(p, 0, false); }
void operator delete(void* p, std::align_val_t a, const std::nothrow_t&) noexcept { mem::put(p, size_t(a), false); }
void* operator new[](size_t n) { return mem::get(n, 0, true); }
void* operator new[](size_t n, std::align_val_t a) { return mem::get(n, size_t(a), true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return mem::get(n, 0, true); } catch (...) { return nullptr; } }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { try { return mem::get(n, size_t(a), true); } catch (...) { return nullptr; } }
void operator delete[](void* p) noexcept { mem::put(p, 0, true); }
void operator delete[](void* p, size_t n) noexcept { mem::put(p, 0, true, n); }
void operator delete[](void* p, std::align_val_t a) noexcept { mem::put(p, size_t(a), true); }
void operator delete[](void* p, size_t n, std::align_val_t a) noexcept { mem::put(p, size_t(a), true, n); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { mem::put(p, 0, true); }
void operator delete[](void* p, std::align_val_t a, const std::nothrow_t&) noexcept { mem::put(p, size_t(a), true); }

// A stateful allocator: storage must come back to an equal allocator, with the
// same type and count.
template <typename T>
struct TAlloc {
    using value_type = T;
    int id;
    TAlloc() : id(0) {}
    explicit TAlloc(int i) : id(i) {}
    template <typename U> TAlloc(const TAlloc<U>& o) : id(o.id) {}
    T* allocate(size_t n) {
        if (mem::fail_in >= 0 && mem::fail_in-- == 0) throw std::bad_alloc();
        void* p;
        if (posix_memalign(&p, alignof(T) < 16 ? 16 : alignof(T), n * sizeof(T))) abort();
        memset(p, 0xA5, n * sizeof(T));
        mem::add(p, n * sizeof(T), id);
        if (mem::on_get) mem::on_get(mem::tag);
        return (T*)p;
    }
    void deallocate(T* p, size_t n) {
        mem::Rec* r = mem::find(p);
        if (!r) { mem::error = "deallocate of unknown storage"; return; }
        if (r->alloc == -1) mem::error = "storage of operator new given to a custom allocator";
        if (r->alloc != id) mem::error = "storage returned to an allocator that is not equal to its source";
        if (r->n != n * sizeof(T)) mem::error = "storage returned with a different type or count";
        UNPOISON(p, r->n);
        memset((void*)p, 0xEE, r->n);
        mem::remove(r);
        free((void*)p);
    }
    friend bool operator==(const TAlloc& a, const TAlloc& b) { return a.id == b.id; }
    friend bool operator!=(const TAlloc& a, const TAlloc& b) { return a.id != b.id; }
};
