// Storage.tla's transitions in xmem::allocator.
#include <xmem/allocator.hpp>
#include <xmem/allocator_rebind.hpp>
#include "walk.hpp"
#include <memory>
extern "C" int __sanitizer_get_ownership(const volatile void*);
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*);
using walk::Val; using walk::fail;
struct Odd { char c[13]; };
struct Big { double d[9]; };
struct alignas(64) Wide { unsigned char c[64]; };
struct alignas(256) Wider { unsigned char c[512]; };
constexpr int N = 8;
template <typename T> struct type { using t = T; };
template <typename F> void with(int t, F&& f) {
    switch (t) {
    case 1: f(type<char>{}); break;
    case 2: f(type<Odd>{}); break;
    case 3: f(type<Big>{}); break;
    case 4: f(type<Wide>{}); break;
    case 5: f(type<Wider>{}); break;
    default: _exit(9);
    }
}
template <typename T, typename F> void by(const std::string& how, F&& f) {
    using A = xmem::allocator<T>;
    if (how == "own") { A a; f(a); }
    else if (how == "converted") { xmem::allocator<std::pair<T, long>> o; A a(o); A c(a); f(c); }
    else if (how == "rebound") { using R = typename xmem::allocator_rebind<xmem::allocator<long>>::template to<T>; xmem::allocator<long> o; R a = o; f(a); }
    else { A a; typename std::allocator_traits<A>::template rebind_alloc<T> r(a); f(r); }
}
struct World {
    struct Block { unsigned char* p = nullptr; size_t n = 0; };
    Block block[N];
    static unsigned char mark(int i, size_t at) { return static_cast<unsigned char>(i * 37 + int(at % 251)); }
    void reset() { for (auto& b : block) b = {}; }
    void intact(int i) { for (size_t k = 0; k < block[i].n; ++k) if (block[i].p[k] != mark(i, k)) { fail("storage " + std::to_string(i) + " is changed by others"); return; } }
    void put(int i, int t, int n, const std::string& how) {
        with(t, [&](auto ty) {
            using T = typename decltype(ty)::t;
            by<T>(how, [&](auto& a) {
                T* p = reinterpret_cast<T*>(block[i].p);
                using A = std::decay_t<decltype(a)>;
                if (how == "traits") std::allocator_traits<A>::deallocate(a, p, size_t(n)); else a.deallocate(p, size_t(n));
            });
        });
        if (__sanitizer_get_ownership(block[i].p)) fail("storage " + std::to_string(i) + " is not returned");
        block[i] = {};
    }
    void step(const walk::Edge& e, unsigned) {
        const std::string f = e.op[0].s, how = e.op[4].s;
        int i = e.op[1], t = e.op[2], n = e.op[3];
        for (int j = 1; j < N; ++j) intact(j);
        if (f == "Get") with(t, [&](auto ty) {
            using T = typename decltype(ty)::t;
            T* p = nullptr;
            by<T>(how, [&](auto& a) {
                using A = std::decay_t<decltype(a)>;
                static_assert(std::is_same_v<typename A::value_type, T>);
                if (how == "traits") p = std::allocator_traits<A>::allocate(a, size_t(n)); else p = a.allocate(size_t(n));
            });
            size_t bytes = sizeof(T) * size_t(n);
            if (!p) { fail("no storage"); return; }
            if (reinterpret_cast<uintptr_t>(p) % alignof(T)) { fail("storage is not aligned to " + std::to_string(alignof(T))); return; }
            if (!__sanitizer_get_ownership(p) || __sanitizer_get_allocated_size(p) < bytes) { fail("storage for " + std::to_string(n) + " objects of " + std::to_string(sizeof(T)) + " bytes is too small"); return; }
            block[i].p = reinterpret_cast<unsigned char*>(p); block[i].n = bytes;
            for (size_t k = 0; k < bytes; ++k) block[i].p[k] = mark(i, k);
        });
        else put(i, t, n, how);
        for (int j = 1; j < N; ++j) intact(j);
        for (size_t j = 0; j < e.ev.size(); ++j) fail("unexpected event");
        cur = walk::states[e.post];
    }
    Val cur;
    void teardown(unsigned v) {
        static const char* hows[] = {"own", "converted", "rebound", "traits"};
        for (size_t i = 0; i < cur.size(); ++i) if (int(cur[i][0])) put(int(i) + 1, cur[i][0], cur[i][1], hows[v % 4]);
    }
};
int main(int argc, char** argv) { return walk::main<World>(argc, argv); }
