// Controlled scheduler: runs multi-threaded programs compiled with
// -fsanitize=thread, whose instrumentation calls end up here, on fibers.  Every
// atomic operation is a scheduling point.  All schedules with few preemptions
// are enumerated, then random ones.  Each execution's labels are checked against
// the automaton TLC printed; its accesses against the happens-before relation of
// the C++ memory model and against the lifetime of the memory.
#include "rt.hpp"
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <algorithm>
#include <new>
#include <csignal>
#include <unistd.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/file.h>

// ---------------------------------------------------------------- fibers
extern "C" void rt_switch(void** save, void* to);
asm(R"(
.text
.globl rt_switch
.type rt_switch,@function
rt_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size rt_switch,.-rt_switch
)");

constexpr int MaxT = 6;              // 0: setup and teardown
constexpr size_t StackSize = 256 * 1024, ArenaSize = 64 * 1024;
typedef uint16_t Clk;

enum { Relaxed, Consume, Acquire, Release, AcqRel, SeqCst };
static bool acq(int o) { o &= 0xff; return o == Acquire || o == Consume || o == AcqRel || o == SeqCst; }
static bool rel(int o) { o &= 0xff; return o == Release || o == AcqRel || o == SeqCst; }

struct VC { Clk c[MaxT]; void join(const VC& o) { for (int i = 0; i < MaxT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };

struct Fiber {
    void* sp; char* stack;
    bool live, waiting, inv;
    int tag;
    void* lock;            // waits for this lock of the program's own
    int spin; uint64_t spinver;
    int pc;
    VC vc, acqf, relf;     // what it knows, what an acquire fence would add, what a release fence published
};
static Fiber fb[MaxT];
static void* mainsp;
static int cur = -1;
static int quiet = 0;

alignas(64) static char arena[ArenaSize];
static size_t used;
struct Alloc { uint32_t off, n; int tag; bool obj, freed; };
static std::vector<Alloc> allocs;
static uint16_t owner_of[ArenaSize / 8 + 1];      // allocation, 1-based
static int cblive[64], cbfreed[64], destroyed[64];

struct Shadow { uint32_t exec; uint32_t key; Clk w; uint8_t wt; Clk r[MaxT], ar[MaxT], aw[MaxT]; };
static Shadow shadow[ArenaSize];
static uint32_t execno = 0;

struct Sync { uint32_t exec; VC rel; bool any; };
static Sync syncs[ArenaSize];
struct MyLock { int holder; VC rel; bool any; };
static std::map<const void*, MyLock> locks;

static uint64_t ver;                  // counts modifications of atomic variables
static int forced;                    // operations since then with everybody waiting
static std::vector<uint32_t> racy;    // bytes on which accesses raced: also scheduling points
static bool israce[ArenaSize];

// ---------------------------------------------------------------- failures
struct Label { char k; int t, a; };
static std::vector<Label> labels;
struct Failure { bool set; std::string facet, msg; };
static Failure failure, race;
struct Choice { int n, k, cost[MaxT]; };
static std::vector<Choice> trail;
static size_t trailpos;
static const Scn* scn;
static bool running;                  // an execution is going on
static bool threads_on;
// the runtime's own containers must not use the arena
struct Own { bool r; Own() : r(running) { running = false; } ~Own() { running = r; } };

static void leave() { void* dummy; rt_switch(&dummy, mainsp); abort(); }
static void vfail(const char* facet, const char* fmt, va_list ap) {
    if (failure.set) leave();
    Own o_;
    char b[600];
    vsnprintf(b, sizeof b, fmt, ap);
    failure = {true, facet, b};
    leave();
}
void rt_fail(const char* facet, const char* fmt, ...) { va_list ap; va_start(ap, fmt); vfail(facet, fmt, ap); }

RtQuiet::RtQuiet() { ++quiet; }
RtQuiet::~RtQuiet() { --quiet; }

// ---------------------------------------------------------------- the specification's automaton
struct Aut {
    struct E { int lab, to; };
    std::vector<std::vector<E>> out;          // lab -1: internal
    std::map<std::vector<int>, int> ids;
    std::vector<std::vector<int>> sets;
    std::vector<std::unordered_map<int, int>> next;
    int init = -1;
    static int lab(char k, int t, int a) { return (k << 20) | (t << 16) | ((a + 64) & 0xffff); }
    int closed(std::vector<int> s) {
        std::vector<int> todo = s;
        while (!todo.empty()) {
            int x = todo.back(); todo.pop_back();
            for (auto& e : out[x]) if (e.lab == -1 && std::find(s.begin(), s.end(), e.to) == s.end()) { s.push_back(e.to); todo.push_back(e.to); }
        }
        std::sort(s.begin(), s.end());
        auto it = ids.find(s);
        if (it != ids.end()) return it->second;
        int id = (int)sets.size();
        ids[s] = id; sets.push_back(s); next.emplace_back();
        return id;
    }
    int step(int d, int lb) {
        auto it = next[d].find(lb);
        if (it != next[d].end()) return it->second;
        std::vector<int> s;
        for (int x : sets[d]) for (auto& e : out[x]) if (e.lab == lb && std::find(s.begin(), s.end(), e.to) == s.end()) s.push_back(e.to);
        int r = s.empty() ? -1 : closed(s);
        next[d][lb] = r;
        return r;
    }
    std::string allowed(int d) {
        std::string r;
        std::vector<int> seen;
        for (int x : sets[d]) for (auto& e : out[x]) if (e.lab != -1 && std::find(seen.begin(), seen.end(), e.lab) == seen.end()) {
            seen.push_back(e.lab);
            char b[64]; snprintf(b, sizeof b, "%s%c %d %d", r.empty() ? "" : ", ", e.lab >> 20, (e.lab >> 16) & 15, (e.lab & 0xffff) - 64); r += b;
        }
        return r;
    }
};
static std::vector<Aut> auts;         // by scenario
static int dstate;
static long nlabels;

static void label(char k, int a) {
    if (!threads_on) return;
    Own o_;
    labels.push_back({k, cur, a});
    if (dstate < 0) return;
    ++nlabels;
    Aut& u = auts[scn->id];
    int d = u.step(dstate, Aut::lab(k, cur, a));
    if (d < 0) {
        std::string al = u.allowed(dstate);
        dstate = -1;
        const char* what = k == 'R' ? "returned" : k == 'D' ? "destroyed object" : k == 'F' ? "freed the control block of object" : "invoked";
        rt_fail("spec", "thread %d %s %d; the specification allows %s", cur, what, a, al.c_str());
    }
    dstate = d;
}
static void flush_invoke() {
    if (cur > 0 && fb[cur].inv) { fb[cur].inv = false; label('I', 0); }
}
void rt_invoke() { fb[cur].inv = true; ++fb[cur].pc; }
void rt_return(int r) { flush_invoke(); label('R', r); }
void rt_destroyed(int o) {
    if (o < 1 || o >= 64) rt_fail("mem", "destructor of something that is no object");
    if (++destroyed[o] > 1) rt_fail("mem", "object %d destroyed twice", o);
    flush_invoke();
    label('D', o);
}
unsigned rt_form(unsigned n) {
    unsigned h = 2166136261u;
    for (int x : {scn->id, cur, fb[cur].pc}) h = (h ^ (unsigned)(x + 77)) * 16777619u;
    h ^= h >> 15; h *= 0x2c1b3c6d; h ^= h >> 12;
    return h % n;
}
void rt_tag(int o) { fb[cur].tag = o; }
int rt_self() { return cur; }

// ---------------------------------------------------------------- recorded events
struct Ev { char k; int t, off, n, order; };
static bool tracing;
static std::vector<Ev> events;

// ---------------------------------------------------------------- scheduling
static std::vector<int> forcedchoices;    // replay
static bool replaying;
static uint64_t rng;
static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
static int bound;                 // preemptions allowed, used
static bool random_mode; static int random_p;

static int choose(int n, const int* cost) {
    if (n == 1) return 0;
    Own o_;
    int k = 0;
    if (trailpos < trail.size()) {
        Choice& c = trail[trailpos];
        if (c.n != n) { failure = {true, "harness", "execution is not deterministic"}; leave(); }
        k = c.k;
    }
    else {
        Choice c; c.n = n; for (int i = 0; i < n; ++i) c.cost[i] = cost[i];
        if (replaying) k = trailpos < forcedchoices.size() ? forcedchoices[trailpos] : 0;
        else if (random_mode && (cost[n - 1] == 0 || (int)(rnd() % 100) < random_p)) k = rnd() % n;
        if (k >= n) k = 0;
        c.k = k;
        trail.push_back(c);
    }
    ++trailpos;
    return k;
}

static void switch_to(int t) {
    if (t == cur) return;
    int me = cur;
    cur = t;
    rt_switch(&fb[me].sp, fb[t].sp);
}
// a thread that waits by repeating itself is passed over until something changes; in a stubborn
// execution it may first go on alone for long: a lock must not be given up after a while
static bool stubborn = false;
enum { Patience = 9000 };
static bool soft(int t) { return fb[t].spin >= 4 && fb[t].spinver == ver; }
static bool hard(int t) {
    if (fb[t].lock && locks[fb[t].lock].holder) return true;
    if (fb[t].waiting) {
        for (int u = 1; u <= scn->nt; ++u) if (u != t && fb[u].live && !fb[u].waiting) return true;
    }
    return false;
}
// picks who goes on; the current thread may be finished
static void schedule() {
    if (stubborn && fb[cur].live && !hard(cur) && soft(cur) && fb[cur].spin < Patience) return;
    bool curok = fb[cur].live && !hard(cur) && !soft(cur);
    int opts[MaxT], cost[MaxT], n = 0;
    if (curok) { opts[n] = cur; cost[n++] = 0; }
    for (int t = 1; t <= scn->nt; ++t) if (t != cur && fb[t].live && !hard(t) && !soft(t)) { opts[n] = t; cost[n++] = curok ? 1 : 0; }
    if (n) { forced = 0; switch_to(opts[choose(n, cost)]); return; }
    // everybody spins: let them, in turn, for a while
    int c = 0;
    for (int t = 1; t <= scn->nt; ++t) if (fb[t].live && !hard(t)) opts[c++] = t;
    if (!c) {
        bool any = false;
        for (int t = 1; t <= scn->nt; ++t) any = any || fb[t].live;
        if (!any) leave();
        rt_fail("stuck", "all threads wait for each other");
    }
    if (++forced > 3000) {
        Own o_;
        std::string w;
        for (int i = 0; i < c; ++i) { char b[40]; snprintf(b, sizeof b, "%s%d (call %d)", i ? ", " : "", opts[i], fb[opts[i]].pc); w += b; }
        rt_fail("stuck", "no call finishes any more: thread %s repeats itself forever", w.c_str());
    }
    switch_to(opts[(forced / 40) % c]);
}
static void point() {
    if (!threads_on || quiet) return;
    schedule();
    flush_invoke();
}
static void spins(bool changed, bool rmw) {
    if (!running || cur < 0) return;
    if (!threads_on) {
        if (changed) forced = 0; else if (++forced > 100000) rt_fail("stuck", "a call made by a single thread never returns");
        return;
    }
    Fiber& f = fb[cur];
    if (changed) { ++ver; f.spin = 0; forced = 0; return; }
    if (f.spinver != ver) { f.spin = 0; f.spinver = ver; }
    f.spin += rmw ? 2 : 1;
}

// ---------------------------------------------------------------- memory
static bool inarena(const void* p) { return (const char*)p >= arena && (const char*)p < arena + ArenaSize; }
static Alloc* alloc_at(const void* p) {
    if (!inarena(p)) return nullptr;
    int i = owner_of[((const char*)p - arena) / 8];
    if (!i) return nullptr;
    Alloc& a = allocs[i - 1];
    uint32_t off = (const char*)p - arena;
    if (off < a.off || off >= a.off + a.n) return nullptr;
    return &a;
}
static void* arena_alloc(size_t n, size_t al, bool obj) {
    if (!n) n = 1;
    if (al < 16) al = 16;
    size_t off = (used + 16 + al - 1) / al * al;
    if (off + n + 16 > ArenaSize) rt_fail("mem", "allocates without end");
    if (allocs.size() > 500) rt_fail("mem", "allocates without end");
    used = off + n;
    int tag = cur >= 0 ? fb[cur].tag : 0;
    allocs.push_back({(uint32_t)off, (uint32_t)n, tag, obj, false});
    for (size_t i = off / 8; i * 8 < off + n; ++i) owner_of[i] = (uint16_t)allocs.size();
    if (!obj) ++cblive[tag];
    memset(arena + off, 0xA5, n);
    return arena + off;
}
static void access(const void* p, size_t n, char kind);    // r w: plain, R W: atomic, F: free
static void arena_free(void* p) {
    Alloc* a = alloc_at(p);
    if (!a || arena + a->off != p) rt_fail("mem", "frees what was not allocated");
    if (a->freed) rt_fail("mem", "frees the same storage twice (object %d)", a->tag);
    access(p, a->n, 'F');
    a->freed = true;
    if (!a->obj && a->tag && --cblive[a->tag] == 0) {
        if (++cbfreed[a->tag] > 1) rt_fail("mem", "control block of object %d freed twice", a->tag);
        flush_invoke();
        label('F', a->tag);
    }
}
void* rt_alloc_object(size_t n) { return arena_alloc(n, 16, true); }
int rt_tag_of(const void* p) { Alloc* a = alloc_at(p); return !a ? -1 : a->freed ? -2 : a->tag; }
bool rt_live(const void* p) { Alloc* a = alloc_at(p); return a && !a->freed; }

void* operator new(size_t n) { return running ? arena_alloc(n, 16, false) : malloc(n ? n : 1); }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, std::align_val_t a) { return running ? arena_alloc(n, (size_t)a, false) : aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { if (!p) return; if (inarena(p)) arena_free(p); else free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { operator delete(p); }

static void raced(const char* a, const char* b, int t, uint32_t off) {
    Own o_;
    if (!israce[off]) { israce[off] = true; racy.push_back(off); }
    if (race.set) return;
    Alloc* al = alloc_at(arena + off);
    char m[300];
    snprintf(m, sizeof m, "%s of thread %d and %s of thread %d do not happen one before the other (%s%d, byte %d)", a, t, b, cur,
             !al || !al->tag ? "shared variable " : al->obj ? "object " : "control block of object ", al ? al->tag : 0, (int)(al ? off - al->off : 0));
    race = {true, "race", m};
}

static void access(const void* p, size_t n, char kind) {
    if (!running || cur < 0 || quiet) return;
    if (!inarena(p)) {
        if ((uintptr_t)p < 4096) rt_fail("mem", "access through a null pointer");
        if ((uintptr_t)p >> 47) rt_fail("mem", "access through a wild pointer");
        return;
    }
    Alloc* a = alloc_at(p);
    if (!a || (const char*)p - arena + n > a->off + a->n) rt_fail("mem", "access outside of any storage");
    if (a->freed) rt_fail("mem", "access to freed storage (%s %d)", a->obj ? "object" : "control block of object", a->tag);
    uint32_t off = (const char*)p - arena;
    if ((kind == 'r' || kind == 'w') && threads_on && !racy.empty())
        for (size_t i = 0; i < n; ++i) if (israce[off + i]) { point(); if (kind == 'w') { ++ver; forced = 0; } break; }
    if (a->freed) rt_fail("mem", "access to freed storage (%s %d)", a->obj ? "object" : "control block of object", a->tag);
    if (tracing) { Own o_; events.push_back({kind, cur, (int)off, (int)n, 0}); }
    const Fiber& f = fb[cur];
    const Clk me = f.vc.c[cur];
    uint32_t key = ((uint32_t)me << 12) | (cur << 8) | (uint8_t)kind;
    for (size_t i = 0; i < n; ++i) {
        Shadow& s = shadow[off + i];
        if (s.exec != execno) { memset(&s, 0, sizeof s); s.exec = execno; s.wt = 255; }
        else if (s.key == key) continue;
        s.key = key;
        bool plain = kind == 'r' || kind == 'w' || kind == 'F';
        bool write = kind == 'w' || kind == 'F' || kind == 'W';
        const char* what = kind == 'F' ? "freeing" : kind == 'w' ? "write" : kind == 'r' ? "read" : "atomic access";
        if (s.wt != 255 && s.wt != cur && s.w > f.vc.c[s.wt]) raced("write", what, s.wt, off + i);
        for (int t = 0; t < MaxT; ++t) {
            if (t == cur) continue;
            if (plain && s.aw[t] > f.vc.c[t]) raced("atomic access", what, t, off + i);
            if (plain && write && s.ar[t] > f.vc.c[t]) raced("atomic access", what, t, off + i);
            if (write && s.r[t] > f.vc.c[t]) raced("read", what, t, off + i);
        }
        if (kind == 'w' || kind == 'F') { s.w = me; s.wt = cur; }
        else if (kind == 'r') s.r[cur] = me;
        else if (kind == 'R') s.ar[cur] = me;
        else s.aw[cur] = me;
    }
}
// the effect of an atomic operation on what threads know
static void synced(const void* p, size_t n, bool reads, bool writes, int order) {
    if (!running || cur < 0) return;
    access(p, n, writes ? 'W' : 'R');
    if (!inarena(p)) return;
    uint32_t off = (const char*)p - arena;
    if (tracing && !quiet) { events.back().k = reads && writes ? 'X' : writes ? 'S' : 'L'; events.back().order = order & 0xff; }
    Sync& s = syncs[off];
    if (s.exec != execno) { s.exec = execno; memset(&s.rel, 0, sizeof s.rel); s.any = true; }
    Fiber& f = fb[cur];
    if (reads) { f.acqf.join(s.rel); if (acq(order)) f.vc.join(s.rel); }
    if (writes) {
        VC v = f.relf;
        if (rel(order)) v.join(f.vc);
        if (reads) s.rel.join(v); else s.rel = v;     // read-modify-writes continue the release sequence
        if (rel(order)) ++f.vc.c[cur];
    }
}
static void fence(int order) {
    if (!running || cur < 0) return;
    Fiber& f = fb[cur];
    if (tracing) { Own o_; events.push_back({'N', cur, 0, 0, order & 0xff}); }
    if (acq(order)) f.vc.join(f.acqf);
    if (rel(order)) { f.relf.join(f.vc); ++f.vc.c[cur]; }
}

// ---------------------------------------------------------------- locks
static void event(char k, const void* p = nullptr) {
    if (!tracing) return;
    Own o_;
    events.push_back({k, cur, inarena(p) ? (int)((const char*)p - arena) : 0, 0, 0});
}
static void lock_lock(void* p) {
    while (true) {
        point();
        MyLock* l; { Own o_; l = &locks[p]; }
        if (!l->holder) { l->holder = cur + 1; fb[cur].vc.join(l->rel); ++ver; event('K', p); return; }
        if (!threads_on) rt_fail("stuck", "a lock is taken twice");
        fb[cur].lock = p;
        schedule();
        fb[cur].lock = nullptr;
    }
}
static bool lock_try(void* p) {
    point();
    MyLock* l; { Own o_; l = &locks[p]; }
    if (l->holder) { spins(false, true); return false; }
    l->holder = cur + 1; fb[cur].vc.join(l->rel); ++ver;
    event('K', p);
    return true;
}
static void lock_unlock(void* p) {
    MyLock* l; { Own o_; l = &locks[p]; }
    l->rel.join(fb[cur].vc); ++fb[cur].vc.c[cur];
    event('U', p);
    l->holder = 0; ++ver;
    point();
}
void rt_lock(void* p) { lock_lock(p); }
void rt_unlock(void* p) { lock_unlock(p); }
void rt_wait() {
    if (!threads_on) return;
    fb[cur].waiting = true;
    while (hard(cur)) schedule();
    fb[cur].waiting = false;
    ++ver;
}

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { if (running && cur >= 0) lock_lock(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { return running && cur >= 0 ? (lock_try(m) ? 0 : 16) : 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (running && cur >= 0) lock_unlock(m); return 0; }
int pthread_spin_lock(pthread_spinlock_t* m) { if (running && cur >= 0) lock_lock((void*)m); return 0; }
int pthread_spin_trylock(pthread_spinlock_t* m) { return running && cur >= 0 ? (lock_try((void*)m) ? 0 : 16) : 0; }
int pthread_spin_unlock(pthread_spinlock_t* m) { if (running && cur >= 0) lock_unlock((void*)m); return 0; }
int sched_yield() { if (running && cur >= 0 && threads_on) { spins(false, true); point(); } return 0; }
int nanosleep(const struct timespec*, struct timespec*) { return sched_yield(); }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { return sched_yield(); }
int usleep(useconds_t) { return sched_yield(); }

// ---------------------------------------------------------------- instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* p) { access(p, n, 'r'); } \
    void __tsan_write##n(void* p) { access(p, n, 'w'); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, 'r'); } \
    void __tsan_unaligned_write##n(void* p) { access(p, n, 'w'); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, 'r'); } \
    void __tsan_volatile_write##n(void* p) { access(p, n, 'w'); } \
    void __tsan_read_write##n(void* p) { access(p, n, 'r'); access(p, n, 'w'); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, 'w'); }
void __tsan_vptr_read(void** p) { access(p, 8, 'r'); }
void __tsan_read_range(void* p, size_t n) { if (n) access(p, n, 'r'); }
void __tsan_write_range(void* p, size_t n) { if (n) access(p, n, 'w'); }
void* __tsan_memset(void* p, int c, size_t n) { if (n) access(p, n, 'w'); return memset(p, c, n); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { access(s, n, 'r'); access(d, n, 'w'); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { access(s, n, 'r'); access(d, n, 'w'); } return memmove(d, s, n); }
void __tsan_atomic_thread_fence(int o) { point(); fence(o); }
void __tsan_atomic_signal_fence(int) {}
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void*, unsigned, int) {}
int __tsan_mutex_pre_unlock(void*, unsigned) { return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_mutex_pre_divert(void*, unsigned) {}
void __tsan_mutex_post_divert(void*, unsigned) {}

static void checkmem(const volatile void* p) {
    if (!running || cur < 0 || quiet) return;
    if ((uintptr_t)p < 4096) rt_fail("mem", "atomic access through a null pointer");
    if (inarena((const void*)p)) {
        Alloc* a = alloc_at((const void*)p);
        if (!a) rt_fail("mem", "atomic access outside of any storage");
        if (a->freed) rt_fail("mem", "atomic access to freed storage (%s %d)", a->obj ? "object" : "control block of object", a->tag);
    }
    else if ((uintptr_t)p >> 47) rt_fail("mem", "access through a wild pointer");
}
static int spurious() {      // a weak compare-exchange may fail for no reason
    if (!threads_on || quiet) return 0;
    static const int cost[2] = {0, 1};
    return choose(2, cost);
}
#define AT(B, T) \
    T __tsan_atomic##B##_load(const volatile T* p, int o) { point(); checkmem(p); T v = *p; synced((const void*)p, sizeof(T), true, false, o); spins(false, false); return v; } \
    void __tsan_atomic##B##_store(volatile T* p, T v, int o) { point(); checkmem(p); bool ch = *p != v; synced((const void*)p, sizeof(T), false, true, o); *p = v; spins(ch, false); } \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int o) { point(); checkmem(p); T r = *p; synced((const void*)p, sizeof(T), true, true, o); *p = v; spins(r != v, true); return r; } \
    static T rmw##B(volatile T* p, T v, int o, int op) { point(); checkmem(p); T r = *p, w = r; \
        switch (op) { case 0: w = r + v; break; case 1: w = r - v; break; case 2: w = r & v; break; case 3: w = r | v; break; case 4: w = r ^ v; break; default: w = ~(r & v); } \
        synced((const void*)p, sizeof(T), true, true, o); *p = w; spins(r != w, true); return r; } \
    T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int o) { return rmw##B(p, v, o, 0); } \
    T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int o) { return rmw##B(p, v, o, 1); } \
    T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int o) { return rmw##B(p, v, o, 2); } \
    T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int o) { return rmw##B(p, v, o, 3); } \
    T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int o) { return rmw##B(p, v, o, 4); } \
    T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int o) { return rmw##B(p, v, o, 5); } \
    static int cas##B(volatile T* p, T* e, T v, int so, int fo, bool weak) { point(); checkmem(p); T r = *p; \
        bool ok = r == *e && !(weak && spurious()); \
        if (ok) { synced((const void*)p, sizeof(T), true, true, so); *p = v; spins(r != v, true); } \
        else { synced((const void*)p, sizeof(T), true, false, fo); *e = r; spins(false, true); } \
        return ok; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int so, int fo) { return cas##B(p, e, v, so, fo, false); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int so, int fo) { return cas##B(p, e, v, so, fo, true); } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int so, int fo) { T x = e; cas##B(p, &x, v, so, fo, false); return x; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
extern char __libc_single_threaded;
}

// ---------------------------------------------------------------- one execution
static void fiber_main();
static void start(int t) {
    Fiber& f = fb[t];
    void** s = (void**)(f.stack + StackSize - 64);
    *--s = nullptr;                       // alignment and a null return address
    *--s = (void*)&fiber_main;
    for (int i = 0; i < 6; ++i) *--s = nullptr;
    f.sp = s;
}
static int phase;
static void fiber_main() {
    if (cur == 0) { if (phase == 0) ops_setup(*scn); else ops_teardown(*scn); leave(); }
    ops_thread(*scn, cur - 1);
    flush_invoke();
    fb[cur].live = false;
    ++ver;
    schedule();
    leave();
}
static void run_phase(int t) { start(t); cur = t; rt_switch(&mainsp, fb[t].sp); }

static void execute() {
    ++execno;
    memset(owner_of, 0, (used / 8 + 16) * sizeof owner_of[0]);
    used = 0; allocs.clear(); allocs.reserve(512);
    memset(cblive, 0, sizeof cblive); memset(cbfreed, 0, sizeof cbfreed); memset(destroyed, 0, sizeof destroyed);
    locks.clear(); labels.clear(); labels.reserve(256); events.clear();
    failure.set = race.set = false;
    trailpos = 0; trail.reserve(8192);
    ver = 1; forced = 0; quiet = 0;
    for (auto& f : fb) { f.live = f.waiting = f.inv = false; f.tag = 0; f.lock = nullptr; f.spin = 0; f.spinver = 0; f.pc = -1; memset(&f.vc, 0, sizeof(VC)); memset(&f.acqf, 0, sizeof(VC)); memset(&f.relf, 0, sizeof(VC)); }
    fb[0].live = true; fb[0].vc.c[0] = 1;
    threads_on = false; phase = 0;
    dstate = auts.empty() ? -1 : auts[scn->id].init;
    running = true;
    { int cost[2] = {0, 1000}; bool r = random_mode; random_mode = false; stubborn = choose(2, cost); random_mode = r; }
    if (stubborn) tracing = false;
    run_phase(0);
    if (!failure.set) {
        for (int t = 1; t <= scn->nt; ++t) { fb[t].vc = fb[0].vc; fb[t].vc.c[t] = 1; fb[t].live = true; start(t); }
        ++fb[0].vc.c[0];
        cur = 0; event('B');
        fb[0].live = false;
        threads_on = true;
        // which thread starts is a choice too
        int cost[MaxT] = {0};
        cur = 1 + choose(scn->nt, cost);
        rt_switch(&mainsp, fb[cur].sp);
        threads_on = false;
    }
    if (!failure.set) {
        for (int t = 1; t <= scn->nt; ++t) fb[0].vc.join(fb[t].vc);
        fb[0].live = true; fb[0].tag = 0; phase = 1;
        cur = 0; event('J');
        run_phase(0);
    }
    running = false;
    cur = -1;
    if (!failure.set)
        for (auto& a : allocs) if (!a.freed) {
            char m[200];
            if (a.obj || (a.tag && !destroyed[a.tag])) snprintf(m, sizeof m, "object %d is never destroyed", a.tag);
            else snprintf(m, sizeof m, "the control block of object %d is never freed", a.tag);
            failure = {true, "leak", m};
            break;
        }
}

// ---------------------------------------------------------------- enumeration
static bool next_schedule() {     // the next in depth-first order within the bound
    while (!trail.empty()) {
        int spent = 0;
        for (size_t i = 0; i + 1 < trail.size(); ++i) spent += trail[i].cost[trail[i].k];
        Choice& c = trail.back();
        while (++c.k < c.n) if (spent + c.cost[c.k] <= bound) return true;
        trail.pop_back();
    }
    return false;
}

struct Shared { volatile long next, fails, execs, labels, done, complete, races, foreign, unconf; long bynum[8]; };
static Shared* shm;
static std::vector<Scn> scns;
static std::vector<std::string> names;
static int argmax = 5, maxexec = 2000, maxbound = 3;
static std::string facets = "spec,mem,leak,crash,stuck,race";
static double t0, limit = 600;
static uint64_t seed = 1;
static std::string only_choices; static int only = -1;
static int ntrace = 0;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static bool wanted(const std::string& f) { return ("," + facets + ",").find("," + f + ",") != std::string::npos; }

static std::string esc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if ((unsigned char)c >= 32) r += c; } return r; }
static std::string shown_labels() {
    std::string r;
    for (auto& l : labels) { char b[32]; snprintf(b, sizeof b, "%s%c%d %d", r.empty() ? "" : ", ", l.k, l.t, l.a); r += b; }
    return r;
}
static std::string choices() { std::string r; for (auto& c : trail) { if (!r.empty()) r += ","; r += std::to_string(c.k); } return r; }
static std::string racylist() { std::string r; for (auto o : racy) { if (!r.empty()) r += ","; r += std::to_string(o); } return r; }
static void out(const std::string& s) {
    flock(1, LOCK_EX);
    size_t i = 0;
    while (i < s.size()) { ssize_t k = write(1, s.data() + i, s.size() - i); if (k <= 0) break; i += k; }
    flock(1, LOCK_UN);
}
static void report(const Failure& f) {
    out("FAIL {\"facet\": \"" + f.facet + "\", \"msg\": \"" + esc(f.msg) + "\", \"scenario\": " + std::to_string(scn->id + 1) + ", \"program\": \"" + esc(names[scn->id]) +
        "\", \"racy\": \"" + racylist() + "\", \"choices\": \"" + choices() + "\", \"labels\": \"" + esc(shown_labels()) + "\"}\n");
}
static void print_trace() {
    // bytes always accessed together are one location
    std::map<int, std::vector<int>> touched; std::map<int, int> users;
    for (size_t i = 0; i < events.size(); ++i) { auto& e = events[i]; for (int j = 0; j < e.n; ++j) { touched[e.off + j].push_back((int)i); users[e.off + j] |= 1 << e.t; } }
    std::map<std::vector<int>, int> cls; std::map<int, int> lockid;
    std::string r = "TRACE {\"scenario\": " + std::to_string(scn->id + 1) + ", \"race\": " + (race.set ? "true" : "false") + ", \"threads\": " + std::to_string(scn->nt) + ", \"events\": [";
    bool first = true;
    for (auto& e : events) {
        std::string locs;
        if (e.k == 'K' || e.k == 'U') { int k = lockid.emplace(e.off, (int)lockid.size() + 1).first->second; locs = std::to_string(k); }
        int prev = 0;
        std::vector<int> seen;
        for (int i = 0; i < e.n; ++i) {
            int u = users[e.off + i];
            u &= ~1;                              // the main thread's come before or after all others
            if (!(u & (u - 1))) continue;        // used by one thread only
            auto& v = touched[e.off + i];
            int k = cls.emplace(v, (int)cls.size() + 1).first->second;
            if (k == prev) continue;
            prev = k;
            if (std::find(seen.begin(), seen.end(), k) != seen.end()) continue;
            seen.push_back(k);
            locs += (locs.empty() ? "" : ",") + std::to_string(k);
            if (e.k == 'L' || e.k == 'S' || e.k == 'X') break;
        }
        if (locs.empty() && !strchr("NBJ", e.k)) continue;
        char b[100];
        snprintf(b, sizeof b, "%s[\"%c\",%d,[", first ? "" : ",", e.k, e.t); r += b; r += locs;
        snprintf(b, sizeof b, "],%d]", e.order); r += b;
        first = false;
    }
    out(r + "]}\n");
}
static volatile uint32_t alarm_exec = 0;
static void on_signal(int sig) {
    if (sig == SIGALRM) {
        if (alarm_exec != execno || !running) { alarm_exec = execno; alarm(20); return; }
        failure = {true, "stuck", "a call runs forever"};
        if (wanted("stuck")) { running = false; report(failure); __sync_fetch_and_add(&shm->fails, 1); } else __sync_fetch_and_add(&shm->foreign, 1);
        _exit(77);
    }
    if (running) {
        running = false;
        failure = {true, "crash", std::string("signal ") + std::to_string(sig)};
        if (wanted("crash")) { report(failure); __sync_fetch_and_add(&shm->fails, 1); } else __sync_fetch_and_add(&shm->foreign, 1);
        _exit(77);
    }
    _exit(78);
}
// true: go on with this scenario
static bool judge() {
    for (Failure* f : {&failure, &race}) {
        if (!f->set) continue;
        if (f == &race) __sync_fetch_and_add(&shm->races, 1);
        if (!wanted(f->facet)) { if (f == &failure) { __sync_fetch_and_add(&shm->foreign, 1); } continue; }
        // again, to be sure
        Failure was = *f;
        std::vector<Choice> t = trail;
        auto lab = labels;
        forcedchoices.clear(); for (auto& c : t) forcedchoices.push_back(c.k);
        replaying = true; trail.clear();
        execute();
        replaying = false;
        bool same = f->set && f->facet == was.facet;
        if (same || was.facet == "race") {
            if (!same) { trail = t; labels = lab; }      // the race's location became a scheduling point meanwhile
            else was = *f;
            if (__sync_add_and_fetch(&shm->fails, 1) <= argmax) report(was);
        }
        else __sync_fetch_and_add(&shm->unconf, 1);
        trail = t;
        return false;
    }
    return true;
}
static void explore(int i) {
    scn = &scns[i];
    for (uint32_t r : racy) israce[r] = false;
    racy.clear();
    long n = 0;
    bool complete = false, on = true;
    int traces = 0;
    auto one = [&] {
        tracing = ntrace && traces < ntrace && (n % 97 == 0);
        execute();
        ++n;
        if (tracing && !failure.set) { print_trace(); ++traces; }
        tracing = false;
        if (!judge()) { on = false; return; }
    };
    size_t nracy = 0;
    random_mode = false;
    bound = 0;
    while (on && bound <= maxbound && n < maxexec) {
        trail.clear();
        complete = true;
        bool again = false;
        do {
            one();
            if (racy.size() != nracy) { nracy = racy.size(); again = true; break; }   // new scheduling points: start over
            if (n >= maxexec) complete = false;
        } while (on && complete && next_schedule());
        if (again) { bound = 0; complete = false; continue; }
        if (on && complete && bound < 8) __sync_fetch_and_add(&shm->bynum[bound], 1);
        ++bound;
    }
    random_mode = true;
    rng = seed * 0x9E3779B97F4A7C15ull + i * 7919 + 12345;
    long extra = maxexec / 4;
    for (long k = 0; on && k < extra; ++k) { random_p = 10 + (k % 5) * 15; trail.clear(); if (k % 16 == 3) { Choice c; c.n = 2; c.k = 1; c.cost[0] = 0; c.cost[1] = 1000; trail.push_back(c); } one(); }
    random_mode = false;
    __sync_fetch_and_add(&shm->execs, n);
    if (complete) __sync_fetch_and_add(&shm->complete, 1);
    __sync_fetch_and_add(&shm->done, 1);
}

static void load_scenarios(const char* path) {
    FILE* f = fopen(path, "r");
    if (!f) { perror(path); exit(2); }
    static char line[8192];
    while (fgets(line, sizeof line, f)) {
        char* p = strtok(line, " \n");
        if (!p || strcmp(p, "SC")) continue;
        auto num = [] { return atoi(strtok(nullptr, " \n")); };
        Scn s{};
        s.id = num() - 1;
        s.no = num(); for (int i = 0; i < s.no; ++i) s.o[i] = num();
        s.nv = num(); for (int i = 0; i < s.nv; ++i) { s.v[i][0] = num(); s.v[i][1] = num(); }
        s.nq = num(); for (int i = 0; i < s.nq; ++i) s.q[i] = num();
        s.ng = num(); for (int i = 0; i < s.ng; ++i) s.g[i] = num();
        s.nh = num(); for (int i = 0; i < s.nh; ++i) s.h[i] = num();
        s.rc = num(); s.nt = num();
        std::string nm;
        for (int t = 0; t < s.nt; ++t) {
            Thr& h = s.t[t];
            h.ns = num(); for (int i = 0; i < h.ns; ++i) h.s[i] = num();
            h.nw = num(); for (int i = 0; i < h.nw; ++i) h.w[i] = num();
            h.own = num(); h.np = num();
            nm += t ? " || " : "";
            for (int i = 0; i < h.np; ++i) {
                strncpy(h.p[i].k, strtok(nullptr, " \n"), 3);
                h.p[i].a = num(); h.p[i].b = num(); h.p[i].c = num();
                char b[64]; snprintf(b, sizeof b, "%s%s %d %d %d", i ? "; " : "", h.p[i].k, h.p[i].a, h.p[i].b, h.p[i].c); nm += b;
            }
        }
        scns.push_back(s); names.push_back(nm);
    }
    fclose(f);
}
static long nedges, nnodes;
static void load_automaton(const char* path) {
    FILE* f = fopen(path, "r");
    if (!f) { perror(path); exit(2); }
    struct H { size_t operator()(const std::pair<int, int>& p) const { return (uint64_t)(uint32_t)p.first * 0x9E3779B97F4A7C15ull ^ (uint32_t)p.second; } };
    std::unordered_map<std::pair<int, int>, int, H> ids;
    struct Raw { int lab, from, to; };
    std::vector<Raw> raw;
    std::vector<std::pair<int, int>> starts;      // scenario, node
    auto id = [&](int a, int b) { auto r = ids.emplace(std::make_pair(a, b), (int)ids.size()); return r.first->second; };
    static char line[4096];
    while (fgets(line, sizeof line, f)) {
        int c, a, b, x, y, t, v; char k[4];
        if (sscanf(line, "\"S <<%d, <<%d, %d>>>>\"", &c, &a, &b) == 3) starts.push_back({c - 1, id(a, b)});
        else if (sscanf(line, "\"E <<<<\\\"%1[IRDF]\\\", %d, %d>>, <<%d, %d>>, <<%d, %d>>>>\"", k, &t, &v, &a, &b, &x, &y) == 7)
            raw.push_back({Aut::lab(k[0], t, v), id(a, b), id(x, y)});
        else if (sscanf(line, "\"E <<<<\\\"\\\", %d, %d>>, <<%d, %d>>, <<%d, %d>>>>\"", &t, &v, &a, &b, &x, &y) == 6)
            raw.push_back({-1, id(a, b), id(x, y)});
    }
    fclose(f);
    nedges = raw.size(); nnodes = ids.size();
    std::vector<std::vector<Aut::E>> g(ids.size());
    for (auto& r : raw) g[r.from].push_back({r.lab, r.to});
    auts.resize(scns.size());
    // two states of one scenario never belong to another
    for (auto& s : starts) {
        if (s.first < 0 || s.first >= (int)auts.size()) { fprintf(stderr, "automaton of an unknown scenario\n"); exit(2); }
        Aut& u = auts[s.first];
        std::unordered_map<int, int> loc;
        std::vector<int> todo{s.second};
        loc[s.second] = 0; u.out.emplace_back();
        while (!todo.empty()) {
            int x = todo.back(); todo.pop_back();
            std::vector<Aut::E> es;
            for (auto& e : g[x]) {
                auto r = loc.emplace(e.to, (int)u.out.size());
                if (r.second) { u.out.emplace_back(); todo.push_back(e.to); }
                es.push_back({e.lab, r.first->second});
            }
            u.out[loc[x]] = es;
        }
        u.init = u.closed({0});
    }
    for (auto& u : auts) if (u.init < 0) { fprintf(stderr, "a scenario has no automaton\n"); exit(2); }
}

int main(int argc, char** argv) {
    const char *sp = nullptr, *ap = nullptr;
    int workers = 1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return argv[++i]; };
        if (a == "--scn") sp = val(); else if (a == "--aut") ap = val(); else if (a == "--workers") workers = atoi(val());
        else if (a == "--maxexec") maxexec = atoi(val()); else if (a == "--bound") maxbound = atoi(val());
        else if (a == "--facets") facets = val(); else if (a == "--limit") limit = atof(val()); else if (a == "--seed") seed = strtoull(val(), nullptr, 10);
        else if (a == "--maxfail") argmax = atoi(val()); else if (a == "--only") only = atoi(val()) - 1; else if (a == "--choices") only_choices = val();
        else if (a == "--racy") for (const char* p = val(); *p;) { israce[atoi(p)] = true; racy.push_back(atoi(p)); while (*p && *p != ',') ++p; if (*p) ++p; }
        else if (a == "--trace") ntrace = atoi(val());
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    if (!sp) return 2;
    t0 = now();
    __libc_single_threaded = 0;
    load_scenarios(sp);
    if (ap) load_automaton(ap);
    for (auto& f : fb) f.stack = (char*)mmap(nullptr, StackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    shm = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    static char altstack[65536];
    stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
    if (only >= 0) {
        scn = &scns[only];
        for (const char* p = only_choices.c_str(); *p;) { forcedchoices.push_back(atoi(p)); while (*p && *p != ',') ++p; if (*p) ++p; }
        replaying = true;
        tracing = ntrace > 0;
        execute();
        printf("program: %s\nlabels: %s\n", names[only].c_str(), shown_labels().c_str());
        if (ntrace) { fflush(stdout); print_trace(); }
        if (race.set) printf("race: %s\n", race.msg.c_str());
        if (failure.set) printf("%s: %s\n", failure.facet.c_str(), failure.msg.c_str());
        return failure.set || race.set;
    }
    std::map<pid_t, int> kids;
    auto spawn = [&] {
        fflush(stdout);
        pid_t p = fork();
        if (p) { kids[p] = 1; return; }
        while (true) {
            if (now() - t0 > limit || shm->fails >= argmax) break;
            long i = __sync_fetch_and_add(&shm->next, 1);
            if (i >= (long)scns.size()) break;
            alarm(20);
            explore((int)i);
            alarm(0);
        }
        __sync_fetch_and_add(&shm->labels, nlabels);
        _exit(0);
    };
    for (int i = 0; i < workers; ++i) spawn();
    int crashes = 0, bad = 0;
    while (!kids.empty()) {
        int st; pid_t p = wait(&st);
        if (p < 0) break;
        kids.erase(p);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 77)) ++bad;
            if (++crashes < 40 && shm->fails < argmax) spawn();
        }
    }
    printf("DONE {\"scenarios\": %zu, \"explored\": %ld, \"complete\": %ld, \"executions\": %ld, \"labels_checked\": %ld, \"within_bound\": [%ld, %ld, %ld, %ld], \"failures\": %ld, \"foreign\": %ld, \"races\": %ld, \"unconfirmed\": %ld, \"crashes\": %d, \"lost_workers\": %d, \"states\": %ld, \"transitions\": %ld, \"seconds\": %.1f}\n",
           scns.size(), shm->done, shm->complete, shm->execs, shm->labels, shm->bynum[0], shm->bynum[1], shm->bynum[2], shm->bynum[3], shm->fails, shm->foreign, shm->races, shm->unconf, crashes, bad, nnodes, nedges, now() - t0);
    return 0;
}
