// The programs: every operation in several forms, on xmem's pointers, with TRACK
// on xmem's pointers with a control block that registers its pointers, or, with
// STDP, on the standard library's with xstd's helpers.  Compiled with
// -fsanitize=thread against rt.cpp.
#include "rt.hpp"
#include <cstring>
#include <cstdio>
#include <new>
#include <vector>
#include <xmem/shared_ptr.hpp>
#include <xmem/basic_shared_from.hpp>
#include <xmem/local_shared_ptr.hpp>
#include <xmem/std_helpers.hpp>

#if STDP
template <typename T> using sptr = std::shared_ptr<T>;
template <typename T> using wptr = std::weak_ptr<T>;
template <typename T> using storage = xstd::atomic_shared_ptr_storage<T>;
template <typename T> using uptr = std::unique_ptr<T>;
struct Registered : xstd::enable_shared_from {
    template <typename T> sptr<T> lookup(T* p) { try { return shared_from(p); } catch (std::bad_weak_ptr&) { return {}; } }
    template <typename T> sptr<T> lookup2(T* p) { return lookup(p); }
};
#elif TRACK
// every pointer that refers to the block, by its address
struct Book {
    const void* p[64]; int n = 0;
    bool has(const void* x) const { for (int i = 0; i < n; ++i) if (p[i] == x) return true; return false; }
    void add(const void* x, const char* what) { if (has(x)) rt_fail("hook", "%s: the %s is registered already", what, kind); if (n < 64) p[n++] = x; }
    void del(const void* x, const char* what) {
        for (int i = 0; i < n; ++i) if (p[i] == x) { p[i] = p[--n]; return; }
        rt_fail("hook", "%s: the %s is not registered", what, kind);
    }
    const char* kind;
    explicit Book(const char* k) : kind(k) {}
};
struct TrackCB : protected xmem::control_block_base<xmem::atomic_ref_count> {
    using super = xmem::control_block_base<xmem::atomic_ref_count>;
    Book *s, *w;
    TrackCB() { RtQuiet q; s = new Book("shared pointer"); w = new Book("weak pointer"); }
    ~TrackCB() {
        RtQuiet q;
        if (s->n) rt_fail("hook", "the block goes while a shared pointer is registered");
        if (w->n) rt_fail("hook", "the block goes while a weak pointer is registered");
        delete s; delete w;
    }
    void init_strong(const void* src) noexcept { super::init_strong(src); RtQuiet q; s->add(src, "init"); }
    void inc_strong_ref(const void* src) noexcept { super::inc_strong_ref(src); RtQuiet q; s->add(src, "increment"); }
    void dec_strong_ref(const void* src) noexcept { { RtQuiet q; s->del(src, "decrement"); } super::dec_strong_ref(src); }
    bool inc_strong_ref_nz(const void* src) noexcept {
        if (!super::inc_strong_ref_nz(src)) return false;
        RtQuiet q; s->add(src, "conditional increment");
        return true;
    }
    using super::strong_ref_count;
    void transfer_strong(const void* dest, const void* src) { super::transfer_strong(dest, src); RtQuiet q; s->del(src, "transfer"); s->add(dest, "transfer"); }
    void inc_weak_ref(const void* src) noexcept { super::inc_weak_ref(src); RtQuiet q; w->add(src, "increment"); }
    void dec_weak_ref(const void* src) noexcept { { RtQuiet q; w->del(src, "decrement"); } super::dec_weak_ref(src); }
    void transfer_weak(const void* dest, const void* src) { super::transfer_weak(dest, src); RtQuiet q; w->del(src, "transfer"); w->add(dest, "transfer"); }
};
using CBF = xmem::control_block_factory<TrackCB>;
template <typename T> using sptr = xmem::basic_shared_ptr<CBF, T>;
template <typename T> using wptr = xmem::basic_weak_ptr<CBF, T>;
template <typename T> using storage = xmem::basic_atomic_shared_ptr_storage<CBF, T>;
template <typename T> using uptr = xmem::unique_ptr<T>;
struct Registered : xmem::basic_enable_shared_from<CBF> {
    template <typename T> sptr<T> lookup(T* p) { return shared_from(p); }
    template <typename T> sptr<T> lookup2(T* p) { return weak_from(p).lock(); }
};
#else
using CBF = xmem::atomic_control_block_factory;
template <typename T> using sptr = xmem::shared_ptr<T>;
template <typename T> using wptr = xmem::weak_ptr<T>;
template <typename T> using storage = xmem::atomic_shared_ptr_storage<T>;
template <typename T> using uptr = xmem::unique_ptr<T>;
struct Registered : xmem::enable_shared_from {
    template <typename T> sptr<T> lookup(T* p) { return shared_from(p); }
    template <typename T> sptr<T> lookup2(T* p) { return weak_from(p).lock(); }
};
#endif

#if STDP
namespace cast = std;
#else
namespace cast = xmem;
#endif
struct World;
static World* W;

struct Base { long pad = 7; virtual ~Base() {} };
struct Obj;
static void script(int kind);
struct Obj : Base, Registered {
    int id, kind;
    int payload[3];
    ::sptr<Obj> child;
    Obj(int i, int k);
    ~Obj();
    void* operator new(size_t n) { return rt_alloc_object(n); }
    void* operator new(size_t, void* p) { return p; }
    void operator delete(void* p) { ::operator delete(p); }
    int use() const {
        if (payload[0] != id * 3 || payload[1] != id * 5 || payload[2] != id * 7) rt_fail("mem", "object %d is used after its destruction", id);
        return id;
    }
};
struct Del { int mark; void operator()(Obj* p) { if (mark != 5) rt_fail("mem", "the deleter is not the one given"); delete p; } };
template <typename T> struct Al {
    using value_type = T;
    Al() {}
    template <typename U> Al(const Al<U>&) {}
    T* allocate(size_t n) { return (T*)::operator new(n * sizeof(T), std::align_val_t(alignof(T))); }
    void deallocate(T* p, size_t) { ::operator delete(p, std::align_val_t(alignof(T))); }
    friend bool operator==(const Al&, const Al&) { return true; }
    friend bool operator!=(const Al&, const Al&) { return false; }
};

struct Mine { sptr<Obj> s[4]; wptr<Obj> w[4]; int own; };
struct World {
    const Scn& n;
    Mine m[4];
    storage<Obj> q[4];
    sptr<Obj> g[4]; wptr<Obj> h[4];      // common to all threads
    xmem::atomic_ref_count rc;
    Obj* adr[16];
    Obj* reg[16];
    bool uses_reg = false;
    char regmutex;
    World(const Scn& s) : n(s) { memset(adr, 0, sizeof adr); memset(reg, 0, sizeof reg); }
};
Obj::Obj(int i, int k) : id(i), kind(k) {
    for (int j = 0; j < 3; ++j) payload[j] = i * (3 + 2 * j);
    RtQuiet q_;
    W->adr[i] = this;
}
Obj::~Obj() {
    use();
    int k = kind;
    rt_destroyed(id);
    if (W->uses_reg) { rt_lock(&W->regmutex); { RtQuiet q_; W->reg[id] = nullptr; } rt_unlock(&W->regmutex); }
    for (int& p : payload) p = -1;
    script(k);
}
static void script(int kind) {
    switch (kind) {
    case 1: { auto p = W->q[0].load(); break; }
    case 2: if (rt_form(2)) W->q[0].store(nullptr); else W->q[0].exchange({}); break;
    case 3: { sptr<Obj> e; W->q[0].compare_exchange(e, nullptr); break; }
    case 5: rt_wait(); break;
    }
}

// the address of object a, or that of nothing in particular if there is none
alignas(16) static char nowhere[16][64];
static Obj* addr_of(int a) { return !a ? nullptr : W->adr[a] ? W->adr[a] : (Obj*)nowhere[a]; }
template <typename P> static const void* owner_raw(const P& p) { void* r[2]; static_assert(sizeof p == sizeof r, ""); memcpy(r, (const void*)&p, sizeof r); return r[1]; }
template <typename P> static int owner_id(const P& p) {
#if STDP
    const void* o = owner_raw(p);
#else
    const void* o = p.owner();
#endif
    if (!o) return 0;
    return rt_tag_of(o);
}
// which value a pointer has
static int value(const sptr<Obj>& p) {
    RtQuiet q_;
    int o = owner_id(p), a = 0;
    if (o < 0) return 60;
    if (p.get()) { for (int i = 1; i <= W->n.no; ++i) if (addr_of(i) == p.get()) a = i; if (!a) return 61; }
    if (!o && !a) return 0;
    for (int i = 0; i < W->n.nv; ++i) if (W->n.v[i][0] == o && W->n.v[i][1] == a) return i + 1;
    return 62;
}

#if !STDP
// adopting with an allocator is not public: where it is not as expected, without
template <typename F, typename Q, typename A> auto adopt(Q& u, A a, int) -> decltype(F::make_uptr_cb(u, a)) { return F::make_uptr_cb(u, a); }
template <typename F, typename Q, typename A> Q&& adopt(Q& u, A, long) { return std::move(u); }
#endif
static sptr<Obj> create(int c, int kind, unsigned form) {
    rt_tag(c);
    sptr<Obj> r;
    switch (form % 6) {
#if STDP
    case 0: r = std::make_shared<Obj>(c, kind); break;
    case 1: r = std::allocate_shared<Obj>(Al<int>(), c, kind); break;
#else
#if TRACK
    case 0: r = sptr<Obj>(CBF::make_resource_cb<Obj>(xmem::allocator<char>{}, c, kind)); break;
#else
    case 0: r = xmem::make_shared<Obj>(c, kind); break;
#endif
    case 1: r = sptr<Obj>(CBF::make_resource_cb<Obj>(Al<int>(), c, kind)); break;
#endif
    case 2: r = sptr<Obj>(new Obj(c, kind)); break;
    case 3: r = sptr<Obj>(uptr<Obj>(new Obj(c, kind))); break;
    case 4: r = sptr<Obj>(new Obj(c, kind), Del{5}); break;
#if STDP
    case 5: r = sptr<Obj>(new Obj(c, kind), Del{5}, Al<char>()); break;
#else
    case 5: { xmem::unique_ptr<Obj, Del> u(new Obj(c, kind), Del{5}); r = sptr<Obj>(adopt<CBF>(u, Al<char>(), 0)); break; }
#endif
    }
    rt_tag(0);
    return r;
}
static void registered(int c, const sptr<Obj>& p) {
    if (!W->uses_reg) return;
    rt_lock(&W->regmutex);
    { RtQuiet q_; W->reg[c] = p.get(); }
    rt_unlock(&W->regmutex);
}

static int run(const Scn& n, int t, const Op& op) {
    Mine& m = W->m[t];
    sptr<Obj>* s = m.s - 1; wptr<Obj>* w = m.w - 1; storage<Obj>* q = W->q - 1;
    const int i = op.a, j = op.b, k = op.c;
    auto is = [&](const char* x) { return !strcmp(op.k, x); };
    unsigned f = rt_form(60);
    if (is("cp")) {
        switch (f % 4) {
        case 0: s[i] = s[j]; break;
        case 1: s[i] = sptr<Obj>(s[j]); break;
        case 2: sptr<Obj>(s[j]).swap(s[i]); break;
        case 3: s[i] = sptr<Obj>(s[j], s[j].get()); break;
        }
        return value(s[i]);
    }
    if (is("cv")) {      // through another type and back
        switch (f % 3) {
        case 0: { sptr<Base> b(s[j]); s[i] = cast::static_pointer_cast<Obj>(b); break; }
        case 1: { sptr<const Obj> b; b = s[j]; s[i] = cast::const_pointer_cast<Obj>(b); break; }
        case 2: { sptr<Base> b; b = s[j]; s[i] = cast::dynamic_pointer_cast<Obj>(b); break; }
        }
        return value(s[i]);
    }
    if (is("mb")) {
        switch (f % 2) {
        case 0: { sptr<Base> b(std::move(s[j])); s[i] = cast::static_pointer_cast<Obj>(b); break; }
        case 1: { sptr<const Obj> b; b = std::move(s[j]); s[i] = cast::const_pointer_cast<Obj>(b); break; }
        }
        return value(s[i]);
    }
    if (is("mv")) {
        switch (f % 4) {
        case 0: s[i] = std::move(s[j]); break;
        case 1: sptr<Obj>(std::move(s[j])).swap(s[i]); break;
        case 2: s[i].reset(); s[i].swap(s[j]); break;
#if STDP && __cplusplus < 202000L
        case 3: s[i] = std::move(s[j]); break;
#elif STDP
        case 3: { Obj* p = s[j].get(); s[i] = sptr<Obj>(std::move(s[j]), p); break; }
#else
        case 3: { Obj* p = s[j].get(); s[i] = xmem::make_aliased(sptr<Obj>(std::move(s[j])), p); break; }
#endif
        }
        return value(s[i]);
    }
    if (is("rs")) {
        switch (f % 4) {
        case 0: s[i].reset(); break;
        case 1: s[i] = nullptr; break;
        case 2: s[i] = sptr<Obj>(); break;
        case 3: sptr<Obj>().swap(s[i]); break;
        }
        return value(s[i]);
    }
    if (is("sw")) { if (f % 2) s[i].swap(s[j]); else std::swap(s[i], s[j]); return value(s[i]); }
    if (is("mk")) { auto p = create(j, -n.o[j - 1] - 1, f / 6); registered(j, p); if (f % 2) s[i] = std::move(p); else { s[i].swap(p); p.reset(); } return value(s[i]); }
    if (is("lk")) {
        switch (f % 3) {
        case 0: s[i] = w[j].lock(); break;
        case 1: if (auto p = w[j].lock()) s[i] = std::move(p); else s[i].reset(); break;
        case 2: { auto p = w[j].lock(); s[i].swap(p); break; }
        }
        return value(s[i]);
    }
    if (is("sg") || is("sh")) {
        sptr<Obj> p;
        rt_lock(&W->regmutex);
        Obj* o; { RtQuiet q_; o = W->reg[j]; }
        if (o) p = f % 2 ? o->lookup(o) : o->lookup2(o);
        rt_unlock(&W->regmutex);
        s[i] = std::move(p);
        return value(s[i]);
    }
    if (is("wk")) {
        switch (f % 4) {
        case 0: w[i] = s[j]; break;
        case 1: w[i] = wptr<Obj>(s[j]); break;
        case 2: wptr<Obj>(s[j]).swap(w[i]); break;
#if STDP
        case 3: w[i] = s[j]; break;
#else
        case 3: w[i] = wptr<Obj>(s[j], s[j].get()); break;
#endif
        }
        return 0;
    }
    if (is("wc")) { switch (f % 3) { case 0: w[i] = w[j]; break; case 1: w[i] = wptr<Obj>(w[j]); break; case 2: wptr<Obj>(w[j]).swap(w[i]); break; } return 0; }
    if (is("wm")) { switch (f % 3) { case 0: w[i] = std::move(w[j]); break; case 1: w[i] = wptr<Obj>(std::move(w[j])); break; case 2: wptr<Obj>(std::move(w[j])).swap(w[i]); break; } return 0; }
    if (is("ws")) { if (f % 2) w[i].swap(w[j]); else std::swap(w[i], w[j]); return 0; }
    if (is("wr")) { if (f % 2) w[i].reset(); else w[i] = wptr<Obj>(); return 0; }
    const sptr<Obj>* g = W->g - 1; const wptr<Obj>* h = W->h - 1;
    if (is("gc")) {
        switch (f % 4) {
        case 0: s[i] = g[j]; break;
        case 1: s[i] = sptr<Obj>(g[j]); break;
        case 2: s[i] = cast::static_pointer_cast<Obj>(g[j]); break;
        case 3: s[i] = sptr<Obj>(g[j], g[j].get()); break;
        }
        return value(s[i]);
    }
    if (is("gk")) {      // through another type and back
        switch (f % 2) {
        case 0: { sptr<const Obj> b(g[j]); s[i] = cast::const_pointer_cast<Obj>(b); break; }
        case 1: { sptr<Base> b; b = g[j]; s[i] = cast::static_pointer_cast<Obj>(b); break; }
        }
        return value(s[i]);
    }
    if (is("gl")) { if (f % 2) s[i] = h[j].lock(); else { wptr<Obj> b(h[j]); s[i] = b.lock(); } return value(s[i]); }
    if (is("gw")) { switch (f % 3) { case 0: w[i] = h[j]; break; case 1: w[i] = wptr<Obj>(h[j]); break; case 2: wptr<Obj>(h[j]).swap(w[i]); break; } return 0; }
    if (is("gf")) { if (f % 2) w[i] = g[j]; else w[i] = wptr<Obj>(g[j]); return 0; }
    if (is("gu")) return (int)g[i].use_count();
    if (is("gv")) return (int)h[i].use_count();
    if (is("gx")) return h[i].expired() ? 1 : 0;
    if (is("go")) { if (g[i]) { if (f % 2) g[i]->use(); else (*g[i]).use(); } return value(g[i]); }
    if (is("uc")) return (int)s[i].use_count();
    if (is("wu")) return (int)w[i].use_count();
    if (is("ex")) return w[i].expired() ? 1 : 0;
    if (is("us")) { if (s[i]) s[i]->use(); return value(s[i]); }
    if (is("ld")) { if (f % 2) s[i] = q[j].load(); else { auto p = q[j].load(); s[i].swap(p); } return value(s[i]); }
    if (is("st")) { q[i].store(s[j]); return 0; }
    if (is("sm")) { q[i].store(std::move(s[j])); return 0; }
    if (is("sn")) { if (f % 2) q[i].store(nullptr); else q[i].store({}); return 0; }
    if (is("xc")) { s[i] = q[j].exchange(s[k]); return value(s[i]); }
    if (is("xm")) { s[i] = q[j].exchange(std::move(s[k])); return value(s[i]); }
    if (is("cx") || is("cy")) { bool b = q[i].compare_exchange(s[j], s[k]); return (b ? 100 : 0) + value(s[j]); }
    if (is("cm") || is("cn")) { bool b = q[i].compare_exchange(s[j], std::move(s[k])); return (b ? 100 : 0) + value(s[j]); }
    if (is("en")) { for (int x = 1; x <= n.t[t].ns; ++x) s[x].reset(); for (int x = 1; x <= n.t[t].nw; ++x) w[x].reset(); return 0; }
    // the bare count: a thread gives up only what it holds
    if (is("ci")) { if (!m.own) return -1; int r = (int)W->rc.inc(); ++m.own; return r; }
    if (is("cd")) { if (!m.own) return -1; int r = (int)W->rc.dec(); --m.own; return r; }
    if (is("cz")) { int r = (int)W->rc.inc_nz(); if (r) ++m.own; return r; }
    if (is("cc")) return (int)W->rc.count();
    rt_fail("harness", "unknown operation %s", op.k);
    return 0;
}

void ops_setup(const Scn& n) {
    W = nullptr;
    W = (World*)::operator new(sizeof(World), std::align_val_t(64));
    new (W) World(n);
    for (int t = 0; t < n.nt; ++t) for (int i = 0; i < n.t[t].np; ++i) if (!strcmp(n.t[t].p[i].k, "sg") || !strcmp(n.t[t].p[i].k, "sh")) W->uses_reg = true;
    sptr<Obj> first[16];
    for (int o = n.no; o >= 1; --o) if (n.o[o - 1] >= 0) {
        first[o] = create(o, n.o[o - 1], (unsigned)(n.id * 7 + o) / 2);
        if (n.o[o - 1] == 4) first[o]->child = first[o + 1];
        registered(o, first[o]);
    }
    auto val = [&](int v) -> sptr<Obj> {
        if (!v) return {};
        int o = n.v[v - 1][0], a = n.v[v - 1][1];
        if (o == a) return first[o];
        if (!o) { sptr<Obj> e; return sptr<Obj>(e, addr_of(a)); }
        return sptr<Obj>(first[o], addr_of(a));
    };
    for (int t = 0; t < n.nt; ++t) {
        for (int i = 0; i < n.t[t].ns; ++i) W->m[t].s[i] = val(n.t[t].s[i]);
        for (int i = 0; i < n.t[t].nw; ++i) W->m[t].w[i] = val(n.t[t].w[i]);
        W->m[t].own = n.t[t].own;
    }
    for (int i = 0; i < n.ng; ++i) W->g[i] = val(n.g[i]);
    for (int i = 0; i < n.nh; ++i) W->h[i] = val(n.h[i]);
    for (int i = 0; i < n.nq; ++i) W->q[i].store(val(n.q[i]));
    if (n.rc == 0) W->rc.dec(); else for (int i = 1; i < n.rc; ++i) W->rc.inc();
}
void ops_thread(const Scn& n, int t) {
    for (int i = 0; i < n.t[t].np; ++i) {
        rt_invoke();
        int r = run(n, t, n.t[t].p[i]);
        rt_return(r);
    }
}
// every block's books hold exactly the pointers that refer to it
static void books(const Scn& n) {
#if TRACK
    RtQuiet q_;
    struct Known { const void* at; const TrackCB* cb; bool weak; };
    std::vector<Known> all;
    auto s = [&](const sptr<Obj>& p) { if (p.t_owner()) all.push_back({&p, p.t_owner(), false}); };
    auto w = [&](const wptr<Obj>& p) { if (p.t_owner()) all.push_back({&p, p.t_owner(), true}); };
    for (int t = 0; t < n.nt; ++t) { for (auto& p : W->m[t].s) s(p); for (auto& p : W->m[t].w) w(p); }
    for (auto& p : W->g) s(p);
    for (auto& p : W->h) w(p);
    for (auto& k : all) {
        if (!(k.weak ? k.cb->w : k.cb->s)->has(k.at)) rt_fail("hook", "at the end a %s pointer is not registered", k.weak ? "weak" : "shared");
        for (Book* b : {k.cb->s, k.cb->w}) for (int i = 0; i < b->n; ++i) {
            bool found = false;
            for (auto& x : all) if (x.at == b->p[i] && x.cb == k.cb && x.weak == (b == k.cb->w)) found = true;
            // in the storage, or in an object
            for (auto& x : W->q) if (b->p[i] >= &x && b->p[i] < &x + 1) found = true;
            for (int o = 1; o <= n.no; ++o) if (W->adr[o] && b->p[i] == &W->adr[o]->child) found = true;
            if (!found) rt_fail("hook", "at the end the books hold a %s that is none", b->kind);
        }
    }
#else
    (void)n;
#endif
}
void ops_teardown(const Scn& n) {
    books(n);
    for (int t = 0; t < n.nt; ++t) for (auto& p : W->m[t].s) p.reset();
    for (auto& q : W->q) q.store(nullptr);
    for (auto& g : W->g) g.reset();
    for (auto& h : W->h) h.reset();
    for (int t = 0; t < n.nt; ++t) for (auto& p : W->m[t].w) p.reset();
    W->~World();
    ::operator delete((void*)W, std::align_val_t(64));
    W = nullptr;
}
