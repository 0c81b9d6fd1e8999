// Create.tla's transitions in the creation functions. TYPE 0: class that
// counts its constructions, 1: int, 2: struct without constructors. ODD: the
// class overloads operator& and has its own operator new and delete.
#include <xmem/shared_ptr.hpp>
#include <xmem/local_shared_ptr.hpp>
#include <xmem/unique_ptr.hpp>
#include <xmem/std_helpers.hpp>
#include "walk.hpp"
#include "mem.hpp"
#include <memory>
#include <set>
#ifndef TYPE
#define TYPE 0
#endif
using walk::Val; using walk::fail;
static std::string num(long n) { return std::to_string(n); }

static std::vector<std::string> events;
static bool boom = false, quiet = false;
struct Boom {};
struct MoveOnly { int v; explicit MoveOnly(int n) : v(n) {} MoveOnly(MoveOnly&& o) noexcept : v(o.v) { o.v = 0; } };
#if TYPE == 0
struct Tok;
struct Any { template <typename X> Any(const X&) {} };
static std::set<const Tok*> alive;
struct alignas(64) Tok {
    int v;
    bool mute = quiet;
    void born(const char* how) {
        if (boom && !quiet) throw Boom();
        mem::User u;
        if (reinterpret_cast<uintptr_t>(this) % alignof(Tok)) fail("an object is misaligned");
        if (!mute) events.push_back(how);
        if (!alive.insert(this).second) fail("an object is constructed where one lives");
    }
#ifdef ODD
    static inline std::set<void*> own;
    static void* take(size_t n, size_t al, bool arr) { mem::User u; void* p = arr ? ::operator new[](n, std::align_val_t(al)) : ::operator new(n, std::align_val_t(al)); own.insert(p); return p; }
    static void give(void* p, size_t al, bool arr) {
        mem::User u;
        if (!own.erase(p)) { fail("operator delete of a class gets memory that is not from its operator new"); return; }
        if (arr) ::operator delete[](p, std::align_val_t(al)); else ::operator delete(p, std::align_val_t(al));
    }
    static void* operator new(size_t n, std::align_val_t a) { return take(n, size_t(a), false); }
    static void* operator new[](size_t n, std::align_val_t a) { return take(n, size_t(a), true); }
    static void operator delete(void* p, std::align_val_t a) { give(p, size_t(a), false); }
    static void operator delete[](void* p, std::align_val_t a) { give(p, size_t(a), true); }
    Tok* operator&() { return nullptr; }
    const Tok* operator&() const { return nullptr; }
#endif
    Tok() : v(7) { born("default"); }
    explicit Tok(int k) : v(k) { born("value"); }
    Tok(const Tok& o) : v(o.v) { born("copy"); }
    Tok(Tok&& o) : v(o.v) { born("move"); o.v = 0; }
    Tok(Tok& a, Tok&& b) : v(10 + 3 * a.v + b.v) { born("two"); b.v = 0; }
    Tok(const Tok& a, const Tok& b) : v(10 + 3 * a.v + b.v) { born("twoc"); }
    Tok(Tok&, Tok&) : v(99) { born("two, both as lvalues"); }
    Tok(Tok&&, Tok&&) : v(99) { born("two, both as rvalues"); }
    Tok(int a, int b) : v(10 + 3 * a + b) { born("pair"); }
    Tok(std::initializer_list<Any>) : v(99) { born("a list of values"); }
    template <typename X, typename = std::enable_if_t<std::is_same_v<std::decay_t<X>, const char*>>>
    explicit Tok(X&& t) : v(t[0] - '0') { born(std::is_same_v<X, const char (&)[2]> ? "text" : "text, not as given"); }
    Tok(int a, Tok&& x, const int& b, const Tok& y, std::nullptr_t, Tok&& z) : v(10 + 3 * a + b) { born(&b == &fixed && std::addressof(y) == std::addressof(x) ? "many" : "many, of others"); x.v = 0; z.v = 0; }
    static inline int fixed = 0;
    explicit Tok(MoveOnly m) : v(m.v) { born("mvonly"); }
    Tok& operator=(const Tok& o) { v = o.v; events.push_back("assign"); return *this; }
    ~Tok() { mem::User u; if (!alive.erase(this)) fail("something is destroyed that is no live object"); if (!mute) events.push_back("destroy"); v = -77; }
};
using T = Tok;
static int value(const T& t) { return alive.count(std::addressof(t)) ? t.v : -1000; }
static void assign(T& t, int k) { t.v = k; }
#elif TYPE == 1
using T = int;
static int value(const T& t) { return t; }
static void assign(T& t, int k) { t = k; }
#else
struct Pod { int v; int w; };
using T = Pod;
static int value(const T& t) { return t.v == t.w ? t.v : -1000; }
static void assign(T& t, int k) { t.v = t.w = k; }
#endif
static T make(int k) {
#if TYPE == 2
    return Pod{k, k};
#else
    return T(k);
#endif
}

struct Holder {
    virtual ~Holder() {}
    virtual T* get() = 0;
    virtual T& at(size_t i) = 0;
    virtual long count() = 0;
    virtual bool truth() = 0;
};
template <typename P> using elem = std::remove_const_t<std::remove_pointer_t<decltype(std::declval<P&>().get())>>;
template <typename P, typename = void> struct Counts { static long of(const P&) { return 1; } };
template <typename P> struct Counts<P, std::void_t<decltype(std::declval<const P&>().use_count())>> { static long of(const P& p) { return p.use_count(); } };
template <typename P, bool Array>
struct H : Holder {
    P p;
    explicit H(P&& q) : p(std::move(q)) {}
    ~H() { mem::Lib l; P gone(std::move(p)); }
    T* get() override { return p.get(); }
    T& at(size_t i) override { if constexpr (Array) return p[i]; else { if (p.operator->() != std::addressof(*p)) fail("-> and *"); (void)i; return *p; } }
    long count() override { return Counts<P>::of(p); }
    bool truth() override { return !!p; }
};
template <bool Array = false, typename P> Holder* hold(P&& p) { mem::User u; return new H<std::decay_t<P>, Array>(std::move(p)); }
struct ArrDel { void operator()(T* p) const noexcept { delete[] p; } };

using AF = xmem::atomic_control_block_factory; using LF = xmem::local_control_block_factory;
static int serial = 0;
template <typename... A> Holder* doMake(unsigned v, A&&... a) {
    mem::Lib l;
    switch (v % 7) {
    case 0: case 5: return hold(xmem::make_shared<T>(std::forward<A>(a)...));
    case 1: return hold(xmem::make_local_shared<T>(std::forward<A>(a)...));
    case 2: case 6: return hold(xmem::make_unique<T>(std::forward<A>(a)...));
    case 3: return hold(xmem::shared_ptr<T>(AF::make_resource_cb<T>(TAlloc<char>(++serial), std::forward<A>(a)...)));
    default: return hold(xmem::local_shared_ptr<T>(LF::make_resource_cb<T>(TAlloc<short>(++serial), std::forward<A>(a)...)));
    }
}
template <typename A> Holder* doFrom(unsigned v, A&& a) {
    mem::Lib l;
    auto back = [&](auto&& p) -> Holder* {          // of const T, when the argument is const
        using P = std::decay_t<decltype(p)>;
        using E = typename P::element_type;
        if constexpr (std::is_const_v<E>) {
            struct HC : Holder {
                P p; explicit HC(P&& q) : p(std::move(q)) {}
                ~HC() { mem::Lib l; P gone(std::move(p)); }
                T* get() override { return const_cast<T*>(p.get()); }
                T& at(size_t) override { return const_cast<T&>(*p); }
                long count() override { return Counts<P>::of(p); }
                bool truth() override { return !!p; }
            };
            mem::User u;
            return new HC(std::move(p));
        }
        else return hold(std::move(p));
    };
#ifdef NOCONST
    if constexpr (std::is_const_v<std::remove_reference_t<A>>) v = 2 + v % 3;
    else
#endif
    switch (v % 5) {
    case 0: return back(xmem::make_shared_ptr(std::forward<A>(a)));
    case 1: return back(xmem::make_local_shared_ptr(std::forward<A>(a)));
    default: break;
    }
    switch (v % 5) {
    case 2: return back(xmem::make_unique_ptr(std::forward<A>(a)));
    case 3: return back(xstd::make_shared_ptr(std::forward<A>(a)));
    default: return back(xstd::make_unique_ptr(std::forward<A>(a)));
    }
}
static Holder* doOver(unsigned v) {
    mem::Lib l;
    switch (v % 5) {
    case 0: return hold(xmem::make_shared_for_overwrite<T>());
    case 1: return hold(xmem::make_local_shared_for_overwrite<T>());
    case 2: return hold(xmem::make_unique_for_overwrite<T>());
    case 3: return hold(xmem::shared_ptr<T>(AF::make_resource_cb_for_overwrite<T>(TAlloc<char>(++serial))));
    default: return hold(xmem::local_shared_ptr<T>(LF::make_resource_cb_for_overwrite<T>(TAlloc<double>(++serial))));
    }
}
static Holder* doArr(unsigned v, int n, bool over) {
    mem::Lib l;
    if (over) return hold<true>(xmem::make_unique_for_overwrite<T[]>(size_t(n)));
    switch (v % 4) {
    case 0: return hold<true>(xmem::shared_ptr<T[]>(new T[size_t(n)](), ArrDel{}));
    case 1: return hold<true>(xmem::unique_ptr<T[]>(new T[size_t(n)]()));
    default: return hold<true>(xmem::make_unique<T[]>(size_t(n)));
    }
}
#ifdef NOCONST     // only to tell that constant objects cannot be created at all
template <typename... A> void constToo(unsigned, int, A&&...) {}
#else
struct Self : xmem::enable_shared_from { int a = 4; auto me() const { return shared_from(this); } };
struct LocalSelf : xmem::enable_local_shared_from_this<LocalSelf> { int a = 4; auto me() const { return shared_from_this(); } };
template <typename P> void self(const P& p) {
    auto q = p->me();
    if (q.get() != p.get() || p.use_count() != 2 || q->a != 4) fail("shared_from of a constant object");
}
// a constant object is made and dropped as well
template <typename... A> void constToo(unsigned v, int want, A&&... a) {
    if (v % 4) return;
    auto ev = events; auto before = mem::nrec;
    {
        mem::Lib l;
        auto look = [&](auto&& p) { if (value(*p) != want) fail("a constant object has another value"); };
        if (v % 3 == 0) look(xmem::make_shared<const T>(std::forward<A>(a)...));
        else if (v % 3 == 1) look(xmem::make_unique<const T>(std::forward<A>(a)...));
        else look(xmem::make_local_shared<const T>(std::forward<A>(a)...));
    }
    if (mem::nrec != before) fail("memory of a constant object is not given back");
    switch (v % 7) {
    case 0: self(xmem::make_shared<const Self>()); break;
    case 1: self(xmem::make_local_shared<const LocalSelf>()); break;
    case 2: self(xmem::shared_ptr<const Self>(new const Self)); break;
    case 3: self(xmem::local_shared_ptr<const LocalSelf>(xmem::make_unique<const LocalSelf>())); break;
    case 4: { LocalSelf s; s.a = 4; self(xmem::make_local_shared_ptr(std::as_const(s))); if (s.me()) fail("shared_from of a copied object"); break; }
    default: break;
    }
    events = ev;
}
#endif

struct World {
    Holder* slot[3] = {};
    T* src[3] = {};
    Val cur;
    void reset() {
        mem::reset(); serial = 0; events.clear(); boom = false;
        quiet = true; for (int i = 1; i < 3; ++i) src[i] = new T(make(i)); quiet = false;
        events.clear();
        cur = walk::states[walk::init];
    }
    Holder* create(const Val& o, const Val& pre, unsigned v) {
        std::string f = o[0].s, form = o[2].s; int i = o[3], k = o[4];
        bool mk = f == "make";
        if (f == "over") return doOver(v);
        if (f == "arr" || f == "arrover") return doArr(v, form == "throw" ? 3 : k, f == "arrover");
        int held = form == "held" || form == "heldmv" ? int(pre[1][size_t(i - 1)][1]) : 0;
        if (form == "none") { auto h = doMake(v); constToo(v / 8, TYPE == 0 ? 7 : 0); return h; }
        if (form == "val") {
#if TYPE == 2
            return doMake(v, Pod{k, k});
#else
            auto h = doMake(v, k); constToo(v / 8, k, k); return h;
#endif
        }
        if (form == "lv") { T& a = *src[i]; if (!mk) return doFrom(v, a); auto h = doMake(v, a); constToo(v / 8, value(a), a); return h; }
        if (form == "clv") { const T& a = *src[i]; if (!mk) return doFrom(v, a); auto h = doMake(v, a); constToo(v / 8, value(a), a); return h; }
        if (form == "rv") { if (mk) return doMake(v, std::move(*src[i])); return doFrom(v, std::move(*src[i])); }
        if (form == "crv") { if (mk) return doMake(v, std::move(std::as_const(*src[i]))); return doFrom(v, std::move(std::as_const(*src[i]))); }
        if (form == "held") { T& a = *slot[i]->get(); (void)held; if (mk) return doMake(v, a); return doFrom(v, a); }
        if (form == "heldmv") { T& a = *slot[i]->get(); if (mk) return doMake(v, std::move(a)); return doFrom(v, std::move(a)); }
#if TYPE == 0
        if (form == "two") return doMake(v, *src[i], std::move(*src[3 - i]));
        if (form == "pair") { auto h = doMake(v, i, k); constToo(v / 8, 10 + 3 * i + k, i, k); return h; }
        if (form == "text") return k == 1 ? doMake(v, "1") : doMake(v, "2");
        if (form == "many") { T::fixed = k; return doMake(v, i, std::move(*src[1]), std::as_const(T::fixed), std::as_const(*src[1]), nullptr, std::move(*src[2])); }
        if (form == "twoc") return doMake(v, std::as_const(*src[i]), std::as_const(*src[3 - i]));
#ifdef NOMVONLY     // only to tell that such arguments are not accepted
        if (form == "mvonly") { fail("an argument that can only be moved is not accepted"); return doMake(v, k); }
#else
        if (form == "mvonly") return doMake(v, MoveOnly(k));
#endif
        if (form == "throw") { if (!mk) { if (v % 2) return doFrom(v / 2, std::move(*src[1])); return doFrom(v / 2, *src[1]); } switch (v % 3) { case 0: return doMake(v / 3); case 1: return doMake(v / 3, 5); default: return doMake(v / 3, std::move(*src[2])); } }
#endif
        fprintf(stderr, "unknown %s\n", form.c_str()); _exit(9);
    }
    void step(const walk::Edge& e, unsigned v) {
        const Val& pre = walk::states[e.pre]; const Val& post = walk::states[e.post];
        std::string f = e.op[0].s; int s = e.op[1];
        events.clear();
        int before = mem::nrec;
        if (f == "set") assign(*src[s], e.op[4]);
        else if (f == "drop") {
            delete slot[s]; slot[s] = nullptr;
            int other = 0; (void)other;
        }
        else if (e.op[2] == "throw") {
            boom = true;
            bool thrown = false;
            try { delete create(e.op, pre, v); } catch (const Boom&) { thrown = true; }
            boom = false;
            if (!thrown) fail("the exception of a constructor does not get through");
            if (mem::nrec != before) fail("memory is kept after a constructor threw");
        }
        else slot[s] = create(e.op, pre, v);
        if (mem::error) fail(mem::error);
#if TYPE == 0
        std::string got, want;
        for (auto& x : events) got += x + " ";
        for (auto& x : e.ev.v) want += x.s + " ";
        if (got != want) fail("constructed: " + got + ", should be: " + want);
#endif
        compare(post);
    }
    void compare(const Val& post) {
        size_t total = 2;
        for (int i = 1; i < 3; ++i) {
            if (value(*src[i]) != int(post[0][i - 1])) fail("argument " + num(i) + " has value " + num(value(*src[i])) + ", should be " + num(post[0][i - 1]));
            int n = post[1][i - 1][0], v = post[1][i - 1][1];
            if (!n) continue;
            Holder& h = *slot[i];
            if (h.count() != 1) fail("what was created has " + num(h.count()) + " owners");
            if (!h.truth() || !h.get()) { fail("nothing was created"); continue; }
            int m = n < 0 ? 0 : n;
            total += size_t(m);
            for (int j = 0; j < m; ++j) {
                T& t = h.at(size_t(j));
                if (std::addressof(t) != h.get() + j) fail("wrong address");
                if (v != -1 && value(t) != v) fail("the object created has value " + num(value(t)) + ", should be " + num(v));
            }
        }
#if TYPE == 0
        if (walk::message.empty() && alive.size() != total) fail(num(long(alive.size())) + " objects are alive, should be " + num(long(total)));
#endif
        cur = post;
    }
    void teardown(unsigned v) {
        for (int n = 1; n < 3; ++n) { int i = v % 2 ? n : 3 - n; delete slot[i]; slot[i] = nullptr; }
        if (mem::nrec) fail("memory is kept after everything is dropped");
        for (int i = 1; i < 3; ++i) delete src[i];
#if TYPE == 0
        if (!alive.empty()) fail("objects are left");
#ifdef ODD
        if (!Tok::own.empty()) fail("memory of the class's operator new is left");
        Tok::own.clear();
#endif
        alive.clear();
#endif
    }
};
int main(int argc, char** argv) { return walk::main<World>(argc, argv); }
