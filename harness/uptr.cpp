// Unique.tla's transitions in xmem::unique_ptr. KIND selects the deleter.
#include <xmem/unique_ptr.hpp>
#include <xmem/ostream.hpp>
#include "walk.hpp"
#include <functional>
#include <new>
#include <sstream>
#include <type_traits>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#define VAL 0
#define ARR 1
#define REF 2
#define CREF 3
#define FN 4
#define DEF 5
#define DCONST 6
#define DARR 7
#ifndef KIND
#define KIND VAL
#endif
#define ISARR (KIND == ARR || KIND == DARR)
#define WATCH (KIND != DEF && KIND != DCONST && KIND != DARR)
using walk::Val; using walk::fail;
constexpr int N = 8, Elems = 3;

struct B { virtual ~B() {} long b = 5; };
struct Pad { virtual ~Pad() {} long pad = 7; };
struct D;
struct Rec { D* d = nullptr; B* b = nullptr; int alive = 0; int script = 0; };
static Rec rec[N];
struct Event { char k; int d, o; };
static std::vector<Event> events;
static int creating = 0, busyObj = 0;
static bool library = false; static int obtained = 0;     // memory obtained by the library
struct Lib { Lib() { library = true; } ~Lib() { library = false; } };
#ifdef ALLOC      // only what concerns C20 is reported
#define COSTS 1
#else
#define COSTS 0
#endif
static std::function<const void*()> watched;      // the pointer under destruction
static bool quiet = false, noScripts = false;
static void script(int s);
static std::string num(long n) { return std::to_string(n); }
static void stillThere(int o, const char* where);

struct D : Pad, B {
    int id = 0, index = 0; int value = 11;
    void born() {
        id = quiet ? 0 : creating;
        if (!id) return;
        Rec& r = rec[id];
        index = r.alive++;
        if (!index) { r.d = this; r.b = this; }
    }
    D() { born(); }
    explicit D(int v) : value(v) { born(); }
    D(const D& o) : Pad(), B(), value(o.value) { born(); }
    D(D&& o) : Pad(), B(), value(o.value) { born(); }
    ~D() {
        if (!id) return;
        Rec& r = rec[id];
        int me = id; id = -1;
        if (me < 0 || r.alive <= 0) { fail("an object is destroyed twice"); return; }
        if (busyObj == me) stillThere(me, "the destructor");
        if (--r.alive) return;
        events.push_back({'x', 0, me});
        if (!noScripts && r.script) script(r.script);
    }
};
[[maybe_unused]] static int idOf(const B* b) { for (int i = 1; i < N; ++i) if (rec[i].b == b && rec[i].alive) return i; return 0; }
[[maybe_unused]] static int idOf(const D* b) { for (int i = 1; i < N; ++i) if (rec[i].d == b && rec[i].alive) return i; return 0; }
template <typename T> void deleting(int d, T* p) {
    int o = p ? idOf(p) : 0;
    if (!p) fail("a null pointer is deleted");
    else if (!o) fail("a deleter gets something that is no live object");
    if (o && busyObj == o) stillThere(o, "its deleter");
    events.push_back({'d', d, o});
}

#if KIND == VAL || KIND == ARR
template <typename T>
struct VDel {
    int id = 0;
    VDel() = default;
    explicit VDel(int i) : id(i) {}
    VDel(const VDel&) = default;
    VDel& operator=(const VDel&) = default;
    VDel(VDel&& o) noexcept : id(o.id) { o.id = -1; }
    VDel& operator=(VDel&& o) noexcept { if (this != &o) { id = o.id; o.id = -1; } return *this; }
    template <typename U, typename = std::enable_if_t<std::is_convertible_v<U*, T*>>> VDel(VDel<U>&& o) noexcept : id(o.id) { o.id = -1; }
    template <typename U, typename = std::enable_if_t<std::is_convertible_v<U*, T*>>> VDel& operator=(VDel<U>&& o) noexcept { id = o.id; o.id = -1; return *this; }
    void operator()(T* p) const noexcept {
        deleting(id, p);
        if (ISARR) delete[] p; else delete p;
    }
};
template <typename T> int delId(const VDel<T>& d) { return d.id; }
#endif
#if KIND == VAL
using A = xmem::unique_ptr<D, VDel<D>>; using C = xmem::unique_ptr<B, VDel<B>>; using CT = B;
#elif KIND == ARR
using A = xmem::unique_ptr<D[], VDel<D>>; using C = A; using CT = D;
#elif KIND == REF || KIND == CREF
struct RDel { virtual ~RDel() {} int id = 0; void operator()(B* p) const noexcept { deleting(id, p); delete p; } };
struct Front { virtual ~Front() {} long x = 1; };
struct RDelD : Front, RDel {};
static RDelD dels[3];
#if KIND == CREF
using RB = const RDel; using RD = const RDelD;
#else
using RB = RDel; using RD = RDelD;
#endif
using A = xmem::unique_ptr<D, RD&>; using C = xmem::unique_ptr<B, RB&>; using CT = B;
static int delId(const RDel& d) { for (int i = 1; i < 3; ++i) if (&d == &dels[i]) return i; return -5; }
#elif KIND == FN
static void f1(D* p) { deleting(1, p); delete p; }
static void f2(D* p) { deleting(2, p); delete p; }
using Fn = void(*)(D*);
struct Lam { void operator()(D* p) const noexcept { deleting(1, p); delete p; } operator Fn() const noexcept { return f1; } };
using A = xmem::unique_ptr<D, void(*)(D*)>; using C = xmem::unique_ptr<D, Lam>; using CT = D;
static int delId(void(*f)(D*)) { return f == f1 ? 1 : f == f2 ? 2 : -5; }
static int delId(const Lam&) { return 1; }
#elif KIND == DEF
using A = xmem::unique_ptr<D>; using C = xmem::unique_ptr<B>; using CT = B;
#elif KIND == DCONST
using A = xmem::unique_ptr<D>; using C = xmem::unique_ptr<const D>; using CT = const D;
#elif KIND == DARR
using A = xmem::unique_ptr<D[]>; using C = A; using CT = D;
#endif
#if !WATCH
template <typename X> int delId(const X&) { return 0; }
#endif

// what converts is known, not asked: the headers' converting members accept everything
template <typename P, typename Q> constexpr bool canC = std::is_same_v<P, Q> || (KIND != FN && std::is_same_v<P, C> && std::is_same_v<Q, A>);
template <typename P, typename Q> constexpr bool canA = std::is_same_v<P, Q> || (std::is_same_v<P, std::conditional_t<KIND == FN, A, C>> && std::is_same_v<Q, std::conditional_t<KIND == FN, C, A>>);

static int NP = 3;
alignas(64) static unsigned char store[N][128];
static bool live[N];
static A& a(int i) { return *reinterpret_cast<A*>(store[i]); }
static C& c(int i) { return *reinterpret_cast<C*>(store[i]); }
template <typename F> void vis(int i, F&& f) { if (i == 3) f(c(i)); else f(a(i)); }
template <typename P> using elem = typename P::element_type;

static void stillThere(int o, const char* where) {
    if (watched && watched() != static_cast<const void*>(rec[o].d)) fail(std::string("in ") + where + " the pointer under destruction no longer refers to the object");
}
static void script(int s) { if (live[s]) vis(s, [&](auto& p) { p.reset(); }); }

static D* fresh(int o, int s) {
    rec[o] = {}; rec[o].script = s;
    creating = o;
    D* d = ISARR ? new D[Elems] : new D;
    creating = 0;
    return d;
}
template <typename P> elem<P>* as(int o) {
    if (!o) return nullptr;
    if constexpr (std::is_same_v<std::remove_const_t<elem<P>>, B>) return rec[o].b;
    else return rec[o].d;
}
// construct the pointer i with object p and deleter d
template <typename P> void construct(int i, elem<P>* p, int d, unsigned v) {
    void* at = store[i];
    (void)at; (void)d; (void)v; (void)p;
#if KIND == VAL || KIND == ARR
    using Del = VDel<elem<P>>;
    Del del(d);
    if (v % 2) new (at) P(p, Del(d)); else new (at) P(p, del);
    if (del.id != d) fail("a deleter given as lvalue is moved from");
#elif KIND == REF || KIND == CREF
    if (!p && v % 2) new (at) P(dels[d]); else new (at) P(p, dels[d]);
#elif KIND == FN
    if constexpr (std::is_same_v<P, A>) { if (!p && v % 2) new (at) P(d == 1 ? f1 : f2); else new (at) P(p, d == 1 ? f1 : f2); }
    else new (at) P(p, Lam{});
#endif
}
template <typename P> constexpr bool hasDefault = std::is_default_constructible_v<P>;
template <typename P> void constructNew(int i, int o, int s, unsigned v) {        // no deleter named
    void* at = store[i];
    (void)o; (void)s; (void)v; (void)at;
    if constexpr (hasDefault<P>) {
#if KIND == DEF || KIND == DCONST
        if (v % 5) {
            rec[o] = {}; rec[o].script = s;
            quiet = true; D tmp(12); quiet = false;
            creating = o;
            switch (v % 5) {
            case 1: new (at) P(xmem::make_unique<D>()); break;
            case 2: new (at) P(xmem::make_unique<D>(12)); break;
            case 3: new (at) P(xmem::make_unique_for_overwrite<D>()); break;
            default: if (v % 2) new (at) P(xmem::make_unique_ptr(std::move(tmp))); else new (at) P(xmem::make_unique_ptr(tmp));
            }
            creating = 0;
            return;
        }
#elif KIND == DARR
        if (v % 3) {
            rec[o] = {}; rec[o].script = s;
            creating = o;
            if (v % 3 == 1) new (at) P(xmem::make_unique<D[]>(Elems)); else new (at) P(xmem::make_unique_for_overwrite<D[]>(Elems));
            creating = 0;
            return;
        }
#endif
        D* d = fresh(o, s);
        new (at) P(d);
    }
    else abort();
}

struct World {
    Val cur;
    void reset() {
        for (auto& r : rec) r = {};
        memset(live, 0, sizeof live); memset(store, 0xC3, sizeof store);
        events.clear(); watched = nullptr; busyObj = 0; noScripts = false;
        NP = int(walk::states[walk::init][0].size());
#if KIND == REF || KIND == CREF
        for (int i = 1; i < 3; ++i) dels[i].id = i;
#endif
    }
    template <typename P> void op(P& p, const Val& o, const Val& pre, unsigned v) {
        std::string f = o[0].s;
        int x = o[1], y = o[2], d = o[3], s = o[4];
        [[maybe_unused]] void* at = store[x];
        auto newId = [&] { for (size_t i = 0; i < pre[1].size(); ++i) if (pre[1][i][0] == "no") return int(i) + 1; return 0; };
#if COSTS
        [[maybe_unused]] constexpr bool free = noexcept(P(std::move(p))) && noexcept(p = std::declval<P>()) && noexcept(p = nullptr) && noexcept(p.reset()) && noexcept(p.reset(p.get()))
            && noexcept((void)p.release()) && noexcept((void)p.get()) && noexcept((void)bool(p)) && noexcept((void)p.get_deleter());
        if (!free) fail("an operation that cannot fail is not declared noexcept");
        auto lib = [&](auto&& g) { Lib l; g(); };
#else
        auto lib = [&](auto&& g) { g(); };
#endif
        if (f == "Def") {
            if constexpr (hasDefault<P>) { lib([&] { if (v % 3 == 0) new (at) P; else if (v % 3 == 1) new (at) P(nullptr); else new (at) P(static_cast<elem<P>*>(nullptr)); }); }
            live[x] = true;
        }
        else if (f == "DefD") { lib([&] { construct<P>(x, nullptr, d, v); }); live[x] = true; }
        else if (f == "New") { fresh(newId(), s); lib([&] { construct<P>(x, as<P>(newId()), d, v); }); live[x] = true; }
        else if (f == "NewO") { constructNew<P>(x, newId(), s, v); live[x] = true; }
        else if (f == "Raw") { lib([&] { construct<P>(x, as<P>(y), d, v); }); live[x] = true; }
        else if (f == "MovC") vis(y, [&](auto& q) {
            using Q = std::decay_t<decltype(q)>;
            if constexpr (canC<P, Q>) {
                lib([&] {
                if (v % 3 == 0) new (at) P(std::move(q));
                else if (v % 3 == 1) { P t = std::move(q); new (at) P(std::move(t)); }
                else { auto give = [&]() -> P { return std::move(q); }; new (at) P(give()); }
                });
                live[x] = true;
            }
            else abort();
        });
        else if (f == "MovA") vis(y, [&](auto& q) {
            using Q = std::decay_t<decltype(q)>;
            if constexpr (canA<P, Q>) {
                if constexpr (canC<P, Q>) { if (v % 3 == 1) { lib([&] { p = P(std::move(q)); }); return; } }
                lib([&] {
                P& r = (p = std::move(q));
                if (&r != &p) fail("assignment returns something else");
                });
            }
            else abort();
        });
        else if (f == "Nul") lib([&] { if (v % 3 == 0) p.reset(); else if (v % 3 == 1) p.reset(nullptr); else if (&(p = nullptr) != &p) fail("assignment returns something else"); });
        else if (f == "RstN") { int o = newId(); fresh(o, s); lib([&] { p.reset(as<P>(o)); }); }
        else if (f == "RstR") lib([&] { p.reset(as<P>(y)); });
        else if (f == "Rel") { elem<P>* r = nullptr; lib([&] { r = p.release(); }); if (r != as<P>(pre[0][x - 1][1])) fail("release returns another address"); }
        else if (f == "Swp") vis(y, [&](auto& q) {
            using Q = std::decay_t<decltype(q)>;
            if constexpr (std::is_same_v<P, Q>) lib([&] { if (v % 3 == 0) p.swap(q); else if (v % 3 == 1) std::swap(p, q); else { using std::swap; swap(q, p); } });
        });
        else if (f == "Des") {
            busyObj = pre[0][x - 1][1];
            watched = [&p]() -> const void* { if constexpr (std::is_same_v<std::remove_const_t<elem<P>>, B>) return dynamic_cast<const D*>(p.get()); else return static_cast<const D*>(p.get()); };
            if (busyObj) { if constexpr (std::is_same_v<elem<P>, B>) { auto b = rec[busyObj].b; auto dd = rec[busyObj].d; watched = [&p, b, dd]() -> const void* { return p.get() == b ? dd : nullptr; }; } }
            lib([&] { p.~P(); });
            live[x] = false; watched = nullptr; busyObj = 0;
            memset(at, 0xC3, 128);
        }
        else { fprintf(stderr, "unknown %s\n", f.c_str()); _exit(9); }
    }
    void step(const walk::Edge& e, unsigned v) {
        const Val& pre = walk::states[e.pre]; const Val& post = walk::states[e.post];
        events.clear(); events.reserve(64); obtained = 0;
        vis(e.op[1], [&](auto& p) { op(p, e.op, pre, v); });
        library = false;
        if (COSTS && obtained) fail("memory is obtained");
        if (!walk::message.empty()) return;
        // what was deleted, by what, in which order
        std::string got, want;
        for (auto& x : events) got += (x.k == 'd' ? "deleter " + num(x.d) + "(" : "~D(") + num(x.o) + ") ";
        for (auto& x : e.ev.v) want += (x[0] == "del" ? "deleter " + num(x[1]) + "(" : "~D(") + num(x[0] == "del" ? x[2] : x[1]) + ") ";
        if (got != want) { fail("deleted: " + (got.empty() ? "nothing" : got) + ", should be: " + (want.empty() ? "nothing" : want)); return; }
        compare(post, e.op[1]);
    }
    void compare(const Val& post, int shown) {
        for (size_t i = 0; i < post[1].size(); ++i) {
            bool al = !(post[1][i][0] == "no");
            int should = al ? (ISARR ? Elems : 1) : 0;
            if (rec[i + 1].alive != should) fail("object " + num(i + 1) + (al ? " is gone" : " is still there"));
        }
        for (int i = 1; i <= NP; ++i) {
            if (!int(post[0][i - 1][0])) continue;
            int o = post[0][i - 1][1], d = post[0][i - 1][2];
            vis(i, [&](auto& p) {
                using P = std::decay_t<decltype(p)>;
                const P& k = p;
                auto want = as<P>(o);
                if (k.get() != want) fail("pointer " + num(i) + " holds another address");
                if (i == shown) {
                    std::ostringstream a, b;
                    a << k << "."; b << static_cast<elem<P>*>(want) << ".";
                    if (a.str() != b.str()) fail("pointer " + num(i) + " is printed as " + a.str());
                }
                if (bool(k) != (o != 0)) fail("boolean test of pointer " + num(i));
                if (d != -1 && (delId(p.get_deleter()) != d || delId(k.get_deleter()) != d)) fail("pointer " + num(i) + " has another deleter: " + num(delId(p.get_deleter())) + ", should be " + num(d));
                if (o && k.get() == want) {
#if ISARR
                    for (int n = 0; n < Elems; ++n) if (&k[n] != want + n || k[n].index != n) fail("indexing");
#else
                    if (&*k != want || k.operator->() != want) fail("dereferencing");
#endif
                }
                for (int j = 1; j <= NP; ++j) if (int(post[0][j - 1][0])) vis(j, [&](auto& q) {
                    auto l = k.get(); auto r = std::as_const(q).get();
                    bool same = o == int(post[0][j - 1][1]);
                    if ((k == q) != same || (k != q) == same) fail("comparison of pointers " + num(i) + " and " + num(j));
                    if ((k < q) != (l < r) || (k <= q) != (l <= r) || (k > q) != (l > r) || (k >= q) != (l >= r)) fail("order of pointers " + num(i) + " and " + num(j));
                });
            });
        }
        cur = post;
    }
    void teardown(unsigned v) {
        noScripts = true;
        for (int n = 1; n <= NP; ++n) {
            int i = v % 2 ? n : NP + 1 - n;
            if (live[i]) vis(i, [&](auto& p) { using P = std::decay_t<decltype(p)>; p.~P(); live[i] = false; });
        }
        for (size_t i = 0; i < cur[1].size(); ++i) if (cur[1][i][0] == "raw") { if (ISARR) delete[] rec[i + 1].d; else delete rec[i + 1].d; }
        for (int i = 1; i < N; ++i) if (rec[i].alive) fail("object " + num(i) + " is never deleted");
    }
};
int main(int argc, char** argv) {
    if (COSTS) __sanitizer_install_malloc_and_free_hooks([](const volatile void*, size_t) { if (library) ++obtained; }, [](const volatile void*) {});
    if (std::is_copy_constructible_v<A> || std::is_copy_assignable_v<A> || std::is_copy_constructible_v<C> || std::is_copy_assignable_v<C>)
        { printf("FAIL {\"msg\": \"a unique pointer can be copied\", \"call\": \"\", \"walk\": \"\", \"history\": \"\"}\n"); }
    return walk::main<World>(argc, argv);
}
