// Walks the transition graph that TLC printed from Ownership.tla through the
// real library, and compares the projected state after every step.
#ifndef POLICY
#define POLICY 0
#endif
// The objects' layout. 0: over-aligned, shared-from last of three bases;
// 1: natural alignment, shared-from first; 2: shared-from is a virtual base
#ifndef SHAPE
#define SHAPE 0
#endif
#include "policy.hpp"
#include <deque>
#include <unordered_map>
#include <set>
#include <sstream>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <poll.h>

// ---------------------------------------------------------------- graph
enum OpCode {
    Def, CpyC, MovC, AliC, MkaC, MkC, NulC, UnqC, LokC, SfrC, SfrU, CasC,
    CpyA, MovA, AliA, MkA, UnqA, LokA, SfrA, CasA, Rst, Swp, Des, Bulk,
    wDef, wCpyC, wMovC, wFroC, wAliC, wAlsC, wSfrC, wCpyA, wMovA, wFroA, wRst, wSwp, wDes, wBulk,
    uMk, uRst, OCpy, fMkC, fRawC, fUnqC, fMkA, fRawA, fUnqA, NOps
};
const char* const opnames[] = {
    "Def", "CpyC", "MovC", "AliC", "MkaC", "MkC", "NulC", "UnqC", "LokC", "SfrC", "SfrU", "CasC",
    "CpyA", "MovA", "AliA", "MkA", "UnqA", "LokA", "SfrA", "CasA", "Rst", "Swp", "Des", "Bulk",
    "wDef", "wCpyC", "wMovC", "wFroC", "wAliC", "wAlsC", "wSfrC", "wCpyA", "wMovA", "wFroA", "wRst", "wSwp", "wDes", "wBulk",
    "uMk", "uRst", "OCpy", "fMkC", "fRawC", "fUnqC", "fMkA", "fRawA", "fUnqA"
};
enum Facet { ALIVE = 1, COUNT = 2, OWNER = 4, VALUE = 8, WEAK = 16, MEM = 32, HOOK = 64, EXC = 128, CRASH = 256, SFT = 512, LCK = 1024, ALLOC = 2048, KEEP = 4096 };
const char* const facetnames[] = {"alive", "count", "owner", "value", "weak", "mem", "hook", "exc", "crash", "sft", "lck", "alloc", "keep"};

struct Op { int f, x, y, a, b, n; };                 // x, y index into names or -1
struct Ev { int kind, v; };                           // kind: index into evnames
const char* const evnames[] = {"dtor", "del", "free", "exc", "sft", "lck", "mk", "alo"};
struct Edge { int pre, post; Op op; std::vector<Ev> ev; };
struct Graph {
    int N = 0; bool Mem = false, Keeps = false;
    std::vector<std::string> sn, wn, un;               // slot names, members included
    std::vector<char> st, wt;
    std::vector<std::vector<int>> states;
    std::vector<Edge> edges;
    std::vector<std::vector<int>> out;
    int init = -1;
    int nroot_s = 0, nroot_w = 0;
} G;

struct Scan {
    const char* p;
    void ws() { while (*p == ' ' || *p == ',' || *p == '\\' ) ++p; }
    bool open() { ws(); if (p[0] == '<' && p[1] == '<') { p += 2; return true; } return false; }
    bool close() { ws(); if (p[0] == '>' && p[1] == '>') { p += 2; return true; } return false; }
    int num() { ws(); char* e; long v = strtol(p, &e, 10); if (e == p) { fprintf(stderr, "parse error at %.60s\n", p); exit(2); } p = e; return int(v); }
    std::string str() { ws(); if (*p != '"') { fprintf(stderr, "parse error (string) at %.60s\n", p); exit(2); } ++p; std::string s; while (*p != '\\' && *p != '"') s += *p++; if (*p == '\\') ++p; ++p; return s; }
    std::vector<int> vec() { std::vector<int> v; open(); while (!close()) v.push_back(num()); return v; }
};

int findName(const std::string& s) {
    if (s.empty()) return -1;
    for (size_t i = 0; i < G.sn.size(); ++i) if (G.sn[i] == s) return int(i);
    for (size_t i = 0; i < G.wn.size(); ++i) if (G.wn[i] == s) return 100 + int(i);
    for (size_t i = 0; i < G.un.size(); ++i) if (G.un[i] == s) return 200 + int(i);
    fprintf(stderr, "unknown slot %s\n", s.c_str()); exit(2);
}

void load(const char* fn) {
    std::ifstream in(fn);
    if (!in) { perror(fn); exit(2); }
    std::string line;
    struct H { size_t operator()(const std::vector<int>& v) const { size_t h = 1469598103934665603ull; for (int i : v) { h ^= unsigned(i + 7); h *= 1099511628211ull; } return h; } };
    std::unordered_map<std::vector<int>, int, H> ids;
    auto intern = [&](std::vector<int> v) {
        auto it = ids.find(v);
        if (it != ids.end()) return it->second;
        int i = int(G.states.size());
        G.states.push_back(v); ids.emplace(std::move(v), i); G.out.emplace_back();
        return i;
    };
    std::map<std::string, int> ops, evs;
    for (int i = 0; i < NOps; ++i) ops[opnames[i]] = i;
    for (int i = 0; i < 8; ++i) evs[evnames[i]] = i;
    std::set<std::vector<int>> seen;
    while (std::getline(in, line)) {
        if (line.rfind("\"H <<", 0) == 0) {
            if (G.N) continue;
            Scan s{line.c_str() + 3};
            s.open();
            auto slots = [&](std::vector<std::string>& n, std::vector<char>* t) {
                s.open();
                while (!s.close()) { s.open(); n.push_back(s.str()); auto ty = s.str(); if (t) t->push_back(ty[0]); s.close(); }
            };
            slots(G.sn, &G.st); slots(G.wn, &G.wt); slots(G.un, nullptr);
            G.N = s.num(); G.Mem = s.num() != 0; G.Keeps = s.num() != 0;
            G.nroot_s = int(G.sn.size()); G.nroot_w = int(G.wn.size());
            if (G.Mem) for (int c = 1; c <= G.N; ++c) {
                G.sn.push_back("m" + std::to_string(c)); G.st.push_back('D');
                G.wn.push_back("n" + std::to_string(c)); G.wt.push_back('D');
            }
            if (G.Keeps) for (int c = 1; c <= G.N; ++c) { G.sn.push_back("d" + std::to_string(c)); G.st.push_back('D'); }
        }
        else if (line.rfind("\"T <<", 0) == 0) {
            Scan s{line.c_str() + 3};
            s.open();
            Edge e;
            auto pre = s.vec();
            s.open();
            auto f = s.str();
            auto it = ops.find(f);
            if (it == ops.end()) { fprintf(stderr, "unknown op %s\n", f.c_str()); exit(2); }
            e.op.f = it->second;
            e.op.x = findName(s.str()); e.op.y = findName(s.str());
            e.op.a = s.num(); e.op.b = s.num(); e.op.n = s.num(); s.close();
            s.open();
            while (!s.close()) { s.open(); Ev v; v.kind = evs.at(s.str()); v.v = s.num(); s.close(); e.ev.push_back(v); }
            auto post = s.vec();
            e.pre = intern(std::move(pre)); e.post = intern(std::move(post));
            if (!seen.insert({e.pre, e.op.f, e.op.x, e.op.y, e.op.a, e.op.b, e.op.n}).second) continue;
            G.out[e.pre].push_back(int(G.edges.size()));
            G.edges.push_back(std::move(e));
        }
    }
    // the initial state: everything dead
    std::vector<int> z;
    for (size_t i = 0; i < G.sn.size() + G.wn.size(); ++i) { z.push_back(-1); z.push_back(0); }
    for (size_t i = 0; i < G.un.size(); ++i) z.push_back(0);
    for (int i = 0; i < 6 * G.N; ++i) z.push_back(0);
    auto it = ids.find(z);
    if (it == ids.end()) { fprintf(stderr, "no initial state in %s\n", fn); exit(2); }
    G.init = it->second;
}

std::string slotName(int i) { return i < 0 ? "" : i < 100 ? G.sn[i] : i < 200 ? G.wn[i - 100] : G.un[i - 200]; }
std::string opText(const Op& o) {
    std::ostringstream s;
    s << opnames[o.f] << "(" << slotName(o.x) << "," << slotName(o.y) << ",a=" << o.a << ",b=" << o.b << ",n=" << o.n << ")";
    return s.str();
}

// accessors into a state vector
struct SV {
    const std::vector<int>& v;
    int so(int i) const { return v[2 * i]; }
    int sp(int i) const { return v[2 * i + 1]; }
    int wo(int i) const { return v[2 * (G.sn.size() + i)]; }
    int wp(int i) const { return v[2 * (G.sn.size() + i) + 1]; }
    int u(int i) const { return v[2 * (G.sn.size() + G.wn.size()) + i]; }
    int obj(int c, int f) const { return v[2 * (G.sn.size() + G.wn.size()) + G.un.size() + 6 * (c - 1) + f]; }
    int k(int c) const { return obj(c, 0); }
    int ki(int c) const { return obj(c, 1); }
    int cl(int c) const { return obj(c, 2); }
    int rs(int c) const { return obj(c, 4); }
    int rw(int c) const { return obj(c, 5); }
};

// ---------------------------------------------------------------- objects
struct Boom {};
struct D;
struct B { virtual ~B() {} int btag = 5; };
struct Pad { virtual ~Pad() {} long pad[2] = {7, 7}; };

struct Keep;
struct ObjRec { D* d; void* obj; B* b; int* f; bool alive; int dtors; size_t size; int script; bool inplace; std::vector<Keep*> keep; };
constexpr int MaxC = 64;
struct Ctx {
    ObjRec o[MaxC];
    std::vector<Ev> ev;
    int creating = 0;       // id of the object under construction
    bool silent = false;    // objects constructed now take no part
    bool boom = false;      // constructors throw
    bool teardown = false;
    int facets = 0; std::string msg;
    int report = 0, stop = 0;
    std::set<int> blk;      // ids with a live block
} C;

void fail(int facet, const std::string& m) {
    if (!(facet & (C.report | C.stop))) return;
    if (!C.facets) C.msg = m;
    C.facets |= facet;
}
void event(int kind, int v) { C.ev.push_back({kind, v}); }
void runScript(int c, D* self);
std::string num(long v) { return std::to_string(v); }

struct Silent {};
template <typename X> P::S<X> sharedFrom(D* d, unsigned v);
#if SHAPE == 0
#define ALIGNED alignas(64)
#define BASES Pad, B, P::Esf<D>
#elif SHAPE == 1
#define ALIGNED
#define BASES P::Esf<D>, Pad, B
#else
#define ALIGNED alignas(32)
#define BASES B, Pad, P::Esf<D>
#endif
#if SHAPE == 2
#define VBASE(o) P::Esf<D>::base(o),
#else
#define VBASE(o)
#endif
struct ALIGNED D : BASES
{
    int id = 0; int field = 0; bool quiet = false;
    P::S<D> m; P::W<D> n;
    void born() {
        if (C.boom) throw Boom();
        quiet = C.silent; id = C.creating;
        if (reinterpret_cast<uintptr_t>(this) % alignof(D)) fail(MEM, "object of over-aligned type is misaligned");
        if (quiet) return;
        mem::User u;
        auto& r = C.o[id];
        if (r.alive) fail(ALIVE, "object " + num(id) + " constructed twice");
        if (!P::Std || id % 2) {    // owned by nobody yet
            int dep = mem::depth; mem::depth = 0;
            if (sharedFrom<D>(this, 0) || sharedFrom<void>(this, 0) || sharedFrom<int>(this, 0)) fail(SFT, "shared_from in a constructor yields an owner");
            mem::depth = dep;
        }
        r.d = this; r.obj = this; r.b = this; r.f = &field; r.alive = true; r.dtors = 0; r.size = sizeof(D);
    }
    D() { born(); }
    explicit D(int f) : field(f) { born(); }
    explicit D(Silent) { quiet = true; }
    D(const D& o) : VBASE(o) P::Esf<D>(o), field(o.field) { born(); }
    D(D&& o) : VBASE(std::move(o)) P::Esf<D>(std::move(o)), field(o.field) { born(); }
    D& operator=(const D& o) {
        P::Esf<D>::operator=(o);
        field = o.field;
        return *this;
    }
    D& operator=(D&& o) {
        P::Esf<D>::operator=(std::move(o));
        field = o.field;
        return *this;
    }
    ~D() {
        if (quiet) return;
        mem::User u;
        gone();
    }
    void gone() {
        auto& r = C.o[id];
        if (!r.alive) { fail(ALIVE, "object " + num(id) + " destroyed twice"); return; }
        if (r.d != this) fail(ALIVE, "destructor at a wrong address for object " + num(id));
        r.alive = false; ++r.dtors;
        event(0, id);
        if (!C.teardown) runScript(id, this);
    }
};
struct ALIGNED E : Pad, B {
    int id = 0;
    P::S<D> m; P::W<D> n;
    E() {
        if (C.boom) throw Boom();
        mem::User u;
        id = C.creating;
        auto& r = C.o[id];
        r.d = nullptr; r.obj = this; r.b = this; r.f = nullptr; r.alive = true; r.dtors = 0; r.size = sizeof(E);
    }
    E(const E&) = delete;
    ~E() {
        mem::User u;
        auto& r = C.o[id];
        if (!r.alive) { fail(ALIVE, "object " + num(id) + " destroyed twice"); return; }
        r.alive = false; ++r.dtors;
        event(0, id);
    }
};
struct Del {
    int mark = 1;
    void operator()(D* p) const noexcept { { mem::User u; event(1, p->id); } delete p; }
    void operator()(E* p) const noexcept { { mem::User u; event(1, p->id); } delete p; }
};
void delFunc(D* p) { { mem::User u; event(1, p->id); } delete p; }
Del gDel;

// a deleter that keeps a shared pointer
struct Keep {
    P::S<D> p; int id; bool has = true;
    void reg() { mem::User u; C.o[id].keep.push_back(this); }
    explicit Keep(int i, P::S<D> q) : p(std::move(q)), id(i) { reg(); }
    static inline bool lvalue = false;     // given as a constant: has to be copied
    Keep(const Keep& o) : p(o.p), id(o.id), has(o.has) {
        if (!lvalue) fail(KEEP, "the deleter of object " + num(id) + " is copied instead of moved");
        reg();
    }
    Keep(Keep&& o) noexcept : p(std::move(o.p)), id(o.id), has(std::exchange(o.has, false)) { reg(); }
    Keep& operator=(Keep&&) = delete;
    ~Keep() {
        mem::User u;
        auto& v = C.o[id].keep;
        auto i = std::find(v.begin(), v.end(), this);
        if (i == v.end()) fail(KEEP, "the deleter of object " + num(id) + " is destroyed twice");
        else v.erase(i);
    }
    void call(int c) {
        mem::User u; event(1, c);
        auto& v = C.o[id].keep;
        if (std::find(v.begin(), v.end(), this) == v.end()) fail(KEEP, "the deleter of object " + num(id) + " is called after it was destroyed");
        if (c != id) fail(KEEP, "the deleter of object " + num(id) + " is called for object " + num(c));
        if (!has) fail(KEEP, "the deleter of object " + num(id) + " is called after it was moved from");
    }
    void operator()(D* p) { call(p->id); delete p; }
    void operator()(E* p) { call(p->id); delete p; }
};

template <typename T> struct Tag { using type = T; };
template <typename F> void visT(char t, F&& f) {
    switch (t) {
    case 'D': f(Tag<D>{}); break;
    case 'B': f(Tag<B>{}); break;
    case 'K': f(Tag<const D>{}); break;
    case 'V': f(Tag<void>{}); break;
    case 'I': f(Tag<int>{}); break;
    default: abort();
    }
}
template <typename T> constexpr bool isI = std::is_same_v<T, int>;
template <typename T> constexpr bool isV = std::is_same_v<T, void>;
template <typename T> constexpr bool isB = std::is_same_v<T, B>;

// the address a code stands for
template <typename T> T* addr(int code) {
    if (!code) return nullptr;
    auto& r = C.o[code / 4];
    if constexpr (isI<T>) return r.f;
    else if constexpr (isB<T>) return r.b;
    else if constexpr (isV<T>) return code % 4 == 2 ? static_cast<void*>(r.f) : code % 4 ? static_cast<void*>(r.b) : r.obj;
    else return r.d;
}

// arrays have no aliasing constructors
template <typename X> constexpr bool aliasable = POLICY != 5 || !std::is_same_v<std::remove_const_t<X>, D>;

// ---------------------------------------------------------------- slots
struct Slot { char t; void* raw; bool live; };
std::vector<Slot> SS, WS;
std::vector<P::U<D, Del>*> US;

template <typename T> P::S<T>& sref(void* p) { return *static_cast<P::S<T>*>(p); }
template <typename T> P::W<T>& wref(void* p) { return *static_cast<P::W<T>*>(p); }
void* sbuf(int i) {
    if (i < G.nroot_s) return SS[i].raw;
    int c = i - G.nroot_s + 1;
    if (G.Keeps && c > (G.Mem ? G.N : 0)) {
        auto& k = C.o[c - (G.Mem ? G.N : 0)].keep;
        return k.empty() ? nullptr : &k.back()->p;
    }
    auto& r = C.o[c];
    if (!r.alive) return nullptr;
    return r.d ? static_cast<void*>(&r.d->m) : static_cast<void*>(&static_cast<E*>(r.obj)->m);
}
void* wbuf(int i) {
    if (i < G.nroot_w) return WS[i].raw;
    int c = i - G.nroot_w + 1;
    auto& r = C.o[c];
    if (!r.alive) return nullptr;
    return r.d ? static_cast<void*>(&r.d->n) : static_cast<void*>(&static_cast<E*>(r.obj)->n);
}

// ---------------------------------------------------------------- making objects
template <typename F> auto lib(F&& f) -> decltype(f()) { mem::Lib l; return f(); }
struct Making {          // everything allocated now belongs to block n
    int oc; mem::Tag t;
    explicit Making(int n) : oc(C.creating), t(n) { C.creating = n; }
    ~Making() { C.creating = oc; }
};
D* newD(int n) { Making m(n); mem::Tag t(1000 + n); mem::Lib l; return new D(17); }
E* newE(int n) { Making m(n); mem::Tag t(1000 + n); mem::Lib l; return new E; }

// the deleter of object n keeps a copy of the first pointer
Keep keepFor(int n) { return Keep(n, SS[0].live && SS[0].t == 'D' ? sref<D>(SS[0].raw) : P::S<D>()); }

// a shared pointer of type X that owns new object n
template <typename X> P::S<X> fresh(int kind, int cls, int n, unsigned v) {
    using P::S; using P::U;
    C.o[n].inplace = kind == 0;
    if (cls == 1) {
        if constexpr (isB<X>) {
            if (kind == 0) {
                Making m(n);
                return lib([&]() -> S<X> { return v % 2 ? S<X>(P::make<E>()) : S<X>(P::amake<E>(n)); });
            }
            E* e = newE(n);
            Making m(n);
            return lib([&]() -> S<X> {
                if (kind == 4) { if (v % 2) return S<X>(e, keepFor(n)); return S<X>(U<E, Keep>(e, keepFor(n))); }
                if (kind == 1) { if (v % 3 == 0) return S<X>(e); if (v % 3 == 1) return S<X>(U<B>(U<E>(e))); return S<X>(U<E>(e)); }
                if (v % 2) return S<X>(e, Del{});
                return S<X>(U<E, Del>(e, Del{}));
            });
        }
        abort();
    }
    if constexpr (isI<X>) abort();
    else {
        if (kind == 0) {
            D tmp{Silent{}};
            D* other = nullptr;
            for (int c = 1; c <= G.N && !other; ++c) if (c != n && C.o[c].alive) other = C.o[c].d;
            Making m(n);
            return lib([&]() -> S<X> {
                switch (v % 8) {
                case 0: return P::make<D>(17);
                case 1: return P::make<D>();
                case 2: return P::over<D>();
                case 3: return P::from(std::move(tmp));
                case 4: return P::from(tmp);
                case 5: return P::amake<D>(n, 17);
                case 6: return P::aover<D>(n);
                default: return other ? P::make<D>(std::as_const(*other)) : P::from(std::move(tmp));
                }
            });
        }
        D* d = newD(n);
        Making m(n);
        return lib([&]() -> S<X> {
            if (kind == 1) switch (v % 5) {
                case 0: return S<X>(d);
                case 1: return S<X>(U<D>(d));
                case 2: return P::auptr(U<D>(d), n);
                case 3: { S<X> s; s = U<D>(d); return s; }
                default: { S<X> s; s.reset(d); return s; }
            }
            if (kind == 4) switch (v % 6) {
                case 0: return S<X>(d, keepFor(n));
                case 1: return S<X>(U<D, Keep>(d, keepFor(n)));
                case 2: return P::auptr(U<D, Keep>(d, keepFor(n)), n);
                case 3: { S<X> s; s = U<D, Keep>(d, keepFor(n)); return s; }
                case 4: { const Keep k(keepFor(n)); Keep::lvalue = true; S<X> s(d, k); Keep::lvalue = false; return s; }
                default: { S<X> s; s.reset(d, keepFor(n)); return s; }
            }
            switch (v % 7) {
            case 0: return S<X>(d, Del{});
            case 1: return S<X>(U<D, Del>(d, Del{}));
            case 2: return S<X>(U<D, Del&>(d, gDel));
            case 3: return S<X>(U<D, void(*)(D*)>(d, delFunc));
            case 4: return P::auptr(U<D, Del>(d, Del{}), n);
            case 5: { S<X> s; s = U<D, Del>(d, Del{}); return s; }
            default: { S<X> s; s.reset(d, Del{}); return s; }
            }
        });
    }
}
// x = new object n, through assignment and reset
template <typename X> void assignFresh(P::S<X>& x, int kind, int cls, int n, unsigned v) {
    using P::S; using P::U;
    unsigned how = v % 3; v /= 3;
    if (how == 0 || kind == 0 || cls == 1 || isI<X>) { auto tmp = fresh<X>(kind, cls, n, v); lib([&] { x = std::move(tmp); }); return; }
    if constexpr (!isI<X>) {
        C.o[n].inplace = false;
        D* d = newD(n);
        Making m(n);
        lib([&] {
            if (kind == 1) { if (how == 1) x.reset(d); else x = U<D>(d); }
            else if (kind == 4) { if (how == 1) x.reset(d, keepFor(n)); else x = U<D, Keep>(d, keepFor(n)); }
            else { if (how == 1) x.reset(d, Del{}); else x = U<D, Del>(d, Del{}); }
        });
    }
}

// what a constant object says of itself agrees with what it says otherwise
template <typename Q> void agree(const Q& q, D* d, bool weak) {
    const D* k = d;
    bool none = true; const void* p = nullptr; long n = 0;
    try {
        if (weak) { auto c = lib([&] { return k->void_weak(); }); none = P::none(c); n = c.use_count(); if (n) p = lib([&] { return c.lock(); }).get(); }
        else { auto c = lib([&] { return k->void_this(); }); none = P::none(c); p = c.get(); n = c.use_count(); }
    } catch (const std::bad_weak_ptr&) { if (!P::Std) throw; }
    long want = q.use_count() + (weak || P::none(q) ? 0 : 1);
    if (none != P::none(q) || n != want || p != (want ? d : nullptr)) fail(SFT, std::string(weak ? "weak" : "shared") + "_from_this of a constant object differs from that of the object");
}
template <typename X> P::S<X> sharedFrom(D* d, unsigned v) {
    if constexpr (isV<X>) {
        auto q = sharedFrom<const D>(d, v);
        agree(q, d, false);
    }
    try {
        return lib([&]() -> P::S<X> {
            if constexpr (isI<X>) return d->alias_this(&d->field);
            else if constexpr (isV<X>) return v % 3 == 0 ? P::S<X>(d->void_this()) : v % 3 == 1 ? P::S<X>(d->alias_this(static_cast<void*>(d))) : P::S<X>(d->typed_this());
            else if constexpr (std::is_const_v<X>) return v % 3 == 0 ? P::S<X>(std::as_const(*d).typed_this()) : v % 3 == 1 ? P::S<X>(d->alias_this(static_cast<const D*>(d))) : P::S<X>(d->typed_this());
            else if constexpr (isB<X>) return d->alias_this(static_cast<B*>(d));
            else return v % 2 ? d->typed_this() : d->alias_this(d);
        });
    } catch (const std::bad_weak_ptr&) { if (!P::Std) throw; return {}; }
}
template <typename X> P::W<X> weakFrom(D* d, unsigned v) {
    if constexpr (isV<X>) {
        auto q = weakFrom<const D>(d, v);
        agree(q, d, true);
    }
    try {
        return lib([&]() -> P::W<X> {
            if constexpr (isI<X>) return d->alias_weak(&d->field);
            else if constexpr (isV<X>) return v % 2 ? P::W<X>(d->void_weak()) : P::W<X>(d->typed_weak());
            else if constexpr (std::is_const_v<X>) return v % 2 ? P::W<X>(std::as_const(*d).typed_weak()) : P::W<X>(d->alias_weak(static_cast<const D*>(d)));
            else if constexpr (isB<X>) return d->alias_weak(static_cast<B*>(d));
            else return v % 2 ? d->typed_weak() : d->alias_weak(d);
        });
    } catch (const std::bad_weak_ptr&) { if (!P::Std) throw; return {}; }
}

int lowestFree(int cur) {
    for (int c = 1; c <= G.N; ++c) if (c != cur && !C.o[c].alive && !mem::live[c] && !mem::live[1000 + c]) return c;
    return 0;
}
int gCreating = 0;   // id the current operation creates

void runScript(int c, D* self) {
    int sc = C.o[c].script;
    if (!sc || G.nroot_s < 1) return;
    auto& X = sref<D>(SS[0].raw);
    bool hasX = SS[0].live;
    bool hasW = G.nroot_w > 0 && WS[0].live;
    unsigned v = unsigned(c * 31 + C.ev.size());
    switch (sc) {
    case 1: if (hasX) lib([&] { X.reset(); }); break;
    case 2: if (hasX && G.nroot_s > 1 && SS[1].live) lib([&] { X = sref<D>(SS[1].raw); }); break;
    case 3: {
        int r = 0;
        if (sharedFrom<D>(self, 0)) r = 1;
        if (sharedFrom<D>(self, 1)) r = 1;
        if (sharedFrom<const D>(self, 0)) r = 1;
        if (sharedFrom<void>(self, 0)) r = 1;
        if (sharedFrom<int>(self, 0)) r = 1;
        try { if (std::as_const(*self).void_this()) r = 1; } catch (const std::bad_weak_ptr&) {}
        event(4, r);
        break;
    }
    case 4: if (hasW) { auto w = weakFrom<D>(self, v); lib([&] { wref<D>(WS[0].raw) = std::move(w); }); } break;
    case 5: if (hasW) {
        auto l = lib([&] { return wref<D>(WS[0].raw).lock(); });
        int code = 0;
        if (l.get()) { code = -1; for (int i = 1; i <= G.N + 1; ++i) if (C.o[i].d == l.get() && C.o[i].alive) code = 4 * i; }
        event(5, code);
        lib([&] { l.reset(); });
    } break;
    case 6: if (hasX) {
        int n = lowestFree(gCreating == c ? 0 : gCreating);
        if (!n) break;
        event(6, n);
        C.o[n].script = 0;
        auto t = fresh<D>(0, 0, n, v);
        lib([&] { X = std::move(t); });
        break;
    }
    }
}

// ---------------------------------------------------------------- operations
template <typename F> void visS(int i, F&& f) { void* p = sbuf(i); visT(i < G.nroot_s ? G.st[i] : 'D', [&](auto t) { f(t, p); }); }
template <typename F> void visW(int i, F&& f) { i -= i >= 100 ? 100 : 0; void* p = wbuf(i); visT(i < G.nroot_w ? G.wt[i] : 'D', [&](auto t) { f(t, p); }); }
template <typename X, typename Y> constexpr bool conv = std::is_convertible_v<Y*, X*>;

template <typename X, typename Y> P::S<X> castTo(int kind, const P::S<Y>& y) {
#if POLICY == 4
    using namespace std;
#else
    using namespace xmem;
#endif
    if constexpr (!isI<X> && !isI<Y>) {
        if (kind == 1) { if constexpr (!(std::is_const_v<Y> && !std::is_const_v<X>) && !(std::is_const_v<X> && !std::is_same_v<X, Y>) ) return static_pointer_cast<X>(y); }
        if (kind == 2) { if constexpr (std::is_same_v<std::remove_const_t<X>, std::remove_const_t<Y>>) return const_pointer_cast<X>(y); }
        if (kind == 3) { if constexpr (isV<Y> && !std::is_const_v<X>) return reinterpret_pointer_cast<X>(y); }
        if (kind == 4) { if constexpr (!isV<Y> && (std::is_const_v<X> || !std::is_const_v<Y>)) return dynamic_pointer_cast<X>(y); }
    }
    else if constexpr (std::is_same_v<X, Y>) {
        if (kind == 1) return static_pointer_cast<X>(y);
        if (kind == 2) return const_pointer_cast<X>(y);
    }
    else if constexpr (isI<Y> && isV<X>) { if (kind == 1) return static_pointer_cast<X>(y); }
    abort();
}

template <typename X> void kill(P::S<X>& x) { using Q = P::S<X>; mem::Lib l; x.~Q(); }
template <typename X> void killW(P::W<X>& x) { using Q = P::W<X>; mem::Lib l; x.~Q(); }
constexpr size_t SlotSize = sizeof(P::S<D>);
void garbage(void* p) { memset(p, 0xC3, SlotSize); }

template <typename X, typename F> void constructS(int i, F&& f) {
    void* p = SS[i].raw;
    new (p) P::S<X>(f());
    SS[i].live = true;
}
template <typename X, typename F> void constructW(int i, F&& f) {
    void* p = WS[i].raw;
    new (p) P::W<X>(f());
    WS[i].live = true;
}

void bulkS(int i, int n) {
    visS(i, [&](auto t, void* p) {
        using X = typename decltype(t)::type;
        auto& x = sref<X>(p);
        long base = x.use_count();
        std::vector<P::S<X>> v;
        v.reserve(n);
        for (int k = 0; k < n; ++k) {
            v.push_back(x);
            if (x.use_count() != base + k + 1) { fail(COUNT, "use_count " + num(x.use_count()) + " with " + num(base + k + 1) + " owners"); break; }
        }
        while (!v.empty()) v.pop_back();
        if (x.use_count() != base) fail(COUNT, "use_count " + num(x.use_count()) + " after " + num(n) + " copies are gone, expected " + num(base));
    });
}
void bulkW(int i, int n) {
    visW(i, [&](auto t, void* p) {
        using X = typename decltype(t)::type;
        auto& x = wref<X>(p);
        std::vector<P::W<X>> v;
        v.reserve(n);
        for (int k = 0; k < n; ++k) v.push_back(x);
        while (!v.empty()) v.pop_back();
    });
}

// one operation; v selects among equivalent ways of calling the library
void doOp(const Op& o, unsigned v) {
    using P::S; using P::W; using P::U;
    int x = o.x, y = o.y, f = o.f;
    gCreating = o.n;
    if (o.n && !C.o[o.n].alive) C.o[o.n].script = 0;
    switch (f) {
    case Def: visT(G.st[x], [&](auto t) { using X = typename decltype(t)::type;
        void* p = SS[x].raw;
        lib([&] { switch (v % 3) { case 0: new (p) S<X>(); break; case 1: new (p) S<X>(nullptr); break; default: new (p) S<X>{}; } });
        SS[x].live = true; }); break;
    case CpyC: case MovC: case AliC: case MkaC: case CasC:
        visT(G.st[x], [&](auto t) { using X = typename decltype(t)::type;
        visS(y, [&](auto u, void* q) { using Y = typename decltype(u)::type;
            auto& sy = sref<Y>(q); void* p = SS[x].raw; bool done = true;
            mem::Lib l;
            if (f == CpyC) { if constexpr (conv<X, Y>) { if (v % 2) new (p) S<X>(sy); else new (p) S<X>(std::as_const(sy)); } else abort(); }
            else if (f == MovC) { if constexpr (conv<X, Y>) new (p) S<X>(std::move(sy)); else abort(); }
            else if (f == AliC) { if constexpr (aliasable<X>) new (p) S<X>(sy, addr<X>(o.a)); else abort(); }
            else if (f == MkaC) new (p) S<X>(P::aliased<X>(sy, addr<X>(o.a)));
            else new (p) S<X>(castTo<X, Y>(o.a, sy));
            if (done) SS[x].live = true;
        }); }); break;
    case CpyA: case MovA: case AliA: case CasA:
        visS(x, [&](auto t, void* p) { using X = typename decltype(t)::type;
        visS(y, [&](auto u, void* q) { using Y = typename decltype(u)::type;
            auto& sx = sref<X>(p); auto& sy = sref<Y>(q);
            mem::Lib l;
            if (f == CpyA) { if constexpr (conv<X, Y>) { if (v % 2) sx = sy; else sx = std::as_const(sy); } else abort(); }
            else if (f == MovA) { if constexpr (conv<X, Y>) sx = std::move(sy); else abort(); }
            else if (f == AliA) { if constexpr (aliasable<X>) { if (v % 2) sx = S<X>(sy, addr<X>(o.a)); else { S<X> tmp(sy, addr<X>(o.a)); sx.swap(tmp); } } else abort(); }
            else sx = castTo<X, Y>(o.a, sy);
        }); }); break;
    case MkC: {
        int kind = o.a % 10, cls = o.a / 10 % 10; C.o[o.n].script = o.a / 100;
        visT(G.st[x], [&](auto t) { using X = typename decltype(t)::type; constructS<X>(x, [&]() -> S<X> { return fresh<X>(kind, cls, o.n, v); }); });
        break;
    }
    case MkA: {
        int kind = o.a % 10, cls = o.a / 10 % 10; C.o[o.n].script = o.a / 100;
        visS(x, [&](auto t, void* p) { using X = typename decltype(t)::type; assignFresh<X>(sref<X>(p), kind, cls, o.n, v); });
        break;
    }
    case NulC: visT(G.st[x], [&](auto t) { using X = typename decltype(t)::type;
        Making m(o.n); C.o[o.n].inplace = false;
        constructS<X>(x, [&]() -> S<X> { mem::Lib l;
            if constexpr (!P::Std && !isI<X>) if (o.a == 4) {
                if constexpr (std::is_same_v<X, D> && POLICY != 5) if (v % 3 == 0) return S<X>(nullptr, keepFor(o.n));
                if (v % 2) return S<X>(static_cast<D*>(nullptr), keepFor(o.n));
                return S<X>(U<D, Keep>(static_cast<D*>(nullptr), keepFor(o.n)));
            }
            if constexpr (std::is_same_v<X, D> && !P::Std) {
                switch (v % 4) {
                case 0: return S<X>(static_cast<D*>(nullptr));
                case 1: if constexpr (POLICY != 5) return S<X>(nullptr, Del{}); else return S<X>(static_cast<D*>(nullptr), Del{});
                case 2: return S<X>(static_cast<D*>(nullptr), Del{});
                default: return S<X>(U<D>());
                }
            }
            if constexpr (!P::Std && !isI<X>) if (v % 2) return S<X>(U<D>());
            if constexpr (isI<X>) abort(); else return S<X>(static_cast<D*>(nullptr)); }); }); break;
    case UnqC: visT(G.st[x], [&](auto t) { using X = typename decltype(t)::type;
        if constexpr (!isI<X>) {
        Making m(o.n); C.o[o.n].inplace = false;
        auto& u = *US[y - 200];
        constructS<X>(x, [&]() -> S<X> { mem::Lib l;
            if (P::Std && !u) return S<X>(static_cast<D*>(nullptr));
            return S<X>(std::move(u)); });
        } }); break;
    case UnqA: visS(x, [&](auto t, void* p) { using X = typename decltype(t)::type;
        if constexpr (!isI<X>) {
        Making m(o.n); C.o[o.n].inplace = false;
        auto& u = *US[y - 200]; mem::Lib l;
        if (P::Std && !u) sref<X>(p).reset(static_cast<D*>(nullptr));
        else sref<X>(p) = std::move(u);
        } }); break;
    case LokC: visT(G.st[x], [&](auto t) { using X = typename decltype(t)::type;
        visW(y, [&](auto u, void* q) { using Y = typename decltype(u)::type;
            if constexpr (std::is_same_v<X, Y>) constructS<X>(x, [&]() -> S<X> { mem::Lib l; return wref<Y>(q).lock(); }); }); }); break;
    case LokA: visS(x, [&](auto t, void* p) { using X = typename decltype(t)::type;
        visW(y, [&](auto u, void* q) { using Y = typename decltype(u)::type;
            if constexpr (std::is_same_v<X, Y>) { mem::Lib l; sref<X>(p) = wref<Y>(q).lock(); } }); }); break;
    case SfrC: visT(G.st[x], [&](auto t) { using X = typename decltype(t)::type;
        constructS<X>(x, [&]() -> S<X> { return sharedFrom<X>(C.o[o.a ? o.a : G.N + 1].d, v); }); }); break;
    case SfrU: visT(G.st[x], [&](auto t) { using X = typename decltype(t)::type;
        constructS<X>(x, [&]() -> S<X> { return sharedFrom<X>(US[y - 200]->get(), v); }); }); break;
    case SfrA: visS(x, [&](auto t, void* p) { using X = typename decltype(t)::type;
        auto s = sharedFrom<X>(C.o[o.a ? o.a : G.N + 1].d, v); lib([&] { sref<X>(p) = std::move(s); }); }); break;
    case Rst: visS(x, [&](auto t, void* p) { using X = typename decltype(t)::type;
        auto& sx = sref<X>(p); mem::Lib l;
        switch (v % 4) { case 0: case 1: sx.reset(); break; case 2: sx = nullptr; break; default: sx = S<X>(); } }); break;
    case Swp: visS(x, [&](auto t, void* p) { using X = typename decltype(t)::type;
        auto& a = sref<X>(p); auto& b = sref<X>(sbuf(y)); mem::Lib l;
        switch (v % 4) { case 0: case 1: a.swap(b); break; case 2: b.swap(a); break; default: { using std::swap; swap(a, b); } } }); break;
    case Des: visT(SS[x].t, [&](auto t) { using X = typename decltype(t)::type;
        SS[x].live = false; kill<X>(sref<X>(SS[x].raw)); garbage(SS[x].raw); }); break;
    case Bulk: bulkS(x, v % 64 == 0 && POLICY != 2 && POLICY != 3 ? 70000 : o.a); break;

    case wDef: visT(G.wt[x - 100], [&](auto t) { using X = typename decltype(t)::type;
        void* p = WS[x - 100].raw;
        lib([&] { if (v % 2) new (p) W<X>(); else new (p) W<X>{}; }); WS[x - 100].live = true; }); break;
    case wCpyC: case wMovC: case wAliC:
        visT(G.wt[x - 100], [&](auto t) { using X = typename decltype(t)::type;
        visW(y, [&](auto u, void* q) { using Y = typename decltype(u)::type;
            auto& wy = wref<Y>(q); void* p = WS[x - 100].raw;
            mem::Lib l;
            if (f == wAliC) {
#if POLICY != 4
                if constexpr (aliasable<X>) new (p) W<X>(wy, addr<X>(o.a)); else abort();
#endif
            }
            else if constexpr (conv<X, Y>) { if (f == wMovC) new (p) W<X>(std::move(wy)); else if (v % 2) new (p) W<X>(wy); else new (p) W<X>(std::as_const(wy)); }
            else abort();
            WS[x - 100].live = true;
        }); }); break;
    case wFroC: case wAlsC:
        visT(G.wt[x - 100], [&](auto t) { using X = typename decltype(t)::type;
        visS(y, [&](auto u, void* q) { using Y = typename decltype(u)::type;
            auto& sy = sref<Y>(q); void* p = WS[x - 100].raw;
            mem::Lib l;
            if (f == wAlsC) {
#if POLICY != 4
                if constexpr (aliasable<X>) new (p) W<X>(sy, addr<X>(o.a)); else abort();
#endif
            }
            else if constexpr (conv<X, Y>) { if (v % 2) new (p) W<X>(sy); else new (p) W<X>(std::as_const(sy)); }
            else abort();
            WS[x - 100].live = true;
        }); }); break;
    case wSfrC: visT(G.wt[x - 100], [&](auto t) { using X = typename decltype(t)::type;
        constructW<X>(x - 100, [&]() -> W<X> { return weakFrom<X>(C.o[o.a ? o.a : G.N + 1].d, v); }); }); break;
    case wCpyA: case wMovA:
        visW(x, [&](auto t, void* p) { using X = typename decltype(t)::type;
        visW(y, [&](auto u, void* q) { using Y = typename decltype(u)::type;
            mem::Lib l;
            if constexpr (conv<X, Y>) { if (f == wMovA) wref<X>(p) = std::move(wref<Y>(q)); else if (v % 2) wref<X>(p) = wref<Y>(q); else wref<X>(p) = std::as_const(wref<Y>(q)); }
            else abort(); }); }); break;
    case wFroA:
        visW(x, [&](auto t, void* p) { using X = typename decltype(t)::type;
        visS(y, [&](auto u, void* q) { using Y = typename decltype(u)::type;
            mem::Lib l;
            if constexpr (conv<X, Y>) { if (v % 2) wref<X>(p) = sref<Y>(q); else wref<X>(p) = std::as_const(sref<Y>(q)); }
            else abort(); }); }); break;
    case wRst: visW(x, [&](auto t, void* p) { using X = typename decltype(t)::type; mem::Lib l;
        if (v % 3) wref<X>(p).reset(); else wref<X>(p) = W<X>(); }); break;
    case wSwp: visW(x, [&](auto t, void* p) { using X = typename decltype(t)::type;
        auto& a = wref<X>(p); auto& b = wref<X>(wbuf(y - 100)); mem::Lib l;
        switch (v % 4) { case 0: case 1: a.swap(b); break; case 2: b.swap(a); break; default: { using std::swap; swap(a, b); } } }); break;
    case wDes: visT(WS[x - 100].t, [&](auto t) { using X = typename decltype(t)::type;
        WS[x - 100].live = false; killW<X>(wref<X>(WS[x - 100].raw)); garbage(WS[x - 100].raw); }); break;
    case wBulk: bulkW(x - 100, v % 64 == 0 && POLICY != 2 && POLICY != 3 ? 70000 : o.a); break;

    case uMk: C.o[o.n].script = o.a / 100; C.o[o.n].inplace = false; US[x - 200]->reset(newD(o.n)); break;
    case uRst: { mem::Lib l; if (v % 2) US[x - 200]->reset(); else *US[x - 200] = nullptr; break; }
    case OCpy: {
        D* a = C.o[o.a].d; D* b = C.o[o.b].d;
        bool old = C.silent; C.silent = true;
        auto unowned = [&](D& t, const char* what) {
            // a copy of an object is itself owned by nobody
            if (sharedFrom<D>(&t, v / 2) || sharedFrom<void>(&t, 0) || sharedFrom<D>(&t, v / 2 + 1)) fail(SFT, std::string("shared_from on an object ") + what + " another joins an owner");
            if constexpr (!P::Std) if (!P::none(weakFrom<D>(&t, v / 2)) || !P::none(weakFrom<void>(&t, 0))) fail(SFT, std::string("weak_from on an object ") + what + " another has an owner");
        };
        switch (v % 5) {
        case 0: if (o.a != o.b) *a = *b; else { D& r = *b; *a = r; } break;
        case 1: { D tmp(*b); unowned(tmp, "copied from"); *a = tmp; break; }
        case 2: { D tmp{Silent{}}; tmp = *b; unowned(tmp, "assigned from"); *a = std::move(tmp); break; }
        case 3: { D tmp(std::move(*b)); unowned(tmp, "moved from"); if (o.a != o.b) *a = std::move(*b); break; }
        case 4: { D tmp{Silent{}}; tmp = std::move(*b); unowned(tmp, "move-assigned from"); D again(tmp); unowned(again, "copied from one assigned from"); break; }
        }
        C.silent = old;
        break;
    }
    // ---- injected failures
    case fMkC: case fMkA: {
        bool threw = false;
        auto go = [&](auto&& sink) {
            D tmp{Silent{}};
            try {
                mem::Lib l; mem::Tag tg(0);
                C.creating = MaxC - 1;
                if (o.a == 0) mem::fail_in = 0; else C.boom = true;
                switch (v % 6) {
                case 0: sink(P::make<D>(17)); break;
                case 1: sink(P::from(std::move(tmp))); break;
                case 2: sink(P::amake<D>(5, 17)); break;
                case 3: sink(P::over<D>()); break;
                case 4: sink(P::aover<D>(5)); break;
                default: sink(P::from(tmp)); break;
                }
            } catch (const std::bad_alloc&) { threw = o.a == 0; } catch (const Boom&) { threw = o.a == 1; }
            mem::fail_in = -1; C.boom = false; C.creating = 0;
            if (threw) event(3, 0);
        };
        if (f == fMkC) visT(G.st[x], [&](auto t) { using X = typename decltype(t)::type;
            if constexpr (!isI<X>) go([&](auto&& s) { S<X> tmp(std::move(s)); }); });
        else visS(x, [&](auto t, void* p) { using X = typename decltype(t)::type;
            if constexpr (!isI<X>) go([&](auto&& s) { sref<X>(p) = std::move(s); }); });
        break;
    }
    case fRawC: case fRawA: {
        D* d = newD(o.n); C.o[o.n].inplace = false;
        bool threw = false;
        auto go = [&](auto&& act) {
            try { mem::Lib l; mem::Tag tg(0); mem::fail_in = 0; act(); }
            catch (const std::bad_alloc&) { threw = true; }
            mem::fail_in = -1;
            if (threw) event(3, 0);
        };
        if (f == fRawC) visT(G.st[x], [&](auto t) { using X = typename decltype(t)::type;
            if constexpr (!isI<X>) go([&] {
                void* p = SS[x].raw;
                if (o.a == 1) new (p) S<X>(d);
                else if (o.a == 4) { if (v % 2) new (p) S<X>(d, keepFor(o.n)); else new (p) S<X>(U<D, Keep>(d, keepFor(o.n))); }
                else new (p) S<X>(d, Del{});
                SS[x].live = true; }); });
        else visS(x, [&](auto t, void* p) { using X = typename decltype(t)::type;
            if constexpr (!isI<X>) go([&] {
                auto& sx = sref<X>(p);
                if (o.a == 1) { if (v % 2) sx.reset(d); else sx = S<X>(d); }
                else if (o.a == 4) { if (v % 2) sx.reset(d, keepFor(o.n)); else sx = S<X>(d, keepFor(o.n)); }
                else { if (v % 2) sx.reset(d, Del{}); else sx = S<X>(d, Del{}); } }); });
        if (!threw && f == fRawC) garbage(SS[x].raw);
        break;
    }
    case fUnqC: case fUnqA: {
        bool threw = false;
        auto& u = *US[y - 200];
        auto go = [&](auto&& act) {
            try { mem::Lib l; mem::Tag tg(0); mem::fail_in = 0; act(); }
            catch (const std::bad_alloc&) { threw = true; }
            mem::fail_in = -1;
            if (threw) event(3, 0);
        };
        if (f == fUnqC) visT(G.st[x], [&](auto t) { using X = typename decltype(t)::type;
            if constexpr (!isI<X>) go([&] { new (SS[x].raw) S<X>(std::move(u)); SS[x].live = true; }); });
        else visS(x, [&](auto t, void* p) { using X = typename decltype(t)::type;
            if constexpr (!isI<X>) go([&] { auto& sx = sref<X>(p); sx = std::move(u); }); });
        break;
    }
    default: abort();
    }
    gCreating = 0;
}

// ---------------------------------------------------------------- comparison
int codeOf(const void* p) { if (!p) return 0; for (int c = 1; c <= G.N + 1; ++c) { auto& r = C.o[c]; if (p == r.obj) return 4 * c; if (p == r.b) return 4 * c + 1; if (p == r.f) return 4 * c + 2; } return -1; }
std::string evText(const std::vector<Ev>& v) {
    std::string s;
    for (auto& e : v) s += std::string(s.empty() ? "" : " ") + evnames[e.kind] + num(e.v);
    return "[" + s + "]";
}
const void* ownerOf[MaxC];

template <typename Q> void checkOwner(const Q& q, int o, const std::string& nm, int facet) {
    if (P::none(q) != (o == 0)) { fail(facet, nm + ": no_owner is " + (P::none(q) ? "true" : "false")); return; }
    if (P::Std) return;
    const void* ow = P::owner(q);
    if ((ow == nullptr) != (o == 0)) { fail(facet, nm + (o ? ": owner lost" : ": owner where there should be none")); return; }
#if POLICY != 4
    if (static_cast<const void*>(q.t_owner()) != ow) fail(facet, nm + ": t_owner differs from owner");
#endif
    if (!o) return;
    if (!ownerOf[o]) {
        for (int c = 1; c <= G.N; ++c) if (c != o && ownerOf[c] == ow) { fail(facet, nm + ": shares the owner of object " + num(c) + " instead of " + num(o)); return; }
        ownerOf[o] = ow;
    }
    else if (ownerOf[o] != ow) fail(facet, nm + ": wrong owner (expected that of object " + num(o) + ")");
}

// operations on existing pointers cannot fail, and say so
template <typename T> constexpr bool saysSwap = noexcept(std::declval<T&>().swap(std::declval<T&>()));
template <typename A, typename B> constexpr bool saysAssign = std::is_nothrow_assignable_v<A&, const B&> && std::is_nothrow_assignable_v<A&, B&&>;
bool declared(int f) {
    using SD = P::S<D>; using SK = P::S<const D>; using WD = P::W<D>; using WK = P::W<const D>;
    switch (f) {
    case Def: return std::is_nothrow_default_constructible_v<SD> && std::is_nothrow_constructible_v<SD, std::nullptr_t>;
    case CpyC: return std::is_nothrow_copy_constructible_v<SD> && std::is_nothrow_constructible_v<SK, const SD&>;
    case MovC: return std::is_nothrow_move_constructible_v<SD> && std::is_nothrow_constructible_v<SK, SD&&>;
    case CpyA: case MovA: return saysAssign<SD, SD> && saysAssign<SK, SD>;
    case Rst: return noexcept(std::declval<SD&>().reset());
    case Swp: return saysSwap<SD>;
    case Des: return std::is_nothrow_destructible_v<SD>;
    case LokC: case LokA: return noexcept(std::declval<const WD&>().lock());
    case wDef: return std::is_nothrow_default_constructible_v<WD>;
    case wCpyC: return std::is_nothrow_copy_constructible_v<WD> && std::is_nothrow_constructible_v<WK, const WD&>;
    case wMovC: return std::is_nothrow_move_constructible_v<WD> && std::is_nothrow_constructible_v<WK, WD&&>;
    case wFroC: return std::is_nothrow_constructible_v<WD, const SD&> && std::is_nothrow_constructible_v<WK, const SD&>;
    case wCpyA: case wMovA: return saysAssign<WD, WD> && saysAssign<WK, WD>;
    case wFroA: return std::is_nothrow_assignable_v<WD&, const SD&> && std::is_nothrow_assignable_v<WK&, const SD&>;
    case wRst: return noexcept(std::declval<WD&>().reset());
    case wSwp: return saysSwap<WD>;
    case wDes: return std::is_nothrow_destructible_v<WD>;
    case AliC: return !aliasable<int> || std::is_nothrow_constructible_v<P::S<int>, const SD&, int*>;
    default: return true;
    }
}

void compare(const Edge& e, unsigned v) {
    SV z{G.states[e.post]};
    for (auto& x : e.ev) if (x.kind == 2) ownerOf[x.v] = nullptr;      // a new block may take its place at once
    // events
    auto pick = [&](const std::vector<Ev>& a, std::initializer_list<int> kinds) {
        std::vector<Ev> r;
        for (auto& x : a) for (int k : kinds) if (x.kind == k) r.push_back(x);
        return r;
    };
    auto same = [](const std::vector<Ev>& a, const std::vector<Ev>& b) {
        if (a.size() != b.size()) return false;
        for (size_t i = 0; i < a.size(); ++i) if (a[i].kind != b[i].kind || a[i].v != b[i].v) return false;
        return true;
    };
    auto evCheck = [&](std::initializer_list<int> kinds, int facet) {
        auto a = pick(e.ev, kinds), b = pick(C.ev, kinds);
        if (!same(a, b)) fail(facet, "happened " + evText(b) + ", specified " + evText(a));
    };
    evCheck({0, 1}, ALIVE);
    evCheck({2}, MEM);
    evCheck({3}, EXC);
    evCheck({4}, SFT);
    evCheck({5}, LCK);
    evCheck({6, 7}, ALLOC);
    if (!declared(e.op.f)) fail(ALLOC, std::string(opnames[e.op.f]) + " is not declared noexcept");
    bool lifeDiffers = false;
    for (int c = 1; c <= G.N; ++c) {
        bool alive = (z.k(c) == 1 || z.k(c) == 3) && z.ki(c) != 3;
        if (C.o[c].alive != alive) lifeDiffers = true, fail(ALIVE, "object " + num(c) + (alive ? " was destroyed" : " is still alive"));
        if (z.k(c) == 0) ownerOf[c] = nullptr;
        bool blk = z.k(c) == 1 || z.k(c) == 2;
        if ((mem::live[c] > 0) != blk) lifeDiffers = true, fail(MEM, "control block of object " + num(c) + (blk ? " was freed" : " remains"));
        bool heap = alive && z.ki(c) != 0;
        if ((mem::live[1000 + c] > 0) != heap) fail(MEM, "storage of adopted object " + num(c) + (heap ? " was freed" : " remains"));
    }
    if (G.Keeps) for (int c = 1; c <= G.N; ++c) {
        size_t n = z.so(G.nroot_s + (G.Mem ? G.N : 0) + c - 1) >= 0, has = C.o[c].keep.size();
        if (has != n) lifeDiffers = true, fail(KEEP, "the deleter given with object " + num(c) + (has < n ? " is gone" : n ? " exists twice" : " still exists"));
    }
    if (mem::live[0]) fail(MEM, "storage of a failed operation remains");
    if (mem::error) fail(MEM, mem::error);
    // once lifetimes differ only what the pointers store themselves may be looked at
    const bool safe = !lifeDiffers;
    // shared pointers
    for (size_t i = 0; i < G.sn.size(); ++i) {
        int o = z.so(int(i));
        if (o < 0) continue;
        int p = z.sp(int(i));
        visS(int(i), [&](auto t, void* q) { using X = typename decltype(t)::type;
            const bool kept = G.Keeps && int(i) >= G.nroot_s + (G.Mem ? G.N : 0);
            if (!q) { fail(kept ? KEEP : ALIVE, kept ? "deleter of a destroyed object" : "member of a destroyed object"); return; }
            auto& s = sref<X>(q);
            auto& nm = G.sn[i];
            checkOwner(s, o, nm, kept ? OWNER | KEEP : OWNER);
            long rc = o ? z.rs(o) : 0;
            if (safe) if (s.use_count() != rc) fail(COUNT, nm + ".use_count() is " + num(s.use_count()) + ", specified " + num(rc));
            X* a = addr<X>(p);
            if (s.get() != a) { fail(kept ? VALUE | KEEP : VALUE, nm + ".get() is code " + num(codeOf(s.get())) + ", specified " + num(p)); return; }
            if (bool(s) != (a != nullptr)) fail(VALUE, nm + ": bool is wrong");
            if constexpr (!isV<X>) if (safe && a && C.o[p / 4].alive) {
#if POLICY != 5
                if (&*s != a || s.operator->() != a) fail(VALUE, nm + ": dereference is wrong");
#endif
#if POLICY != 4
                if (&s[0] != a || &s[1] != a + 1) fail(VALUE, nm + ": indexing is wrong");
#endif
            }
        });
    }
    // pairs of shared pointers
    if (safe) {
        int n = int(G.sn.size());
        int i = v % n, j = (v / 7) % n;
        for (int r = 0; r < 2; ++r, j = (j + 1) % n) {
            if (z.so(i) < 0 || z.so(j) < 0) continue;
            visS(i, [&](auto t, void* q) { using X = typename decltype(t)::type;
            visS(j, [&](auto u, void* w) { using Y = typename decltype(u)::type;
                auto& a = sref<X>(q); auto& b = sref<Y>(w);
                if (P::same(a, b) != (z.so(i) == z.so(j))) fail(OWNER, "same_owner(" + G.sn[i] + "," + G.sn[j] + ") is wrong");
                bool ab = a.owner_before(b), ba = b.owner_before(a);
                if ((ab || ba) != (z.so(i) != z.so(j)) || (ab && ba)) fail(OWNER, "owner_before(" + G.sn[i] + "," + G.sn[j] + ") is wrong");
                if constexpr (conv<X, Y> || conv<Y, X>) {
                    using CT = std::common_type_t<X*, Y*>;
                    CT pa = a.get(), pb = b.get();
                    if ((a == b) != (pa == pb) || (a != b) != (pa != pb)) fail(VALUE, "comparison of " + G.sn[i] + " and " + G.sn[j] + " is wrong");
                    std::less<CT> lt;
                    if ((a < b) != lt(pa, pb) || (a > b) != lt(pb, pa) || (a <= b) != !lt(pb, pa) || (a >= b) != !lt(pa, pb)) fail(VALUE, "ordering of " + G.sn[i] + " and " + G.sn[j] + " is wrong");
                }
            }); });
        }
        if (v % 16 == 0 && z.so(i) >= 0) visS(i, [&](auto t, void* q) { using X = typename decltype(t)::type;
            std::ostringstream a, b; a << sref<X>(q); b << sref<X>(q).get();
            if (a.str() != b.str()) fail(VALUE, "operator<< of " + G.sn[i] + " prints " + a.str() + " instead of " + b.str()); });
    }
    // weak pointers
    for (size_t i = 0; i < G.wn.size(); ++i) {
        int o = z.wo(int(i));
        if (o < 0) continue;
        int p = z.wp(int(i));
        visW(int(i), [&](auto t, void* q) { using X = typename decltype(t)::type;
            if (!q) { fail(ALIVE, "member of a destroyed object"); return; }
            auto& w = wref<X>(q);
            auto& nm = G.wn[i];
            checkOwner(w, o, nm, OWNER | WEAK);
            if (!safe) return;
            long rc = o ? z.rs(o) : 0;
            if (w.use_count() != rc) fail(COUNT, nm + ".use_count() is " + num(w.use_count()) + ", specified " + num(rc));
            if (w.expired() != (rc == 0)) fail(WEAK, nm + ".expired() is " + (w.expired() ? "true" : "false"));
#if POLICY != 4
            if (bool(w) != (o != 0)) fail(WEAK, nm + ": bool is wrong");
#endif
            {
                C.ev.clear();
                P::S<X> l = w.lock();
                X* a = rc ? addr<X>(p) : nullptr;
                if (l.get() != a) fail(WEAK, nm + ".lock() yields code " + num(codeOf(l.get())) + ", specified " + num(rc ? p : 0));
                if (P::none(l) != (rc == 0)) fail(WEAK, nm + ".lock() " + (rc ? "owns nothing" : "owns something"));
                else if (rc && !P::same(l, w)) fail(WEAK, nm + ".lock() does not join the owners");
                else if (rc && (l.use_count() != rc + 1 || w.use_count() != rc + 1)) fail(COUNT, nm + ".use_count() ignores a locked pointer");
            }
            if (!C.ev.empty()) fail(ALIVE | WEAK, nm + ".lock() and dropping the result: " + evText(C.ev));
            for (size_t j = 0; j < G.wn.size(); ++j) if ((v + j) % 3 == 0 && z.wo(int(j)) >= 0) visW(int(j), [&](auto u, void* qq) { using Y = typename decltype(u)::type;
                if (qq && P::same(w, wref<Y>(qq)) != (o == z.wo(int(j)))) fail(OWNER | WEAK, "same_owner(" + nm + "," + G.wn[j] + ") is wrong");
                if (qq && (w.owner_before(wref<Y>(qq)) || wref<Y>(qq).owner_before(w)) != (o != z.wo(int(j)))) fail(OWNER | WEAK, "owner_before(" + nm + "," + G.wn[j] + ") is wrong"); });
            for (size_t j = 0; j < G.sn.size(); ++j) if ((v + j) % 3 == 0 && z.so(int(j)) >= 0) visS(int(j), [&](auto u, void* qq) { using Y = typename decltype(u)::type;
                if (!qq) return;
                auto& s = sref<Y>(qq);
                bool same = o == z.so(int(j));
                if (P::same(w, s) != same || P::same(s, w) != same) fail(OWNER | WEAK, "same_owner(" + nm + "," + G.sn[j] + ") is wrong");
                if (w.owner_before(s) && same) fail(OWNER | WEAK, "owner_before(" + nm + "," + G.sn[j] + ") is wrong"); });
        });
    }
    // unique pointers
    for (size_t i = 0; i < G.un.size(); ++i) {
        D* a = z.u(int(i)) ? C.o[z.u(int(i))].d : nullptr;
        if (US[i]->get() != a) fail(VALUE | EXC, G.un[i] + ".get() is code " + num(codeOf(US[i]->get())) + ", specified object " + num(z.u(int(i))));
    }
#if POLICY == 2 || POLICY == 3
    if (hooks::error) { fail(HOOK, hooks::error); hooks::error = nullptr; }
    for (auto& [cb, r] : hooks::blocks) {
        auto show = [&](const std::vector<const void*>& a, bool weak) {
            std::vector<std::string> names;
            for (auto p : a) {
                std::string n = "?";
                if (!weak) { for (size_t i = 0; i < G.sn.size(); ++i) if (z.so(int(i)) >= 0 && sbuf(int(i)) == p) n = G.sn[i]; }
                else { for (size_t i = 0; i < G.wn.size(); ++i) if (z.wo(int(i)) >= 0 && wbuf(int(i)) == p) n = G.wn[i]; }
                names.push_back(n);
            }
            std::sort(names.begin(), names.end());
            std::string s; for (auto& n : names) s += n + " ";
            return s;
        };
        int c = r.tag;
        std::vector<std::string> es, ew;
        if (c > 0 && c <= G.N) {
            for (size_t i = 0; i < G.sn.size(); ++i) if (z.so(int(i)) == c) es.push_back(G.sn[i]);
            for (size_t i = 0; i < G.wn.size(); ++i) if (z.wo(int(i)) == c) ew.push_back(G.wn[i]);
        }
        std::sort(es.begin(), es.end()); std::sort(ew.begin(), ew.end());
        std::string s, w; for (auto& n : es) s += n + " "; for (auto& n : ew) w += n + " ";
        if (show(r.s, false) != s) fail(HOOK, "block of object " + num(c) + " has registered shared pointers [ " + show(r.s, false) + "], specified [ " + s + "]");
        if (show(r.w, true) != w) fail(HOOK, "block of object " + num(c) + " has registered weak pointers [ " + show(r.w, true) + "], specified [ " + w + "]");
    }
#endif
}

// destroyed objects that share storage with their block must not be touched
void poison(int state) {
    SV z{G.states[state]};
    for (int c = 1; c <= G.N; ++c) if (z.k(c) == 2 && C.o[c].inplace && C.o[c].obj && !C.o[c].alive) POISON(C.o[c].obj, C.o[c].size);
}

// ---------------------------------------------------------------- world
void onFree(int tag) {
    if (tag > 0 && tag < 1000) { mem::User u; if (tag < MaxC - 1) event(2, tag); }
}
void onGet(int tag) { if (tag < 1000) { mem::User u; event(7, tag); } }     // adopted objects themselves: not the library's
D* extObj = nullptr;
void worldInit() {
    for (auto& r : C.o) r = ObjRec{};
    C.ev.clear(); C.creating = 0; C.silent = false; C.boom = false; C.teardown = false; C.facets = 0; C.msg.clear();
    mem::reset(); mem::on_free = onFree; mem::on_get = onGet;
    memset(ownerOf, 0, sizeof ownerOf);
    for (auto& s : SS) { free(s.raw); } SS.clear();
    for (auto& s : WS) { free(s.raw); } WS.clear();
    for (int i = 0; i < G.nroot_s; ++i) { SS.push_back({G.st[i], malloc(SlotSize), false}); garbage(SS.back().raw); }
    for (int i = 0; i < G.nroot_w; ++i) { WS.push_back({G.wt[i], malloc(SlotSize), false}); garbage(WS.back().raw); }
    for (auto u : US) delete u;
    US.clear();
    for (size_t i = 0; i < G.un.size(); ++i) US.push_back(new P::U<D, Del>());
    if (!extObj) { extObj = new D(Silent{}); }
    auto& r = C.o[G.N + 1];
    r.d = extObj; r.obj = extObj; r.b = extObj; r.f = &extObj->field; r.alive = true;
#if POLICY == 2 || POLICY == 3
    hooks::blocks.clear(); hooks::error = nullptr;
#endif
}
// drop everything: all objects destroyed once, all storage back
void teardown(unsigned seed) {
    C.teardown = true; C.ev.clear();
    std::vector<int> order;
    for (int i = 0; i < G.nroot_s; ++i) if (SS[i].live) order.push_back(i);
    for (int i = 0; i < G.nroot_w; ++i) if (WS[i].live) order.push_back(100 + i);
    for (size_t i = 0; i < G.un.size(); ++i) order.push_back(200 + int(i));
    for (size_t i = order.size(); i > 1; --i) { seed = seed * 1103515245u + 12345u; std::swap(order[i - 1], order[(seed >> 16) % i]); }
    for (int i : order) {
        if (i < 100) visT(SS[i].t, [&](auto t) { using X = typename decltype(t)::type; SS[i].live = false; kill<X>(sref<X>(SS[i].raw)); });
        else if (i < 200) visT(WS[i - 100].t, [&](auto t) { using X = typename decltype(t)::type; WS[i - 100].live = false; killW<X>(wref<X>(WS[i - 100].raw)); });
        else US[i - 200]->reset();
    }
    for (int r = 0; r < G.N; ++r)   // cycles through members
        for (int c = 1; c <= G.N; ++c) if (C.o[c].alive) {
            void* m = sbuf(G.nroot_s + c - 1); // only with Mem
            if (!G.Mem || !m) continue;
            P::S<D> tmp(std::move(sref<D>(m)));
        }
    for (int c = 1; c <= G.N; ++c) {
        if (C.o[c].alive) fail(ALIVE, "object " + num(c) + " is never destroyed");
        if (!C.o[c].keep.empty()) fail(KEEP, "the deleter of object " + num(c) + " is never destroyed");
        if (mem::live[c]) fail(MEM, "control block of object " + num(c) + " is never freed");
        if (mem::live[1000 + c]) fail(MEM, "storage of object " + num(c) + " is never freed");
    }
    if (mem::nrec) fail(MEM, "storage is never freed");
    if (mem::error) fail(MEM, mem::error);
#if POLICY == 2 || POLICY == 3
    if (hooks::error) fail(HOOK, hooks::error);
#endif
}

// ---------------------------------------------------------------- walking
struct Step { int edge; unsigned v; };
struct Shared {                     // between driver and worker
    volatile int len;               // steps in the current path
    volatile int teardown;
    volatile int done, failed, facets;
    volatile long steps, walks;
    char msg[400];
    Step path[8192];
};

bool runStep(const Step& s) {
    const Edge& e = G.edges[s.edge];
    C.ev.clear();
    alarm(20);
    try { doOp(e.op, s.v); }
    catch (...) { mem::depth = 0; mem::tag = 0; mem::fail_in = -1; C.boom = false; C.creating = 0; fail(EXC, "unexpected exception"); return false; }
    C.ev.shrink_to_fit();
    compare(e, s.v);
    alarm(0);
    if (C.facets) return false;
    poison(e.post);
    return true;
}
unsigned hash32(unsigned a, unsigned b) { unsigned h = a * 2654435761u ^ b * 40503u; h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; h *= 3266489917u; h ^= h >> 16; return h; }

void walker(Shared* sh, unsigned char* todo, const unsigned char* bad, int w, int nw, unsigned seed, unsigned pass, double until, int cap0) {
    auto now = [] { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; };
    auto mine = [&](int e) { return e % nw == w && todo[e]; };
    std::vector<int> left(G.states.size());
    long remaining = 0;
    for (size_t e = 0; e < G.edges.size(); ++e) if (mine(int(e))) { ++left[G.edges[e].pre]; ++remaining; }
    std::vector<int> from(G.states.size()), mark(G.states.size(), -1);
    int stamp = 0;
    unsigned walk = 0;
    int cur = -1, cap = cap0;
    auto restart = [&] {
        worldInit(); cur = G.init; sh->len = 0; sh->teardown = 0;
        cap = std::min(7900, (walk % 8 == 7) ? cap0 * 16 : cap0); ++walk; ++sh->walks;
    };
    auto finish = [&]() -> bool {
        sh->teardown = 1; alarm(20);
        teardown(hash32(walk, seed));
        alarm(0);
        if (C.facets) return false;
        return true;
    };
    auto report = [&] {
        sh->facets = C.facets; sh->failed = 1;
        snprintf(sh->msg, sizeof sh->msg, "%s", C.msg.c_str());
    };
    restart();
    auto step = [&](int ei) -> bool {
        Step s{ei, hash32(unsigned(ei), seed * 977 + pass * 131 + walk * 7 + unsigned(sh->len))};
        sh->path[sh->len] = s; sh->len = sh->len + 1; ++sh->steps;
        if (mine(ei)) { todo[ei] = 0; --left[G.edges[ei].pre]; --remaining; }
        bool ok = runStep(s);
        cur = G.edges[ei].post;
        return ok;
    };
    while (remaining > 0 && now() < until) {
        if (sh->len >= cap) { if (!finish()) { report(); return; } restart(); }
        if (left[cur]) {
            int ei = -1;
            unsigned off = hash32(walk, unsigned(sh->len));
            auto& o = G.out[cur];
            for (size_t k = 0; k < o.size(); ++k) { int c = o[(k + off) % o.size()]; if (mine(c)) { ei = c; break; } }
            if (ei < 0) { remaining -= left[cur]; left[cur] = 0; continue; }     // known to fail meanwhile
            if (!step(ei)) { report(); return; }
            continue;
        }
        // nearest state with work
        ++stamp;
        std::deque<int> q{cur};
        mark[cur] = stamp; from[cur] = -1;
        int found = -1;
        while (!q.empty() && found < 0) {
            int s = q.front(); q.pop_front();
            for (int ei : G.out[s]) {
                if (bad[ei]) continue;
                int t = G.edges[ei].post;
                if (mark[t] == stamp) continue;
                mark[t] = stamp; from[t] = ei;
                if (left[t]) { found = t; break; }
                q.push_back(t);
            }
        }
        if (found < 0) {
            if (cur == G.init && sh->len == 0) break;      // the rest is unreachable
            if (!finish()) { report(); return; }
            restart();
            // is anything reachable from the initial state at all?
            continue;
        }
        std::vector<int> route;
        for (int t = found; from[t] != -1; t = G.edges[from[t]].pre) route.push_back(from[t]);
        std::reverse(route.begin(), route.end());
        if (sh->len + int(route.size()) + 1 >= 8000) { if (!finish()) { report(); return; } restart(); continue; }
        for (int ei : route) if (!step(ei)) { report(); return; }
    }
    if (!finish()) { report(); return; }
    sh->done = 1;
}

std::set<int> famOps; int always = 0; bool famReent = false, famFault = false, famTear = false; // which failures count
bool reentrant(const Edge& e) {
    SV z{G.states[e.pre]};
    for (auto& v : e.ev) if (v.kind == 0 && v.v <= G.N) {
        if (z.obj(v.v, 3) || (e.op.n == v.v && e.op.a >= 100)) return true;
        if (e.op.y >= 0 && e.op.y < 100 && e.op.y == G.nroot_s + v.v - 1) return true;
        if (G.Mem && e.op.y >= 0 && e.op.y < 100 && z.so(e.op.y) == v.v) return true;
    }
    for (auto& v : e.ev) if (v.kind >= 4 && v.kind <= 6) return true;
    return false;
}
bool counts(const Edge& e, int fac, bool tear) {
    if (!(fac & C.report)) return false;
    if (fac & always) return true;
    if (famOps.empty() && !famReent && !famFault) return true;
    if (tear) return famTear;
    return famOps.count(e.op.f) || (famReent && reentrant(e));
}

std::string runPath(const std::vector<Step>& path, bool tear, int& facets, int& failedAt) {
    // in a child: returns its message, facets (0 = conforms)
    auto* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    memset((void*)sh, 0, 64);
    int fd[2]; if (pipe(fd)) exit(2);
    pid_t pid = fork();
    if (!pid) {
        dup2(fd[1], 2); close(fd[0]);
        worldInit();
        for (size_t i = 0; i < path.size(); ++i) {
            sh->len = int(i + 1);
            if (!runStep(path[i])) { sh->failed = 1; sh->facets = C.facets; snprintf(sh->msg, sizeof sh->msg, "%s", C.msg.c_str()); _exit(0); }
        }
        if (tear) { sh->teardown = 1; teardown(1); if (C.facets) { sh->failed = 1; sh->facets = C.facets; snprintf(sh->msg, sizeof sh->msg, "%s", C.msg.c_str()); _exit(0); } }
        sh->done = 1;
        _exit(0);
    }
    close(fd[1]);
    std::string err; char buf[4096]; ssize_t n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0) if (err.size() < 20000) err.append(buf, size_t(n));
    close(fd[0]);
    int stt; waitpid(pid, &stt, 0);
    std::string r;
    failedAt = sh->len;
    if (sh->done) facets = 0;
    else if (sh->failed) { facets = sh->facets; r = sh->msg; }
    else {
        facets = CRASH;
        r = WIFSIGNALED(stt) && WTERMSIG(stt) == SIGALRM ? "does not finish" : "crash";
        for (const char* key : {"ERROR: AddressSanitizer: ", "runtime error: ", "terminate called", "SUMMARY: "}) {
            auto i = err.find(key);
            if (i != std::string::npos) { r += ": " + err.substr(i, err.find('\n', i) - i); break; }
        }
    }
    munmap((void*)sh, sizeof(Shared));
    return r;
}

std::vector<int> shortest(int target) {
    std::vector<int> from(G.states.size(), -2);
    std::deque<int> q{G.init}; from[G.init] = -1;
    while (!q.empty() && from[target] == -2) {
        int s = q.front(); q.pop_front();
        for (int ei : G.out[s]) { int t = G.edges[ei].post; if (from[t] == -2) { from[t] = ei; q.push_back(t); } }
    }
    std::vector<int> r;
    for (int t = target; from[t] >= 0; t = G.edges[from[t]].pre) r.push_back(from[t]);
    std::reverse(r.begin(), r.end());
    return r;
}
std::string esc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c == '\n' || c == '\t') c = ' '; if (static_cast<unsigned char>(c) < 32) c = '?'; r += c; } return r; }

int main(int argc, char** argv) {
    const char* graph = nullptr; int workers = 8, passes = 1, maxfail = 10, cap = 48, maxforeign = 400; unsigned seed = 1; double limit = 600; const char* pathfile = nullptr;
    C.report = 8191; C.stop = 0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&] { return argv[++i]; };
        if (a == "--graph") graph = next();
        else if (a == "--report") C.report = atoi(next());
        else if (a == "--stop") C.stop = atoi(next());
        else if (a == "--workers") workers = atoi(next());
        else if (a == "--passes") passes = atoi(next());
        else if (a == "--seed") seed = unsigned(atoi(next()));
        else if (a == "--maxfail") maxfail = atoi(next());
        else if (a == "--cap") cap = atoi(next());
        else if (a == "--limit") limit = atof(next());
        else if (a == "--path") pathfile = next();
        else if (a == "--always") always = atoi(next());
        else if (a == "--reent") famReent = true;
        else if (a == "--fault") famFault = true;
        else if (a == "--tear") famTear = true;
        else if (a == "--ops") { std::istringstream in(next()); std::string t; while (std::getline(in, t, ',')) for (int k = 0; k < NOps; ++k) if (t == opnames[k]) famOps.insert(k); }
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
    }
    load(graph);
    auto now = [] { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; };
    if (pathfile) {     // lines "<variant> <operation>", or "! teardown"
        std::ifstream in(pathfile); std::string l; std::vector<Step> p; bool tear = false; int cur = G.init;
        while (std::getline(in, l)) {
            if (l.empty() || l[0] == '#') continue;
            if (l[0] == '!') { tear = true; continue; }
            auto sp = l.find(' ');
            if (sp == std::string::npos) continue;
            int ei = -1;
            for (int k : G.out[cur]) if (opText(G.edges[k].op) == l.substr(sp + 1)) ei = k;
            if (ei < 0) { printf("the specification has no %s there\n", l.c_str() + sp + 1); return 2; }
            p.push_back({ei, unsigned(strtoul(l.c_str(), nullptr, 10))});
            cur = G.edges[ei].post;
        }
        for (auto& s : p) { auto& e = G.edges[s.edge]; printf("  %s expects %s\n", opText(e.op).c_str(), evText(e.ev).c_str()); }
        int fac, at; auto m = runPath(p, tear, fac, at);
        if (!fac) { printf("conforms\n"); return 0; }
        printf("step %d%s: %s\n", at, at > int(p.size()) ? " (everything dropped)" : "", m.c_str());
        return 1;
    }
    size_t ne = G.edges.size();
    auto shm = [](size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); };
    auto* todo = static_cast<unsigned char*>(shm(ne + 1));
    auto* bad = static_cast<unsigned char*>(shm(ne + 1));
    std::vector<Shared*> sh;
    for (int i = 0; i < workers; ++i) sh.push_back(static_cast<Shared*>(shm(sizeof(Shared))));
    double t0 = now();
    int nfail = 0, nunconf = 0, nforeign = 0;
    long steps = 0, walks = 0, covered = 0;
    std::set<std::string> kinds;
    fflush(stdout);
    for (int pass = 0; pass < passes && nfail < maxfail; ++pass) {
        memset(todo, 1, ne);
        for (size_t e = 0; e < ne; ++e) if (bad[e]) todo[e] = 0;
        std::vector<pid_t> pid(workers, 0);
        int devnull = open("/dev/null", O_WRONLY);
        auto start = [&](int w) {
            memset((void*)sh[w], 0, offsetof(Shared, path));
            pid[w] = fork();
            if (!pid[w]) {
                dup2(devnull, 2);
                walker(sh[w], todo, bad, w, workers, seed + unsigned(w), unsigned(pass), t0 + limit, cap);
                _exit(0);
            }
        };
        for (int w = 0; w < workers; ++w) start(w);
        int running = workers;
        while (running) {
            int stt; pid_t p = wait(&stt);
            int w = int(std::find(pid.begin(), pid.end(), p) - pid.begin());
            if (w == workers) continue;
            --running; pid[w] = 0;
            steps += sh[w]->steps; walks += sh[w]->walks;
            if (sh[w]->done) continue;
            int len = sh[w]->len; bool tear = sh[w]->teardown;
            if (!len) { fprintf(stderr, "worker died before its first step\n"); return 2; }
            std::vector<Step> path(sh[w]->path, sh[w]->path + len);
            int fe = path.back().edge;
            int fac, at;
            std::string m;
            bool conf = false;
            // a short path first, then the one that was taken
            if (!tear) {
                std::vector<Step> sp;
                for (int ei : shortest(G.edges[fe].pre)) sp.push_back({ei, hash32(unsigned(ei), seed)});
                sp.push_back(path.back());
                m = runPath(sp, false, fac, at);
                if (fac && at == int(sp.size())) { conf = true; path = sp; }
            }
            for (int k = 0; k < 3 && !conf; ++k) {
                m = runPath(path, tear, fac, at);
                if (fac) { conf = true; if (at > 0 && at < int(path.size())) { path.resize(size_t(at)); tear = false; } }
            }
            fe = path.back().edge;
            bad[fe] = 1; todo[fe] = 0;
            bool mine = conf && counts(G.edges[fe], fac, tear);
            if (conf && !mine && famFault && (fac & C.report)) {  // is it the failed operations earlier that did it?
                std::vector<Step> q; bool any = false;
                for (auto& st : path) if (opnames[G.edges[st.edge].op.f][0] == 'f') any = true; else q.push_back(st);
                if (any) { int f2, a2; runPath(q, tear, f2, a2); mine = !f2; }
            }
            if (!conf) { ++nunconf; }
            else if (!mine) ++nforeign;
            else {
                auto& e = G.edges[fe];
                ++nfail;
                std::string fs; for (int b = 0; b < 13; ++b) if (fac & (1 << b)) fs += std::string(fs.empty() ? "" : ",") + facetnames[b];
                printf("FAIL {\"policy\":\"%s\",\"op\":\"%s\",\"facets\":\"%s\",\"teardown\":%s,\"msg\":\"%s\",\"call\":\"%s\",\"events\":\"%s\",\"path\":[", P::Name, opnames[e.op.f], fs.c_str(), tear ? "true" : "false", esc(m).c_str(), esc(opText(e.op)).c_str(), evText(e.ev).c_str());
                for (size_t i = 0; i < path.size(); ++i) printf("%s[%d,%u,\"%s\"]", i ? "," : "", path[i].edge, path[i].v, opText(G.edges[path[i].edge].op).c_str());
                printf("]}\n"); fflush(stdout);
            }
            if (nfail < maxfail && nunconf < 50 && nforeign < maxforeign && now() - t0 < limit) { start(w); ++running; }
        }
        close(devnull);
        long c = 0; for (size_t e = 0; e < ne; ++e) c += !todo[e];
        covered = std::max(covered, c);
    }
    for (int w = 0; w < workers && w < 3; ++w) {
        int n = std::min(int(sh[w]->len), 14);
        if (!n) continue;
        printf("SAMPLE ");
        for (int i = 0; i < n; ++i) printf("%s%s", i ? "; " : "", opText(G.edges[sh[w]->path[i].edge].op).c_str());
        printf("\n");
    }
    printf("DONE {\"policy\":\"%s\",\"states\":%zu,\"edges\":%zu,\"covered\":%ld,\"steps\":%ld,\"walks\":%ld,\"failures\":%d,\"unconfirmed\":%d,\"foreign\":%d,\"seconds\":%.1f}\n",
        P::Name, G.states.size(), ne, covered, steps, walks, nfail, nunconf, nforeign, now() - t0);
    return nfail ? 1 : 0;
}
