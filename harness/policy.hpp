// The pointer families the specification Ownership.tla is bound to.
//   POLICY 0 xmem::shared_ptr          1 xmem::local_shared_ptr
//          2 tracking block, local     3 tracking block, atomic
//          4 std::shared_ptr with the xstd helpers
//          5 xmem::shared_ptr, of D[] wherever D is meant
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <utility>
#include <memory>
#include <map>
#include <vector>
#include <algorithm>
#include <xmem/shared_ptr.hpp>
#include <xmem/local_shared_ptr.hpp>
#include <xmem/unique_ptr.hpp>
#include <xmem/ostream.hpp>
#include <xmem/std_helpers.hpp>
#include "mem.hpp"

#if POLICY == 2 || POLICY == 3
namespace hooks {
struct Reg { std::vector<const void*> s, w; int tag; };
inline std::map<const void*, Reg> blocks;     // live tracking blocks
inline const char* error = nullptr;
inline void add(std::vector<const void*>& v, const void* p) { v.push_back(p); }
inline void del(std::vector<const void*>& v, const void* p, const char* what) {
    auto i = std::find(v.begin(), v.end(), p);
    if (i == v.end()) { error = what; return; }
    v.erase(i);
}
}
template <typename RC>
struct TrackCB : protected xmem::control_block_base<RC> {
    using super = xmem::control_block_base<RC>;
    TrackCB() { mem::User u; hooks::blocks[this].tag = mem::tag; }
    ~TrackCB() {
        mem::User u;
        auto& r = hooks::blocks[this];
        if (!r.s.empty()) hooks::error = "block freed while shared pointers are registered";
        if (!r.w.empty()) hooks::error = "block freed while weak pointers are registered";
        hooks::blocks.erase(this);
    }
    void init_strong(const void* src) noexcept {
        super::init_strong(src);
        mem::User u; hooks::add(hooks::blocks[this].s, src);
    }
    void inc_strong_ref(const void* src) noexcept {
        super::inc_strong_ref(src);
        mem::User u; hooks::add(hooks::blocks[this].s, src);
    }
    void dec_strong_ref(const void* src) noexcept {
        { mem::User u; hooks::del(hooks::blocks[this].s, src, "release by an unregistered shared pointer"); }
        super::dec_strong_ref(src);
    }
    bool inc_strong_ref_nz(const void* src) noexcept {
        if (super::inc_strong_ref_nz(src)) {
            mem::User u; hooks::add(hooks::blocks[this].s, src);
            return true;
        }
        return false;
    }
    using super::strong_ref_count;
    void transfer_strong(const void* dest, const void* src) {
        super::transfer_strong(dest, src);
        mem::User u;
        hooks::del(hooks::blocks[this].s, src, "transfer from an unregistered shared pointer");
        hooks::add(hooks::blocks[this].s, dest);
    }
    void inc_weak_ref(const void* src) noexcept {
        super::inc_weak_ref(src);
        mem::User u; hooks::add(hooks::blocks[this].w, src);
    }
    void dec_weak_ref(const void* src) noexcept {
        { mem::User u; hooks::del(hooks::blocks[this].w, src, "release by an unregistered weak pointer"); }
        super::dec_weak_ref(src);
    }
    void transfer_weak(const void* dest, const void* src) {
        super::transfer_weak(dest, src);
        mem::User u;
        hooks::del(hooks::blocks[this].w, src, "transfer from an unregistered weak pointer");
        hooks::add(hooks::blocks[this].w, dest);
    }
};
#endif

struct D;
namespace P {
#if POLICY == 4
constexpr bool Std = true;
constexpr const char* Name = "std";
template <typename T> using S = std::shared_ptr<T>;
template <typename T> using W = std::weak_ptr<T>;
template <typename T, typename D = std::default_delete<T>> using U = std::unique_ptr<T, D>;
template <typename T> struct Esf : xstd::enable_shared_from {
    // the address is that of some part of the object
    template <typename V, typename Q> static S<V> whole(S<V> p, Q* me) {
        auto c = reinterpret_cast<const char*>(p.get()), m = reinterpret_cast<const char*>(me);
        return c >= m && c < m + sizeof(T) ? S<V>(p, me) : p;
    }
    auto void_this() { return whole(xstd::enable_shared_from::shared_from_this(), static_cast<T*>(this)); }
    auto void_this() const { return whole(xstd::enable_shared_from::shared_from_this(), static_cast<const T*>(this)); }
    auto void_weak() { auto w = xstd::enable_shared_from::weak_from_this(); return W<void>(whole(w.lock(), static_cast<T*>(this))); }
    auto void_weak() const { auto w = xstd::enable_shared_from::weak_from_this(); return W<const void>(whole(w.lock(), static_cast<const T*>(this))); }
    auto typed_this() { return this->shared_from(static_cast<T*>(this)); }
    auto typed_this() const { return this->shared_from(static_cast<const T*>(this)); }
    auto typed_weak() { return this->weak_from(static_cast<T*>(this)); }
    auto typed_weak() const { return this->weak_from(static_cast<const T*>(this)); }
    template <typename Q> auto alias_this(Q* q) const { return this->shared_from(q); }
    template <typename Q> auto alias_weak(Q* q) const { return this->weak_from(q); }
};
template <typename T, typename... A> S<T> make(A&&... a) { return std::make_shared<T>(std::forward<A>(a)...); }
template <typename T> auto from(T&& t) { return xstd::make_shared_ptr(std::forward<T>(t)); }
template <typename T> S<T> over() { return std::make_shared<T>(); }
template <typename T, typename... A> S<T> amake(int id, A&&... a) { return std::allocate_shared<T>(TAlloc<T>(id), std::forward<A>(a)...); }
template <typename T> S<T> aover(int id) { return std::allocate_shared<T>(TAlloc<T>(id)); }
template <typename T, typename D> S<T> auptr(U<T, D>&& u, int id) { auto d = u.get_deleter(); return S<T>(u.release(), d, TAlloc<char>(id)); }
template <typename T> auto ufrom(T&& t) { return xstd::make_unique_ptr(std::forward<T>(t)); }
template <typename X> const void* owner(const X&) { return nullptr; }
template <typename A, typename B> bool same(const A& a, const B& b) { return xstd::same_owner(a, b); }
template <typename A> bool none(const A& a) { return xstd::no_owner(a); }
template <typename T, typename Y> S<T> aliased(const Y& y, T* p) { return xstd::make_aliased(y, p); }
#else
constexpr bool Std = false;
#if POLICY == 0 || POLICY == 5
constexpr const char* Name = POLICY ? "array" : "atomic";
using CBF = xmem::atomic_control_block_factory;
template <typename T, typename... A> auto make(A&&... a) { return xmem::make_shared<T>(std::forward<A>(a)...); }
template <typename T> auto from(T&& t) { return xmem::make_shared_ptr(std::forward<T>(t)); }
template <typename T> auto over() { return xmem::make_shared_for_overwrite<T>(); }
#elif POLICY == 1
constexpr const char* Name = "local";
using CBF = xmem::local_control_block_factory;
template <typename T, typename... A> auto make(A&&... a) { return xmem::make_local_shared<T>(std::forward<A>(a)...); }
template <typename T> auto from(T&& t) { return xmem::make_local_shared_ptr(std::forward<T>(t)); }
template <typename T> auto over() { return xmem::make_local_shared_for_overwrite<T>(); }
#else
#if POLICY == 2
constexpr const char* Name = "tracking-local";
using CBF = xmem::control_block_factory<TrackCB<xmem::local_ref_count>>;
#else
constexpr const char* Name = "tracking-atomic";
using CBF = xmem::control_block_factory<TrackCB<xmem::atomic_ref_count>>;
#endif
template <typename T, typename... A> auto make(A&&... a) {
    return xmem::basic_shared_ptr<CBF, T>(CBF::make_resource_cb<T>(xmem::allocator<char>{}, std::forward<A>(a)...));
}
template <typename T> auto from(T&& t) { return make<std::remove_reference_t<T>>(std::forward<T>(t)); }
template <typename T> auto over() { return xmem::basic_shared_ptr<CBF, T>(CBF::make_resource_cb_for_overwrite<T>(xmem::allocator<char>{})); }
#endif
#if POLICY == 5
template <typename T> struct Pointee { using type = T; };
template <> struct Pointee<D> { using type = D[]; };
template <> struct Pointee<const D> { using type = const D[]; };
template <typename T> using S = xmem::basic_shared_ptr<CBF, typename Pointee<T>::type>;
template <typename T> using W = xmem::basic_weak_ptr<CBF, typename Pointee<T>::type>;
#else
template <typename T> using S = xmem::basic_shared_ptr<CBF, T>;
template <typename T> using W = xmem::basic_weak_ptr<CBF, T>;
#endif
template <typename T, typename D = xmem::default_delete<T>> using U = xmem::unique_ptr<T, D>;
#if SHAPE == 2
template <typename T> struct Esf : virtual xmem::basic_enable_shared_from<CBF> {
    using base = xmem::basic_enable_shared_from<CBF>;
    auto typed_this() { return this->shared_from(static_cast<T*>(this)); }
    auto typed_this() const { return this->shared_from(static_cast<const T*>(this)); }
    auto typed_weak() { return this->weak_from(static_cast<T*>(this)); }
    auto typed_weak() const { return this->weak_from(static_cast<const T*>(this)); }
#else
template <typename T> struct Esf : xmem::basic_enable_shared_from_this<CBF, T> {
    using base = xmem::basic_enable_shared_from<CBF>;
    auto typed_this() { return this->shared_from_this(); }
    auto typed_this() const { return this->shared_from_this(); }
    auto typed_weak() { return this->weak_from_this(); }
    auto typed_weak() const { return this->weak_from_this(); }
#endif
    auto void_this() { return base::shared_from_this(); }
    auto void_this() const { return base::shared_from_this(); }
    auto void_weak() { return base::weak_from_this(); }
    auto void_weak() const { return base::weak_from_this(); }
    template <typename Q> auto alias_this(Q* q) const { return this->shared_from(q); }
    template <typename Q> auto alias_weak(Q* q) const { return this->weak_from(q); }
};
template <typename T, typename... A> S<T> amake(int id, A&&... a) { return S<T>(CBF::make_resource_cb<T>(TAlloc<char>(id), std::forward<A>(a)...)); }
template <typename T> S<T> aover(int id) { return S<T>(CBF::make_resource_cb_for_overwrite<T>(TAlloc<char>(id))); }
// adopting with an allocator is not public: where it is not as expected, without
template <typename F, typename Q, typename A> auto adopt(Q& u, A a, int) -> decltype(F::make_uptr_cb(u, a)) { return F::make_uptr_cb(u, a); }
template <typename F, typename Q, typename A> Q&& adopt(Q& u, A, long) { return std::move(u); }
template <typename T, typename D> S<T> auptr(U<T, D>&& u, int id) { return S<T>(adopt<CBF>(u, TAlloc<char>(id), 0)); }
template <typename T> auto ufrom(T&& t) { return xmem::make_unique_ptr(std::forward<T>(t)); }
template <typename X> const void* owner(const X& x) { return x.owner(); }
template <typename A, typename B> bool same(const A& a, const B& b) { return same_owner(a, b); }
template <typename A> bool none(const A& a) { return no_owner(a); }
template <typename T, typename Y> S<T> aliased(const Y& y, T* p) { return make_aliased(y, p); }
#endif
}
