// Operations on two nodes with a model of each, allocators and strings that account for every block and object.
#pragma once
#include "mc.hxx"
#include "nodemodel.hxx"
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#ifndef NODEOPS_OFF
#   define NODEOPS_OFF
#   define NODEOPS_NEW
#endif
// ---- memory: every block to its allocator, every object once
namespace mem {
    struct B { int id; size_t n; };
    static std::unordered_map<void*, B> blocks; static std::set<const void*> live; static std::string bad; static int last = 0;
    static void reset() { blocks.clear(); live.clear(); bad.clear(); last = 0; }
    static void put(void* p, int id, size_t n) { NODEOPS_OFF blocks[p] = B{id, n}; }
    static void take(void* p, int id, size_t n) {
        NODEOPS_OFF
        auto i = blocks.find(p); if (i == blocks.end()) { bad = "a block released that is not allocated"; return; }
        if (i->second.id != id) bad = mc::fmt("a block of allocator %d released to allocator %d", i->second.id, id); if (i->second.n != n) bad = mc::fmt("a block of %zu bytes released as %zu", i->second.n, n);
        blocks.erase(i); ::operator delete(p);
    }
}
template <typename T, int P> struct Al { // P: bits: 1 copy, 2 move, 4 swap propagate, 8 stateless
    using value_type = T; int id;
    using propagate_on_container_copy_assignment = std::integral_constant<bool, (P & 1) != 0>;
    using propagate_on_container_move_assignment = std::integral_constant<bool, (P & 2) != 0>;
    using propagate_on_container_swap = std::integral_constant<bool, (P & 4) != 0>;
    template <typename U> struct rebind { using other = Al<U, P>; };
    Al() : id(0) {} explicit Al(int i) : id(i) {} Al(const Al& o) : id(o.id) {} template <typename U> Al(const Al<U, P>& o) : id(o.id) {} Al& operator =(const Al& o) { id = o.id; return *this; }
    T* allocate(size_t n) { NODEOPS_NEW void* p = ::operator new(n * sizeof(T)); mem::put(p, id, n * sizeof(T)); return (T*)p; }
    void deallocate(T* p, size_t n) { mem::take(p, id, n * sizeof(T)); }
    template <typename U> bool operator ==(const Al<U, P>& o) const { return id == o.id; }
    template <typename U> bool operator !=(const Al<U, P>& o) const { return id != o.id; }
};
template <typename T> struct Pm { // as std::pmr::polymorphic_allocator: not assignable, copies get the default
    using value_type = T; const int id;
    Pm() : id(0) {} explicit Pm(int i) : id(i) {} Pm(const Pm& o) : id(o.id) {} template <typename U> Pm(const Pm<U>& o) : id(o.id) {} Pm& operator =(const Pm&) = delete;
    Pm select_on_container_copy_construction() const { return Pm(); }
    T* allocate(size_t n) { NODEOPS_NEW void* p = ::operator new(n * sizeof(T)); mem::put(p, id, n * sizeof(T)); return (T*)p; }
    void deallocate(T* p, size_t n) { mem::take(p, id, n * sizeof(T)); }
    template <typename U> bool operator ==(const Pm<U>& o) const { return id == o.id; }
    template <typename U> bool operator !=(const Pm<U>& o) const { return id != o.id; }
};
struct AStr { // a string that knows whether it is one
    using value_type = char; const AStr* self; std::string s;
    void in() { NODEOPS_OFF self = this; if (!mem::live.insert(this).second) mem::bad = "an object constructed over a living one"; }
    AStr() { in(); } AStr(const char* p) : s(p) { in(); } AStr(const AStr& o) : s(o.get()) { in(); } AStr(AStr&& o) noexcept : s(std::move(o.get())) { in(); }
    ~AStr() { NODEOPS_OFF if (self != this || !mem::live.erase(this)) mem::bad = "an object destroyed that is not alive"; self = nullptr; }
    AStr& operator =(const AStr& o) { get() = o.get(); return *this; } AStr& operator =(AStr&& o) noexcept { get() = std::move(o.get()); return *this; } AStr& operator =(const char* p) { get() = p; return *this; }
    std::string& get() { if (self != this) mem::bad = "an object used that is not alive"; return s; } const std::string& get() const { if (self != this) mem::bad = "an object used that is not alive"; return s; }
    const char* begin() const { return get().data(); } const char* end() const { return begin() + s.size(); }
    bool operator ==(const AStr& o) const { return get() == o.get(); } bool operator <(const AStr& o) const { return get() < o.get(); } bool operator ==(const char* p) const { return get() == p; }
};
// ---- kinds of node
#if FMT == 1
#   define OBJ map_type
#   define STR text_type
#   define DYN0 cxon::scalar_sequence<fm::node_kind, fm::node_kind::tag>
#   define DYNA cxon::scalar_sequence<fm::node_kind, fm::node_kind::map, fm::node_kind::array, fm::node_kind::tag, fm::node_kind::bytes, fm::node_kind::text, fm::node_kind::real, fm::node_kind::sint, fm::node_kind::uint, fm::node_kind::simple, fm::node_kind::boolean, fm::node_kind::null, fm::node_kind::undefined>
#   define DYNS cxon::scalar_sequence<fm::node_kind, fm::node_kind::map, fm::node_kind::array, fm::node_kind::tag, fm::node_kind::text, fm::node_kind::uint>
#else
#   define OBJ object_type
#   define STR string_type
#   define DYN0 cxon::scalar_sequence<fm::node_kind>
#   define DYNA cxon::scalar_sequence<fm::node_kind, fm::node_kind::object, fm::node_kind::array, fm::node_kind::string, fm::node_kind::real, fm::node_kind::sint, fm::node_kind::uint, fm::node_kind::boolean, fm::node_kind::null>
#   define DYNS cxon::scalar_sequence<fm::node_kind, fm::node_kind::object, fm::node_kind::array, fm::node_kind::string, fm::node_kind::uint>
#endif
struct TrInPlace : fm::node_traits<> { using dynamic_types = DYN0; };
struct TrAllDyn : fm::node_traits<> { using dynamic_types = DYNA; };
struct TrStr : fm::node_traits<> { using STR = AStr; };
struct TrStrDyn : fm::node_traits<> { using STR = AStr; using dynamic_types = DYNS; };
struct TrHash : fm::node_traits<> { template <typename K, typename V> using OBJ = std::unordered_map<K, V>; template <typename T> using array_type = std::deque<T>; };
template <typename A> struct TrDynAl : fm::node_traits<A> { using dynamic_types = DYNA; };
template <typename N> struct Ordered : std::false_type {};
template <> struct Ordered<fm::ordered_node> : std::true_type {};
template <typename A> struct Ordered<fm::basic_node<fm::ordered_node_traits<A>>> : std::true_type {};
template <typename T> struct AlOf { static T make(int) { return T(); } };
template <typename T, int P> struct AlOf<Al<T, P>> { static Al<T, P> make(int i) { return Al<T, P>(i); } };
template <typename T> struct AlOf<Pm<T>> { static Pm<T> make(int i) { return Pm<T>(i); } };
// ---- state: two nodes and what they are
template <typename N> struct St {
    std::unique_ptr<N> n[2]; M m[2]; std::string e;
    St() { for (int i = 0; i < 2; ++i) n[i].reset(new N(al(i))); }
    static typename N::allocator_type al(int i) { return AlOf<typename N::allocator_type>::make(i + 1); }
    N& operator [](int i) { return *n[i]; }
    void adopt(int i) { m[i] = W<N>::snap(*n[i], e); }
};
template <typename N> struct Op { std::string name; std::function<bool(St<N>&)> run; };
template <typename N> struct Ops {
    using S_ = St<N>; using O = typename W<N>::O; using A = typename W<N>::A; using S = typename W<N>::S;
    std::vector<Op<N>> v;
    void add(const std::string& name, std::function<bool(S_&)> f) { v.push_back(Op<N>{name, f}); }
    // the first element of n
    static N* first(N& n) {
        if (auto* a = n.template get_if<A>()) return a->empty() ? nullptr : &a->front();
        if (auto* o = n.template get_if<O>()) return o->empty() ? nullptr : &o->begin()->second;
#       if FMT == 1
            if (auto* g = n.template get_if<typename N::tag>()) return &g->value;
#       endif
        return nullptr;
    }
    static const char* key_of(const N& n) { auto* o = n.template get_if<O>(); static std::string k; if (!o || o->empty()) return nullptr; std::string e; k = W<N>::snap(o->begin()->first, e).dump(true); return k.c_str(); }
    // the model's counterpart of it
    static M* mfirst(N& n, M& m) {
        if (m.a.empty()) return nullptr;
        if (m.k == 'o') { std::string k = key_of(n); for (size_t i = 0; i + 1 < m.a.size(); i += 2) if (m.a[i].dump(true) == k) return &m.a[i + 1]; return nullptr; }
        return &m.a[0];
    }
    static void mput(M& m, const M& k, const M& v) { // append a member: plain objects keep one per key
        if (!Ordered<N>::value) for (size_t i = 0; i + 1 < m.a.size(); i += 2) if (m.a[i] == k) return;
        m.a.push_back(k); m.a.push_back(v);
    }
    template <typename T> void val(const char* nm, const T& t, const M& m) {
        for (int i = 0; i < 2; ++i) {
            add(mc::fmt("n%d=%s", i, nm), [=](S_& s) { s[i] = t; s.m[i] = m; return true; });
            add(mc::fmt("n%d=move(%s)", i, nm), [=](S_& s) { T c(t); s[i] = std::move(c); s.m[i] = m; return true; });
            if (i) continue;
            add(mc::fmt("new n%d(%s)", i, nm), [=](S_& s) { s.n[i].reset(new N(t)); s.m[i] = m; return true; });
            add(mc::fmt("new n%d(%s,al)", i, nm), [=](S_& s) { T c(t); s.n[i].reset(new N(std::move(c), S_::al(1))); s.m[i] = m; return true; });
        }
    }
    template <typename T> void lit(const char* nm, T t, const M& m) {
        add(mc::fmt("n0=%s", nm), [=](S_& s) { s[0] = t; s.m[0] = m; return true; });
        add(mc::fmt("new n1(%s)", nm), [=](S_& s) { s.n[1].reset(new N(t)); s.m[1] = m; return true; });
        add(mc::fmt("new n0(%s,al)", nm), [=](S_& s) { s.n[0].reset(new N(t, S_::al(1))); s.m[0] = m; return true; });
    }
    template <typename T> void imb(const char* nm, char k, const char* dflt) {
        add(mc::fmt("n0.imbue<%s>", nm), [=](S_& s) { T& t = s[0].template imbue<T>(); if (&t != s[0].template get_if<T>()) s.e = "imbue returns another object"; if (s.m[0].k != k) { s.m[0] = M(k, dflt); if (k == 'g') s.m[0].a.push_back(M()); } return true; });
    }
    template <typename T> static bool inner(N& n, bool mv) { // n = the value of its first element
        N* f = first(n); if (!f || !f->template is<T>()) return false; if (mv) n = std::move(f->template get<T>()); else n = const_cast<const N*>(f)->template get<T>(); return true; }
    Ops(bool full) {
        M const u1('u', "1"), k('t', "k"), l('t', "l"), st('t', "s"), lng('t', std::string(40, 'q'));
        M ar('a'); ar.a.push_back(u1); M ob('o'); ob.a.push_back(k); ob.a.push_back(u1);
        val("string", S(std::string(40, 'q').c_str()), lng);
        { A a; a.push_back(N(1u)); val("array", a, ar); } { O o; cxon::cnt::append(o, { N("k"), N(1u) }); val("object", o, ob); }
#       if FMT == 1
            { M g('g', "5"); g.a.push_back(st); val("tag", typename N::tag(5, N("s")), g); val("bytes", typename N::bytes(20, 'y'), M('y', std::string(20, 'y'))); val("simple", typename N::simple(7), M('s', "7")); val("undefined", typename N::undefined(), M('d')); }
#       endif
        if (full) { val("real", typename N::real(1.5), M('r', "1.5")); val("boolean", typename N::boolean(true), M('b', "1")); val("null", typename N::null(), M('n')); val("sint", typename N::sint(-1), M('i', "-1")); val("uint", typename N::uint(7), M('u', "7")); }
        lit("\"s\"", "s", st); if (full) { lit("'c'", 'c', M('u', "99")); lit("short", short(-3), M('i', "-3")); } lit("nullptr", nullptr, M('n')); lit("1", 1, M('i', "1"));
        add("n0={{k,1},{l,array}}", [=](S_& s) { s[0] = {{"k", 1u}, {"l", A(1, N(1u))}}; M m('o'); mput(m, k, u1); mput(m, l, ar); s.m[0] = m; return true; });
        add("n0={1,s}", [=](S_& s) { s[0] = {1u, "s"}; M m('a'); m.a = {u1, st}; s.m[0] = m; return true; });
        add("new n1{{k,1},{l,s}},al", [=](S_& s) { s.n[1].reset(new N({{"k", 1u}, {"l", "s"}}, S_::al(0))); M m('o'); mput(m, k, u1); mput(m, l, st); s.m[1] = m; return true; });
        add("n0={n0,n1}", [=](S_& s) { if (s.m[0].k == 'a' && s.m[1].k == 'a') return false; s[0] = {s[0], s[1]}; M m('a'); m.a = {s.m[0], s.m[1]}; s.m[0] = m; return true; });
        imb<O>("object", 'o', ""); imb<A>("array", 'a', ""); imb<S>("string", 't', "");
        if (full) { imb<typename N::null>("null", 'n', "");
#       if FMT == 1
            imb<typename N::bytes>("bytes", 'y', ""); imb<typename N::tag>("tag", 'g', "18446744073709551615"); imb<typename N::undefined>("undefined", 'd', "");
#       endif
        }
        add("n0.imbue<uint>=3", [=](S_& s) { s[0].template imbue<typename N::uint>() = 3; s.m[0] = M('u', "3"); return true; });
        add("n0.imbue<real>=2", [=](S_& s) { s[0].template imbue<typename N::real>() = 2.5; s.m[0] = M('r', "2.5"); return true; });
        for (int i = 0; i < 2; ++i) {
            add(mc::fmt("n%d.reset", i), [=](S_& s) { s[i].reset(); s.m[i] = M(); return true; });
            add(mc::fmt("new n%d", i), [=](S_& s) { s.n[i].reset(new N()); s.m[i] = M(); return true; });
            for (int j = 0; j < 2; ++j) {
                add(mc::fmt("n%d=n%d", i, j), [=](S_& s) { const N& c = s[j]; N& r = s[i] = c; if (&r != &s[i]) s.e = "assignment does not return its left side"; s.m[i] = M(s.m[j]); return true; });
                add(mc::fmt("n%d=move(n%d)", i, j), [=](S_& s) { M t = s.m[j]; N& r = s[i] = std::move(s[j]); if (&r != &s[i]) s.e = "assignment does not return its left side"; if (i != j) { s.adopt(j); s.m[i] = t; } else s.adopt(i); return true; });
                add(mc::fmt("new n%d(n%d)", i, j), [=](S_& s) { const N& c = s[j]; std::unique_ptr<N> t(new N(c)); s.n[i] = std::move(t); s.m[i] = M(s.m[j]); return true; });
                add(mc::fmt("new n%d(move(n%d))", i, j), [=](S_& s) { std::unique_ptr<N> t(new N(std::move(s[j]))); s.n[i].swap(t); M x = s.m[j]; if (i != j) s.adopt(j); s.m[i] = x; return true; });
                for (int a = 0; a < 2; ++a) {
                    if (!full && (a == 0 || i == j)) continue;
                    add(mc::fmt("new n%d(n%d,al%d)", i, j, a), [=](S_& s) { const N& c = s[j]; std::unique_ptr<N> t(new N(c, S_::al(a))); s.n[i] = std::move(t); s.m[i] = M(s.m[j]); return true; });
                    add(mc::fmt("new n%d(move(n%d),al%d)", i, j, a), [=](S_& s) { std::unique_ptr<N> t(new N(std::move(s[j]), S_::al(a))); s.n[i].swap(t); M x = s.m[j]; if (i != j) s.adopt(j); s.m[i] = x; return true; });
                }
                add(mc::fmt("n%d.swap(n%d)", i, j), [=](S_& s) { s[i].swap(s[j]); if (i != j) std::swap(s.m[i], s.m[j]); return true; });
                add(mc::fmt("n%d.push_back(n%d)", i, j), [=](S_& s) { auto* a = s[i].template get_if<A>(); if (!a || s.m[i].a.size() > 2) return false; N t(s[j]); a->push_back(std::move(t)); M x = s.m[j]; s.m[i].a.push_back(x); return true; });
                add(mc::fmt("n%d.append(k:n%d)", i, j), [=](S_& s) { auto* o = s[i].template get_if<O>(); if (!o || s.m[i].a.size() > 4) return false; N t(s[j]); cxon::cnt::append(*o, { N("k"), std::move(t) }); M x = s.m[j]; mput(s.m[i], k, x); return true; });
                add(mc::fmt("n%d.first=n%d", i, j), [=](S_& s) { N* f = first(s[i]); if (!f) return false; M x = s.m[j]; *mfirst(s[i], s.m[i]) = x; *f = const_cast<const N&>(s[j]); return true; });
                add(mc::fmt("n%d=n%d.first", i, j), [=](S_& s) { N* f = first(s[j]); if (!f) return false; M x = *mfirst(s[j], s.m[j]); s[i] = const_cast<const N&>(*f); s.m[i] = x; return true; });
                add(mc::fmt("n%d=move(n%d.first)", i, j), [=](S_& s) { N* f = first(s[j]); if (!f) return false; M x = *mfirst(s[j], s.m[j]); s[i] = std::move(*f); if (i != j) { *mfirst(s[j], s.m[j]) = W<N>::snap(*f, s.e); } s.m[i] = x; return true; });
                if (i == j) continue;
                add(mc::fmt("n%d.first=move(n%d)", i, j), [=](S_& s) { N* f = first(s[i]); if (!f) return false; M x = s.m[j]; *mfirst(s[i], s.m[i]) = x; *f = std::move(s[j]); s.adopt(j); return true; });
                add(mc::fmt("n%d.first.swap(n%d)", i, j), [=](S_& s) { N* f = first(s[i]); if (!f) return false; std::swap(*mfirst(s[i], s.m[i]), s.m[j]); f->swap(s[j]); return true; });
                add(mc::fmt("n%d.push_back(move(n%d))", i, j), [=](S_& s) { auto* a = s[i].template get_if<A>(); if (!a || s.m[i].a.size() > 2) return false; M x = s.m[j]; a->push_back(std::move(s[j])); s.m[i].a.push_back(x); s.adopt(j); return true; });
            }
            add(mc::fmt("n%d.front.swap(back)", i), [=](S_& s) { auto* a = s[i].template get_if<A>(); if (!a || a->empty()) return false; std::swap(s.m[i].a.front(), s.m[i].a.back()); a->front().swap(a->back()); return true; });
            add(mc::fmt("n%d.front=back", i), [=](S_& s) { auto* a = s[i].template get_if<A>(); if (!a || a->empty()) return false; M x = s.m[i].a.back(); s.m[i].a.front() = x; a->front() = const_cast<const N&>(a->back()); return true; });
            add(mc::fmt("n%d.pop_front", i), [=](S_& s) { auto* a = s[i].template get_if<A>(); if (!a || a->empty()) return false; a->erase(a->begin()); s.m[i].a.erase(s.m[i].a.begin()); return true; });
            add(mc::fmt("n%d.clear", i), [=](S_& s) { auto* a = s[i].template get_if<A>(); auto* o = s[i].template get_if<O>(); if (!a && !o) return false; if (a) a->clear(); else o->clear(); s.m[i].a.clear(); return true; });
            for (int mv = 0; mv < 2; ++mv) add(mc::fmt("n%d=%s(value of n%d.first)", i, mv ? "move" : "", i), [=](S_& s) {
                M* f = mfirst(s[i], s.m[i]); if (!f) return false; M x = *f;
                bool r = inner<O>(s[i], mv) || inner<S>(s[i], mv) || inner<typename N::uint>(s[i], mv);
                if (!r && s.m[i].k != 'a') r = inner<A>(s[i], mv); // the array of an own element is the array's own business
#               if FMT == 1
                    if (!r) r = inner<typename N::tag>(s[i], mv) || inner<typename N::bytes>(s[i], mv);
#               else
                    (void)0;
#               endif
                if (r) s.m[i] = x; return r;
            });
        }
    }
};
