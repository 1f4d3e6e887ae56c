// Types with raw pointers and how the user releases them (after memhook.hxx and targets.hxx)
#pragma once
#include <list>
// ---- types with raw pointers: the user's to release
template <typename T> struct Fin { static void f(T&) {} };
template <typename T> struct One { static void rel(T* p) { p->~T(); ::operator delete(p); } };
template <typename T, bool = std::is_trivial<T>::value> struct Rel { static void f(T* p) { if (p) ::operator delete(p); } };
template <typename T> struct Rel<T, false> { static void f(T* p) { if (p) { p->~T(); ::operator delete(p); } } };
template <typename T> struct Fin<T*> { static void f(T*& t) { if (t) { Fin<T>::f(*t); Rel<T>::f(t); } t = nullptr; } };
template <typename T> struct Many { T* p; Many() : p(nullptr) {} }; // an array that ends with an empty element
template <typename T> struct Fin<Many<T>> { static void f(Many<T>& t) { if (t.p) { T* q = t.p; for (;; ++q) { bool l = q->empty(); q->~T(); if (l) break; } ::operator delete(t.p); } t.p = nullptr; } };
template <typename T> struct Fin<std::vector<T>> { static void f(std::vector<T>& t) { for (auto& x : t) Fin<T>::f(x); } };
template <typename T> struct Fin<std::list<T>> { static void f(std::list<T>& t) { for (auto& x : t) Fin<T>::f(x); } };
template <> struct Fin<std::vector<bool>> { static void f(std::vector<bool>&) {} };
template <typename K, typename V> struct Fin<std::map<K, V>> { static void f(std::map<K, V>& t) { for (auto& x : t) Fin<V>::f(x.second); } };
template <typename K, typename V> struct Fin<std::multimap<K, V>> { static void f(std::multimap<K, V>& t) { for (auto& x : t) Fin<V>::f(x.second); } };
template <typename A, typename B> struct Fin<std::pair<A, B>> { static void f(std::pair<A, B>& t) { Fin<A>::f(t.first); Fin<B>::f(t.second); } };
struct Ptrs { int* p; char* s; std::string z; Inner* in; Ptrs() : p(), s(), in() {} CXON_JSON_CLS_MEMBER(Ptrs, CXON_JSON_CLS_FIELD_ASIS(p), CXON_JSON_CLS_FIELD_ASIS(s), CXON_JSON_CLS_FIELD_ASIS(z), CXON_JSON_CLS_FIELD_ASIS(in)) CXON_CBOR_CLS_MEMBER(Ptrs, CXON_CBOR_CLS_FIELD_ASIS(p), CXON_CBOR_CLS_FIELD_ASIS(s), CXON_CBOR_CLS_FIELD_ASIS(z), CXON_CBOR_CLS_FIELD_ASIS(in)) };
template <> struct Fin<Ptrs> { static void f(Ptrs& t) { Fin<int*>::f(t.p); Fin<char*>::f(t.s); Fin<Inner*>::f(t.in); } };
namespace cxon {
    template <typename Z, typename T> struct read<Z, Many<T>> { template <typename II, typename Cx> static bool value(Many<T>& t, II& i, II e, Cx& cx) { return read_value<Z>(t.p, i, e, cx); } };
}
