// C19: where memory comes from and goes to. FMT 0: JSON, 1: CBOR; GRP 0, 1: reads of types with pointers, 2: reads into nodes with allocators, 3: node operations
#ifndef FMT
#   define FMT 0
#endif
#ifndef GRP
#   define GRP 0
#endif
#include "memhook.hxx"
#define NODEOPS_OFF gm::Off off_;
#define NODEOPS_NEW NODEOPS_OFF mem::used(id);
#include <list>
#include <set>
namespace mem { static long other = 0; static int expected = -1; static void used(int id) { if (expected >= 0 && id != expected) ++other; } }
#include "targets.hxx"
#include "nodeops.hxx"
#if __cplusplus >= 201703L
#   include <memory_resource>
#endif
#include "inputs.hxx"
#include "pointers.hxx"
#if FMT == 1
    using X = cxon::CBOR<>;
#else
    using X = cxon::JSON<>;
#endif
using J = cxon::JSON<>; using C = cxon::CBOR<>;
#define C_ ,
static std::string show(const std::string& s) { return FMT == 1 ? mc::hex(s).substr(0, 160) : mc::esc(s).substr(0, 160); }
static void tick(const char* label, const std::string& s, int rc) { mc::transition(); mc::state(mc::hash(s)); mc::outcome(unsigned(rc)); static uint64_t c = 0; if (++c % 50000 == 1) mc::sample(mc::fmt("%s %s -> %d", label, show(s).substr(0, 60).c_str(), rc)); }
// ---- types: after the user has released what was given, nothing is left; what failed gives nothing
template <typename T> struct Pure { static bool const value = false; static bool empty(const T&) { return true; } };
template <typename T> struct Pure<T*> { static bool const value = true; static bool empty(T* const& t) { return t == nullptr; } };
template <typename T> struct Pure<Many<T>> { static bool const value = true; static bool empty(const Many<T>& t) { return t.p == nullptr; } };
template <typename T> struct Pure<std::unique_ptr<T>> { static bool const value = true; static bool empty(const std::unique_ptr<T>& t) { return !t; } };
template <typename T> struct Pure<std::shared_ptr<T>> { static bool const value = true; static bool empty(const std::shared_ptr<T>& t) { return !t; } };
static size_t block(const void* p) { return (static_cast<const gm::H*>(p) - 1)->magic == gm::LIVE ? (static_cast<const gm::H*>(p) - 1)->n : size_t(-1); }
template <typename T> struct Size { static const char* f(const T&) { return nullptr; } };
template <typename T> static const char* str_size(const T* t) { if (!t) return nullptr; size_t n = block(t); if (n == size_t(-1)) return "the pointer is not that of a block"; if (FMT == 1 && n == sizeof(T)) return nullptr; if (n % sizeof(T) || n < sizeof(T) || t[n / sizeof(T) - 1] != T(0)) return "the block is not that of the string and its end"; return nullptr; }
template <> struct Size<char*> { static const char* f(char* const& t) { return str_size(t); } };
template <> struct Size<const char*> { static const char* f(const char* const& t) { return str_size(t); } };
template <> struct Size<char16_t*> { static const char* f(char16_t* const& t) { return str_size(t); } };
template <> struct Size<Inner*> { static const char* f(Inner* const& t) { return !t || block(t) % sizeof(Inner) == 0 ? nullptr : "the block is not that of objects"; } };
#if FMT == 0
template <> struct Size<int*> { static const char* f(int* const& t) { return !t || block(t) == sizeof(int) ? nullptr : "the block is not that of an object"; } };
#endif
template <typename T> struct Fin<const T*> { static void f(const T*& t) { T* p = const_cast<T*>(t); Fin<T*>::f(p); t = nullptr; } };
template <typename T, typename I> static void read_one(const char* label, const char* kind, const std::string& s, I b, I e, bool pre) {
    const char* err = nullptr; int rc; gm::live = 0; gm::bad = nullptr; gm::track = true;
    {   T t{};
        if (pre) { static const std::string first = FMT == 1 ? "\x61\x61" : "\"a\""; cxon::from_bytes<X>(t, first.data(), first.data() + first.size()); Fin<T>::f(t); }
        long const before = gm::live; bool const had = !Pure<T>::empty(t);
        { auto r = cxon::from_bytes<X>(t, b, e); rc = r ? 0 : r.ec.value() + 1; }
        if (rc && Pure<T>::value) { if (!had && !Pure<T>::empty(t)) err = "a failed read gives a pointer"; else if (gm::live != before) err = "a failed read keeps memory"; }
        if (!err && !rc) err = Size<T>::f(t);
        if (!err || rc == 0) Fin<T>::f(t);
    }
    gm::track = false; if (!err) err = gm::bad;
    if (err) mc::fail("%s, %s %s: %s", label, kind, show(s).c_str(), err); else if (gm::live) mc::fail("%s, %s %s (%s): %ld blocks are left", label, kind, show(s).c_str(), rc ? "refused" : "read", gm::live);
    if (!gm::bad) gm::flush();
    tick(label, s, rc);
}
template <typename T> static void type(const char* label, const char* what, const std::string& s) {
    if (!mc::at(label, s)) return;
    const char* b = mc::guard().put(s); mc::describe(mc::fmt("%s %s", label, show(s).c_str()));
    read_one<T>(label, "pointers", s, b, b + s.size(), false);
    bool const deep = strcmp(what, "bytes") && strcmp(what, "alphabet") && s.size() <= 5000;
    if (deep) { static std::list<char> l; l.assign(s.begin(), s.end()); read_one<T>(label, "list", s, l.cbegin(), l.cend(), false); if (Pure<T>::value) read_one<T>(label, "pointers, again", s, b, b + s.size(), true); }
}
// ---- nodes: every value within comes from the allocator of the node
template <typename A> struct Id { static int of(const A& a) { return a.id; } };
struct Res
#if __cplusplus >= 201703L
    : std::pmr::memory_resource
#endif
{
    int id; Res(int i) : id(i) {}
#   if __cplusplus >= 201703L
        void* do_allocate(size_t n, size_t) override { NODEOPS_NEW void* p = ::operator new(n); mem::put(p, id, n); return p; }
        void do_deallocate(void* p, size_t n, size_t) override { mem::take(p, id, n); }
        bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
#   endif
};
static Res res[2] = { Res(0), Res(1) };
#if __cplusplus >= 201703L
    template <typename T> struct Id<std::pmr::polymorphic_allocator<T>> { static int of(const std::pmr::polymorphic_allocator<T>& a) { return a.resource() == &res[1] ? 1 : 0; } };
#endif
template <typename T> static auto al_of(const T& t, int) -> decltype(t.get_allocator(), int()) { return Id<decltype(t.get_allocator())>::of(t.get_allocator()); }
template <typename T> static int al_of(const T&, long) { return 1; }
template <typename N> static bool walk(const N& n) {
    if (al_of(n, 0) != 1) return false;
    if (auto* o = n.template get_if<typename W<N>::O>()) { if (al_of(*o, 0) != 1) return false; for (auto& x : *o) if (!walk(x.first) || !walk(x.second)) return false; }
    else if (auto* a = n.template get_if<typename W<N>::A>()) { if (al_of(*a, 0) != 1) return false; for (auto& x : *a) if (!walk(x)) return false; }
    else if (auto* s = n.template get_if<typename W<N>::S>()) { if (al_of(*s, 0) != 1) return false; }
#   if FMT == 1
        else if (auto* y = n.template get_if<typename N::bytes>()) { if (al_of(*y, 0) != 1) return false; }
        else if (auto* g = n.template get_if<typename N::tag>()) { if (!walk(g->value)) return false; }
#   endif
    return true;
}
template <typename N> struct Mk { static typename N::allocator_type al() { return typename N::allocator_type(1); } };
template <typename N> static void node(const char* label, const char* what, const std::string& s) {
    if (!mc::at(label, s)) return;
    const char* b = mc::guard().put(s); mc::describe(mc::fmt("%s %s", label, show(s).c_str())); int rc = 0;
    static const std::string pre[] = { "", FMT == 1 ? std::string("\x82\x78\x1e") + std::string(30, 'p') + "\x80" : "[\"" + std::string(30, 'p') + "\",[]]", FMT == 1 ? std::string("\xA1\x61\x61\x78\x1e") + std::string(30, 'p') : "{\"a\":\"" + std::string(30, 'p') + "\"}", FMT == 1 ? std::string("\x78\x1e") + std::string(30, 'p') : "\"" + std::string(30, 'p') + "\"" };
    bool const deep = !strcmp(what, "corpus") || !strcmp(what, "prefix") || !strcmp(what, "replace");
    static std::list<char> l; if (deep) l.assign(s.begin(), s.end());
    for (int v = 0; v < (deep ? 8 : 1); ++v) {
        mem::reset(); mem::other = 0; mem::expected = 1; gm::live = 0; gm::bad = nullptr; gm::track = true; const char* err = nullptr;
        {   N n(Mk<N>::al());
            if (v % 4) cxon::from_bytes<X>(n, pre[v % 4].data(), pre[v % 4].data() + pre[v % 4].size());
            if (v < 4) { auto r = cxon::from_bytes<X>(n, b, b + s.size()); rc = r ? 0 : r.ec.value() + 1; } else { auto r = cxon::from_bytes<X>(n, l.cbegin(), l.cend()); rc = r ? 0 : r.ec.value() + 1; }
            if (!walk(n)) err = "a value within has another allocator";
            if (mem::other) err = "memory is taken from another allocator";
            if (gm::live != 0) err = "the value holds memory that is not of its allocator";
            if (v > 3) { n.reset(); if (!mem::blocks.empty()) err = "a reset node keeps memory"; }
        }
        gm::track = false; if (!err && !mem::bad.empty()) err = mem::bad.c_str(); if (!err) err = gm::bad; if (!err && (gm::live || !mem::blocks.empty())) err = "memory is left";
        if (err) mc::fail("%s %s (before: %s%s): %s", label, show(s).c_str(), show(pre[v % 4]).c_str(), v > 3 ? ", list" : "", err);
        if (!gm::bad) gm::flush();
    }
    tick(label, s, rc);
}
struct TrUAl : fm::node_traits<Al<char, 1>> {
    template <typename K, typename V> using OBJ = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, Al<std::pair<const K, V>, 1>>;
    template <typename T> using array_type = std::deque<T, Al<T, 1>>;
};
#if __cplusplus >= 201703L
    using PmrN = fm::basic_node<fm::node_traits<std::pmr::polymorphic_allocator<char>>>; using PmrO = fm::basic_node<fm::ordered_node_traits<std::pmr::polymorphic_allocator<char>>>; using PmrD = fm::basic_node<TrDynAl<std::pmr::polymorphic_allocator<char>>>;
    template <> struct Mk<PmrN> { static PmrN::allocator_type al() { return PmrN::allocator_type(&res[1]); } };
    template <> struct Mk<PmrO> { static PmrO::allocator_type al() { return PmrO::allocator_type(&res[1]); } };
    template <> struct Mk<PmrD> { static PmrD::allocator_type al() { return PmrD::allocator_type(&res[1]); } };
    template <typename T> struct AlOf<std::pmr::polymorphic_allocator<T>> { static std::pmr::polymorphic_allocator<T> make(int i) { return &res[i & 1]; } };
#endif
#if FMT == 1
#   define IN_(o) o
#endif
static void run(const char* what, const std::string& s) {
#   if GRP == 0
        type<int*>("int*", what, s); type<Inner*>("Inner*", what, s); type<char*>("char*", what, s); type<const char*>("const char*", what, s); type<std::unique_ptr<Inner>>("unique_ptr<Inner>", what, s); type<std::shared_ptr<Inner>>("shared_ptr<Inner>", what, s); type<std::unique_ptr<std::vector<std::string>>>("unique_ptr<vector>", what, s);
#       if FMT == 0
            type<int**>("int**", what, s); type<char16_t*>("char16_t*", what, s); type<std::vector<std::string>*>("vector<string>*", what, s);
#       else
            type<std::shared_ptr<int>>("shared_ptr<int>", what, s);
#       endif
#   elif GRP == 1
        type<std::vector<int*>>("vector<int*>", what, s); type<std::vector<char*>>("vector<char*>", what, s); type<std::multimap<std::string, Inner*>>("multimap<string,Inner*>", what, s); type<std::pair<char*, Inner*>>("pair<char*,Inner*>", what, s); type<Ptrs>("class of pointers", what, s);
        type<std::vector<std::unique_ptr<Inner>>>("vector<unique_ptr>", what, s); type<std::map<std::string, std::shared_ptr<std::string>>>("map<string,shared_ptr>", what, s); type<std::map<std::string, std::vector<std::string>>>("map<string,vector>", what, s); type<std::list<Inner*>>("list<Inner*>", what, s);
#   else
        node<fm::basic_node<fm::node_traits<Al<char, 0>>>>("node", what, s); node<fm::basic_node<TrDynAl<Al<char, 7>>>>("all dynamic", what, s); node<fm::basic_node<TrUAl>>("deque and unordered_map", what, s); node<fm::basic_node<fm::ordered_node_traits<Al<char, 2>>>>("ordered", what, s); node<fm::basic_node<fm::node_traits<Pm<char>>>>("not assignable", what, s);
#       if __cplusplus >= 201703L
            node<PmrN>("pmr", what, s); node<PmrO>("pmr ordered", what, s); node<PmrD>("pmr all dynamic", what, s);
#       endif
#   endif
}
#if GRP == 3
// after every operation: each node's value has its allocator; blocks go back to where they came from, with their size
template <typename N> static void ops(const char* label) {
    static Ops<N> o(true); static std::string const L = label; int const parts = 4;
    for (int p = 0; p < parts; ++p) mc::add(L + mc::fmt(": operations %d", p), [=] {
        int const n = int(o.v.size());
        auto go = [&](const std::vector<int>& h) {
            std::string key = "o"; for (int i : h) key += char(i); if (!mc::at(L.c_str(), key)) return;
            std::string nm; for (int i : h) nm += (nm.empty() ? "" : "; ") + o.v[size_t(i)].name; mc::describe(nm);
            mem::reset(); mem::expected = -1; gm::bad = nullptr; gm::live = 0; gm::track = true; std::string err; bool ran = true;
            {   St<N> s; for (int i : h) { if (!o.v[size_t(i)].run(s)) { ran = false; break; } }
                gm::Off off; if (ran) for (int i = 0; i < 2; ++i) { const N& x = s[i]; int id = al_of(x, 0); bool ok = true;
                    if (auto* v = x.template get_if<typename W<N>::O>()) ok = al_of(*v, 0) == id; else if (auto* v = x.template get_if<typename W<N>::A>()) ok = al_of(*v, 0) == id; else if (auto* v = x.template get_if<typename W<N>::S>()) ok = al_of(*v, 0) == id;
#                   if FMT == 1
                        else if (auto* v = x.template get_if<typename N::bytes>()) ok = al_of(*v, 0) == id;
#                   endif
                    if (!ok) err = mc::fmt("the value of n%d has another allocator", i); }
            }
            gm::track = false; if (err.empty()) err = mem::bad; if (err.empty() && gm::bad) err = gm::bad; if (err.empty() && (!mem::blocks.empty() || gm::live)) err = "memory is left";
            if (!err.empty()) mc::fail("%s: %s", nm.c_str(), err.c_str()); if (!gm::bad) gm::flush(); tick(label, nm, ran);
        };
        for (int a = p; a < n; a += parts) { go({a}); for (int b = 0; b < n; ++b) { go({a, b}); for (int c = 0; c < n; ++c) go({a, b, c}); } }
    });
}
#endif
int main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) mc::g().thorough = 1;
#   if __cplusplus >= 201703L
        std::pmr::set_default_resource(&res[0]);
#   endif
#   if GRP == 3
        ops<fm::basic_node<fm::node_traits<Al<char, 0>>>>("node"); ops<fm::basic_node<TrDynAl<Al<char, 7>>>>("all dynamic"); ops<fm::basic_node<fm::node_traits<Pm<char>>>>("not assignable"); ops<fm::basic_node<fm::ordered_node_traits<Al<char, 2>>>>("ordered");
#       if __cplusplus >= 201703L
            ops<PmrN>("pmr");
#       endif
#   else
#       if GRP == 1
            mc::add("repeated keys", [] { // what is kept for the first may not be lost for the second
                type<std::map<std::string, Inner*>>("map<string,Inner*>", "corpus", FMT == 1 ? std::string("\xA2\x61\x61\x80\x61\x61\x80") : "{\"a\":{},\"a\":{}}"); type<std::map<std::string, Inner*>>("map<string,Inner*>", "corpus", FMT == 1 ? std::string("\xA2\x61\x61\x80\x61\x62\x80") : "{\"a\":{},\"b\":{}}");
                type<std::map<std::string, std::unique_ptr<Inner>>>("map<string,unique_ptr>", "corpus", FMT == 1 ? std::string("\xA2\x61\x61\x80\x61\x61\x80") : "{\"a\":{},\"a\":{}}");
            });
#       endif
        inp::add(run, mc::thorough() ? 4 : 3, mc::thorough());
#   endif
    return mc::main(argc, argv);
}
