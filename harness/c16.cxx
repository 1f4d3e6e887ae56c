// C16: equality, order and hash of nodes. FMT 0: JSON, 1: CBOR; GRP selects the kinds of node
#ifndef FMT
#   define FMT 0
#endif
#ifndef GRP
#   define GRP 0
#endif
#if FMT == 1
#   include "cxon/cbor.hxx"
#else
#   include "cxon/json.hxx"
#endif
#include "cxon/lib/std/list.hxx"
#include "cxon/lib/std/unordered_map.hxx"
#include "cxon/lib/node.hxx"
#include "cxon/lib/node.ordered.hxx"
#include "nodemodel.hxx"
#include <limits>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#if FMT == 1
#   define OBJ map_type
#   define STR text_type
#   define DYNA cxon::scalar_sequence<NK, NK::map, NK::array, NK::tag, NK::bytes, NK::text, NK::real, NK::sint, NK::uint, NK::simple, NK::boolean>
#else
#   define OBJ object_type
#   define STR string_type
#   define DYNA cxon::scalar_sequence<NK, NK::object, NK::array, NK::string, NK::real, NK::sint, NK::uint, NK::boolean>
#endif
struct TrAllDyn : fm::node_traits<> { using dynamic_types = DYNA; };
struct TrHash : fm::node_traits<> { template <typename K, typename V> using OBJ = std::unordered_map<K, V>; };
struct TrMulti : fm::node_traits<> { template <typename K, typename V> using OBJ = std::multimap<K, V>; template <typename T> using array_type = std::list<T>; };
struct TrNum : fm::node_traits<> { using real_type = float; using sint_type = int; using uint_type = std::size_t; };
using Node = fm::node; using OrdN = fm::ordered_node; using DynN = fm::basic_node<TrAllDyn>; using HashN = fm::basic_node<TrHash>; using NumN = fm::basic_node<TrNum>;
template <typename N> struct Ord : std::false_type {};
template <> struct Ord<OrdN> : std::true_type {};
template <typename N> struct Uno : std::false_type {};
template <> struct Uno<HashN> : std::true_type {};
template <typename N> struct It { N n; std::string d; bool nan; }; // d: what it denotes
template <typename N> using O = typename W<N>::O;
template <typename N> using A = typename W<N>::A;
template <typename N> using S = typename W<N>::S;
static M norm(M m) { if (m.k == 'r' && m.s == "-0") m.s = "0"; for (auto& x : m.a) x = norm(x); return m; } // the two zeros are equal
static bool has_nan(const M& m) { if (m.k == 'r' && m.s.find("nan") != std::string::npos) return true; for (auto& x : m.a) if (has_nan(x)) return true; return false; }
template <typename N> static It<N> item(const N& n) { std::string e; M m = W<N>::snap(n, e); return It<N>{n, norm(m).dump(Ord<N>::value), has_nan(m)}; }
template <typename N> static std::vector<N> leaves(bool big) {
    using L = std::numeric_limits<typename N::sint>; using U = std::numeric_limits<typename N::uint>; using R = std::numeric_limits<typename N::real>;
    std::vector<N> v; auto str = [&](const std::string& s) { S<N> t(s.data(), s.size()); v.push_back(N(t)); };
    v.push_back(N()); v.push_back(N(nullptr)); v.push_back(N(true)); v.back() = typename N::boolean(true); N f; f = typename N::boolean(false); v.push_back(f);
    v.push_back(N((typename N::sint)0)); v.push_back(N((typename N::sint)1)); v.push_back(N((typename N::uint)0)); v.push_back(N((typename N::uint)1)); v.push_back(N((typename N::real)1)); v.push_back(N((typename N::real)0)); v.push_back(N(-(typename N::real)0));
    str(""); str("a"); str(std::string("a\0", 2)); str("k");
    v.push_back(N(A<N>())); v.push_back(N(O<N>()));
#   if FMT == 1
        v.push_back(N(typename N::bytes())); v.push_back(N(typename N::bytes(1, 'a'))); v.push_back(N(typename N::simple(0))); v.push_back(N(typename N::simple(1)));
#   endif
    if (!big) return v;
    for (auto x : {L::min(), L::max(), typename N::sint(-1), typename N::sint(2)}) v.push_back(N(x)); for (auto x : {U::max(), typename N::uint(U::max() / 2 + 1), typename N::uint(2)}) v.push_back(N(x));
    for (auto x : {R::infinity(), -R::infinity(), R::max(), R::min(), R::denorm_min(), -R::denorm_min(), typename N::real(-1), typename N::real(0.5), R::quiet_NaN()}) v.push_back(N(x));
    str("ab"); str("b"); str("\x7f"); str("\xc2\x80"); str("\xff"); str(std::string(1, '\0')); str(std::string(15, 'x')); str(std::string(16, 'x')); str(std::string(16, 'x') + "y"); str(std::string(16, 'x') + std::string("\0", 1)); str(std::string(300, 'x'));
#   if FMT == 1
        v.push_back(N(typename N::bytes(2, 'a'))); v.push_back(N(typename N::bytes(1, 255))); v.push_back(N(typename N::bytes(1, 0))); v.push_back(N(typename N::simple(20))); v.push_back(N(typename N::simple(255)));
#   endif
    return v;
}
template <typename N, bool U> struct Re { static void hash(O<N>&, size_t) {} };
template <typename N> struct Re<N, true> { static void hash(O<N>& o, size_t n) { o.rehash(n); } };
template <typename N> static N obj(const std::vector<N>& kv, int way = 0) { // the same members in different ways
    O<N> o; if (way) Re<N, Uno<N>::value>::hash(o, way == 1 ? 97 : 1);
    bool const rev = way == 2 && !Ord<N>::value; size_t const n = kv.size() / 2;
    for (size_t i = 0; i < n; ++i) { size_t j = rev ? n - 1 - i : i; cxon::cnt::append(o, { N(kv[2 * j]), N(kv[2 * j + 1]) }); }
    return N(o);
}
template <typename N> static void uniq(std::vector<N>& v) { (void)v; }
template <typename N> static std::vector<It<N>> trees(int lvl) { // values with the same values built in other ways among them
    std::vector<N> sm = leaves<N>(false), all = leaves<N>(true), few = {N(), N((typename N::uint)1), N((typename N::sint)1), N("a"), N(A<N>()), N(O<N>())}, mid; std::vector<N> keys = {N("a"), N("k"), N((typename N::uint)1), N((typename N::sint)1), N(A<N>(1, N("a"))), N()};
    for (auto& x : sm) { A<N> a; a.push_back(x); mid.push_back(N(a)); }
    for (auto& x : few) for (auto& y : few) { A<N> a; a.push_back(x); a.push_back(y); mid.push_back(N(a)); }
    for (auto& k : keys) for (auto& y : few) mid.push_back(obj<N>({k, y}));
#   if FMT == 1
        for (uint64_t t : {0ull, 1ull, ~0ull}) for (auto& x : sm) mid.push_back(N(typename N::tag((typename N::uint)t, x)));
#   endif
    for (auto& x : few) for (auto& y : few) for (int w = 0; w < 3; ++w) { mid.push_back(obj<N>({N("a"), x, N("b"), y}, w)); if (Ord<N>::value) mid.push_back(obj<N>({N("b"), y, N("a"), x}, w)); }
    for (int w = 0; w < 3; ++w) for (auto& x : few) mid.push_back(obj<N>({N("a"), x, N("b"), N(), N("c"), N("a"), N((typename N::uint)1), N(A<N>(1, N(obj<N>({N("p"), N("q"), N("r"), N("s")}, w))))}, w));
    for (auto& x : mid) all.push_back(x);
    for (int l = 0; l < lvl; ++l) {
        std::vector<N> up; for (auto& x : mid) { A<N> a; a.push_back(x); up.push_back(N(a)); up.push_back(obj<N>({N("k"), x})); up.push_back(obj<N>({x, N()})); a.push_back(N()); up.push_back(N(a));
#   if FMT == 1
            up.push_back(N(typename N::tag(1, x)));
#   endif
        }
        for (auto& x : up) all.push_back(x); mid.swap(up);
    }
    std::vector<It<N>> r; for (auto& x : all) r.push_back(item(x));
    for (size_t i = 0; i < sm.size(); ++i) { N t(sm[i]); A<N> a; a.push_back(N("x")); N u(a); u = t; r.push_back(item(u)); A<N> b; b.push_back(t); b.push_back(t); b.erase(b.begin()); r.push_back(item(N(b))); } // the same by another way
    return r;
}
template <typename N, bool U> struct Less { static bool has() { return true; } static bool lt(const N& a, const N& b) { return a < b; } };
template <typename N> struct Less<N, true> { static bool has() { return false; } static bool lt(const N&, const N&) { return false; } };
template <typename N, bool U> struct Keys { static void run(const std::vector<It<N>>& t, const char* L) {
    std::map<N, size_t> m; std::set<N> s; std::map<std::string, size_t> want; size_t i = 0;
    for (auto& x : t) if (!x.nan) { m.insert({x.n, i}); s.insert(x.n); want.insert({x.d, i}); ++i; }
    if (!mc::at(L, std::string("ordered containers"))) return; mc::describe("all values as keys of std::map and std::set");
    if (m.size() != want.size() || s.size() != want.size()) { mc::fail("%zu different values, %zu keys of std::map, %zu of std::set", want.size(), m.size(), s.size()); return; }
    for (auto& x : t) if (!x.nan) { auto f = m.find(x.n); if (f == m.end() || f->second != want[x.d] || s.count(x.n) != 1) { mc::fail("%s is not found, or another is found", x.d.substr(0, 100).c_str()); return; } N c(x.n); if (m.find(c) != f) { mc::fail("a copy of %s is not found", x.d.substr(0, 100).c_str()); return; } }
} };
template <typename N> struct Keys<N, true> { static void run(const std::vector<It<N>>&, const char*) {} };
template <typename N> static void hashed(const std::vector<It<N>>& t, const char* L) {
    std::unordered_map<N, size_t> m; std::unordered_set<N> s; std::map<std::string, size_t> want; size_t i = 0;
    for (auto& x : t) if (!x.nan) { m.insert({x.n, i}); s.insert(x.n); want.insert({x.d, i}); ++i; }
    if (!mc::at(L, std::string("unordered containers"))) return; mc::describe("all values as keys of std::unordered_map and std::unordered_set");
    if (m.size() != want.size() || s.size() != want.size()) { mc::fail("%zu different values, %zu keys of std::unordered_map, %zu of std::unordered_set", want.size(), m.size(), s.size()); return; }
    for (auto& x : t) if (!x.nan) { auto f = m.find(x.n); if (f == m.end() || f->second != want[x.d] || s.count(x.n) != 1) { mc::fail("%s is not found, or another is found", x.d.substr(0, 100).c_str()); return; } }
}
template <typename N> static void laws(const char* L0, int lvl) {
    static std::vector<It<N>> const* tt = nullptr; std::string const L = L0; int const parts = 8; using Ls = Less<N, Uno<N>::value>;
    auto get = [lvl]() -> const std::vector<It<N>>& { if (!tt) tt = new std::vector<It<N>>(trees<N>(mc::thorough() ? lvl + 1 : lvl)); return *tt; };
    for (int p = 0; p < parts; ++p) mc::add(L + mc::fmt(": pairs %d", p), [=]() {
        auto& t = get();
        for (size_t i = size_t(p); i < t.size(); i += parts) {
            auto& a = t[i]; mc::state(mc::hash(a.d)); if (i % 50 == 0) mc::sample(L + " " + a.d.substr(0, 100));
            std::hash<N> const hs; size_t const ha = hs(a.n); if (cxon::make_hash(a.n) != ha && mc::at(L.c_str(), "h" + a.d)) mc::fail("std::hash and cxon::make_hash differ for %s", a.d.substr(0, 100).c_str());
            for (size_t j = 0; j < t.size(); ++j) {
                auto& b = t[j]; uint32_t k[2] = {uint32_t(i), uint32_t(j)};
                if (!mc::at(L.c_str(), k, sizeof k)) continue;
                bool const want = !a.nan && !b.nan && a.d == b.d, e = a.n == b.n, ne = a.n != b.n, lt = Ls::lt(a.n, b.n), gt = Ls::lt(b.n, a.n);
                if (e != want && !(a.nan && b.nan)) mc::fail("%s == %s is %d", a.d.substr(0, 200).c_str(), b.d.substr(0, 200).c_str(), int(e));
                if (ne == e) mc::fail("%s: == and != agree with %s", a.d.substr(0, 200).c_str(), b.d.substr(0, 200).c_str());
                if (want && hs(b.n) != ha) mc::fail("equal values, different hashes: %s", a.d.substr(0, 300).c_str());
                if (Ls::has()) {
                    if (lt && gt) mc::fail("%s and %s are each less than the other", a.d.substr(0, 200).c_str(), b.d.substr(0, 200).c_str());
                    else if (!a.nan && !b.nan && (lt || gt) == want) mc::fail("order and equality disagree: %s < %s is %d, > is %d", a.d.substr(0, 200).c_str(), b.d.substr(0, 200).c_str(), int(lt), int(gt));
                }
                mc::transition();
            }
        }
    });
    mc::add(L + ": order", [=]() { // a total order: the values sorted, every pair stands in the order of the places
        auto& t = get(); if (!Ls::has()) return; std::map<std::string, const N*> u; for (auto& x : t) if (!x.nan) u.insert({x.d, &x.n});
        std::vector<const N*> v; for (auto& x : u) { size_t lo = 0, hi = v.size(); while (lo < hi) { size_t md = (lo + hi) / 2; if (Ls::lt(*v[md], *x.second)) lo = md + 1; else hi = md; } v.insert(v.begin() + long(lo), x.second); }
        for (size_t i = 0; i < v.size(); ++i) for (size_t j = i + 1; j < v.size(); ++j) {
            uint32_t k[2] = {uint32_t(i), uint32_t(j)}; if (!mc::at((L + " order").c_str(), k, sizeof k)) continue;
            if (!Ls::lt(*v[i], *v[j]) || Ls::lt(*v[j], *v[i])) { mc::fail("the order is not transitive: %s and %s", item(*v[i]).d.substr(0, 200).c_str(), item(*v[j]).d.substr(0, 200).c_str()); }
            mc::transition();
        }
    });
    mc::add(L + ": keys", [=]() { auto& t = get(); Keys<N, Uno<N>::value>::run(t, L.c_str()); hashed(t, L.c_str()); });
}
// values against nodes
template <typename N, typename T> static void against(const char* L, const char* nm, std::vector<It<N>> t, const T& v) {
    t.push_back(item(N(v))); std::string const d = t.back().d;
    for (size_t i = 0; i < t.size(); ++i) {
        auto& n = t[i].n; if (!mc::at(L, std::string(nm) + "," + t[i].d)) continue;
        bool const w = t[i].d == d, e1 = n == v, e2 = v == n, n1 = n != v, n2 = v != n;
        if (e1 != w || e2 != w || n1 == w || n2 == w) mc::fail("node %s and %s: n==v is %d, v==n %d, n!=v %d, v!=n %d", t[i].d.substr(0, 200).c_str(), nm, e1, e2, n1, n2);
        mc::transition();
    }
}
template <typename N> static void values(const char* L) {
    std::string const l = L;
    mc::add(l + ": values", [=]() {
        auto t = trees<N>(0); using X = N;
#       define V(...) against<N>(l.c_str(), #__VA_ARGS__, t, __VA_ARGS__)
            V(1); V(0); V(-1); V(2); V(1L); V(1LL); V(short(1)); V((signed char)(1)); V((long long)(std::numeric_limits<typename N::sint>::min())); V(1u); V(0u); V(1UL); V(1ULL); V((unsigned short)(1)); V((unsigned char)(1)); V(char(1)); V(char(99)); V(char(-1)); V(u'\1'); V(U'\1'); V(typename X::uint(std::numeric_limits<typename X::uint>::max()));
            V(typename X::real(1)); V(typename X::real(0)); V(typename X::real(0.5)); V(true); V(false); V(nullptr); V("a"); V(""); V("k"); V(S<X>("a")); V(S<X>(std::string(16, 'x').c_str())); V(A<X>()); V(A<X>(1, X("a"))); V(O<X>());
#           if FMT == 1
                V(typename X::bytes()); V(typename X::bytes(1, 'a')); V(typename X::undefined()); V(typename X::simple(1)); V(typename X::tag(1, X("a")));
#           endif
#       undef V
    });
}
int main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) mc::g().thorough = 1;
#   if GRP == 0
        laws<Node>("node", FMT == 1 ? 1 : 2); laws<OrdN>("ordered_node", 1); values<Node>("node"); values<OrdN>("ordered_node");
#   else
        laws<DynN>("all dynamic", 1); laws<HashN>("unordered", 1); laws<NumN>("other numbers", 0); values<DynN>("all dynamic"); values<HashN>("unordered");
#   endif
    return mc::main(argc, argv);
}
