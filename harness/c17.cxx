// C17: the recursion limit of nodes. GRP 0: JSON nodes and JSON, 1: CBOR nodes and CBOR, 2: across the formats; FMT is not used (0)
#ifndef GRP
#   define GRP 0
#endif
#include "cxon/json.hxx"
#include "cxon/cbor.hxx"
#include "cxon/lib/std/list.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/tuple.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/node.hxx"
#include "cxon/lib/node.ordered.hxx"
#include "cxon/lang/json/tidy.hxx"
#include "ref.hxx"
#include "nodeval.hxx"
#include "mc.hxx"
#include <list>
using JN = cxon::json::node; using CN = cxon::cbor::node; using JO = cxon::json::ordered_node; using CO = cxon::cbor::ordered_node; using J = cxon::JSON<>; using C = cxon::CBOR<>;
using ref::Val;
// a spine: outermost first. a [x]  b [side,x]  c [x,side]  o {"k":x}  p {"a":side,"k":x}  k {x:1}  t tag(x)  i [_ x]  q {_ "k":x}
static unsigned lim = 0; // a side branch is as deep as the limit lets it be
static Val sided(size_t at) { Val v = Val::U(3); size_t n = lim > at + 2 ? lim - at - 2 : 0; if (lim > 20 && n > 6) n = 6; for (size_t i = 0; i < n; ++i) { Val w = Val::A(); w.a.push_back(v); v = w; } return v; }
static Val build(const std::string& s, const Val& in) {
    Val v = in;
    for (size_t i = s.size(); i-- > 0; ) { Val w = Val::A(); switch (s[i]) {
        case 'a': case 'i': w.a.push_back(std::move(v)); break; case 'b': w.a.push_back(sided(i)); w.a.push_back(std::move(v)); break; case 'c': w.a.push_back(std::move(v)); w.a.push_back(sided(i)); break;
        case 'o': case 'q': w = Val::M(); w.a.push_back(Val::T("k")); w.a.push_back(std::move(v)); break; case 'p': w = Val::M(); w.a = {Val::T("a"), sided(i), Val::T("k")}; w.a.push_back(std::move(v)); break;
        case 'k': w = Val::M(); w.a.push_back(std::move(v)); w.a.push_back(Val::U(1)); break; case 't': w.k = Val::tag; w.u = 5; w.a.push_back(std::move(v)); break; }
        v = std::move(w); }
    return v;
}
static std::string js(const Val& v) { std::string o; switch (v.k) { case Val::nul: return "null"; case Val::uin: return std::to_string(v.u); case Val::txt: return "\"" + v.s + "\"";
    case Val::arr: o = "["; for (auto& x : v.a) o += (o.size() > 1 ? "," : "") + js(x); return o + "]"; case Val::map: o = "{"; for (size_t i = 0; i + 1 < v.a.size(); i += 2) o += (i ? "," : "") + js(v.a[i]) + ":" + js(v.a[i + 1]); return o + "}"; default: return "?"; } }
static std::string cb(const Val& v) { std::string o; switch (v.k) { case Val::nul: return "\xF6"; case Val::uin: ref::cbor_head(o, 0, v.u); return o; case Val::txt: ref::cbor_head(o, 3, v.s.size()); return o + v.s;
    case Val::arr: ref::cbor_head(o, 4, v.a.size()); for (auto& x : v.a) o += cb(x); return o; case Val::map: ref::cbor_head(o, 5, v.a.size() / 2); for (auto& x : v.a) o += cb(x); return o; case Val::tag: ref::cbor_head(o, 6, v.u); return o + cb(v.a[0]); default: return "?"; } }
static std::string wrap(const std::string& s, size_t at, bool json, const std::string& inner, bool close) { // the text of a spine, with the spellings of it
    if (at == s.size()) return inner;
    std::string const x = wrap(s, at + 1, json, inner, close), sd = json ? js(sided(at)) : cb(sided(at));
    if (json) switch (s[at]) { case 'a': case 'i': return "[" + x + (close ? "]" : ""); case 'b': return "[" + sd + "," + x + (close ? "]" : ""); case 'c': return "[" + x + (close ? "," + sd + "]" : ""); case 'o': case 'q': return "{\"k\":" + x + (close ? "}" : ""); case 'p': return "{\"a\":" + sd + ",\"k\":" + x + (close ? "}" : ""); }
    else switch (s[at]) { case 'a': return "\x81" + x; case 'i': return "\x9F" + x + (close ? "\xFF" : ""); case 'b': return "\x82" + sd + x; case 'c': return "\x82" + x + (close ? sd : ""); case 'o': return "\xA1\x61k" + x; case 'q': return "\xBF\x61k" + x + (close ? "\xFF" : ""); case 'p': return "\xA2\x61" "a" + sd + "\x61k" + x; case 'k': return "\xA1" + x + (close ? "\x01" : ""); case 't': return "\xC5" + x; }
    return "?";
}
template <typename N> struct Nx;
#define NX(T, to, from) template <> struct Nx<T> { static T mk(const Val& v) { return nv::to<T>(v); } static Val un(const T& n) { return nv::from(n); } }
NX(JN, to_json, from_json); NX(JO, to_json, from_json); NX(CN, to_cbor, from_cbor); NX(CO, to_cbor, from_cbor);
#undef NX
// what is left of a value in a JSON node (tags vanish), and what a CBOR node becomes in JSON
static Val drop(const Val& v) { if (v.k == Val::tag) return drop(v.a[0]); Val w = v; for (auto& x : w.a) x = drop(x); return w; }
template <typename X, typename N> struct Cfg { static constexpr bool json = std::is_same<X, J>::value, jnode = std::is_same<N, JN>::value || std::is_same<N, JO>::value; };
template <typename X, typename N, unsigned D> struct Nap { template <typename ...A> static auto rd(A&&... a) -> decltype(cxon::from_bytes<X>(std::forward<A>(a)..., cxon::node::recursion_depth::set<D>())) { return cxon::from_bytes<X>(std::forward<A>(a)..., cxon::node::recursion_depth::set<D>()); }
    template <typename ...A> static auto wr(A&&... a) -> decltype(cxon::to_bytes<X>(std::forward<A>(a)..., cxon::node::recursion_depth::set<D>())) { return cxon::to_bytes<X>(std::forward<A>(a)..., cxon::node::recursion_depth::set<D>()); } };
template <typename X, typename N> struct Nap<X, N, 64> { template <typename ...A> static auto rd(A&&... a) -> decltype(cxon::from_bytes<X>(std::forward<A>(a)...)) { return cxon::from_bytes<X>(std::forward<A>(a)...); } // the default
    template <typename ...A> static auto wr(A&&... a) -> decltype(cxon::to_bytes<X>(std::forward<A>(a)...)) { return cxon::to_bytes<X>(std::forward<A>(a)...); } };
static size_t cost(const std::string& s, bool tags) { size_t n = 0; for (char c : s) n += c != 't' || tags; return n; } // levels that count
template <typename R> static bool rde(const R& r) { return !r && r.ec == cxon::node::error::recursion_depth_exceeded; }
template <typename X, typename N, unsigned D> static void one(const char* L, const std::string& s, bool cont) { // cont: the innermost is an empty container
    using K = Cfg<X, N>; bool const tags = !K::jnode || false; if (!mc::at(L, s + (cont ? "+" : ""))) return;
    size_t const d = cost(s, tags) + cont; bool const ok = d == 0 || d < D; Val const leaf = Val::U(7), in = cont ? (s.size() % 2 ? Val::A() : Val::M()) : leaf, v = build(s, in); mc::transition(); mc::state(mc::mix(mc::hash(s), D * 2 + cont));
    if (mc::g().slot->evals % 4000 == 7) mc::sample(mc::fmt("%s: %s%s", L, s.substr(0, 70).c_str(), cont ? "+" : "")); mc::describe(mc::fmt("limit %u, depth %zu: %s", D, d, s.substr(0, 80).c_str()));
    bool const rd_ok = K::json || true; (void)rd_ok; Val const want = K::jnode ? drop(v) : v;
    N const good = Nx<N>::mk(D < 2 ? leaf : build(std::string(D - 1, 'a'), leaf)); std::string const gt = K::json ? js(Nx<N>::un(good)) : cb(Nx<N>::un(good));
    if (K::json == K::jnode || (!K::json && K::jnode)) { // reads
        std::string const inner = K::json ? js(in) : cb(in), t = wrap(s, 0, K::json, inner, true), open = wrap(s, 0, K::json, "", false);
        auto look = [&](const char* how, bool ec_ok, bool is_rde, const N& n) {
            if (ec_ok != ok || (!ok && !is_rde)) mc::fail("read (%s) of depth %zu with limit %u: %s", how, d, D, ec_ok ? "accepted" : is_rde ? "recursion error" : "another error");
            else if (ok && !ref::equal(Nx<N>::un(n), want)) mc::fail("read (%s) of depth %zu with limit %u gives %s", how, d, D, ref::dump(Nx<N>::un(n)).substr(0, 200).c_str());
        };
        { N n; auto r = Nap<X, N, D>::rd(n, t); look("string", bool(r), rde(r), n); auto r2 = Nap<X, N, D>::rd(n = N(), gt); if (!r2) mc::fail("after a read with limit %u a document below the limit is refused", D); }
        { N n; const char* b = mc::guard().put(t); auto r = Nap<X, N, D>::rd(n, b, b + t.size()); look("pointers", bool(r), rde(r), n); }
        { N n; std::list<char> l(t.begin(), t.end()); auto r = Nap<X, N, D>::rd(n, l.begin(), l.end()); look("list", bool(r), rde(r), n); }
        { N n; auto r = Nap<X, N, D>::rd(n, open); bool const deep = cost(s, tags) >= D && cost(s, tags) > 0; if (r || rde(r) != deep) mc::fail("open document of depth %zu with limit %u: %s", cost(s, tags), D, r ? "accepted" : rde(r) ? "recursion error" : "another error"); }
    }
    bool const has_key = s.find('k') != std::string::npos, has_tag = s.find('t') != std::string::npos;
    if (K::jnode && (has_key || has_tag)) return; // not values of JSON nodes
    if (K::json && has_key) return;
    N const n = Nx<N>::mk(v); std::string const out = K::json ? js(drop(v)) : cb(v);
    auto look = [&](const char* how, bool ec_ok, bool is_rde, const std::string& o) {
        if (ec_ok != ok || (!ok && !is_rde)) mc::fail("write (%s) of depth %zu with limit %u: %s", how, d, D, ec_ok ? "done" : is_rde ? "recursion error" : "another error");
        else if (ok && o != out && !(K::json && !K::jnode)) mc::fail("write (%s) of depth %zu with limit %u gives %s, not %s", how, d, D, mc::esc(o).substr(0, 200).c_str(), mc::esc(out).substr(0, 200).c_str());
        else if (ok && K::json && !K::jnode) { Val w; if (D < 100 && !ref::json_valid(o.data(), o.data() + o.size())) mc::fail("write (%s) of depth %zu with limit %u gives %s", how, d, D, mc::esc(o).substr(0, 200).c_str()); }
    };
    { std::string o; auto r = Nap<X, N, D>::wr(o, n); look("container", bool(r), rde(r), o); std::string g; auto r2 = Nap<X, N, D>::wr(g, good); if (!r2 || g != gt) mc::fail("after a write with limit %u a value below the limit is refused", D); }
    { std::string o; auto r = Nap<X, N, D>::wr(std::back_inserter(o), n); look("iterator", bool(r), rde(r), o); }
    { std::vector<char> b(out.size() + 4096); auto r = Nap<X, N, D>::wr(b.data(), b.data() + b.size(), n); look("range", bool(r), rde(r), std::string(b.data(), r ? size_t(r.end - b.data()) : 0)); }
}
template <typename X, typename N, unsigned D> static void run(const char* nm, const std::string& ab) {
    std::string const L = mc::fmt("%s, limit %u", nm, D);
    mc::add(L, [=]() {
        lim = D;
        auto both = [&](const std::string& s) { one<X, N, D>(L.c_str(), s, false); one<X, N, D>(L.c_str(), s, true); };
        if (D <= 5) { // every spine
            size_t const mx = D < 2 ? 3 : D + (mc::thorough() || ab.size() < 6 ? 2 : 1); std::vector<std::string> cur(1);
            for (size_t n = 0; n <= mx; ++n) { std::vector<std::string> nx; for (auto& s : cur) { both(s); if (n < mx) for (char c : ab) if (!(D > 3 && !mc::thorough() && n > 2 && (c == 'c' || c == 'p'))) nx.push_back(s + c); } cur.swap(nx); }
            return;
        }
        for (size_t n = D > 3 ? D - 3 : 0; n <= D + 2; ++n) {
            for (char c : ab) { both(std::string(n, c)); for (char x : ab) if (x != c) { std::string s(n, c); for (size_t i = 1; i < n; i += 2) s[i] = x; both(s); for (size_t i = 0; i < n; i += (n < 20 || i < 1 || i + 2 > n ? 1 : D > 100 ? 97 : mc::thorough() ? 5 : 30)) { std::string q(n, c); q[i] = x; both(q); } } }
            std::string z; for (size_t i = 0; i < n; ++i) z += ab[i % ab.size()]; both(z);
        }
        for (char c : ab) if (c != 'k' && c != 'p' && c != 'b' && c != 'c') for (size_t n : {size_t(1000), size_t(20000)}) { // as deep as the input goes: only read
            std::string one = wrap(std::string(1, c), 0, Cfg<X, N>::json, "", false), t; for (size_t i = 0; i < n; ++i) t += one; t += "7";
            if (!(Cfg<X, N>::json == Cfg<X, N>::jnode || Cfg<X, N>::jnode) || !mc::at((L + ", deep").c_str(), mc::fmt("%c %zu", c, n))) continue;
            N m; auto r = Nap<X, N, D>::rd(m, t); if (c == 't' && Cfg<X, N>::jnode) { if (rde(r)) mc::fail("tags counted in a JSON node"); } else if (!rde(r)) mc::fail("depth %zu: %s", n, r ? "accepted" : "another error");
        }
    });
}
template <typename X, typename N> static void all(const char* nm, const std::string& ab) {
    run<X, N, 0>(nm, ab); run<X, N, 1>(nm, ab); run<X, N, 2>(nm, ab); run<X, N, 3>(nm, ab); run<X, N, 4>(nm, ab); run<X, N, 5>(nm, ab); run<X, N, 8>(nm, ab); run<X, N, 17>(nm, ab); run<X, N, 63>(nm, ab); run<X, N, 64>(nm, ab); run<X, N, 65>(nm, ab); if (mc::thorough()) run<X, N, 200>(nm, ab);
}
// nodes as parts of other types: limited when the guard is passed, each node on its own
template <typename X, typename N> static void parts(const char* nm, const std::string& ab) {
    std::string const L = std::string(nm) + " within other types";
    mc::add(L, [=]() {
        using K = Cfg<X, N>; constexpr unsigned D = 4; lim = 0;
        std::vector<std::string> sp = {""}; for (size_t i = 0; i < sp.size() && sp[i].size() < 6; ++i) for (char c : ab) if (sp[i].size() < 2 || c == ab[0] || c == ab.back()) sp.push_back(sp[i] + c);
        for (auto& s : sp) for (int before = 0; before < 3; ++before) {
            if (!mc::at(L.c_str(), s + char('0' + before))) continue; mc::describe(mc::fmt("limit 4, %d elements of depth 3 before %s", before, s.c_str()));
            bool const ok = cost(s, !K::jnode) < D; Val lv = Val::A(); for (int i = 0; i < before; ++i) lv.a.push_back(build("aaa", Val::U(1))); lv.a.push_back(build(s, Val::U(2))); lv.a.push_back(build("aoa", Val::U(1)));
            std::string t = K::json ? "[" : std::string(1, char(0x80 + before + 2)); for (size_t i = 0; i < lv.a.size(); ++i) t += K::json ? (i ? "," : "") + js(lv.a[i]) : cb(lv.a[i]); if (K::json) t += "]";
            using cxon::node::recursion_guard; using cxon::node::recursion_depth;
            { std::vector<N> v; auto r = cxon::from_bytes<X>(v, t, recursion_guard::set(0), recursion_depth::set<D>()); if (bool(r) != ok || (!ok && !rde(r))) mc::fail("vector: %s", r ? "accepted" : rde(r) ? "recursion error" : "another error"); else if (ok && v.size() != lv.a.size()) mc::fail("vector of %zu", v.size());
              std::string o; if (ok) { auto w = cxon::to_bytes<X>(o, v, recursion_guard::set(0), recursion_depth::set<D>()); if (!w) mc::fail("vector: what was read is not written"); } }
            { std::list<N> v; auto r = cxon::from_bytes<X>(v, t, recursion_guard::set(0), recursion_depth::set<D>()); if (bool(r) != ok || (!ok && !rde(r))) mc::fail("list: %s", r ? "accepted" : rde(r) ? "recursion error" : "another error"); }
            { std::vector<N> v; auto r = cxon::from_bytes<X>(v, t); if (!r) mc::fail("without the guard: refused"); }
            if (s.find('k') == std::string::npos && s.find('t') == std::string::npos) { std::vector<N> v; for (auto& x : lv.a) v.push_back(Nx<N>::mk(x)); std::string o; auto r = cxon::to_bytes<X>(o, v, recursion_guard::set(0), recursion_depth::set<D>()); if (bool(r) != ok || (!ok && !rde(r))) mc::fail("write of a vector: %s", r ? "done" : rde(r) ? "recursion error" : "another error"); }
            mc::transition();
        }
    });
}
int main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) mc::g().thorough = 1;
#   if GRP == 0
        all<J, JN>("JSON node", "aobcp"); all<J, JO>("ordered JSON node", "ao"); parts<J, JN>("JSON node", "aobp");
#   elif GRP == 1
        all<C, CN>("CBOR node", "aotkibcq"); all<C, CO>("ordered CBOR node", "aot"); parts<C, CN>("CBOR node", "aotk");
#   else
        all<C, JN>("JSON node from and to CBOR", "aotib"); all<J, CN>("CBOR node to JSON", "aotbp"); parts<C, JN>("JSON node from and to CBOR", "aot");
#   endif
    return mc::main(argc, argv);
}
