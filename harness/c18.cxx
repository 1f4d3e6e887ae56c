// C18: the k-th allocation of a read, a write or a node operation fails, for every k. FMT 0: JSON, 1: CBOR
// GRP 0, 1, 2: reads and writes of types; 3, 4: node operations
#ifndef FMT
#   define FMT 0
#endif
#ifndef GRP
#   define GRP 0
#endif
#include "memhook.hxx"
#define NODEOPS_OFF gm::Off off_;
#define NODEOPS_NEW
#include "targets.hxx"
#include "nodeops.hxx"
#include "cxon/lib/std/list.hxx"
#include <list>
#if FMT == 1
    using X = cxon::CBOR<>;
#else
    using X = cxon::JSON<>;
#endif
using J = cxon::JSON<>;
namespace bc = boost::container;
#define C_ ,
#if defined(__SANITIZE_ADDRESS__)
    static bool const asan_ = true;
#else
    static bool const asan_ = false;
#endif
#include "pointers.hxx"
template <typename T> static std::string sig(const T& t) { std::string s; cxon::to_bytes<X>(s, t); return s; }
template <typename T> static std::string sig(const Many<T>& t) { std::string s; for (auto* q = t.p; q && !q->empty(); ++q) s += *q + ","; return s; }
// ---- one read
template <typename T, typename I> static int rd(T& t, I b, I e) { auto r = cxon::from_bytes<X>(t, b, e); return r ? 0 : r.ec.value() + 1; }
struct Ref { int rc; std::string s; };
struct Step { long k; bool persist; };
template <typename T, typename I> static std::string play(I b, I e, const Ref& ref, bool pre, const std::vector<Step>& h, long* n = nullptr) {
    std::string err; gm::live = 0; gm::bad = nullptr;
    { gm::Off o; (void)o; }
    gm::track = true;
    {   T t{}; bool dirty = false;
        if (pre) { rd(t, b, e); Fin<T>::f(t); dirty = true; }
        for (auto& st : h) {
            int rc = -1; bool threw = false; const char* what = nullptr; gm::arm(st.k, st.persist);
            try { rc = rd(t, b, e); } catch (const std::bad_alloc&) { threw = true; } catch (...) { what = "another exception"; }
            gm::armed = false; if (n) *n = gm::count;
            if (what) err = what;
            else if (!threw && !dirty && rc != ref.rc) err = gm::fired ? "the failure is reported as an error (or hidden)" : "another outcome";
            else if (!threw && !dirty && rc == 0) { std::string s = sig(t); if (s != ref.s) err = "the failure is hidden, the value differs"; }
            else if (threw && !gm::fired) err = "an exception without a failing allocation";
            mc::outcome(threw ? 1 : rc ? 2 : 0);
            dirty = true; if (!err.empty()) break; Fin<T>::f(t);
        }
        if (err.empty()) { // valid: can be read into as it is, assigned, and then gives the value
            rd(t, b, e); Fin<T>::f(t);
            { T f{}; t = std::move(f); }
            int rc = rd(t, b, e); if (rc != ref.rc) err = "afterwards: another outcome"; else if (rc == 0 && sig(t) != ref.s) err = "afterwards: another value";
        }
        Fin<T>::f(t);
        { gm::Off o; std::string x = err; err.swap(x); } // err's own block must not be a tracked one
    }
    gm::track = false;
    bool bad = gm::bad; long live = gm::live; std::string r;
    { r = err; }
    if (r.empty() && bad) r = gm::bad;
    if (r.empty() && live) r = mc::fmt("%ld blocks are left", live);
    if (!bad) gm::flush();
    return r;
}
static std::string name(const std::vector<Step>& h) { std::string s; for (auto& x : h) s += mc::fmt("%sallocation %ld%s fails", s.empty() ? "" : ", then ", x.k, x.persist ? " and all later" : ""); return s; }
template <typename T> static void one(const char* label, const std::string& doc, const std::string& key, bool list, bool pre, const std::vector<Step>& h, const Ref& ref, long* n = nullptr) {
    std::string r; const char* b = mc::guard().put(doc);
    if (list) { static std::list<char> l; l.assign(doc.begin(), doc.end()); r = play<T>(l.cbegin(), l.cend(), ref, pre, h, n); } else r = play<T>(b, b + doc.size(), ref, pre, h, n);
    mc::transition(); mc::state(mc::mix(mc::hash(doc), mc::hash(name(h)))); static uint64_t c = 0; if (++c % 4000 == 1) mc::sample(mc::fmt("%s %s: %s", label, mc::esc(doc).substr(0, 60).c_str(), name(h).c_str()));
    if (!r.empty()) mc::fail("%s %s: %s: %s", label, FMT == 1 ? mc::hex(doc).substr(0, 120).c_str() : mc::esc(doc).substr(0, 120).c_str(), name(h).c_str(), r.c_str());
    (void)key;
}
template <typename T> static void docs(const char* label, const std::vector<std::string>& ds, bool lists) {
    for (auto& doc : ds) for (int list = 0; list < (lists ? 2 : 1); ++list) for (int pre = 0; pre < 2; ++pre) {
        Ref ref; { T t{}; rd(t, doc.data(), doc.data() + doc.size()); Fin<T>::f(t); } // whatever is made once is made
        { T t{}; if (list) { std::list<char> l(doc.begin(), doc.end()); ref.rc = rd(t, l.cbegin(), l.cend()); } else ref.rc = rd(t, doc.data(), doc.data() + doc.size()); if (!ref.rc) ref.s = sig(t); Fin<T>::f(t); }
        std::string const key = mc::fmt("%d%d", list, pre) + doc; long n = 0;
        if (mc::at(label, key + "0")) {} // the run without failure also counts the allocations
        one<T>(label, doc, key, list, pre, { Step{0, false} }, ref, &n);
        for (long k = 1; k <= n; ++k) for (int p = 0; p < 2; ++p) if (mc::at(label, key + mc::fmt(":%ld:%d", k, p))) { mc::describe(mc::fmt("%s %s k=%ld p=%d", list ? "list" : "range", mc::hex(doc).c_str(), k, p)); one<T>(label, doc, key, list, pre, { Step{k, p == 1} }, ref); }
        if (pre || (list && asan_)) continue;
        long const m = mc::thorough() ? 200 : asan_ ? 6 : 40;
        for (long k = 1; k <= n && k <= m; ++k) for (long l = 1; l <= n && l <= m; ++l) if (mc::at(label, key + mc::fmt(":%ld,%ld", k, l))) { mc::describe(mc::fmt("%s k=%ld,%ld", mc::hex(doc).c_str(), k, l)); one<T>(label, doc, key, list, pre, { Step{k, false}, Step{l, false} }, ref); }
    }
}
// ---- writes
template <typename T, typename O> static std::string wr(const T& t, const std::string& ref, Step st, bool pre, long* n = nullptr) {
    std::string err; const char* e = nullptr; gm::live = 0; gm::bad = nullptr; gm::track = true;
    {   O o; if (pre) o.assign(3, 'x'); bool ok = false, threw = false; gm::arm(st.k, st.persist);
        try { auto r = cxon::to_bytes<X>(o, t); ok = bool(r); } catch (const std::bad_alloc&) { threw = true; } catch (...) { e = "another exception"; }
        gm::armed = false; if (n) *n = gm::count;
        if (!threw && !ok) e = "the failure is reported as an error";
        else if (threw && !gm::fired) e = "an exception without a failing allocation";
        else if (!threw) { std::string s(o.begin(), o.end()); if (s != (pre ? "xxx" : "") + ref) e = "the failure is hidden, the output differs"; }
        mc::outcome(threw ? 3 : 4);
        if (!e) { std::string s(o.begin(), o.end()); std::string f = (pre ? "xxx" : "") + ref; if (s.size() > f.size() || f.compare(0, s.size(), s)) e = "the output is not the beginning of the whole"; }
        if (!e) { o.clear(); auto r = cxon::to_bytes<X>(o, t); std::string s(o.begin(), o.end()); if (!r || s != ref) e = "afterwards: another output"; }
    }
    gm::track = false; if (!e) e = gm::bad; if (e) err = e; else if (gm::live) err = mc::fmt("%ld blocks are left", gm::live);
    if (!gm::bad) gm::flush();
    return err;
}
template <typename T, typename O> static void wrs(const char* label, const char* out, const T& t) {
    std::string const ref = sig(t);
    for (int pre = 0; pre < 2; ++pre) {
        long n = 0; mc::at(label, mc::fmt("w%s%d", out, pre) + ref); auto r = wr<T, O>(t, ref, Step{0, false}, pre, &n); if (!r.empty()) mc::fail("write of %s to %s: %s", label, out, r.c_str());
        for (long k = 1; k <= n; ++k) for (int p = 0; p < 2; ++p) if (mc::at(label, mc::fmt("w%s%d:%ld:%d", out, pre, k, p) + ref)) { r = wr<T, O>(t, ref, Step{k, p == 1}, pre); mc::transition(); if (!r.empty()) mc::fail("write of %s %s to %s: allocation %ld fails: %s", label, mc::esc(ref).substr(0, 80).c_str(), out, k, r.c_str()); }
    }
}
template <typename T, bool W = true> struct Wr { static void go(const char* label, const std::string& doc) {
    T t{}; if (rd(t, doc.data(), doc.data() + doc.size()) == 0) { wrs<T, std::string>(label, "string", t); wrs<T, std::vector<char>>(label, "vector", t); wrs<T, std::list<char>>(label, "list", t); wrs<T, bc::string>(label, "boost string", t); } Fin<T>::f(t); } };
template <typename T> struct Wr<T, false> { static void go(const char*, const std::string&) {} };
// a document in the format, from JSON
template <typename T> struct Doc;
template <typename T> static std::string doc_of(const std::string& j) {
    if (FMT == 0) return j;
    return Doc<T>::of(j);
}
template <typename T> struct Doc { static std::string of(const std::string& j) {
    T t{}; std::string s; auto r = cxon::from_bytes<J>(t, j); if (!r || !cxon::to_bytes<X>(s, t)) { fprintf(stderr, "bad document %s\n", j.c_str()); abort(); } Fin<T>::f(t); return s;
} };
template <typename T> struct Doc<Many<T>> { static std::string of(const std::string& j) { return j; } };
template <typename T, bool W> static void add(const char* label, std::vector<std::string> ds, bool raw) {
    std::string const L = label;
    mc::add(L, [=] {
        std::vector<std::string> v;
        for (auto& j : ds) {
            std::string d = j; if (!raw) d = doc_of<T>(j);
            v.push_back(d); Wr<T, W>::go(L.c_str(), d);
            // documents that end early, and that have a wrong byte
            if (d.size() <= 24 || !asan_) for (size_t i = 1; i < d.size(); ++i) v.push_back(d.substr(0, i)); else for (size_t i = 1; i < 8; ++i) v.push_back(d.substr(0, d.size() * i / 8));
            for (size_t i = 1; i < 8; ++i) { std::string x = d; x[x.size() * i / 8] = FMT == 1 ? '\xFC' : '#'; v.push_back(x); }
        }
        docs<T>(L.c_str(), v, true);
    });
}
static std::string q(size_t n, char c = 'q') { return "\"" + std::string(n, c) + "\""; }
#define T_(name, type, ...) add<type, true>(name, { __VA_ARGS__ }, false);
#define R_(name, type, ...) add<type, false>(name, { __VA_ARGS__ }, true);
static std::string hx(const char* h) { std::string s; for (; *h; h += 2) { char b[3] = { h[0], h[1], 0 }; s += char(strtol(b, nullptr, 16)); } return s; }
static std::string cstr_(size_t n) { std::string s(1, char(0x78)); s += char(n); return s + std::string(n, 'q'); }
static std::string chunked(size_t n) { return "\x7F" + cstr_(n) + cstr_(n) + "\xFF"; }
struct TrDyn : fm::node_traits<> { using dynamic_types = DYNA; };
template <typename A> struct TrDynA : fm::node_traits<A> { using dynamic_types = DYNA; };
// ---- node operations
#if GRP >= 3
static const std::string jd[] = { "null", "[1,-2,1.5,true,\"" + std::string(30, 'z') + "\"]", "{\"k\":{\"a\":[\"" + std::string(30, 'z') + "\",[{}]]}}", "{\"k\":[\"" + std::string(30, 'z') + "\",[{#" };
static const std::string cd[] = { hx("F6"), hx("8501" "21" "F93E00" "F5") + cstr_(30), hx("A1616BA1616182") + cstr_(30) + hx("81A0"), hx("A1616B82") + cstr_(30) + hx("C5FC") };
static const std::string doc = FMT == 1 ? hx("A1616182") + cstr_(40) + "\x05" : "{\"a\":[\"" + std::string(40, 'q') + "\",5]}";
template <typename N, bool = std::is_same<typename W<N>::S, AStr>::value> struct Io { static bool const on = true; static bool read(N& n, const std::string& s) { return bool(cxon::from_bytes<X>(n, s.data(), s.data() + s.size())); } static void write(const N& n) { std::string t; cxon::to_bytes<X>(t, n); } };
template <typename N> struct Io<N, true> { static bool const on = false; static bool read(N&, const std::string&) { return false; } static void write(const N&) {} };
template <typename N> static std::string node_run(Ops<N>& ops, const std::vector<int>& h, Step st, long* n, bool* applies) {
    using A_ = typename W<N>::A; const char* e = nullptr; std::string err; mem::reset(); gm::live = 0; gm::bad = nullptr; gm::track = true; *applies = true;
    {   St<N> s;
        for (size_t i = 0; i + 1 < h.size() && *applies; ++i) if (!ops.v[size_t(h[i])].run(s)) *applies = false;
        if (*applies) {
            bool threw = false, ran = false; gm::arm(st.k, st.persist);
            try { ran = ops.v[size_t(h.back())].run(s); } catch (const std::bad_alloc&) { threw = true; } catch (...) { e = "another exception"; }
            gm::armed = false; if (n) *n = gm::count;
            if (!threw && !ran) *applies = false;
            if (threw && !gm::fired) e = "an exception without a failing allocation";
            mc::outcome(threw ? 5 : 6);
            if (threw) for (int i = 0; i < 2; ++i) s.adopt(i);
            for (int i = 0; i < 2 && *applies; ++i) {
                std::string x; M m = W<N>::snap(s[i], x); if (!x.empty() || !s.e.empty()) e = "the node is inconsistent";
                if (m.dump(Ordered<N>::value) != s.m[i].dump(Ordered<N>::value)) e = "the node is not what the operation makes of it";
                if (!(s[i] == s[i]) && m.k != 'r') e = "the node does not equal itself";
            }
            // assigned to, read into, destroyed
            if (*applies) {
                M w('o'); w.a.push_back(M('t', "a")); M a('a'); a.a.push_back(M('t', std::string(40, 'q'))); a.a.push_back(M('u', "5")); w.a.push_back(a);
                for (int i = 0; i < 2; ++i) { N c(s[i]); s[i] = c; std::string x; if (!(W<N>::snap(c, x) == W<N>::snap(s[i], x)) || !x.empty()) e = "afterwards: a copy differs"; }
                s[0].swap(s[1]); s[0] = std::move(s[1]); s[0] = "s"; s[0].reset(); s[1].reset();
                for (int i = 0; i < 2; ++i) { if (!Io<N>::on) { s[i] = A_{N("s")}; continue; } bool r = Io<N>::read(s[i], doc); std::string x; if (!r || !(W<N>::snap(s[i], x) == w)) e = "afterwards: a read gives another value"; }
            }
        }
    }
    gm::track = false; if (!e) e = gm::bad; if (e) err = e;
    if (err.empty() && !mem::bad.empty()) err = mem::bad;
    if (err.empty() && (!mem::blocks.empty() || !mem::live.empty())) err = mc::fmt("%zu blocks and %zu objects are left", mem::blocks.size(), mem::live.size());
    if (err.empty() && gm::live) err = mc::fmt("%ld blocks are left", gm::live);
    if (!gm::bad) gm::flush();
    return err;
}
template <typename N> static void nodes(const char* label) {
    static Ops<N> full(true), lean(false); static std::string const L = label; int const parts = 8;
    // reads into a node that has a value: ones more for the lists
    for (Ops<N>* o : { &full, &lean }) {
        static const char* const fmts[] = { "null", "scalars", "nested", "broken" };
        for (int d = 0; d < 4; ++d) for (int i = 0; i < 2; ++i) o->add(mc::fmt("n%d=read %s", i, fmts[d]), [=](St<N>& s) {
            auto const& t = FMT == 1 ? cd[d] : jd[d]; Io<N>::read(s[i], t); s.adopt(i); return true; });
        o->add("write n0", [=](St<N>& s) { Io<N>::write(s[0]); return true; });
    }
    for (int p = 0; p < parts; ++p) mc::add(L + mc::fmt(": operations %d", p), [=] {
        auto go = [&](Ops<N>& o, const char* tag, const std::vector<int>& h) {
            std::string key = tag; for (int i : h) key += char(i); long n = 0; bool ap = true;
            std::vector<std::string> names; std::string nm; for (int i : h) nm += (nm.empty() ? "" : "; ") + o.v[size_t(i)].name;
            if (mc::at(L.c_str(), key)) {} auto r = node_run<N>(o, h, Step{0, false}, &n, &ap); if (!ap) return;
            if (!r.empty()) { mc::fail("%s without failures: %s", nm.c_str(), r.c_str()); return; }
            for (long k = 1; k <= n; ++k) for (int ps = 0; ps < 2; ++ps) if (mc::at(L.c_str(), key + mc::fmt(":%ld:%d", k, ps))) {
                mc::describe(nm + mc::fmt(", k=%ld persist=%d", k, ps)); r = node_run<N>(o, h, Step{k, ps == 1}, nullptr, &ap); mc::transition(); mc::state(mc::hash(nm + mc::fmt(":%ld%d", k, ps))); static uint64_t c = 0; if (++c % 20000 == 1) mc::sample(nm + mc::fmt(": allocation %ld fails", k));
                if (!r.empty()) mc::fail("%s: allocation %ld of the last fails: %s", nm.c_str(), k, r.c_str());
            }
        };
        int const nf = int(full.v.size()), nl = int(lean.v.size());
        for (int a = p; a < nf; a += parts) { go(full, "f", {a}); for (int b = 0; b < nf; ++b) go(full, "f", {a, b}); }
        if (mc::thorough() && !asan_) for (int a = p; a < nl; a += parts) for (int b = 0; b < nl; ++b) for (int c = 0; c < nl; ++c) go(lean, "l", {a, b, c});
    });
}
#endif
int main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) mc::g().thorough = 1;
    std::string const A = q(30), Z = q(40, 'z');
#   if GRP == 0
        T_("string", std::string, A, q(300), "\"ab\"") T_("vector<int>", std::vector<int>, "[1,2,3,4,5]", "[]") T_("vector<string>", std::vector<std::string>, "[" + A + "," + Z + ",\"x\"]", "[" + A + "," + A + "," + A + "," + A + "," + A + "]")
        T_("list<string>", std::list<std::string>, "[" + A + "," + Z + "]") T_("deque<string>", std::deque<std::string>, "[" + A + "," + Z + "]") T_("forward_list<string>", std::forward_list<std::string>, "[" + A + "," + Z + "]")
        T_("set<string>", std::set<std::string>, "[" + A + "," + Z + "," + A + "]") T_("multiset<string>", std::multiset<std::string>, "[" + A + "," + A + "]") T_("unordered_set<string>", std::unordered_set<std::string>, "[" + A + "," + Z + "]")
        T_("map<string,string>", std::map<std::string C_ std::string>, "{" + A + ":" + Z + "," + Z + ":" + A + "}") T_("multimap<string,int>", std::multimap<std::string C_ int>, "{" + A + ":1," + A + ":2}") T_("unordered_map<string,vector>", std::unordered_map<std::string C_ std::vector<int>>, "{" + A + ":[1,2]," + Z + ":[3]}")
        T_("map<string,map>", std::map<std::string C_ std::map<std::string C_ std::string>>, "{" + A + ":{" + Z + ":" + A + "}}") T_("map<int,vector>", std::map<int C_ std::vector<std::string>>, "{\"1\":[" + A + "],\"2\":[" + Z + "]}")
        T_("vector<vector<string>>", std::vector<std::vector<std::string>>, "[[" + A + "],[" + Z + ",\"\"]]") T_("valarray<int>", std::valarray<int>, "[1,2,3,4,5,6,7,8,9]") T_("queue<string>", std::queue<std::string>, "[" + A + "," + Z + "]") T_("stack<string>", std::stack<std::string>, "[" + A + "," + A + "]") T_("priority_queue<string>", std::priority_queue<std::string>, "[" + A + "," + Z + "]")
        T_("u16string", std::u16string, A) T_("u32string", std::u32string, A) T_("wstring", std::wstring, A) T_("vector<bool>", std::vector<bool>, "[true,false]")
#       if FMT == 0
            R_("read strings", std::string, "\"" + std::string(20, 'a') + "\\u20AC\\n\\uD83D\\uDE00" + std::string(20, 'b') + "\"") R_("map, unordered", std::map<std::string C_ std::string>, "{ \"b\" : \"\\u0041\" , " + A + " : \"\\\"\" }")
#       else
            R_("chunked string", std::string, chunked(20), chunked(40)) R_("chunked vector", std::vector<char>, "\x5F\x58\x14" + std::string(20, 'b') + "\x58\x14" + std::string(20, 'b') + "\xFF") R_("indefinite vector", std::vector<std::string>, "\x9F" + cstr_(30) + chunked(30) + "\xFF") R_("indefinite map", std::map<std::string C_ std::string>, "\xBF" + cstr_(30) + chunked(30) + chunked(24) + cstr_(30) + "\xFF")
            R_("claims", std::vector<std::string>, hx("9AFFFFFFFF"), hx("99FFFF") + cstr_(30)) R_("claimed string", std::string, hx("7A00FFFFFF") + std::string(30, 'x'))
#       endif
#   elif GRP == 1
        T_("unique_ptr<string>", std::unique_ptr<std::string>, A) T_("unique_ptr<Inner>", std::unique_ptr<Inner>, "{\"k\":" + A + ",\"v\":[1,2,3]}") T_("vector<unique_ptr>", std::vector<std::unique_ptr<Inner>>, "[{\"k\":" + A + ",\"v\":[1,2,3]},null]")
        T_("shared_ptr<string>", std::shared_ptr<std::string>, A) T_("vector<shared_ptr>", std::vector<std::shared_ptr<Inner>>, "[{\"k\":" + A + ",\"v\":[1,2,3]},null]") T_("map<string,unique_ptr>", std::map<std::string C_ std::unique_ptr<std::string>>, "{" + A + ":" + A + "," + Z + ":" + Z + "}")
        T_("int*", int*, "5") T_("Inner*", Inner*, "{\"k\":" + A + ",\"v\":[1,2,3]}") T_("int**", int**, "5") T_("vector<int*>", std::vector<int*>, "[1,2,null,4]") T_("vector<char*>", std::vector<char*>, "[" + A + "," + Z + "]") T_("map<string,Inner*>", std::map<std::string C_ Inner*>, "{" + A + ":{\"k\":" + A + "},\"z\":null}") T_("list<Inner*>", std::list<Inner*>, "[{\"k\":" + A + ",\"v\":[1]}]")
        T_("char*", char*, "\"\"", "\"abcdefgh\"", A, q(100)) T_("pair<char*,Inner*>", std::pair<char* C_ Inner*>, "[" + A + ",{\"k\":" + A + "}]") T_("class of pointers", Ptrs, "{\"p\":5,\"s\":" + A + ",\"z\":" + Z + ",\"in\":{\"k\":" + A + ",\"v\":[1]}}")
        T_("class", Cls, "{\"a\":1,\"bb\":" + A + ",\"c\":[1,2,3],\"d\":1.5,\"e\":{\"k\":" + Z + ",\"v\":[1]},\"f\":true}") T_("vector<class>", std::vector<Inner>, "[{\"k\":" + A + ",\"v\":[1,2,3]},{\"k\":" + Z + ",\"v\":[]}]") T_("tuple", std::tuple<std::string C_ std::vector<std::string> C_ int>, "[" + A + ",[" + Z + "],1]") T_("pair", std::pair<std::string C_ std::string>, "[" + A + "," + Z + "]")
        T_("enum", En, "\"Two\"") T_("vector<enum>", std::vector<En>, FMT == 1 ? "[]" : "[\"one\",\"three\"]") T_("complex", std::vector<std::complex<double>>, "[[1,2]]") T_("double", std::vector<double>, "[1.5,12345678901234567890.5]")
#       if __cplusplus >= 201703L
            T_("optional<string>", std::optional<std::string>, A) T_("variant", std::variant<int C_ std::string C_ std::vector<std::string>>, A, "[" + A + "," + Z + "]") T_("ambiguous variant", std::variant<int C_ std::vector<std::string> C_ std::list<std::string>>, "{\"1\":[" + A + "]}", "{\"2\":[" + A + "," + Z + "]}") T_("vector<optional>", std::vector<std::optional<std::string>>, "[" + A + "," + Z + "]")
#       endif
#       if FMT == 1
            R_("string*[]", Many<std::string>, "\x82" + cstr_(30) + cstr_(25), "\x9F" + cstr_(30) + cstr_(25) + "\xFF", hx("8C") + cstr_(30) + cstr_(30) + cstr_(30) + cstr_(30) + cstr_(30) + cstr_(30) + cstr_(30) + cstr_(30) + cstr_(30) + cstr_(30) + cstr_(30) + cstr_(30))
            R_("int*[]", int*, hx("8A01020304050607080900"), hx("8C010203040506070809010200"), hx("9F0102030405060708FF"), hx("9F01020304050607080901FF"), hx("420102")) R_("char*[]", char*, chunked(20), chunked(5), cstr_(7), cstr_(8), cstr_(9))
#       endif
#   elif GRP == 2
        T_("boost list", bc::list<std::string>, "[" + A + "," + Z + "]") T_("boost deque", bc::deque<std::string>, "[" + A + "," + Z + "]") T_("slist", bc::slist<std::string>, "[" + A + "," + Z + "]") T_("small_vector", bc::small_vector<std::string C_ 1>, "[" + A + "," + Z + "]") T_("static_vector", bc::static_vector<std::string C_ 3>, "[" + A + "," + Z + "]") T_("boost string", bc::string, A)
        T_("flat_map", bc::flat_map<std::string C_ std::string>, "{" + A + ":" + Z + "," + Z + ":" + A + "}") T_("boost map", bc::map<std::string C_ std::string>, "{" + A + ":" + Z + "," + Z + ":" + A + "}")
#       if FMT == 0
            T_("boost set", bc::set<std::string>, "[" + A + "," + Z + "]") T_("stable_vector", bc::stable_vector<std::string>, "[" + A + "," + Z + "]") T_("flat_set", bc::flat_set<std::string>, "[" + A + "," + Z + "]")
#       endif
        T_("dynamic_bitset", boost::dynamic_bitset<>, FMT == 1 ? "\"1010\"" : "\"1010101010101010101010101010101010101010101010101010101010101010101010101010\"") T_("boost variant", boost::variant<int C_ std::string>, A) T_("boost ambiguous variant", boost::variant<int C_ std::vector<std::string> C_ std::list<std::string>>, "{\"1\":[" + A + "]}", "{\"2\":[" + A + "," + Z + "]}") T_("variant2", boost::variant2::variant<int C_ std::string>, A)
        T_("json node", cxon::json::node, "{" + A + ":[" + Z + ",1,-1,1.5,true,null,{}],\"b\":{\"c\":[[]]}}", A) T_("json ordered node", cxon::json::ordered_node, "{" + A + ":[" + Z + ",1],\"b\":{\"c\":[[]]}}")
        T_("cbor node", cxon::cbor::node, "{" + A + ":[" + Z + ",1,-1,1.5,true,null,{}],\"b\":{\"c\":[[]]}}", A) T_("cbor ordered node", cxon::cbor::ordered_node, "{" + A + ":[" + Z + ",1],\"b\":{\"c\":[[]]}}") T_("vector<node>", std::vector<fm::node>, "[" + A + ",[" + Z + "]]") T_("map<string,node>", std::map<std::string C_ fm::node>, "{" + A + ":[" + Z + "]}")
        T_("all dynamic node", fm::basic_node<TrDyn>, "{" + A + ":[" + Z + ",1,-1,1.5,true,null,{}],\"b\":{\"c\":[[]]}}", "1", "null")
#       if FMT == 1
            R_("nodes of all kinds", cxon::cbor::node, hx("84C581") + cstr_(30) + hx("5818") + std::string(24, 'y') + hx("E7" "A1C2411061DB")) R_("dynamic nodes of all kinds", fm::basic_node<TrDyn>, hx("84C581") + cstr_(30) + hx("5818") + std::string(24, 'y') + hx("E7" "A1C24110F7")) R_("chunks in nodes", cxon::cbor::node, "\x9F" + chunked(20) + "\xBF" + chunked(20) + "\x01\xFF\xFF")
#       endif
#   elif GRP == 3
        nodes<fm::node>("node"); nodes<fm::ordered_node>("ordered_node"); nodes<fm::basic_node<TrStr>>("audited strings"); nodes<fm::basic_node<TrAllDyn>>("all dynamic");
#   else
        nodes<fm::basic_node<TrStrDyn>>("audited dynamic strings"); nodes<fm::basic_node<fm::node_traits<Al<char, 0>>>>("allocator, not propagated"); nodes<fm::basic_node<TrDynAl<Al<char, 7>>>>("all dynamic, propagated"); nodes<fm::basic_node<fm::node_traits<Pm<char>>>>("polymorphic allocator"); nodes<fm::basic_node<fm::ordered_node_traits<Al<char, 2>>>>("ordered, propagated on move");
#   endif
    return mc::main(argc, argv);
}
