// C20: format options. GRP 0: documents under every configuration, GRP 1: strings under every configuration
#ifndef GRP
#   define GRP 0
#endif
#include "cxon/json.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/set.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/tuple.hxx"
#include "cxon/lib/std/utility.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/memory.hxx"
#include "cxon/lib/std/list.hxx"
#include "cxon/lib/node.hxx"
#include <cmath>
#include <list>
#define CXON_JSON_DEFINED
#include "mc.hxx"
#include "nodeval.hxx"
using ref::Val;
// ---- the dialects: what an option accepts
struct Opt { bool com = false, trail = false, nan = false, unq = false, qnum = true, strict = false; char div = ':', msep = ',', lsep = ',', del = '"'; bool nodekey = false, enc = true, esc = true, noesc = false, js = false, repeat = false; };
struct Parser {
    enum R { ok, bad, more };
    const Opt& o; const char* b; const char* p; const char* e; R st = ok; bool any = false, dup = false;
    Parser(const Opt& o, const std::string& s) : o(o), b(s.data()), p(b), e(b + s.size()) {}
    bool fail(R r) { if (st == ok) st = r; return false; }
    static bool sp(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
    bool ws() {
        for (;;) {
            while (p != e && sp(*p)) ++p;
            if (p == e || *p != '/' || !o.com) return true;
            if (p + 1 == e) return fail(more);
            if (p[1] == '/') { while (p != e && *p != '\n') ++p; }
            else if (p[1] == '*') { static const char en[] = "*/"; const char* const n = std::search(p + 2, e, en, en + 2); p = n; if (n == e) return fail(more); p += 2; }
            else return fail(bad);
        }
    }
    bool chr(char c) { if (!ws()) return false; if (p == e) return fail(more); if (*p != c) return fail(bad); ++p; return true; }
    bool str(std::string& s) {
        if (!chr(o.del)) return false;
        for (; p != e; ++p) {
            unsigned char const c = (unsigned char)*p;
            if (*p == o.del) return ++p, true;
            if (c == '\\') { any = true; if (++p == e) return fail(more); s += '?'; continue; } // not within the alphabet of documents
            if (c < 0x20 && o.esc) return fail(bad);
            s += *p;
        }
        return fail(more);
    }
    bool key(Val& v, bool number) {
        if (o.nodekey && (o.unq || !o.qnum)) { if (!value(v, false)) { return false; } if (v.k != Val::txt) any = true; return true; } // a node may have keys that are not strings, then strings are quoted
        if (o.unq && !number) {
            if (!ws()) return false; if (p == e) return fail(more);
            std::string s; while (p != e && !sp(*p) && *p != o.div) { if (*p == '\\' || *p == '"' || *p == o.del || (unsigned char)*p < 0x20 || (unsigned char)*p > 0x7E) any = true; s += *p++; }
            if (s.empty() || s[0] == '"' || s[0] == o.del || s.find_first_of("{}[],/") != std::string::npos) any = true; // keys of such characters are not judged
            if (p == e) return fail(more);
            v = Val::T(s); return true;
        }
        if (number && !o.qnum) return num(v);
        if (number) { if (!ws()) return false; if (p == e) return fail(more); if (*p != o.del) return fail(bad); ++p; const char* q = p; Val x; if (!num(x)) return false; if (q != p && sp(*q)) any = true; if (p == e) return fail(more); if (*p != o.del) return fail(bad); ++p; v = x; return true; }
        v = Val::T(""); return str(v.s);
    }
    bool word(const char* w, Val x, Val& v) { for (const char* q = w; *q; ++q, ++p) { if (p == e) return fail(more); if (*p != *q) return fail(bad); } v = x; if (p != e && isalnum((unsigned char)*p)) any = true; return true; }
    bool num(Val& v) {
        if (!ws()) return false; if (p == e) return fail(more);
        const char* q = p; if (*q == '-') ++q;
        if (q == e) return fail(more);
        if (*q == 'N' || *q == 'I') { if (!o.nan) { if (!o.strict) any = true; return fail(bad); } if (*q == 'N') { if (q != p) any = true; p = q; return word("NaN", Val::R(NAN), v); } bool const n = q != p; p = q; return word("Infinity", Val::R(n ? -INFINITY : INFINITY), v); }
        if (!isdigit((unsigned char)*q)) return fail(bad);
        const char* t = p; while (t != e && (isalnum((unsigned char)*t) || *t == '.' || *t == '+' || *t == '-')) ++t;
        std::string const s(p, t); if (!ref::json_valid(s.data(), s.data() + s.size())) { any = true; return fail(more); }
        v = ref::json_number(s); p = t; return true;
    }
    // items of a list: sep ' ' means white space
    template <typename F> bool items(char beg, char end, char sep, F item) {
        if (!chr(beg) || !ws()) return false;
        if (p == e) return fail(more); if (*p == end) return ++p, true;
        for (;;) {
            if (!item()) return false;
            const char* const q = p; if (!ws()) return false; if (p == e) return fail(more);
            if (*p == end) return ++p, true;
            if (sep == ' ') { if (q == p) any = true; continue; }
            if (*p != sep) return fail(bad); ++p;
            if (o.trail) { if (!ws()) return false; if (p == e) return fail(more); if (*p == end) return ++p, true; }
        }
    }
    bool value(Val& v, bool numkeys) {
        if (!ws()) return false; if (p == e) return fail(more);
        switch (*p) {
            case '{': v = Val::M(); return items('{', '}', o.msep, [&] { Val k, x; if (!key(k, numkeys) || !chr(o.div) || !value(x, numkeys)) return false; for (size_t i = 0; i < v.a.size(); i += 2) if (ref::equal(v.a[i], k)) dup = true; v.a.push_back(k); v.a.push_back(x); return true; });
            case '[': v = Val::A(); return items('[', ']', o.lsep, [&] { Val x; if (!value(x, numkeys)) return false; v.a.push_back(x); return true; });
            case 't': return word("true", Val::B(true), v);
            case 'f': return word("false", Val::B(false), v);
            case 'n': return word("null", Val::N(), v);
        }
        if (*p == o.del) { v = Val::T(""); return str(v.s); }
        if (*p == '-' || *p == 'N' || *p == 'I' || isdigit((unsigned char)*p)) return num(v);
        return fail(bad);
    }
};
// ---- targets: what a value is for them
struct Cl { int a; std::vector<int> b; std::map<std::string, double> m; Cl() : a() {}
    CXON_JSON_CLS_MEMBER(Cl, CXON_JSON_CLS_FIELD_ASIS(a), CXON_JSON_CLS_FIELD_ASIS(b), CXON_JSON_CLS_FIELD_ASIS(m), CXON_JSON_CLS_FIELD_SKIP("s")) };
template <typename T> struct Is;
static bool integral(const Val& v) { return v.k == Val::uin || v.k == Val::neg; }
template <> struct Is<int> { static bool of(const Val& v, std::string& c) { if (v.k == Val::rea) c = "any"; if (!integral(v) || v.u > 0x7FFFFFFF) return false; c = std::to_string(v.k == Val::neg ? -1 - (long long)v.u : (long long)v.u); return true; } static std::string str(int x) { return std::to_string(x); } };
static std::string real(double d) { return std::isnan(d) ? "nan" : std::isinf(d) ? (d < 0 ? "-inf" : "inf") : mc::fmt("%.17g", d); }
template <> struct Is<double> { static bool of(const Val& v, std::string& c) { if (integral(v)) c = real(v.k == Val::neg ? -1.0 - double(v.u) : double(v.u)); else if (v.k == Val::rea) c = real(v.d); else return false; return true; } static std::string str(double x) { return real(x); } };
template <> struct Is<std::string> { static bool of(const Val& v, std::string& c) { if (v.k != Val::txt) return false; c = "'" + v.s + "'"; return true; } static std::string str(const std::string& s) { return "'" + s + "'"; } };
template <> struct Is<bool> { static bool of(const Val& v, std::string& c) { if (v.k != Val::boo) return false; c = v.u ? "T" : "F"; return true; } static std::string str(bool b) { return b ? "T" : "F"; } };
template <typename T> struct IsL { using E = typename T::value_type;
    static bool of(const Val& v, std::string& c) { if (v.k != Val::arr) return false; c = "["; for (auto& x : v.a) { std::string s; if (!Is<E>::of(x, s)) { c = s == "any" ? s : ""; return false; } c += s + ","; } c += "]"; return true; }
    static std::string str(const T& t) { std::string c = "["; for (const E& x : t) c += Is<E>::str(x) + ","; return c + "]"; } };
template <typename T> struct Is<std::vector<T>> : IsL<std::vector<T>> {};
template <typename T> struct Is<std::list<T>> : IsL<std::list<T>> {};
template <> struct Is<std::set<std::string>> { using T = std::set<std::string>; static bool of(const Val& v, std::string& c) { T t; if (v.k != Val::arr) return false; for (auto& x : v.a) { if (x.k != Val::txt) return false; t.insert(x.s); } c = str(t); return true; } static std::string str(const T& t) { std::string c; for (auto& x : t) c += "'" + x + "',"; return c; } };
template <typename K, typename V> struct Is<std::map<K, V>> { using T = std::map<K, V>;
    static bool of(const Val& v, std::string& c) { if (v.k != Val::map) return false; std::map<std::string, std::string> m; for (size_t i = 0; i < v.a.size(); i += 2) { std::string k, x; if (!Is<K>::of(v.a[i], k) || !Is<V>::of(v.a[i + 1], x)) { c = k == "any" || x == "any" ? "any" : ""; return false; } m[k] = x; } for (auto& x : m) c += x.first + "=" + x.second + ";"; return true; }
    static std::string str(const T& t) { std::map<std::string, std::string> m; for (auto& x : t) m[Is<K>::str(x.first)] = Is<V>::str(x.second); std::string c; for (auto& x : m) c += x.first + "=" + x.second + ";"; return c; } };
template <> struct Is<std::unique_ptr<std::vector<int>>> { using T = std::unique_ptr<std::vector<int>>; static bool of(const Val& v, std::string& c) { if (v.k == Val::nul) { c = "0"; return true; } return Is<std::vector<int>>::of(v, c); } static std::string str(const T& t) { return t ? Is<std::vector<int>>::str(*t) : "0"; } };
template <> struct Is<std::tuple<int, std::string, std::vector<double>>> { using T = std::tuple<int, std::string, std::vector<double>>;
    static bool of(const Val& v, std::string& c) { std::string a, b, d; if (v.k != Val::arr || v.a.size() != 3 || !Is<int>::of(v.a[0], a) || !Is<std::string>::of(v.a[1], b) || !Is<std::vector<double>>::of(v.a[2], d)) { c = v.k == Val::arr && (v.a.size() != 3 || a == "any") ? "any" : ""; return false; } c = a + b + d; return true; }
    static std::string str(const T& t) { return Is<int>::str(std::get<0>(t)) + Is<std::string>::str(std::get<1>(t)) + Is<std::vector<double>>::str(std::get<2>(t)); } };
template <> struct Is<Cl> {
    static bool of(const Val& v, std::string& c) {
        if (v.k != Val::map) return false; std::string a = "0", b = "[]", m; 
        for (size_t i = 0; i < v.a.size(); i += 2) {
            std::string x; auto& k = v.a[i].s;
            if (k == "a") { if (!Is<int>::of(v.a[i + 1], x)) return c = x, false; a = x; }
            else if (k == "b") { if (!Is<std::vector<int>>::of(v.a[i + 1], x)) return c = x, false; b = x; }
            else if (k == "m") { if (!Is<std::map<std::string, double>>::of(v.a[i + 1], x)) return c = x, false; m = x; }
            else if (k != "s") return false;
        }
        c = a + b + m; return true; }
    static std::string str(const Cl& t) { return Is<int>::str(t.a) + Is<std::vector<int>>::str(t.b) + Is<std::map<std::string, double>>::str(t.m); } };
template <> struct Is<cxon::json::node> { static bool of(const Val& v, std::string& c) { c = dump(v); return true; } static std::string str(const cxon::json::node& n) { return dump(nv::from_json(n)); }
    static std::string dump(const Val& v) { std::string c; if (integral(v) || v.k == Val::rea) { Is<double>::of(v, c); return c; } if (v.k == Val::arr) { c = "["; for (auto& x : v.a) c += dump(x) + ","; return c + "]"; } if (v.k == Val::map) { std::map<std::string, std::string> m; for (size_t i = 0; i < v.a.size(); i += 2) m[dump(v.a[i])] = dump(v.a[i + 1]); c = "{"; for (auto& x : m) c += x.first + "=" + x.second + ";"; return c + "}"; } return ref::dump(v); } };
template <> struct Is<std::pair<int, std::string>> { using T = std::pair<int, std::string>; static bool of(const Val& v, std::string& c) { std::string a, b; if (v.k != Val::arr || v.a.size() != 2 || !Is<int>::of(v.a[0], a) || !Is<std::string>::of(v.a[1], b)) { c = v.k == Val::arr && (v.a.size() != 2 || a == "any") ? "any" : ""; return false; } c = a + b; return true; } static std::string str(const T& t) { return Is<int>::str(t.first) + Is<std::string>::str(t.second); } };
static bool has_nan(const Val& v) { if (v.k == Val::rea && !std::isfinite(v.d)) return true; for (auto& x : v.a) if (has_nan(x)) return true; return false; }
// ---- configurations
using JT = cxon::json::format_traits; using CT = cxon::cxcf::format_traits;
struct Strict : JT::number { static constexpr bool strict = true; };
struct ListS : JT::list { static constexpr char sep = ' '; }; struct List2 : JT::list { static constexpr char sep = ';'; };
struct MapS : JT::map { static constexpr char sep = ' '; }; struct Map2 : JT::map { static constexpr char sep = ';'; static constexpr char div = '='; }; struct MapD : JT::map { static constexpr char div = '='; };
struct Apos : JT::string { static constexpr char del = '\''; };
struct XCom : JT { static constexpr bool allow_comments = true; static Opt opt() { Opt o; o.com = true; return o; } };
struct XTrail : JT { static constexpr bool allow_trailing_separators = true; static Opt opt() { Opt o; o.trail = true; return o; } };
struct XComTrail : JT { static constexpr bool allow_comments = true, allow_trailing_separators = true; static Opt opt() { Opt o; o.com = o.trail = true; return o; } };
struct XNan : JT { static constexpr bool allow_javascript_nans = true; static Opt opt() { Opt o; o.nan = true; return o; } };
struct XStrict : JT { using number = Strict; static Opt opt() { Opt o; o.strict = true; return o; } };
struct XNanStrict : JT { using number = Strict; static constexpr bool allow_javascript_nans = true; static Opt opt() { Opt o; o.nan = o.strict = true; return o; } };
struct XUnq : JT { static constexpr bool unquote_quoted_keys = true, quote_unquoted_keys = false; static Opt opt() { Opt o; o.unq = true; o.qnum = false; return o; } };
struct XNum : JT { static constexpr bool quote_unquoted_keys = false; static Opt opt() { Opt o; o.qnum = false; return o; } };
struct XSep : JT { using list = List2; using map = Map2; static Opt opt() { Opt o; o.lsep = o.msep = ';'; o.div = '='; return o; } };
struct XSepTrail : JT { using list = List2; using map = Map2; static constexpr bool allow_trailing_separators = true, allow_comments = true; static Opt opt() { Opt o; o.lsep = o.msep = ';'; o.div = '='; o.trail = o.com = true; return o; } };
struct XSp : JT { using list = ListS; using map = MapS; static Opt opt() { Opt o; o.lsep = o.msep = ' '; return o; } };
struct XSpCom : JT { using list = ListS; using map = MapS; static constexpr bool allow_comments = true, allow_trailing_separators = true; static Opt opt() { Opt o; o.lsep = o.msep = ' '; o.com = true; return o; } };
struct XApos : JT { using string = Apos; static Opt opt() { Opt o; o.del = '\''; return o; } };
struct XJs : JT { static constexpr bool produce_strict_javascript = true; static Opt opt() { Opt o; o.js = true; return o; } };
struct XNoEnc : JT { static constexpr bool validate_string_encoding = false; static Opt opt() { Opt o; o.enc = false; return o; } };
struct XNoEsc : JT { static constexpr bool validate_string_escapes = false; static Opt opt() { Opt o; o.esc = false; return o; } };
struct XNoVal : JT { static constexpr bool validate_string_escapes = false, validate_string_encoding = false; static Opt opt() { Opt o; o.esc = o.enc = false; return o; } };
struct XPlain : JT { static constexpr bool assume_no_escapes = true; static Opt opt() { Opt o; o.noesc = true; return o; } };
struct XRepeat : JT { static constexpr bool assume_unique_object_keys = false; static Opt opt() { Opt o; o.repeat = true; return o; } };
struct XCf : CT { static Opt opt() { Opt o; o.com = o.nan = o.unq = true; o.qnum = false; o.div = '='; o.lsep = o.msep = ' '; return o; } };
struct XCfTrail : CT { static constexpr bool allow_trailing_separators = true; static Opt opt() { return XCf::opt(); } };
struct XDef : JT { static Opt opt() { return Opt(); } };
static long long dash = 0;
static std::string show(const std::string& s) { return mc::esc(s).substr(0, 160); }
template <typename T> struct NumKeys { static bool const value = false; };
template <typename V> struct NumKeys<std::map<int, V>> { static bool const value = true; };
template <typename F, typename T> static void check(const char* cfg, const char* what, Opt o, const std::string& s, const char* b, const std::list<char>* l) {
    using X = cxon::JSON<F>; o.nodekey = std::is_same<T, cxon::json::node>::value;
    Val v; Parser q(o, s); bool const ok = q.value(v, NumKeys<T>::value); size_t const at = size_t(q.p - q.b);
    std::string want; bool fits = ok && Is<T>::of(v, want); bool any = q.any || want == "any" || (ok && !fits && q.dup); 
    if (std::is_same<T, Cl>::value && ok && v.k == Val::map) { bool again = false; for (size_t i = 0; i < v.a.size(); i += 2) for (size_t j = 0; j < i; j += 2) again = again || v.a[i].s == v.a[j].s; if (again) { if (o.repeat) any = true; else fits = false; } }
    if (std::is_same<T, Cl>::value && !ok && s.find('s') < size_t(q.p - q.b)) any = true; // what is skipped is not checked in full
    for (int k = 0; k < (l ? 2 : 1); ++k) {
        T t{}; bool r; size_t end; 
        if (k == 0) { auto x = cxon::from_bytes<X>(t, b, b + s.size()); r = bool(x); end = size_t(x.end - b); } else { auto x = cxon::from_bytes<X>(t, l->cbegin(), l->cend()); r = bool(x); end = size_t(std::distance(l->cbegin(), x.end)); }
        mc::outcome(unsigned(r) + 2 * unsigned(fits)); mc::transition();
        if (any) { if (!r || !ok) continue; }
        else if (r != fits) { mc::fail("%s, %s%s: %s is %s, but it should be %s", cfg, what, k ? " (list)" : "", show(s).c_str(), r ? "accepted" : "refused", fits ? "accepted" : "refused"); continue; }
        if (!r || any) continue;
        std::string const got = Is<T>::str(t);
        if (!q.dup && got != want) { mc::fail("%s, %s%s: %s gives %s instead of %s", cfg, what, k ? " (list)" : "", show(s).c_str(), show(got).c_str(), show(want).c_str()); continue; }
        if (end < at) mc::fail("%s, %s: %s: the end is %zu instead of %zu", cfg, what, show(s).c_str(), end, at);
        else { Opt c = o; std::string rest = s.substr(at, end - at); Parser w(c, rest); if (!w.ws() || w.p != w.e) if (w.st != Parser::more) mc::fail("%s, %s: %s: the end is %zu instead of %zu", cfg, what, show(s).c_str(), end, at); }
        if (k) continue;
        // written and read back under the same option, and again by the reference
        std::string out; if (!cxon::to_bytes<X>(out, t)) { mc::fail("%s, %s: %s is not written", cfg, what, show(s).c_str()); continue; }
        if (has_nan(v) && !o.nan) continue;
        T u{}; auto y = cxon::from_bytes<X>(u, out.data(), out.data() + out.size());
        if (!y || y.end != out.data() + out.size() || Is<T>::str(u) != got) { mc::fail("%s, %s: %s is written as %s, which reads as %s", cfg, what, show(s).c_str(), show(out).c_str(), y ? show(Is<T>::str(u)).c_str() : "an error"); continue; }
        Val z; Parser g(o, out); std::string back; if (!g.value(z, NumKeys<T>::value) || g.p != g.e || !Is<T>::of(z, back) || back != got) if (!g.any) mc::fail("%s, %s: %s is written as %s, which is not of the dialect", cfg, what, show(s).c_str(), show(out).c_str());
    }
}
template <typename F> static void doc(const char* cfg, const Opt& o, const std::string& s) {
    if (!mc::at(cfg, s)) return;
    static mc::Guard g(size_t(4) << 20); const char* b = g.put(s); mc::state(mc::hash(s)); std::list<char> l(s.begin(), s.end());
    check<F, cxon::json::node>(cfg, "node", o, s, b, &l); check<F, std::vector<double>>(cfg, "vector<double>", o, s, b, &l); check<F, std::map<std::string, double>>(cfg, "map<string,double>", o, s, b, &l); check<F, std::map<std::string, std::vector<std::string>>>(cfg, "map<string,vector<string>>", o, s, b, nullptr);
    check<F, std::map<int, std::vector<int>>>(cfg, "map<int,vector<int>>", o, s, b, &l); check<F, std::vector<std::map<std::string, bool>>>(cfg, "vector<map<string,bool>>", o, s, b, nullptr); check<F, std::set<std::string>>(cfg, "set<string>", o, s, b, nullptr); check<F, Cl>(cfg, "class", o, s, b, &l);
    check<F, std::unique_ptr<std::vector<int>>>(cfg, "unique_ptr<vector>", o, s, b, nullptr); check<F, std::tuple<int, std::string, std::vector<double>>>(cfg, "tuple", o, s, b, &l); check<F, std::vector<std::pair<int, std::string>>>(cfg, "vector<pair>", o, s, b, nullptr); check<F, std::string>(cfg, "string", o, s, b, &l); check<F, double>(cfg, "double", o, s, b, &l); check<F, bool>(cfg, "bool", o, s, b, nullptr);
    static uint64_t c = 0; if (++c % 20000 == 1) mc::sample(mc::fmt("%s: %s", cfg, show(s).substr(0, 80).c_str()));
}
static bool live(const Opt& o, const std::string& s) { bool r = false; for (int n = 0; n < 3; ++n) { Opt x = o; x.nodekey = n == 2; Val v; Parser q(x, s); q.value(v, n == 1); r = r || q.st == Parser::more; } return r; }
template <typename F> static void grow(const char* cfg, const Opt& o, const std::vector<std::string>& ts, const std::string& s, int d) {
    doc<F>(cfg, o, s); if (d == 0 || !live(o, s)) return;
    for (auto& t : ts) grow<F>(cfg, o, ts, s + t, d - 1);
}
template <typename F> static void docs(const char* cfg, std::vector<std::string> extra, int less = 0) {
    Opt const o = F::opt(); auto q = [&](const char* s) { return o.del + std::string(s) + o.del; };
    std::vector<std::string> ts { "{", "}", "[", "]", "1", "true", " " };
    ts.push_back(std::string(1, o.div)); if (o.msep != ' ') ts.push_back(std::string(1, o.msep)); if (o.lsep != o.msep) ts.push_back(std::string(1, o.lsep));
    if (o.unq) { ts.push_back("a"); ts.push_back("b"); } ts.push_back(q("a")); ts.push_back(q("b"));
    if (!o.qnum) ts.push_back("-2"); else ts.push_back(q("1"));
    for (auto& x : extra) ts.push_back(x);
    int const n = (mc::thorough() ? 8 : 7) - (ts.size() > 16) - less; std::string const c = cfg;
    mc::add(c + ": one token", [=] { for (auto& t : ts) doc<F>(c.c_str(), o, t); });
    for (auto& t : ts) if (live(o, t)) for (auto& u : ts) mc::add(c + ": " + t + u, [=] { grow<F>(c.c_str(), o, ts, t + u, n - 2); });
    // around a document
    mc::add(c + ": documents", [=] {
        std::string D = std::string(1, o.div), M = std::string(1, o.msep), L = std::string(1, o.lsep), k1 = o.unq ? "a" : q("a"), k2 = o.unq ? "b" : q("b"), k3 = o.unq ? "m" : q("m"), k4 = o.unq ? "s" : q("s"), n1 = o.qnum ? q("1") : "1", n2 = o.qnum ? q("-22") : "-22";
        // tokens of documents; a space is only white space between others
        std::vector<std::vector<std::string>> dd { { "{", k1, D, "1", M, k2, D, "[", "1", L, "2", L, "3", "]", M, k3, D, "{", k1, D, "1.5", M, k2, D, "-2", "}", M, k4, D, "[", "{", k1, D, "[", "]", "}", L, "null", L, q("x"), "]", "}" },
            { "{", k4, D, "{", k1, D, "1", M, k2, D, "[", "1", L, "2", "]", "}", M, k1, D, "7", "}" }, { "{", n1, D, "[", "1", "]", M, n2, D, "[", "]", M, (o.qnum ? q("3") : "3"), D, "[", "1", L, "2", "]", "}" },
            { "[", "{", k1, D, "true", M, k2, D, "false", "}", L, "{", "}", L, "{", k2, D, "true", "}", "]" }, { "[", "12", L, q("text"), L, "[", "1e3", L, "0.5", L, "-0.25", "]", "]" }, { "[", "[", "]", L, "[", "[", "]", "]", L, "{", k1, D, "{", "}", "}", L, "null", "]" },
            { "{", k1, D, "[", q("u"), L, q("v"), "]", M, k2, D, "[", "]", "}" }, { "[", "1", L, "2", L, "-3.5", "]" }, { q("abc") }, { "[", "[", "1", L, q("x"), "]", L, "[", "-2", L, q(""), "]", "]" }, { "-12.5" }, { "true" } };
        std::vector<std::string> ins { " ", "\t\n\r", "/", "*", "/**/", "/***/", "/*/*/", "/* * / */", "/*\"[{*/", "//\n", "// x\r\n", "//", "/*", "/**/ /**/", "/**//**/", "/**//", "//\n//\n", "//\n/", "/**//x", "/*/", ",", ";", ":", "=", "NaN", "null", "'", "\"", "#", "\\", "{", "}", "[", "]", "a", "0", std::string("\0", 1), "\xFF" };
        auto join = [](const std::vector<std::string>& t) { std::string s; for (auto& x : t) s += x; return s; };
        for (auto& d : dd) {
            doc<F>(c.c_str(), o, join(d));
            for (size_t i = 0; i <= d.size(); ++i) for (auto& x : ins) { auto e = d; e.insert(e.begin() + long(i), x); doc<F>(c.c_str(), o, join(e)); if (i < d.size()) { e = d; e[i] = x; doc<F>(c.c_str(), o, join(e)); } 
                if (x.size() > 1) for (size_t j = i + 1; j <= d.size() && d.size() < 25; ++j) for (auto& y : { std::string("/**/"), std::string("//\n"), std::string("/"), std::string(","), std::string(" ") }) { auto f = d; f.insert(f.begin() + long(j), y); f.insert(f.begin() + long(i), x); doc<F>(c.c_str(), o, join(f)); } }
            for (size_t i = 0; i < d.size(); ++i) { auto e = d; e.erase(e.begin() + long(i)); doc<F>(c.c_str(), o, join(e)); e = d; e.insert(e.begin() + long(i), d[i]); doc<F>(c.c_str(), o, join(e)); e.resize(i); doc<F>(c.c_str(), o, join(e)); }
        }
        // many comments, long comments
        for (size_t n : { 1u, 2u, 15u, 16u, 17u, 255u, 256u, 4095u, 4096u, 20000u }) for (std::string x : { "/**/", "//\n", " /* */ ", "/*a*/\n//b\n" }) { std::string s; for (size_t i = 0; i < n; ++i) s += x; doc<F>(c.c_str(), o, s + "[" + s + "1" + s + L + s + "2" + s + "]"); doc<F>(c.c_str(), o, "/*" + std::string(n, '*') + "*/1"); doc<F>(c.c_str(), o, "//" + std::string(n, '/') + "\n1"); doc<F>(c.c_str(), o, "/*" + std::string(n, '/') + "*/1"); doc<F>(c.c_str(), o, std::string(n, ' ') + "1"); }
    });
}
// ---- strings
template <typename F> static void text(const char* cfg, const Opt& o, const std::string& raw) {
    // the contents as they are, between delimiters, read; and as a value, written
    if (!o.enc && !ref::utf8_valid(raw)) return; // promised by the user
    if (!mc::at(cfg, raw)) return; using X = cxon::JSON<F>; mc::state(mc::hash(raw)); mc::transition();
    std::string const d(1, o.del), s = d + raw + d; const char* const b = mc::guard().put(s); std::list<char> const l(s.begin(), s.end());
    // verdict of the reference: the same text with " for delimiter
    std::string t = "\""; bool special = false, esc = false, quote = false, ctl = false;
    for (char ch : raw) { unsigned char c = (unsigned char)ch; if (c == '\\') { esc = true; } if (c == '"' || c == '\'') quote = true; if (c < 0x20) { ctl = true; t += mc::fmt("\\u%04x", c); continue; } if (c == 0x7F) special = true; t += ch; } t += '"';
    bool const utf = ref::utf8_valid(raw); bool valid = ref::json_valid(t.data(), t.data() + t.size()); bool any = quote || (ctl && esc) || (!utf && !o.enc) || (esc && o.noesc); if (ctl && o.esc) valid = false; (void)special;
    std::string value = valid ? ref::json_value(t).s : "";
    auto one = [&](const char* what, bool r, const std::string& got) { if (any) return; if (r != valid) mc::fail("%s, %s: %s is %s", cfg, what, show(s).c_str(), r ? "accepted" : "refused"); else if (r && got != value) mc::fail("%s, %s: %s gives %s instead of %s", cfg, what, show(s).c_str(), show(got).c_str(), show(value).c_str()); };
    { std::string x; bool r = bool(cxon::from_bytes<X>(x, b, b + s.size())); one("string", r, x); mc::outcome(r); }
    { std::string x; bool r = bool(cxon::from_bytes<X>(x, l.cbegin(), l.cend())); one("string from list", r, x); }
    { cxon::json::node x; bool r = bool(cxon::from_bytes<X>(x, b, b + s.size())); one("node", r, r && x.is<cxon::json::node::string>() ? x.get<cxon::json::node::string>() : ""); }
    { std::u32string x; bool r = bool(cxon::from_bytes<X>(x, b, b + s.size())); std::string y; for (char32_t c : x) y += ref::utf8(c); one("u32string", r, y); }
    { std::map<std::string, int> x; if (!o.unq) { std::string k = "{" + s + o.div + "1}"; bool r = bool(cxon::from_bytes<X>(x, k)); one("key", r, r && !x.empty() ? x.begin()->first : ""); } }
    // written: the default with the documented difference
    if (!utf || o.del != '"') { if (o.del != '"' && utf) { std::string out, x; if (!cxon::to_bytes<X>(out, raw) || !cxon::from_bytes<X>(x, out) || x != raw) mc::fail("%s: %s is written as %s, which reads as %s", cfg, show(raw).c_str(), show(out).c_str(), show(x).c_str()); } return; }
    bool plain = true; for (char ch : raw) if ((unsigned char)ch < 0x20 || ch == '"' || ch == '\\' || ch == 0x7F || ch == '/') plain = false;
    if (o.noesc && !plain) return;
    std::string def; cxon::to_bytes<cxon::JSON<>>(def, raw);
    std::string want; for (size_t i = 0; i < def.size(); ++i) { if (o.js && i + 2 < def.size() && def[i] == '\xE2' && def[i + 1] == '\x80' && (def[i + 2] == '\xA8' || def[i + 2] == '\xA9')) { want += def[i + 2] == '\xA8' ? "\\u2028" : "\\u2029"; i += 2; } else want += def[i]; }
    auto wr = [&](const char* what, std::string out, const std::string& w) { if (out != w) mc::fail("%s, %s: %s is written as %s instead of %s", cfg, what, show(raw).c_str(), show(out).c_str(), show(w).c_str()); };
    { std::string out; cxon::to_bytes<X>(out, raw); wr("string", out, want); std::string x; if (!cxon::from_bytes<X>(x, out) || x != raw) mc::fail("%s: %s is written as %s, which reads as %s", cfg, show(raw).c_str(), show(out).c_str(), show(x).c_str()); }
    { std::list<char> out; cxon::to_bytes<X>(std::back_inserter(out), raw); wr("string to list", std::string(out.begin(), out.end()), want); }
    { std::u32string u; for (uint32_t c : ref::utf8_decode(raw)) u += char32_t(c); std::string out; cxon::to_bytes<X>(out, u); wr("u32string", out, want); std::u16string v; for (char32_t c : u) if (c < 0x10000) v += char16_t(c); else { v += char16_t(0xD800 + ((c - 0x10000) >> 10)); v += char16_t(0xDC00 + ((c - 0x10000) & 0x3FF)); } out.clear(); cxon::to_bytes<X>(out, v); wr("u16string", out, want); if (u.size() == 1) { out.clear(); cxon::to_bytes<X>(out, u[0]); wr("char32_t", out, want); } }
    { std::string out; cxon::to_bytes<X>(out, cxon::json::node(raw)); wr("node", out, want); }
    if (raw.find('\0') == raw.npos) { std::string out; cxon::to_bytes<X>(out, raw.c_str()); wr("const char*", out, want); }
    if (!o.unq) { std::string out; std::map<std::string, int> m; m[raw] = 1; cxon::to_bytes<X>(out, m); wr("key", out, "{" + want + o.div + "1}"); }
    { std::string out; std::vector<std::string> m(2, raw); cxon::to_bytes<X>(out, m); wr("in a vector", out, "[" + want + o.lsep + want + "]"); }
}
template <typename F> static void texts(const char* cfg) {
    Opt const o = F::opt(); std::string const c = cfg;
    static const std::vector<std::string> ts { "a", "\"", "'", "\\", "/", std::string("\0", 1), "\x01", "\n", "\x1F", " ", "\x7F", "\xC3\xA9", "\xC3", "\xA9", "\xE2\x80\xA8", "\xE2\x80\xA9", "\xE2\x80\xA7", "\xE2\x80", "\xE2\x81\xA8", "\xF0\x9F\x98\x80", "\xF4\x90\x80\x80", "\xED\xA0\x80", "\\n", "\\u0041", "\\u2028", "\\ud83d\\ude00", "\\ud83d", "\\x", "u2028", "\xFF", "0123456789abcde" };
    mc::add(c + ": none", [=] { text<F>(c.c_str(), o, ""); });
    for (auto& a : ts) mc::add(c + ": " + mc::esc(a), [=] {
        text<F>(c.c_str(), o, a);
        for (auto& x : ts) { text<F>(c.c_str(), o, a + x); for (auto& y : ts) { text<F>(c.c_str(), o, a + x + y); if (mc::thorough()) for (auto& z : ts) text<F>(c.c_str(), o, a + x + y + z); } }
        for (size_t n = 0; n < 80; ++n) for (size_t at : { size_t(0), n / 2, n }) { std::string s(n, 'x'); s.insert(at, a); text<F>(c.c_str(), o, s); }
    });
    mc::add(c + ": characters", [=] { for (uint32_t x = 0; x < 0x110000; x += (x > 0x2100 && x % 0x400 > 8 && !mc::thorough() ? 7 : 1)) if (x < 0xD800 || x > 0xDFFF) text<F>(c.c_str(), o, ref::utf8(x)); });
}
int main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) mc::g().thorough = 1;
#   if GRP == 0
        std::vector<std::string> const com { "/**/", "//\n", "/", "*" }, nan { "NaN", "Infinity", "-Infinity", "-" };
        docs<XDef>("default", {}, 1); docs<XCom>("comments", com); docs<XTrail>("trailing separators", { "null" }); docs<XComTrail>("comments and trailing separators", { "/**/", "/" }); docs<XNan>("NaNs", nan); docs<XStrict>("strict numbers", nan); docs<XNanStrict>("strict numbers and NaNs", nan);
        docs<XUnq>("unquoted keys", { "\"m\"" }); docs<XNum>("unquoted number keys", {}); docs<XRepeat>("repeated keys", { "\"m\"" }, 1);
#   elif GRP == 2
        std::vector<std::string> const com { "/**/", "//\n", "/", "*" };
        docs<XSep>("separators", { ",", ":" }); docs<XSepTrail>("separators, trailing too", { "/**/", "/" }); docs<XSp>("space separators", { "," }); docs<XSpCom>("space separators and comments", { "/**/", "/", "//\n" }); docs<XApos>("apostrophes", { "\"a\"" }); docs<XCf>("CXCF", { "/**/", "/", "NaN" }); docs<XCfTrail>("CXCF, trailing separators", { "/**/", "," });
        docs<XJs>("strict JavaScript", {}, 1); docs<XNoEnc>("unchecked encoding", {}, 1); docs<XNoEsc>("unchecked escapes", {}, 1); docs<XNoVal>("unchecked strings", {}, 1); docs<XPlain>("no escapes", {}, 1);
#   else
        texts<XDef>("default"); texts<XCom>("comments"); texts<XTrail>("trailing separators"); texts<XNan>("NaNs"); texts<XUnq>("unquoted keys"); texts<XSep>("separators"); texts<XApos>("apostrophes"); texts<XJs>("strict JavaScript"); texts<XNoEnc>("unchecked encoding"); texts<XNoEsc>("unchecked escapes"); texts<XNoVal>("unchecked strings"); texts<XPlain>("no escapes");
#   endif
    return mc::main(argc, argv);
}
