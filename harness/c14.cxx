// C14: targets of fixed capacity. FMT 0: JSON, 1: CBOR. GRP 0: targets x documents, GRP 1: number and key buffers.
#include "targets.hxx"
#include <list>
#include <new>
#ifndef FMT
#   define FMT 0
#endif
#ifndef GRP
#   define GRP 0
#endif
#if FMT == 1
    using X = cxon::CBOR<>;
#else
    using X = cxon::JSON<>;
#endif
using ref::Val;
static std::string pr(const std::string& o) { return FMT == 1 ? mc::hex(o.substr(0, 120)) : mc::esc(o.substr(0, 200)); }
#if GRP == 0
// ---- what each target makes of a value: init (what is there before), put (false: to be refused), show
template <typename T, typename = void> struct M;
static bool odd = false, may_refuse = false; // odd: spelled with escapes or with indefinite lengths, which some readers refuse
template <typename T> struct M<T, typename std::enable_if<std::is_integral<T>::value>::type> {
    static constexpr bool ch = std::is_same<T, char>::value || std::is_same<T, char16_t>::value || std::is_same<T, char32_t>::value;
    static void init(T& t) { t = T(77); }
    static bool put(T& t, const Val& v) {
        if (ch && FMT == 0) { if (v.k != Val::txt) return false; auto w = ref::utf8_decode(v.s); if (w.size() != 1 || w[0] > std::numeric_limits<typename std::make_unsigned<T>::type>::max()) return false; t = T(w[0]); return true; }
        if (v.k == Val::uin && v.u <= uint64_t(std::numeric_limits<T>::max())) { t = T(v.u); return true; }
        if (v.k == Val::neg && std::is_signed<T>::value && v.u <= uint64_t(std::numeric_limits<T>::max())) { t = T(-1 - int64_t(v.u)); return true; }
        return false;
    }
    static void units(std::basic_string<T>& u, const std::string& s) { for (uint32_t c : ref::utf8_decode(s)) if (sizeof(T) == 1) for (char x : ref::utf8(c)) u += T(x); else if (sizeof(T) == 2 && c > 0xFFFF) { c -= 0x10000; u += T(0xD800 + (c >> 10)); u += T(0xDC00 + (c & 0x3FF)); } else u += T(c); }
    static void show(std::string& o, const T& t) { o += std::to_string((long long)t) + ","; }
};
template <> struct M<std::string> {
    static void init(std::string& t) { t = "s"; }
    static bool put(std::string& t, const Val& v) { if (v.k != Val::txt && v.k != Val::byt) return false; t += v.s; return true; }
    static void show(std::string& o, const std::string& t) { o += "'" + t + "',"; }
};
template <typename E, typename = void> struct Ch { static bool put(E*, size_t, const Val&) { return false; } static void byte(E&, unsigned char) {} };
template <typename E> struct Ch<E, typename std::enable_if<std::is_integral<E>::value>::type> {
    static bool put(E* t, size_t n, const Val& v) { // a string into E[n]
        if (v.k != Val::txt) return false; std::basic_string<E> u; M<E>::units(u, v.s); if (u.size() > n) return false;
        for (size_t i = 0; i < u.size(); ++i) t[i] = u[i]; if (u.size() < n) t[u.size()] = 0; return true; }
    static void byte(E& e, unsigned char c) { e = E(c); }
};
template <typename E> static constexpr bool is_ch() { return std::is_same<E, char>::value || std::is_same<E, char16_t>::value || std::is_same<E, char32_t>::value; }
template <typename E> static bool elems(E* t, size_t n, const Val& v, bool raw) {
    if (raw && FMT == 0 && is_ch<E>()) return Ch<E>::put(t, n, v);
    if (FMT == 1 && (v.k == Val::byt || v.k == Val::txt) && std::is_integral<E>::value) { if (v.s.size() > n) return false; for (size_t i = 0; i < v.s.size(); ++i) Ch<E>::byte(t[i], (unsigned char)v.s[i]); return true; }
    if (v.k != Val::arr || v.a.size() > n) return false;
    for (size_t i = 0; i < v.a.size(); ++i) if (!M<E>::put(t[i], v.a[i])) return false;
    return true;
}
template <typename E, size_t N> struct M<E[N]> {
    static void init(E (&t)[N]) { for (auto& x : t) M<E>::init(x); }
    static bool put(E (&t)[N], const Val& v) { return elems<E>(t, N, v, true); }
    static void show(std::string& o, const E (&t)[N]) { o += "["; for (auto& x : t) M<E>::show(o, x); o += "]"; }
};
template <typename E, size_t N> struct M<std::array<E, N>> {
    using T = std::array<E, N>;
    static void init(T& t) { for (auto& x : t) M<E>::init(x); }
    static bool put(T& t, const Val& v) { return elems<E>(t.data(), N, v, false); }
    static void show(std::string& o, const T& t) { o += "["; for (auto& x : t) M<E>::show(o, x); o += "]"; }
};
template <size_t N> struct M<std::bitset<N>> {
    using T = std::bitset<N>;
    static void init(T& t) { t.set(); }
    static bool put(T& t, const Val& v) {
        may_refuse |= odd; if (FMT == 0) { if (v.k != Val::txt || v.s.size() != N || v.s.find_first_not_of("01") != std::string::npos) return false; for (size_t i = 0; i < N; ++i) t[N - 1 - i] = v.s[i] == '1'; return true; }
        size_t m = (N + 7) / 8; if (v.k != Val::byt || v.s.size() != m + 1 || (unsigned char)v.s[0] != m * 8 - N) return false;
        for (size_t i = 0; i < N; ++i) t[i] = ((unsigned char)v.s[m - i / 8] >> (i % 8)) & 1; return true; }
    static void show(std::string& o, const T& t) { o += t.to_string() + ","; }
};
template <typename A, typename B> struct M<std::pair<A, B>> {
    using T = std::pair<A, B>;
    static void init(T& t) { M<A>::init(t.first); M<B>::init(t.second); }
    static bool put(T& t, const Val& v) { may_refuse |= odd && FMT == 1; return v.k == Val::arr && v.a.size() == 2 && M<A>::put(t.first, v.a[0]) && M<B>::put(t.second, v.a[1]); }
    static void show(std::string& o, const T& t) { o += "("; M<A>::show(o, t.first); M<B>::show(o, t.second); o += ")"; }
};
template <typename ...E> struct M<std::tuple<E...>> {
    using T = std::tuple<E...>;
    template <size_t I, typename F> static bool each(T& t, F f, std::integral_constant<size_t, I>) { return f(std::get<I>(t), I) && each(t, f, std::integral_constant<size_t, I + 1>()); }
    template <typename F> static bool each(T&, F, std::integral_constant<size_t, sizeof...(E)>) { return true; }
    struct In { template <typename Y> bool operator ()(Y& y, size_t) const { M<Y>::init(y); return true; } };
    struct Pu { const Val& v; template <typename Y> bool operator ()(Y& y, size_t i) const { return M<Y>::put(y, v.a[i]); } };
    struct Sh { std::string& o; template <typename Y> bool operator ()(Y& y, size_t) const { M<Y>::show(o, y); return true; } };
    static void init(T& t) { each(t, In(), std::integral_constant<size_t, 0>()); }
    static bool put(T& t, const Val& v) { may_refuse |= odd && FMT == 1; return v.k == Val::arr && v.a.size() == sizeof...(E) && each(t, Pu{ v }, std::integral_constant<size_t, 0>()); }
    static void show(std::string& o, const T& t) { o += "("; each(const_cast<T&>(t), Sh{ o }, std::integral_constant<size_t, 0>()); o += ")"; }
};
template <typename E, size_t N> struct M<boost::container::static_vector<E, N>> {
    using T = boost::container::static_vector<E, N>;
    static void init(T& t) { t.clear(); }
    static bool put(T& t, const Val& v) {
        if (FMT == 1 && (v.k == Val::byt || v.k == Val::txt) && std::is_integral<E>::value) { if (v.s.size() > N - t.size()) return false; for (auto c : v.s) { t.emplace_back(); Ch<E>::byte(t.back(), (unsigned char)c); } return true; }
        if (v.k != Val::arr || v.a.size() > N - t.size()) return false; for (auto& x : v.a) { t.emplace_back(); if (!M<E>::put(t.back(), x)) return false; } return true; }
    static void show(std::string& o, const T& t) { o += "<"; for (auto& x : t) M<E>::show(o, x); o += ">"; }
};
template <typename T> struct M<std::complex<T>> {
    static void init(std::complex<T>& t) { t = { 7, 7 }; }
    static bool num(T& t, const Val& v) { if (FMT == 1 && v.k != Val::rea && v.k != Val::uin && v.k != Val::neg) return false; if (v.k == Val::uin) t = T(v.u); else if (v.k == Val::neg) t = -1 - T(v.u); else if (v.k == Val::rea) t = T(v.d); else return false; return true; }
    static bool put(std::complex<T>& t, const Val& v) { may_refuse |= odd && FMT == 1; T r, i; if (v.k != Val::arr || v.a.size() != 2 || !num(r, v.a[0]) || !num(i, v.a[1])) return false; t = { r, i }; return true; }
    static void show(std::string& o, const std::complex<T>& t) { o += tg::sh(t); }
};
// a target as the last object before an inaccessible page, marks before it
template <typename T> struct W { T v; };
#if __cplusplus >= 202002L
template <typename E, size_t N, bool Dyn> struct Sp { E v[N ? N : 1]; };
template <typename E, size_t N, bool Dyn> struct W<Sp<E, N, Dyn>> { E v[N ? N : 1]; };
template <typename E, size_t N, bool Dyn> struct M<Sp<E, N, Dyn>> {};
#endif
template <typename T> struct Io {
    static void init(W<T>& w) { M<T>::init(w.v); }
    static bool put(W<T>& w, const Val& v) { return M<T>::put(w.v, v); }
    static std::string show(const W<T>& w) { std::string o; M<T>::show(o, w.v); return o; }
    template <typename I> static auto read(W<T>& w, I b, I e) -> decltype(cxon::from_bytes<X>(w.v, b, e)) { return cxon::from_bytes<X>(w.v, b, e); }
};
#if __cplusplus >= 202002L
template <typename E, size_t N, bool Dyn> struct Io<Sp<E, N, Dyn>> {
    using T = W<Sp<E, N, Dyn>>; using S = std::span<E, Dyn ? std::dynamic_extent : N>;
    static void init(T& w) { for (auto& x : w.v) M<E>::init(x); }
    static bool put(T& w, const Val& v) { return elems<E>(w.v, N, v, false); }
    static std::string show(const T& w) { std::string o; for (auto& x : w.v) M<E>::show(o, x); return o; }
    template <typename I> static cxon::from_bytes_result<I> read(T& w, I b, I e) { S s(w.v, N); auto r = cxon::from_bytes<X>(s, b, e); if (s.data() != w.v || s.size() != N) mc::fail("the span itself was changed"); return r; }
};
#endif
struct Doc { std::string s; Val v; bool good, odd; }; // good: well formed with value v
static std::vector<Doc>& docs() { static std::vector<Doc> d; return d; }
template <typename T> static void target(const char* name) {
    const size_t parts = mc::thorough() ? 8 : 4;
    for (size_t p = 0; p < parts; ++p) mc::add(std::string(name) + mc::fmt("/%zu", p), [=] {
        static mc::Guard g(1 << 16); using Tw = W<T>; char* at = g.tail(sizeof(Tw)); const size_t margin = 256;
        auto& ds = docs();
        for (size_t k = p; k < ds.size(); k += parts) {
            const Doc& d = ds[k]; if (!mc::at(name, d.s)) continue;
            mc::transition(); mc::trace();
            Tw m; Io<T>::init(m); odd = d.odd; may_refuse = false; const bool ok = d.good && Io<T>::put(m, d.v); const std::string want = Io<T>::show(m);
            mc::state(mc::hash(want, mc::hash(name))); mc::outcome(ok);
            for (int way = 0; way < 2; ++way) {
                memset(at - margin, 0xA5, margin); Tw* w = new (at) Tw; Io<T>::init(*w);
                bool r; size_t used; std::string err; const char* q = mc::guard().put(d.s);
                if (way == 0) { auto x = Io<T>::read(*w, q, q + d.s.size()); r = !!x; used = size_t(x.end - q); if (!r) err = x.ec.message(); }
                else { std::list<char> l(d.s.begin(), d.s.end()); auto x = Io<T>::read(*w, l.cbegin(), l.cend()); r = !!x; used = size_t(std::distance(l.cbegin(), x.end)); if (!r) err = x.ec.message(); }
                std::string got = Io<T>::show(*w); w->~Tw();
                const char* how = way ? "from a list" : "from memory";
                for (size_t i = 1; i <= margin; ++i) if ((unsigned char)at[-ptrdiff_t(i)] != 0xA5) { mc::fail("the byte %zu before the target was written (%s): %s", i, how, pr(d.s).c_str()); break; }
                if (!r && ok && may_refuse) continue;
                if (r != ok) mc::fail("%s (%s): %s", r ? "accepted, must be refused" : ("refused: " + err).c_str(), how, pr(d.s).c_str());
                else if (r && got != want) mc::fail("holds %s instead of %s (%s): %s", got.substr(0, 300).c_str(), want.substr(0, 300).c_str(), how, pr(d.s).c_str());
                else if (r && used != d.s.size()) mc::fail("stops at %zu of %zu (%s): %s", used, d.s.size(), how, pr(d.s).c_str());
                if (way == 0 && r && k % 40009 == p) mc::sample(std::string(name) + " " + pr(d.s).substr(0, 60) + " -> " + got.substr(0, 100));
            }
        }
    });
}
#if FMT == 0
static std::string jstr(const std::string& s, int style) {
    std::string o = "\"";
    for (uint32_t c : ref::utf8_decode(s)) {
        if (style == 2) { if (c > 0xFFFF) { uint32_t x = c - 0x10000; o += mc::fmt("\\u%04x\\u%04X", 0xD800 + (x >> 10), 0xDC00 + (x & 0x3FF)); } else o += mc::fmt("\\u%04x", c); }
        else if (c == '"' || c == '\\') { o += '\\'; o += char(c); } else if (c == '\n') o += "\\n"; else o += ref::utf8(c);
    }
    return o + "\"";
}
static void enc(std::string& o, const Val& v, int style) {
    const char* w = style == 1 ? " \n" : "";
    switch (v.k) {
        case Val::uin: o += std::to_string(v.u); break; case Val::neg: o += "-" + std::to_string(v.u + 1); break; case Val::nul: o += "null"; break; case Val::boo: o += v.u ? "true" : "false"; break; case Val::rea: o += mc::fmt("%.17g", v.d); break;
        case Val::txt: o += jstr(v.s, style); break;
        default: o += "["; o += w; for (size_t i = 0; i < v.a.size(); ++i) { if (i) { o += w; o += ","; o += w; } enc(o, v.a[i], style); } o += w; o += "]";
    }
}
static const int styles = 3;
#else
static void head(std::string& o, unsigned mt, uint64_t n, int style) { if (style == 1) { o += char(mt << 5 | 27); for (int i = 7; i >= 0; --i) o += char(n >> (8 * i)); } else if (style == 2) { o += char(mt << 5 | 25); o += char(n >> 8); o += char(n); } else ref::cbor_head(o, mt, n); }
static void enc(std::string& o, const Val& v, int style) { // 0 shortest, 1, 2 wide heads, 3 indefinite, 4 indefinite in single bytes, empty chunks
    switch (v.k) {
        case Val::byt: case Val::txt: { unsigned mt = v.k == Val::byt ? 2 : 3;
            if (style < 3) { head(o, mt, v.s.size(), style); o += v.s; }
            else { o += char(mt << 5 | 31); if (style == 3) { ref::cbor_head(o, mt, v.s.size()); o += v.s; } else { for (auto c : v.s) { ref::cbor_head(o, mt, 1); o += c; ref::cbor_head(o, mt, 0); } } o += char(0xFF); } break; }
        case Val::arr: if (style < 3) head(o, 4, v.a.size(), style); else o += char(0x9F); for (auto& x : v.a) enc(o, x, style); if (style >= 3) o += char(0xFF); break;
        case Val::uin: head(o, 0, v.u, v.u > 0xFFFF && style == 2 ? 0 : style < 3 ? style : 0); break; case Val::neg: head(o, 1, v.u, style < 3 ? style : 0); break;
        default: ref::cbor_encode(o, v);
    }
}
static const int styles = 5;
#endif
static void add(const Val& v, bool prefixes) {
    std::string last;
    for (int s = 0; s < styles; ++s) {
        std::string o; enc(o, v, s); if (o == last) continue; last = o;
        docs().push_back(Doc{ o, v, true, FMT == 0 ? s == 2 : s > 2 });
        if (prefixes && s != 1) for (size_t n = 0; n < o.size(); ++n) if (FMT == 1 || v.k == Val::arr || v.k == Val::txt) docs().push_back(Doc{ o.substr(0, n), Val(), false, false });
    }
}
static void build() {
    ref::Trees t; t.maps = false;
    t.leaves = { Val::U(7), Val::I(0), Val::U(70000), Val::T("a"), Val::T("ab"), Val::T(FMT == 0 ? "\xC3\xA9" : "1"), FMT == 0 ? Val::T("\xF0\x9F\x98\x80") : Val::Y("\xFF"), Val::N() };
    const size_t n = mc::thorough() ? 6 : 5;
    for (size_t i = 1; i <= n; ++i) for (auto& v : t.of(i)) if (i < n || v.a.size() != 1) add(v, i < 5);
    // lengths around the capacities, with each kind of element at each place
    const std::vector<size_t> ks = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 22, 23, 24, 25, 254, 255, 256, 257, 299, 300, 301, 1000 };
    for (size_t k : ks) {
        const size_t step = k > 30 ? k - 1 : 1;
        for (size_t p = 0; p < std::max<size_t>(k, 1); p += step ? step : 1) {
            Val a = Val::A(), b = Val::A(); for (size_t i = 0; i < k; ++i) { a.a.push_back(Val::U(i % 20)); b.a.push_back(i == p ? Val::T("x") : Val::T("y")); } if (k) a.a[p] = Val::U(99); add(a, false); if (k < 12) add(b, false);
#           if FMT == 0
                for (const char* c : { "a", "\"", "\n", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80" }) { std::string s; for (size_t i = 0; i < k; ++i) s += i == p ? c : "b"; add(Val::T(s), k < 6); add(Val::T(s + "z"), false); }
                { std::string s; for (size_t i = 0; i < k; ++i) s += i == p ? '1' : '0'; add(Val::T(s), k < 6); if (k) { s[p] = '2'; add(Val::T(s), false); } }
#           else
                { std::string s; for (size_t i = 0; i < k; ++i) s += i == p ? '\xFF' : 'b'; add(Val::Y(s), k < 6); std::string u(k, 'u'); add(Val::T(u), k < 6); }
                for (unsigned x : { 0, 1, 5, 7, 8 }) { std::string s(k + 1, '\x55'); s[0] = char(x); if (k) s[p + 1] = char(x ? 0xA3 : 0xFF); add(Val::Y(s), false); }
#           endif
        }
    }
    for (size_t k : { 0, 1, 2, 3 }) { Val v = Val::A(); for (size_t i = 0; i < k; ++i) v.a.push_back(Val::R(i + 0.5)); add(v, false); }
#   if FMT == 1 // chunks of every composition of up to 6 bytes, claims that are not kept
    for (unsigned mt : { 2u, 3u }) for (size_t n = 0; n <= 6; ++n) for (unsigned m = 0; m < (n ? 1u << (n - 1) : 1); ++m) {
        std::string o(1, char(mt << 5 | 31)), s; size_t st = 0; for (size_t i = 0; i < n; ++i) { s += char('a' + i); if (i + 1 == n || (m >> i & 1)) { ref::cbor_head(o, mt, i + 1 - st); o += s.substr(st); st = i + 1; } } o += char(0xFF);
        docs().push_back(Doc{ o, mt == 2 ? Val::Y(s) : Val::T(s), true, true });
        for (size_t c = 0; c < o.size(); ++c) docs().push_back(Doc{ o.substr(0, c), Val(), false, false }); }
    for (unsigned mt : { 2u, 3u, 4u }) for (uint64_t n : { 1ull, 3ull, 4ull, 5ull, 24ull, 255ull, 256ull, 65536ull, 1ull << 31, 1ull << 32, 1ull << 62, 1ull << 63, ~0ull, ~0ull - 1, ~0ull - 2 }) for (size_t have = 0; have < 5; ++have) if (have < n) {
        std::string o; ref::cbor_head(o, mt, n); o += std::string(have, 1); docs().push_back(Doc{ o, Val(), false, false });
        std::string q(1, char(mt << 5 | 31)); q += ref::cbor_head(mt, 1) + std::string("\x01", 1); q += o; docs().push_back(Doc{ q, Val(), false, false }); }
#   endif
}
#define T_(...) target<__VA_ARGS__>(#__VA_ARGS__)
using S = std::string; using short2x2 = short[2][2]; using char2x3 = char[2][3]; namespace bc = boost::container;
#endif
#if GRP == 1
// ---- the number buffer
template <unsigned N> struct Num { template <typename T> static void run(const char* name) { mc::add(mc::fmt("%s, buffer of %u", name, N), [=] {
    std::vector<std::string> lits;
    for (size_t L = 1; L <= N + 4; ++L) {
        auto put = [&](std::string s) { if (s.size() >= 1) lits.push_back(s); };
        std::string d; while (d.size() < L) d += "1234567890"; d.resize(L);
        put(d); if (L > 1) { put("-" + d.substr(1)); }
        if (!std::is_integral<T>::value) for (size_t p = 1; p + 1 < L; ++p) { std::string s = d; s[p] = '.'; if (s[p + 1] == '.') continue; put(s); std::string m = "-" + s.substr(1); if (p > 1) put(m); if (L - p < 4) { s = d; s[p] = 'e'; put(s); s = d; s[p] = 'E'; if (p + 2 < L) { s[p + 1] = '-'; put(s); s[p + 1] = '+'; put(s); } } if (p + 3 < L) { s = d; s[p] = '.'; s[L - 2] = 'e'; put(s); } } }
    for (auto& s : lits) for (const char* tail : { "", ",", " ", "]" }) {
        std::string doc = s + tail; if (!mc::at(name, doc)) continue; mc::transition(); mc::trace(); mc::state(mc::hash(doc, N));
        const char* p = mc::guard().put(doc); T t = T(), u = T(); auto r = cxon::from_bytes<X>(t, p, p + doc.size()); // no buffer
        std::list<char> l(doc.begin(), doc.end()); auto q = cxon::from_bytes<X>(u, l.cbegin(), l.cend(), cxon::json::num_len_max::set<N>());
        mc::outcome(uint64_t(!!r) << 1 | uint64_t(!!q));
        if (s.size() > N && q && size_t(std::distance(l.cbegin(), q.end)) >= s.size()) mc::fail("%zu characters are accepted into a buffer of %u: %s", s.size(), N, s.c_str());
        else if (s.size() < N && (!!q != !!r)) mc::fail("%s, without the limit it %s: %s", q ? "accepted" : q.ec.message().c_str(), r ? "is read" : "is refused", doc.c_str());
        else if (q && (!r || !(t == u) || std::distance(l.cbegin(), q.end) != r.end - p)) mc::fail("a different value, or another end, than without the limit: %s", doc.c_str());
    } }); } };
template <typename T> struct Nt { template <unsigned N> static void f(const char* n) { Num<N>::template run<T>(n); } };
#define NUMS(T) Nt<T>::f<1>(#T); Nt<T>::f<2>(#T); Nt<T>::f<3>(#T); Nt<T>::f<4>(#T); Nt<T>::f<5>(#T); Nt<T>::f<7>(#T); Nt<T>::f<8>(#T); Nt<T>::f<9>(#T); Nt<T>::f<15>(#T); Nt<T>::f<16>(#T); Nt<T>::f<17>(#T); Nt<T>::f<20>(#T); Nt<T>::f<21>(#T); Nt<T>::f<32>(#T); Nt<T>::f<33>(#T); Nt<T>::f<64>(#T); Nt<T>::f<65>(#T)
// ---- the key buffer
#define L1_ a
#define L2_ ab
#define L3_ abc
#define L4_ abcd
#define L7_ abcdefg
#define L8_ abcdefgh
#define L15 abcdefghijklmno
#define L16 abcdefghijklmnop
#define L17 abcdefghijklmnopq
#define L31 abcdefghijklmnopqrstuvwxyz01234
#define L32 abcdefghijklmnopqrstuvwxyz012345
#define L33 abcdefghijklmnopqrstuvwxyz0123456
#define L63 abcdefghijklmnopqrstuvwxyz012345ABCDEFGHIJKLMNOPQRSTUVWXYZ67890
#define L64 abcdefghijklmnopqrstuvwxyz012345ABCDEFGHIJKLMNOPQRSTUVWXYZ678901
#define L65 abcdefghijklmnopqrstuvwxyz012345ABCDEFGHIJKLMNOPQRSTUVWXYZ6789012
#define L99 abcdefghijklmnopqrstuvwxyz012345ABCDEFGHIJKLMNOPQRSTUVWXYZ6789012abcdefghijklmnopqrstuvwxyz01234567
#define STR_(x) #x
#define STR(x) STR_(x)
static const char* const names[] = { STR(L1_), STR(L2_), STR(L3_), STR(L4_), STR(L7_), STR(L8_), STR(L15), STR(L16), STR(L17), STR(L31), STR(L32), STR(L33), STR(L63), STR(L64), STR(L65), STR(L99) };
struct K { int f[16]; K() { std::fill(f, f + 16, 0); } };
#if FMT == 0
#   define FLD(i, n) cxon::cio::cls::make_field<K>(n, sizeof(n) - 1, &Kf::f##i)
    struct Kc { int f0 = 0, f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0;
        CXON_JSON_CLS_MEMBER(Kc, CXON_JSON_CLS_FIELD_NAME(STR(L1_), f0), CXON_JSON_CLS_FIELD_NAME(STR(L2_), f1), CXON_JSON_CLS_FIELD_NAME(STR(L3_), f2), CXON_JSON_CLS_FIELD_NAME(STR(L4_), f3), CXON_JSON_CLS_FIELD_NAME(STR(L7_), f4), CXON_JSON_CLS_FIELD_NAME(STR(L8_), f5), CXON_JSON_CLS_FIELD_NAME(STR(L15), f6), CXON_JSON_CLS_FIELD_NAME(STR(L16), f7), CXON_JSON_CLS_FIELD_NAME(STR(L17), f8), CXON_JSON_CLS_FIELD_NAME(STR(L31), f9), CXON_JSON_CLS_FIELD_NAME(STR(L32), f10), CXON_JSON_CLS_FIELD_NAME(STR(L33), f11), CXON_JSON_CLS_FIELD_NAME(STR(L63), f12), CXON_JSON_CLS_FIELD_NAME(STR(L64), f13), CXON_JSON_CLS_FIELD_NAME(STR(L65), f14), CXON_JSON_CLS_FIELD_NAME(STR(L99), f15)) };
#else
    struct Kc { int f0 = 0, f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0, f8 = 0, f9 = 0, f10 = 0, f11 = 0, f12 = 0, f13 = 0, f14 = 0, f15 = 0;
        CXON_CBOR_CLS_MEMBER(Kc, CXON_CBOR_CLS_FIELD_NAME(STR(L1_), f0), CXON_CBOR_CLS_FIELD_NAME(STR(L2_), f1), CXON_CBOR_CLS_FIELD_NAME(STR(L3_), f2), CXON_CBOR_CLS_FIELD_NAME(STR(L4_), f3), CXON_CBOR_CLS_FIELD_NAME(STR(L7_), f4), CXON_CBOR_CLS_FIELD_NAME(STR(L8_), f5), CXON_CBOR_CLS_FIELD_NAME(STR(L15), f6), CXON_CBOR_CLS_FIELD_NAME(STR(L16), f7), CXON_CBOR_CLS_FIELD_NAME(STR(L17), f8), CXON_CBOR_CLS_FIELD_NAME(STR(L31), f9), CXON_CBOR_CLS_FIELD_NAME(STR(L32), f10), CXON_CBOR_CLS_FIELD_NAME(STR(L33), f11), CXON_CBOR_CLS_FIELD_NAME(STR(L63), f12), CXON_CBOR_CLS_FIELD_NAME(STR(L64), f13), CXON_CBOR_CLS_FIELD_NAME(STR(L65), f14), CXON_CBOR_CLS_FIELD_NAME(STR(L99), f15)) };
#endif
static int* field(Kc& k, int i) { int* f[] = { &k.f0, &k.f1, &k.f2, &k.f3, &k.f4, &k.f5, &k.f6, &k.f7, &k.f8, &k.f9, &k.f10, &k.f11, &k.f12, &k.f13, &k.f14, &k.f15 }; return f[i]; }
enum class Ke { e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11, e12, e13, e14, e15 };
#if FMT == 0
    CXON_JSON_ENM(Ke, CXON_JSON_ENM_VALUE_NAME(STR(L1_), e0), CXON_JSON_ENM_VALUE_NAME(STR(L2_), e1), CXON_JSON_ENM_VALUE_NAME(STR(L3_), e2), CXON_JSON_ENM_VALUE_NAME(STR(L4_), e3), CXON_JSON_ENM_VALUE_NAME(STR(L7_), e4), CXON_JSON_ENM_VALUE_NAME(STR(L8_), e5), CXON_JSON_ENM_VALUE_NAME(STR(L15), e6), CXON_JSON_ENM_VALUE_NAME(STR(L16), e7), CXON_JSON_ENM_VALUE_NAME(STR(L17), e8), CXON_JSON_ENM_VALUE_NAME(STR(L31), e9), CXON_JSON_ENM_VALUE_NAME(STR(L32), e10), CXON_JSON_ENM_VALUE_NAME(STR(L33), e11), CXON_JSON_ENM_VALUE_NAME(STR(L63), e12), CXON_JSON_ENM_VALUE_NAME(STR(L64), e13), CXON_JSON_ENM_VALUE_NAME(STR(L65), e14), CXON_JSON_ENM_VALUE_NAME(STR(L99), e15))
#   define IDS cxon::json::ids_len_max
#else
#   define IDS cxon::cbor::ids_len_max
#endif
static std::vector<std::string> keys() {
    std::vector<std::string> r; for (auto n : names) { std::string s = n; r.push_back(s); r.push_back(s.substr(0, s.size() - 1)); r.push_back(s + "x"); r.push_back(s + "xx"); for (size_t p : { size_t(0), s.size() / 2, s.size() - 1 }) { std::string x = s; x[p] = '!'; r.push_back(x); } }
    for (size_t n = 0; n <= 101; ++n) { std::string s = STR(L99) "89ABC"; r.push_back(s.substr(0, n)); r.push_back(std::string(n, 'z')); }
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r; }
template <unsigned N> static void ids() { mc::add(mc::fmt("key buffer of %u", N), [] {
    for (auto& k : keys()) for (int way = 0; way < 2; ++way) for (int kind = 0; kind < (FMT == 0 ? 4 : 4); ++kind) {
        int ix = -1; for (int i = 0; i < 16; ++i) if (k == names[i]) ix = i;
        std::string doc; 
#       if FMT == 0 // plain, escaped, enum, after another member
            std::string q = "\""; for (char c : k) q += kind == 1 ? mc::fmt("\\u%04x", c) : std::string(1, c); q += "\"";
            doc = kind == 2 ? q : kind == 3 ? "{\"a\":1," + q + ":5}" : "{" + q + ":5}";
            size_t len = k.size();
#       else // with NUL, without, in chunks, after another member
            std::string z = k; if (kind != 1) z += '\0'; std::string q; if (kind == 2) { q = "\x7F"; for (char c : z) { q += "\x61"; q += c; } q += "\xFF"; } else { ref::cbor_head(q, 3, z.size()); q += z; }
            doc = kind == 3 ? std::string("\xA2\x61\x61\x01", 4) + q + "\x05" : "\xA1" + q + "\x05"; size_t len = z.size();
#       endif
        if (!mc::at(kind == 2 && FMT == 0 ? "enum" : "class", doc)) continue; mc::transition(); mc::trace(); mc::state(mc::hash(doc, N * 2 + way));
        bool r; std::string err; Kc c; Ke en = Ke::e0; const char* p = mc::guard().put(doc); std::list<char> l(doc.begin(), doc.end());
        auto run = [&](auto& t) { if (way) { auto x = cxon::from_bytes<X>(t, l.cbegin(), l.cend(), IDS::template set<N>()); r = !!x; err = r ? "" : x.ec.message(); } else { auto x = cxon::from_bytes<X>(t, p, p + doc.size(), IDS::template set<N>()); r = !!x; err = r ? "" : x.ec.message(); } };
#       if FMT == 0
            if (kind == 2) run(en); else
#       endif
        run(c);
        mc::outcome(r * 2 + (ix >= 0));
        if (kind == 3 && (ix == 0 || N < 3)) continue; // a repeated key, or "a" itself does not fit
        if (r && ix < 0) mc::fail("an unknown name is accepted with a buffer of %u: %s", N, k.c_str());
        else if (r && len > N) mc::fail("a name of %zu characters is accepted into a buffer of %u: %s", len, N, k.c_str());
        else if (!r && ix >= 0 && len < N) mc::fail("refused (%s) with a buffer of %u: %s", err.c_str(), N, pr(doc).c_str());
        else if (r && !(kind == 2 && FMT == 0)) { for (int i = 0; i < 16; ++i) if (*field(c, i) != (i == ix ? 5 : kind == 3 && i == 0 ? 1 : 0)) { mc::fail("the wrong field is set (%d of %d): %s", i, ix, pr(doc).c_str()); break; } }
        else if (r && int(en) != ix) mc::fail("the wrong value (%d of %d): %s", int(en), ix, pr(doc).c_str());
    } }); }
#endif
int main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) mc::g().thorough = 1;
#   if GRP == 0
        build();
        T_(short[1]); T_(short[2]); T_(short[3]); T_(short[4]); T_(short2x2); T_(unsigned char[3]); T_(signed char[2]); T_(long long[2]); T_(short[16]); T_(short[23]); T_(short[24]); T_(short[255]); T_(short[256]); T_(short[300]);
        T_(std::array<short C_ 0>); T_(std::array<short C_ 1>); T_(std::array<short C_ 3>); T_(std::array<std::array<short C_ 2> C_ 2>); T_(std::array<short[2] C_ 2>); T_(std::array<unsigned char C_ 3>); T_(std::array<short C_ 24>);
        T_(std::bitset<0>); T_(std::bitset<1>); T_(std::bitset<3>); T_(std::bitset<8>); T_(std::bitset<9>); T_(std::bitset<16>); T_(std::bitset<24>);
        T_(std::pair<short C_ short>); T_(std::pair<short[1] C_ short>); T_(std::tuple<>); T_(std::tuple<short>); T_(std::tuple<short C_ short C_ short>); T_(std::tuple<short C_ std::tuple<short>>); T_(std::complex<double>);
        T_(bc::static_vector<short C_ 1>); T_(bc::static_vector<short C_ 3>); T_(bc::static_vector<bc::static_vector<short C_ 2> C_ 2>); T_(bc::static_vector<unsigned char C_ 3>); T_(bc::static_vector<short C_ 24>); T_(bc::static_vector<short C_ 255>);
        #       if FMT == 0
            T_(S); T_(std::pair<short C_ S>); T_(std::tuple<S C_ short>); T_(char); T_(char16_t); T_(char32_t); T_(char[1]); T_(char[2]); T_(char[3]); T_(char[4]); T_(char[5]); T_(char[9]); T_(char[16]); T_(char[24]); T_(char[300]); T_(char2x3); T_(char16_t[1]); T_(char16_t[2]); T_(char16_t[3]); T_(char16_t[10]); T_(char32_t[1]); T_(char32_t[2]); T_(char32_t[8]); T_(std::array<char C_ 3>); T_(S[2]); T_(std::array<S C_ 2>); T_(bc::static_vector<S C_ 2>); T_(bc::static_vector<char C_ 3>); T_(std::tuple<char C_ char[2]>); T_(std::pair<char[2] C_ char[3]>); T_(std::array<char[2] C_ 2>);
#       endif
#       if __cplusplus >= 202002L
            T_(Sp<short C_ 1 C_ false>); T_(Sp<short C_ 3 C_ false>); T_(Sp<short C_ 0 C_ true>); T_(Sp<short C_ 1 C_ true>); T_(Sp<short C_ 3 C_ true>); T_(Sp<short C_ 24 C_ true>); T_(Sp<unsigned char C_ 3 C_ true>); T_(Sp<unsigned char C_ 4 C_ false>); T_(Sp<short[2] C_ 2 C_ true>);
#       endif
#   elif GRP == 1
#       if FMT == 0
            NUMS(int); NUMS(long long); NUMS(unsigned char); NUMS(double); NUMS(float); NUMS(unsigned long long);
#       endif
        ids<1>(); ids<2>(); ids<3>(); ids<4>(); ids<5>(); ids<8>(); ids<9>(); ids<15>(); ids<16>(); ids<17>(); ids<31>(); ids<32>(); ids<33>(); ids<63>(); ids<64>(); ids<65>(); ids<66>(); ids<99>(); ids<100>(); ids<101>(); ids<128>();
#   endif
    return mc::main(argc, argv);
}
