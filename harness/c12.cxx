// C12: mappings of classes and enums: members in every order, missing, repeated, unknown, skipped; defaults; what is written.
#include "targets.hxx"
#include <list>
#ifndef FMT
#   define FMT 0
#endif
#if FMT == 1
    using X = cxon::CBOR<>; using XR = X;
#   define REC(T, ...) CXON_CBOR_CLS(T, __VA_ARGS__)
#   define REC_M(T, ...) CXON_CBOR_CLS_MEMBER(T, __VA_ARGS__)
#   define REC_R(T, ...) CXON_CBOR_CLS_READ(T, __VA_ARGS__)
#   define REC_W(T, ...) CXON_CBOR_CLS_WRITE(T, __VA_ARGS__)
#   define F_(f) CXON_CBOR_CLS_FIELD_ASIS(f)
#   define N_(n, f) CXON_CBOR_CLS_FIELD_NAME(n, f)
#   define S_(n) CXON_CBOR_CLS_FIELD_SKIP(n)
#   define FD_(f, ...) CXON_CBOR_CLS_FIELD_ASIS_DFLT(f, __VA_ARGS__)
#   define ND_(n, f, ...) CXON_CBOR_CLS_FIELD_NAME_DFLT(n, f, __VA_ARGS__)
    using Sink = cxon::cbor::sink<std::basic_string<char>>; using RErr = cxon::cbor::read_error; using WErr = cxon::cbor::write_error;
#else
    namespace t12 { template <typename B> struct repeat : B { static constexpr bool assume_unique_object_keys = false; }; }
#   if FMT == 0
        using X = cxon::JSON<>; using XR = cxon::JSON<t12::repeat<cxon::json::format_traits>>;
#   else
        using X = cxon::CXCF<>; using XR = cxon::CXCF<t12::repeat<cxon::cxcf::format_traits>>;
#   endif
#   define REC(T, ...) CXON_JSON_CLS(T, __VA_ARGS__)
#   define REC_M(T, ...) CXON_JSON_CLS_MEMBER(T, __VA_ARGS__)
#   define REC_R(T, ...) CXON_JSON_CLS_READ(T, __VA_ARGS__)
#   define REC_W(T, ...) CXON_JSON_CLS_WRITE(T, __VA_ARGS__)
#   define F_(f) CXON_JSON_CLS_FIELD_ASIS(f)
#   define N_(n, f) CXON_JSON_CLS_FIELD_NAME(n, f)
#   define S_(n) CXON_JSON_CLS_FIELD_SKIP(n)
#   define FD_(f, ...) CXON_JSON_CLS_FIELD_ASIS_DFLT(f, __VA_ARGS__)
#   define ND_(n, f, ...) CXON_JSON_CLS_FIELD_NAME_DFLT(n, f, __VA_ARGS__)
    using Sink = cxon::cio::val::sink<std::string>; using RErr = cxon::json::read_error; using WErr = cxon::json::write_error;
#endif
using ref::Val;

// ---- classes.  In: nested
struct In { int p = -5; int q = -6; };
REC(In, F_(p), N_("pq", q))
// six fields, keys with common prefixes, two skipped members in between
struct M { int a = -1; std::string b = "~"; std::vector<int> c = {7}; In e; bool f = true; double ab = -2.5; };
REC(M, F_(a), N_("bb", b), S_("s"), F_(c), F_(e), F_(f), S_("sk"), F_(ab))
// the same with member functions
struct MM { int a = -1; std::string b = "~"; std::vector<int> c = {7}; In e; bool f = true; double ab = -2.5; REC_M(MM, F_(a), N_("bb", b), S_("s"), F_(c), F_(e), F_(f), S_("sk"), F_(ab)) };
// defaults: left out when written
struct D { int a = 0; std::string b; int z = 0; unsigned g = 3; int h = 0; };
REC(D, FD_(a, self.a == 0), ND_("bb", b, self.b.empty()), F_(z), S_("s"), FD_(g, self.g == 3 || self.a == 1), FD_(h, self.h > 1))
// all of them left out, the first and the last skipped
struct E { int a = 0; int h = 0; };
REC(E, S_("s"), FD_(a, self.a == 0), FD_(h, self.h == 0), S_("t"))
// separate mappings for reading and writing
struct RW { int a = -1; int h = -2; };
REC_R(RW, F_(a), S_("c"), F_(h))
REC_W(RW, N_("c", h), F_(a), N_("h", h))
// a static member, a captured one
struct St { static int s; Sink raw; int a = -1; };
int St::s = -3;
REC(St, F_(s), F_(raw), F_(a))
// one field, and none but a skipped one
struct One { int a = -1; };
REC(One, F_(a))
struct Sk { int a = -1; };
REC(Sk, S_("s"))
// long keys: 62 and 61 characters
struct L { int a = -1; int b = -1; };
#define K62 "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz0123456789"
#define K61 "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz012345678"
REC(L, N_(K62, a), N_(K61, b))
// keys with characters that are escaped in JSON
#if FMT != 2
#   define NT1 "q\"\\"
#   define NT2 "\n\x01"
#else
#   define NT1 "q=\\"
#   define NT2 "k 1"
#endif
struct Nt { int a = -1; int b = -1; int c = -1; int d = -1; };
#if FMT != 1
    CXON_JSON_CLS_NONTRIVIAL_KEY(Nt)
    struct NtM { int a = -1; int b = -1; int c = -1; int d = -1; CXON_JSON_CLS_NONTRIVIAL_KEY_MEMBER() REC_M(NtM, N_(NT1, a), N_(NT2, b), N_("\xC3\xA9", c), N_("q", d)) };
#endif
REC(Nt, N_(NT1, a), N_(NT2, b), N_("\xC3\xA9", c), N_("q", d))
#if FMT == 2
    struct Bare { int a = -1; std::string b = "~"; std::vector<int> c = {7}; In e; };
    REC(Bare, F_(a), N_("bb", b), S_("s"), F_(c), F_(e))
    CXON_JSON_CLS_BARE(Bare)
#endif
template <typename T> struct bare : std::false_type {};
#if FMT == 2
    template <> struct bare<Bare> : std::true_type {};
#endif
// ---- how they are shown
static std::string show(const In& t) { return mc::fmt("(%d,%d)", t.p, t.q); }
template <typename T> static std::string show6(const T& t) { return mc::fmt("%d|", t.a) + mc::esc(t.b) + tg::sh(t.c) + show(t.e) + tg::sh(t.f) + tg::sh(t.ab); }
static std::string show(const M& t) { return show6(t); }
static std::string show(const MM& t) { return show6(t); }
static std::string show(const D& t) { return mc::fmt("%d|", t.a) + mc::esc(t.b) + mc::fmt("|%d|%u|%d", t.z, t.g, t.h); }
static std::string show(const E& t) { return mc::fmt("%d|%d", t.a, t.h); }
static std::string show(const RW& t) { return mc::fmt("%d|%d", t.a, t.h); }
static std::string show(const One& t) { return mc::fmt("%d", t.a); }
static std::string show(const Sk& t) { return mc::fmt("%d", t.a); }
static std::string show(const L& t) { return mc::fmt("%d|%d", t.a, t.b); }
static std::string show(const Nt& t) { return mc::fmt("%d|%d|%d|%d", t.a, t.b, t.c, t.d); }
static std::string show(const St& t) { return mc::fmt("%d|%d|", St::s, t.a) + mc::esc(std::string(t.raw.value.begin(), t.raw.value.end())); }
#if FMT != 1
    static std::string show(const NtM& t) { return mc::fmt("%d|%d|%d|%d", t.a, t.b, t.c, t.d); }
#endif
#if FMT == 2
    static std::string show(const Bare& t) { return mc::fmt("%d|", t.a) + mc::esc(t.b) + tg::sh(t.c) + show(t.e); }
#endif
template <typename T> static bool complete(const T&) { return true; }
static bool complete(const St& t) { return !t.raw.value.empty(); } // what was captured is written as it is
template <typename T> static void reset(T&) {}
static void reset(St&) { St::s = -3; }
// ---- the model: what a member of a name does
template <typename T> struct Fld { std::string key; std::vector<Val> vals; std::function<void(T&, const Val&)> set; std::function<Val(const T&)> get; std::function<bool(const T&)> dflt; }; // no set: skipped; no get: not written
static int i_(const Val& v) { return v.k == Val::neg ? int(-1 - (long long)v.u) : int(v.u); }
static Val v_(long long i) { return i < 0 ? Val::I(uint64_t(-1 - i)) : Val::U(uint64_t(i)); }
static Val vs_(const std::vector<int>& c) { Val v = Val::A(); for (int i : c) v.a.push_back(v_(i)); return v; }
static Val vin_(const In& t) { Val v = Val::M(); v.a = { Val::T("p"), v_(t.p), Val::T("pq"), v_(t.q) }; return v; }
static Val map_(std::initializer_list<std::pair<const char*, Val>> l) { Val v = Val::M(); for (auto& x : l) { v.a.push_back(Val::T(x.first)); v.a.push_back(x.second); } return v; }
static void in_(In& t, const Val& v) { for (size_t k = 0; k < v.a.size(); k += 2) (v.a[k].s == "p" ? t.p : t.q) = i_(v.a[k + 1]); }
static const std::vector<Val>& ints() { static const std::vector<Val> v = { v_(5), v_(-70000) }; return v; }
template <typename T> static Fld<T> skip_(const std::string& k) { return { k, { Val::N(), vs_({ 1, 2 }), Val::T("}]\"") }, nullptr, nullptr, nullptr }; }
#define INT(TT, k, f) Fld<TT>{ k, ints(), [](TT& t, const Val& v) { t.f = i_(v); }, [](const TT& t) { return v_(t.f); }, nullptr }
#define STR(TT, k, f) Fld<TT>{ k, { Val::T("x"), Val::T("") }, [](TT& t, const Val& v) { t.f += v.s; }, [](const TT& t) { return Val::T(t.f); }, nullptr }
#define VEC(TT, k, f) Fld<TT>{ k, { vs_({ 1, 2 }), vs_({}) }, [](TT& t, const Val& v) { for (auto& x : v.a) t.f.push_back(i_(x)); }, [](const TT& t) { return vs_(t.f); }, nullptr }
#define INN(TT, k, f) Fld<TT>{ k, { map_({ { "pq", v_(8) } }), map_({ { "pq", v_(1) }, { "p", v_(2) } }), map_({}) }, [](TT& t, const Val& v) { in_(t.f, v); }, [](const TT& t) { return vin_(t.f); }, nullptr }
template <typename T> struct Def;
template <typename T> static std::vector<Fld<T>> six() {
    return { INT(T, "a", a), STR(T, "bb", b), skip_<T>("s"), VEC(T, "c", c), INN(T, "e", e),
             Fld<T>{ "f", { Val::B(false), Val::B(true) }, [](T& t, const Val& v) { t.f = v.u != 0; }, [](const T& t) { return Val::B(t.f); }, nullptr }, skip_<T>("sk"),
             Fld<T>{ "ab", { Val::R(0.5), Val::R(-1e9 - 0.25) }, [](T& t, const Val& v) { t.ab = v.d; }, [](const T& t) { return Val::R(t.ab); }, nullptr } };
}
template <> struct Def<M> { static std::vector<Fld<M>> f() { return six<M>(); } };
template <> struct Def<MM> { static std::vector<Fld<MM>> f() { return six<MM>(); } };
template <> struct Def<D> { static std::vector<Fld<D>> f() {
    std::vector<Fld<D>> v = { INT(D, "a", a), STR(D, "bb", b), INT(D, "z", z), skip_<D>("s"), INT(D, "g", g), INT(D, "h", h) };
    v[0].vals = v[5].vals = { v_(0), v_(1), v_(2) }; v[4].vals = { v_(3), v_(4) };
    v[0].dflt = [](const D& t) { return t.a == 0; }; v[1].dflt = [](const D& t) { return t.b.empty(); }; v[4].dflt = [](const D& t) { return t.g == 3 || t.a == 1; }; v[5].dflt = [](const D& t) { return t.h > 1; };
    return v; } };
template <> struct Def<E> { static std::vector<Fld<E>> f() {
    std::vector<Fld<E>> v = { skip_<E>("s"), INT(E, "a", a), INT(E, "h", h), skip_<E>("t") };
    v[1].vals = v[2].vals = { v_(0), v_(1) }; v[1].dflt = [](const E& t) { return t.a == 0; }; v[2].dflt = [](const E& t) { return t.h == 0; };
    return v; } };
template <> struct Def<RW> { static std::vector<Fld<RW>> f() { return { INT(RW, "a", a), skip_<RW>("c"), INT(RW, "h", h) }; } };
template <> struct Def<One> { static std::vector<Fld<One>> f() { return { INT(One, "a", a) }; } };
template <> struct Def<Sk> { static std::vector<Fld<Sk>> f() { return { skip_<Sk>("s") }; } };
template <> struct Def<L> { static std::vector<Fld<L>> f() { return { INT(L, K62, a), INT(L, K61, b) }; } };
template <typename T> static std::vector<Fld<T>> nt() { return { INT(T, NT1, a), INT(T, NT2, b), INT(T, "\xC3\xA9", c), INT(T, "q", d) }; }
template <> struct Def<Nt> { static std::vector<Fld<Nt>> f() { return nt<Nt>(); } };
static std::string text(const Val& v, int ws = 0, int es = 0);
static const std::vector<Val>& raws() { static const std::vector<Val> v = { Val::N(), v_(12345), vs_({ 1, 2 }), Val::T("}]\""), map_({ { "s", v_(1) } }) }; return v; }
static Val captured(const std::string& s) { for (auto& v : raws()) if (text(v) == s) return v; return Val::T("nothing captured"); }
template <> struct Def<St> { static std::vector<Fld<St>> f() {
    return { Fld<St>{ "s", ints(), [](St&, const Val& v) { St::s = i_(v); }, [](const St&) { return v_(St::s); }, nullptr },
             Fld<St>{ "raw", raws(), [](St& t, const Val& v) { auto s = text(v); for (char c : s) t.raw.value.push_back(c); }, [](const St& t) { return captured(t.raw.value); }, nullptr },
             INT(St, "a", a) }; } };
#if FMT != 1
    template <> struct Def<NtM> { static std::vector<Fld<NtM>> f() { return nt<NtM>(); } };
#endif
#if FMT == 2
    template <> struct Def<Bare> { static std::vector<Fld<Bare>> f() { return { INT(Bare, "a", a), STR(Bare, "bb", b), skip_<Bare>("s"), VEC(Bare, "c", c), INN(Bare, "e", e) }; } };
#endif

// ---- texts of values: ws 0..3 white space between tokens, es 1: first character of every string escaped, 2: all (CBOR: ws is the width of the heads, es: 1 tagged, 2 indefinite strings)
#if FMT == 1
    static void whead(std::string& o, unsigned mt, uint64_t v, int w) {
        unsigned m = v < 24 ? 0 : v < 256 ? 1 : v < 65536 ? 2 : v < (uint64_t(1) << 32) ? 3 : 4; unsigned k = std::max<unsigned>(m, unsigned(w));
        if (k == 0) { o += char(mt << 5 | v); return; }
        o += char(mt << 5 | (23 + k)); for (unsigned n = 1u << (k - 1); n-- > 0; ) o += char(v >> (8 * n));
    }
    static void put(std::string& o, const Val& v, int ws, int es) {
        if (es == 1 && v.k != Val::boo && v.k != Val::nul) whead(o, 6, 24, ws);
        switch (v.k) {
            case Val::uin: whead(o, 0, v.u, ws); break;
            case Val::neg: whead(o, 1, v.u, ws); break;
            case Val::byt: case Val::txt: { unsigned mt = v.k == Val::byt ? 2 : 3;
                if (es == 2) { o += char(mt << 5 | 31); for (char c : v.s) { whead(o, mt, 1, ws); o += c; } whead(o, mt, 0, ws); o += '\xFF'; } else { whead(o, mt, v.s.size(), ws); o += v.s; } break; }
            case Val::arr: case Val::map: { unsigned mt = v.k == Val::arr ? 4 : 5;
                if (es == 2 && v.k == Val::arr) { o += char(mt << 5 | 31); for (auto& x : v.a) put(o, x, ws, es); o += '\xFF'; } else { whead(o, mt, v.a.size() >> (v.k == Val::map), ws); for (auto& x : v.a) put(o, x, ws, es); } break; }
            default: o += ref::cbor_encode(v);
        }
    }
    static std::string text(const Val& v, int ws, int es) { std::string o; put(o, v, ws, es); return o; }
    static const int WS = 5, ES = 3;
#else
    static const char* const wss[] = { "", " ", "\r\n\t ", FMT == 2 ? " /*x*/ // y\n" : "    ", " /*]}\"**/ //]}\"/*\n" };
    static const int WS = FMT == 2 ? 5 : 4, ES = 3;
    static std::string q_(const std::string& s, int es) {
        std::string o = "\"";
        for (size_t k = 0; k < s.size(); ++k) { unsigned char c = (unsigned char)s[k];
            if (c < 0x80 && (es == 2 || (es == 1 && k == 0) || c < 0x20)) o += mc::fmt(k % 2 ? "\\u%04x" : "\\u%04X", c);
            else if (c == '"' || c == '\\') { o += '\\'; o += char(c); } else o += char(c);
        }
        return o + "\"";
    }
    static std::string key_(const std::string& s, int es) {
#       if FMT == 2
            { std::string o; for (char c : s) { if (strchr("\"\\={}[] ", c)) o += '\\'; o += c; } return o; }
#       endif
        return q_(s, es);
    }
    static void put(std::string& o, const Val& v, int ws, int es) {
        const char* w = wss[ws]; const char* sep = FMT == 2 ? (ws ? "" : " ") : ",";
        switch (v.k) {
            case Val::nul: o += "null"; break;
            case Val::boo: o += v.u ? "true" : "false"; break;
            case Val::uin: o += std::to_string(v.u); break;
            case Val::neg: o += std::to_string(-1 - (long long)v.u); break;
            case Val::rea: o += mc::fmt("%.17g", v.d); break;
            case Val::txt: o += q_(v.s, es); break;
            case Val::arr: o += '['; o += w; for (size_t k = 0; k < v.a.size(); ++k) { if (k) { o += sep; o += w; } put(o, v.a[k], ws, es); if (FMT != 2 || ws < 3) o += w; } o += w; o += ']'; break;
            case Val::map: o += '{'; o += w; for (size_t k = 0; k < v.a.size(); k += 2) { if (k) { o += sep; o += w; } o += key_(v.a[k].s, es); o += w; o += FMT == 2 ? '=' : ':'; o += w; put(o, v.a[k + 1], ws, es); o += w; } o += w; o += '}'; break;
            default: break;
        }
    }
    static std::string text(const Val& v, int ws, int es) { std::string o; put(o, v, ws, es); return o; }
#endif
template <typename T> static std::string doc(const Val& v, int ws, int es) {
    std::string s = text(v, ws, es);
    if (!bare<T>::value) return s;
    return s.substr(1, s.size() - 2);
}
// what reading object v must give; false: refused
template <typename T> static bool model(const std::vector<Fld<T>>& fs, T& t, const Val& v, bool uniq) {
    std::vector<char> seen(fs.size());
    if (FMT == 1 && v.a.size() / 2 > fs.size()) return false;
    for (size_t k = 0; k < v.a.size(); k += 2) {
        size_t j = 0; while (j < fs.size() && fs[j].key != v.a[k].s) ++j;
        if (j == fs.size() || (uniq && seen[j])) return false;
        seen[j] = 1; if (fs[j].set) fs[j].set(t, v.a[k + 1]);
    }
    return true;
}
template <typename Y, typename T, typename I> static void read_one(const std::vector<Fld<T>>& fs, const Val& v, I b, I e, size_t n, const std::string& in, const char* kind) {
    T want; reset(want); bool ok = model(fs, want, v, FMT == 1 || std::is_same<Y, X>::value); std::string w = show(want);
    T t; reset(t); mc::trace(); auto r = cxon::from_bytes<Y>(t, b, e);
    std::string g = show(t);
    if (!r != !ok) { mc::fail("%s: %s (%s): %s", kind, ok ? "refused" : "accepted", r.ec.message().c_str(), mc::esc(in).substr(0, 400).c_str()); return; }
    size_t used = size_t(std::distance(b, r.end));
    if (ok) {
        if (g != w) mc::fail("%s: got %s instead of %s: %s", kind, g.c_str(), w.c_str(), mc::esc(in).substr(0, 400).c_str());
        if (used != n) mc::fail("%s: ends at %zu of %zu: %s", kind, used, n, mc::esc(in).substr(0, 400).c_str());
    }
    else if (&r.ec.category() != &make_error_condition(RErr::ok).category()) mc::fail("%s: error of another category: %s", kind, mc::esc(in).substr(0, 400).c_str());
    mc::outcome(mc::hash(g, r.ec.value()));
}
template <typename Y, typename T> static void read_all(const char* label, const std::vector<Fld<T>>& fs, const Val& v, int ws, int es, bool lists) {
    std::string in = doc<T>(v, ws, es);
    if (!mc::at(label, in)) return;
    mc::state(mc::hash(in)); mc::transition();
    const char* p = mc::guard().put(in);
    read_one<Y, T>(fs, v, p, p + in.size(), in.size(), in, "pointers");
    if (lists) { std::list<char> l(in.begin(), in.end()); read_one<Y, T>(fs, v, l.cbegin(), l.cend(), in.size(), in, "list"); }
    if (mc::g().slot->evals % 30000 == 3) mc::sample(mc::esc(in).substr(0, 150));
}
template <typename T> static void both(const char* label, const std::vector<Fld<T>>& fs, const Val& v, int ws, int es, bool lists) {
    read_all<X, T>(label, fs, v, ws, es, lists);
    if (!std::is_same<X, XR>::value) read_all<XR, T>((std::string("repeated ") + label).c_str(), fs, v, ws, es, false);
}
// ---- every ordered subset of the fields
template <typename T> static void orders(Val& v, std::vector<char>& used, const std::vector<Fld<T>>& fs, unsigned turn, size_t max) {
    read_all<X, T>("order", fs, v, 0, 0, v.a.size() <= 8);
    if (v.a.size() == 2 * max) return;
    for (size_t k = 0; k < fs.size(); ++k) if (!used[k]) {
        used[k] = 1; v.a.push_back(Val::T(fs[k].key)); v.a.push_back(fs[k].vals[(turn + v.a.size() / 2) % fs[k].vals.size()]);
        orders(v, used, fs, turn, max);
        v.a.resize(v.a.size() - 2); used[k] = 0;
    }
}
// ---- every sequence of members, repeated and unknown ones among them
template <typename T> static void seqs(Val& v, const std::vector<std::pair<std::string, Val>>& al, const std::vector<Fld<T>>& fs, int left) {
    both<T>("sequence", fs, v, 0, 0, left > 0);
    if (left) for (auto& x : al) { v.a.push_back(Val::T(x.first)); v.a.push_back(x.second); seqs(v, al, fs, left - 1); v.a.resize(v.a.size() - 2); }
}
template <typename T> static std::vector<std::pair<std::string, Val>> members(const std::vector<Fld<T>>& fs, size_t vals, bool unknown) {
    std::vector<std::pair<std::string, Val>> al; std::set<std::string> u;
    for (auto& f : fs) { for (size_t k = 0; k < std::min(vals, f.vals.size()); ++k) al.push_back({ f.key, f.vals[k] });
        u.insert(f.key + "x"); u.insert(f.key.substr(0, f.key.size() - 1)); std::string s = f.key; s.back() = char(s.back() ^ 1); u.insert(s); s = f.key; s[0] = char(s[0] ^ 0x20); u.insert(s); u.insert("x" + f.key); }
    if (unknown) for (auto& s : u) { bool k = false; for (auto& f : fs) k = k || f.key == s; if (!k && ref::utf8_valid(s) && !(FMT == 2 && s.empty()) && !(FMT == 2 && (unsigned char)s[0] <= 0x20)) al.push_back({ s, v_(3) }); }
    return al;
}
// ---- writing
template <typename T> static Val wanted(const std::vector<Fld<T>>& fs, const T& t) { Val v = Val::M(); for (auto& f : fs) if (f.get && !(f.dflt && f.dflt(t))) { v.a.push_back(Val::T(f.key)); v.a.push_back(f.get(t)); } return v; }
static Val norm(const Val& v) { // as the reference reads it: integral reals are reals
    Val w = v; for (auto& x : w.a) x = norm(x);
#   if FMT == 1
        if (w.k == Val::map) for (size_t k = 0; k < w.a.size(); k += 2) if (!w.a[k].s.empty() && w.a[k].s.back() == '\0') w.a[k].s.pop_back(); // keys are written with their terminator
#   endif
    return w;
}
template <typename Y, typename T> static void write_one(const std::vector<Fld<T>>& fs, const T& t, bool readback, const Val* want0 = nullptr) {
    Val want = want0 ? *want0 : wanted(fs, t); std::string o; mc::trace();
    auto r = cxon::to_bytes<Y>(o, t); std::string d = ref::dump(want);
    if (!r) { mc::fail("write failed (%s): %s", r.ec.message().c_str(), d.c_str()); return; }
#   if FMT == 0
        if (!ref::json_valid(o.data(), o.data() + o.size())) { mc::fail("not JSON: %s", mc::esc(o).c_str()); return; }
        Val got = ref::json_value(o);
        if (ref::dump(got) != d && !ref::equal(got, want)) mc::fail("written %s instead of %s", mc::esc(o).c_str(), d.c_str());
#   elif FMT == 1
        Val got; const unsigned char* b = (const unsigned char*)o.data(); ref::Dec dc{ b, b + o.size() };
        if (dc.item(got) != ref::ok || dc.b != b + o.size()) { mc::fail("not one item: %s", mc::hex(o).c_str()); return; }
        if (ref::dump(norm(got)) != d) mc::fail("written %s instead of %s", ref::dump(norm(got)).c_str(), d.c_str());
#   endif
    if (readback) {
        T u, w; reset(u); const char* p = mc::guard().put(o); auto rr = cxon::from_bytes<Y>(u, p, p + o.size());
        std::string g = show(u); reset(w); bool ok = model(fs, w, want, true); std::string ws = show(w);
        if (!rr || size_t(rr.end - p) != o.size()) mc::fail("cannot be read back (%s): %s", rr.ec.message().c_str(), mc::esc(o).c_str());
        else if (ok && g != ws) mc::fail("reads back as %s instead of %s: %s", g.c_str(), ws.c_str(), mc::esc(o).c_str());
    }
    mc::outcome(mc::hash(o));
}
// objects made by members of every combination of values
template <typename T> static void objects(size_t k, Val& v, const std::vector<Fld<T>>& fs) {
    if (k == fs.size()) {
        T t; reset(t); model(fs, t, v, false); if (!complete(t)) return;
        if (!mc::at("write", text(v))) return;
        mc::state(mc::hash(show(t))); mc::transition();
        write_one<X, T>(fs, t, true); if (!std::is_same<X, XR>::value) write_one<XR, T>(fs, t, true);
        reset(t); return;
    }
    objects(k + 1, v, fs);
    if (fs[k].set) for (auto& x : fs[k].vals) { v.a.push_back(Val::T(fs[k].key)); v.a.push_back(x); objects(k + 1, v, fs); v.a.resize(v.a.size() - 2); }
}
template <typename T> static void add_class(const char* name, size_t depth, size_t max, bool write = true) {
    static const auto fs = Def<T>::f(); std::string n = name;
    for (unsigned turn = 0; turn < 3; ++turn) for (size_t k = 0; k < fs.size(); ++k) mc::add(n + mc::fmt("/orders/%u.%zu", turn, k), [=] {
        Val v = Val::M(); if (!k) read_all<X, T>("order", fs, v, 0, 0, true); std::vector<char> used(fs.size()); used[k] = 1; v.a = { Val::T(fs[k].key), fs[k].vals[turn % fs[k].vals.size()] }; orders(v, used, fs, turn, max); });
    static const auto al = members(fs, 2, true); static const auto al1 = members(fs, 1, true);
    for (size_t k = 0; k < al1.size(); ++k) mc::add(n + mc::fmt("/members/%zu", k), [=] { Val v = Val::M(); v.a = { Val::T(al1[k].first), al1[k].second }; seqs(v, al1, fs, int(depth) - 1); });
    mc::add(n + "/spelling", [=] {
        for (int ws = 0; ws < WS; ++ws) for (int es = 0; es < ES; ++es) { Val v = Val::M(); both<T>("spelling", fs, v, ws, es, true);
            for (auto& x : al) for (auto& y : al) for (int l = 1; l < 3; ++l) { v.a = { Val::T(x.first), x.second }; if (l > 1) { v.a.push_back(Val::T(y.first)); v.a.push_back(y.second); } 
                if (FMT == 1 && es) { bool sk = false; for (auto& f : fs) if (!f.get && (f.key == x.first || f.key == y.first)) sk = true; if (sk) continue; } // known: tags and chunks in skipped members
                if ((ws || es) && std::is_same<T, St>::value && (x.first == "raw" || y.first == "raw")) continue; // captured as spelled
                both<T>("spelling", fs, v, ws, es, true); } }
    });
    if (write) mc::add(n + "/write", [=] { Val v = Val::M(); objects(0, v, fs); });
}
// ---- skipped members of every value
static ref::Trees trees() {
    ref::Trees t; t.keys = { Val::T("bb"), Val::T("s}") };
    t.leaves = { Val::N(), Val::U(0), Val::T(""), Val::T("\"]},\\"), Val::I(1000) };
#   if FMT == 1
        t.leaves.push_back(Val::Y(std::string("\xFF\x00\x81", 3))); t.leaves.push_back(Val::R(1.5)); t.leaves.push_back(Val::S(200)); t.leaves.push_back(Val::D()); t.leaves.push_back(Val::U(uint64_t(1) << 33)); t.keys.push_back(Val::U(7));
#   else
        t.leaves.push_back(Val::T("\\\"/*")); t.leaves.push_back(Val::R(-1.5e30)); t.leaves.push_back(Val::B(false));
#   endif
    return t;
}
template <typename T> static void skips(const char* name, size_t N) {
    static const auto fs = Def<T>::f();
    for (size_t n = 1; n <= N; ++n) for (int part = 0; part < (n < 4 ? 1 : 16); ++part) mc::add(std::string(name) + mc::fmt("/skipped/%zu.%d", n, part), [=] {
        auto tr = trees(); auto& l = tr.of(n);
        for (size_t k = size_t(part); k < l.size(); k += (n < 4 ? 1 : 16)) for (int ws = 0; ws < (n < 4 ? WS : 2); ++ws) {
            Val v = Val::M(); 
            v.a = { Val::T("s"), l[k] }; read_all<X, T>("skip alone", fs, v, ws, 0, n < 4);
            v.a = { Val::T("a"), v_(4), Val::T("s"), l[k], Val::T("bb"), Val::T("y") }; read_all<X, T>("skip between", fs, v, ws, 0, n < 4);
            v.a = { Val::T("s"), l[k], Val::T("a"), v_(4) }; read_all<X, T>("skip first", fs, v, ws, 0, false);
            v.a = { Val::T("a"), v_(4), Val::T("s"), l[k] }; read_all<X, T>("skip last", fs, v, ws, 0, false);
            v.a = { Val::T("s"), l[k], Val::T("q"), v_(4) }; read_all<X, T>("skip, unknown", fs, v, ws, 0, false);
        }
    });
}
// ---- structure: every sequence of tokens that can begin an object of a and bb, extended by every token
#if FMT == 0
    // states: 0 start, 1 after {, 2 after key, 3 after :, 4 after value, 5 after ",", 6 end
    static void toks(std::string& s, int st, const std::string& key, Val& v, int left, bool sp) {
        static const char* const tk[] = { "{", "}", ",", ":", "\"a\"", "\"bb\"", "1", "\"x\"", "\"s\"", "[", "]", "null", "\"q\"" };
        static const auto fs = Def<M>::f();
        for (auto t : tk) {
            std::string k = t[0] == '"' ? std::string(t + 1, strlen(t) - 2) : std::string(); int ns = -1; bool refuse = false; Val w = v; std::string nk = key;
            switch (st) {
                case 0: if (*t == '{') ns = 1; break;
                case 1: if (*t == '}') ns = 6; else if (*t == '"') { ns = 2; nk = k; } break;
                case 5: if (*t == '"') { ns = 2; nk = k; } break;
                case 2: if (*t == ':') ns = 3; break;
                case 3: if ((key == "a" && *t == '1') || (key == "bb" && *t == '"') || (key == "s" && (*t == '"' || *t == '1' || *t == 'n'))) { ns = 4; w.a.push_back(Val::T(key)); w.a.push_back(key == "a" ? v_(1) : key == "bb" ? Val::T(k) : Val::N()); } break;
                case 4: if (*t == '}') ns = 6; else if (*t == ',') ns = 5; break;
            }
            if (ns == 3 && (key == "x" || key == "q")) refuse = true; // unknown
            size_t z = s.size(); s += t; if (sp) s += ' ';
            std::string in = s; if (!mc::at("structure", in)) { s.resize(z); continue; }
            mc::state(mc::hash(in)); mc::transition(); mc::trace();
            const char* p = mc::guard().put(in); M m; auto r = cxon::from_bytes<X>(m, p, p + in.size());
            M u0; bool ok = ns == 6 && model(fs, u0, w, true);
            if (!r != !ok) mc::fail("%s (%s): %s", ok ? "refused" : "accepted", r.ec.message().c_str(), mc::esc(in).c_str());
            else if (ok) { M u; model(fs, u, w, true); if (show(m) != show(u)) mc::fail("got %s instead of %s: %s", show(m).c_str(), show(u).c_str(), mc::esc(in).c_str()); if (r.end != p + in.size() - sp) mc::fail("ends at %td: %s", r.end - p, mc::esc(in).c_str()); }
            if (ns >= 0 && ns < 6 && !refuse && left) toks(s, ns, nk, w, left - 1, sp);
            s.resize(z);
        }
    }
#elif FMT == 1
    static void toks(std::string& s, int left) {
        static const std::vector<std::string> tk = { "\xA0", "\xA1", "\xA2", "\xA3", "\xBF", "\x61" "a", "\x62" "bb", "\x61s", "\x61q", "\x01", "\x60", "\xFF", "\xF6", "\xC1", "\x80" };
        static const auto fs = Def<M>::f();
        for (auto& t : tk) {
            size_t z = s.size(); s += t;
            const unsigned char* b = (const unsigned char*)s.data(); ref::Dec d{ b, b + s.size() }; Val v; auto rc = d.item(v);
            if (mc::at("structure", s)) {
                mc::state(mc::hash(s)); mc::transition(); mc::trace();
                const char* p = mc::guard().put(s); M m; auto r = cxon::from_bytes<X>(m, p, p + s.size());
                // does the decoded item have a meaning for M
                int ok = rc == ref::ok ? 1 : 0; Val w = v; if (ok && w.k == Val::tag) { w = Val(w.a[0]); if (w.k == Val::tag) ok = 2; }
                if (ok == 1 && (w.k != Val::map)) ok = 0;
                if (ok == 1) { bool sk = false; for (size_t k = 0; k < w.a.size(); k += 2) { Val& x = w.a[k]; if (x.k != Val::txt) { ok = x.k == Val::tag ? 2 : x.k == Val::arr ? 2 : 0; break; }
                    Val& y = w.a[k + 1]; if (y.k == Val::tag) { ok = 2; break; } if (x.s == "a" && y.k != Val::uin) { ok = 0; break; } if (x.s == "bb" && y.k != Val::txt) { ok = y.k == Val::arr ? 2 : 0; break; } if (x.s == "s") sk = true; }
                    (void)sk; }
                if (s.find("\x61s") != std::string::npos && s.find('\xC1') != std::string::npos) ok = 2; // known: tags in skipped members
                if (s.find('\xBF') != std::string::npos || s.find('\xC1') != std::string::npos) { if (ok) ok = 2; } // indefinite maps need not be taken
                M u; bool mo = ok == 1 && model(fs, u, w, true);
                if (ok == 0 && r) mc::fail("accepted: %s", mc::hex(s).c_str());
                else if (ok == 1 && !r != !mo) mc::fail("%s (%s): %s", mo ? "refused" : "accepted", r.ec.message().c_str(), mc::hex(s).c_str());
                else if (ok == 1 && mo) { if (show(m) != show(u)) mc::fail("got %s instead of %s: %s", show(m).c_str(), show(u).c_str(), mc::hex(s).c_str()); if (size_t(r.end - p) != size_t(d.b - b)) mc::fail("ends at %td: %s", r.end - p, mc::hex(s).c_str()); }
            }
            if (rc != ref::ok && rc != ref::bad && left) toks(s, left - 1);
            s.resize(z);
        }
    }
#endif
// ---- enums
enum class E1 { one = 1, on = 2, ones = -3, two = 300, three = 400 };
enum E2 : unsigned char { z0 = 0, z1 = 1, z255 = 255, zx = 7 };
enum class E3 : signed char { lo = -128, hi = 127, ze = 0 };
enum class E4 : long long { lo = (-9223372036854775807LL - 1), hi = 9223372036854775807LL, m = -5000000000LL };
enum class E5 : unsigned long long { z = 0, hi = 18446744073709551615ULL, m = 4294967296ULL };
enum class E6 : unsigned short { a = 65535, b = 256, c = 24 };
#if FMT == 1
    CXON_CBOR_ENM(E1, CXON_CBOR_ENM_VALUE_NAME(1, one), CXON_CBOR_ENM_VALUE_NAME(2, on), CXON_CBOR_ENM_VALUE_NAME(-3, ones), CXON_CBOR_ENM_VALUE_NAME(70000, two))
    CXON_CBOR_ENM(E2, CXON_CBOR_ENM_VALUE_ASIS(z0), CXON_CBOR_ENM_VALUE_ASIS(z1), CXON_CBOR_ENM_VALUE_ASIS(z255))
    CXON_CBOR_ENM(E3, CXON_CBOR_ENM_VALUE_NAME(5, lo), CXON_CBOR_ENM_VALUE_NAME(127, hi))
    CXON_CBOR_ENM(E4, CXON_CBOR_ENM_VALUE_NAME((-9223372036854775807LL - 1), lo), CXON_CBOR_ENM_VALUE_NAME(9223372036854775807LL, hi), CXON_CBOR_ENM_VALUE_NAME(-5000000000LL, m))
    CXON_CBOR_ENM(E5, CXON_CBOR_ENM_VALUE_NAME(0, z), CXON_CBOR_ENM_VALUE_NAME(18446744073709551615ULL, hi), CXON_CBOR_ENM_VALUE_NAME(4294967296ULL, m))
    CXON_CBOR_ENM(E6, CXON_CBOR_ENM_VALUE_NAME(65535, a), CXON_CBOR_ENM_VALUE_NAME(256, b), CXON_CBOR_ENM_VALUE_NAME(24, c))
    template <typename E> struct EMap { std::vector<std::pair<Val, E>> m; };
    template <typename E> static void enm_read(const EMap<E>& em, const std::string& in, const Val& v, int ok) {
        if (!mc::at("enum", in)) return;
        mc::state(mc::hash(in)); mc::transition(); mc::trace();
        const char* p = mc::guard().put(in); E t = E(5); auto r = cxon::from_bytes<X>(t, p, p + in.size());
        const E* want = nullptr; if (ok) for (auto& x : em.m) if (ref::equal(x.first, v)) want = &x.second;
        if (!r != !want) { mc::fail("enum %s: %s", want ? "refused" : "accepted", mc::hex(in).c_str()); return; }
        if (want) { if (t != *want) mc::fail("enum read as %lld: %s", (long long)t, mc::hex(in).c_str()); if (size_t(r.end - p) != in.size()) mc::fail("enum: ends at %td: %s", r.end - p, mc::hex(in).c_str()); }
        else if (t != E(5)) mc::fail("enum written by a failed read: %s", mc::hex(in).c_str());
        std::list<char> l(in.begin(), in.end()); E t2 = E(5); auto r2 = cxon::from_bytes<X>(t2, l.cbegin(), l.cend()); if (!r2 != !r || t2 != t) mc::fail("enum: list differs: %s", mc::hex(in).c_str());
    }
    template <typename E> static void enm_write(const EMap<E>& em, E v) {
        if (!mc::at("enum write", mc::fmt("%lld", (long long)v))) return;
        mc::trace(); std::string o; auto r = cxon::to_bytes<X>(o, v); const Val* want = nullptr; for (auto& x : em.m) if (x.second == v) { want = &x.first; break; }
        if (!want) { if (r || r.ec != WErr::argument_invalid || !o.empty()) mc::fail("unmapped enum %lld written: %s", (long long)v, mc::hex(o).c_str()); return; }
        if (!r || o != ref::cbor_encode(*want)) mc::fail("enum %lld written as %s", (long long)v, mc::hex(o).c_str());
    }
    template <typename E> static void enums(const char* name, EMap<E> em, bool dup_ok = false) {
        (void)dup_ok;
        mc::add(std::string("enum/") + name, [=] {
            std::vector<Val> vs; for (long long i = -70005; i <= 70005; ++i) vs.push_back(v_(i));
            for (auto& x : em.m) for (int d = -3; d <= 3; ++d) { Val v = x.first; v.u += uint64_t(d); vs.push_back(v); v.k = v.k == Val::uin ? Val::neg : Val::uin; vs.push_back(v); }
            for (int k = 0; k < 64; ++k) for (int d = -1; d <= 1; ++d) { vs.push_back(Val::U((uint64_t(1) << k) + uint64_t(d))); vs.push_back(Val::I((uint64_t(1) << k) + uint64_t(d))); for (auto& x : em.m) { vs.push_back(Val::U(x.first.u + (uint64_t(1) << k))); vs.push_back(Val::I(x.first.u + (uint64_t(1) << k))); } }
            for (auto& v : vs) for (int w = 0; w < 5; ++w) { std::string in; whead(in, v.k == Val::neg, v.u, w); enm_read(em, in, v, 1); if (in.size() > 1) { in.pop_back(); enm_read(em, in, v, 0); } }
            for (auto& x : em.m) { std::string in = "\xC1"; whead(in, x.first.k == Val::neg, x.first.u, 0); enm_read(em, in, x.first, 1); }
            for (int b = 0; b < 256; ++b) if (b >= 0x40 && b < 0xC0) enm_read(em, std::string(1, char(b)), Val::N(), 0); else if (b >= 0xE0) enm_read(em, std::string(1, char(b)), Val::N(), 0);
            for (auto s : { "one", "1", "" }) enm_read(em, ref::cbor_encode(Val::T(s)), Val::N(), 0);
            for (long long i = -70005; i <= 70005; ++i) if ((long long)E(i) == i) enm_write(em, E(i));
            for (auto& x : em.m) enm_write(em, x.second);
        });
    }
    static void add_enums() {
        enums<E1>("E1", { { { v_(1), E1::one }, { v_(2), E1::on }, { v_(-3), E1::ones }, { v_(70000), E1::two } } });
        enums<E2>("E2", { { { v_(0), z0 }, { v_(1), z1 }, { v_(255), z255 } } });
        enums<E3>("E3", { { { v_(5), E3::lo }, { v_(127), E3::hi } } }); // one-byte values are bytes, see C07: no negative ones
        enums<E4>("E4", { { { Val::I(0x7FFFFFFFFFFFFFFFull), E4::lo }, { Val::U(0x7FFFFFFFFFFFFFFFull), E4::hi }, { v_(-5000000000LL), E4::m } } });
        enums<E5>("E5", { { { v_(0), E5::z }, { Val::U(~0ull), E5::hi }, { Val::U(4294967296ull), E5::m } } });
        enums<E6>("E6", { { { v_(65535), E6::a }, { v_(256), E6::b }, { v_(24), E6::c } } });
    }
#else
    CXON_JSON_ENM(E1, CXON_JSON_ENM_VALUE_ASIS(one), CXON_JSON_ENM_VALUE_ASIS(on), CXON_JSON_ENM_VALUE_NAME("ONES", ones), CXON_JSON_ENM_VALUE_NAME("", two))
    CXON_JSON_ENM(E2, CXON_JSON_ENM_VALUE_NAME("one", z0), CXON_JSON_ENM_VALUE_NAME("q\"\\\n\xC3\xA9", z1), CXON_JSON_ENM_VALUE_NAME(K62, z255))
    template <typename E> using EMap = std::vector<std::pair<std::string, E>>;
    template <typename E> static void enm_read(const EMap<E>& em, const std::string& in, const std::string* name) {
        if (!mc::at("enum", in)) return;
        mc::state(mc::hash(in)); mc::transition(); mc::trace();
        const char* p = mc::guard().put(in); E t = E(5); auto r = cxon::from_bytes<X>(t, p, p + in.size());
        const E* want = nullptr; if (name) for (auto& x : em) if (x.first == *name) want = &x.second;
        if (!r != !want) { mc::fail("enum %s: %s", want ? "refused" : "accepted", mc::esc(in).c_str()); return; }
        if (want) { if (t != *want) mc::fail("enum read as %d: %s", int(t), mc::esc(in).c_str()); if (size_t(r.end - p) != in.size()) mc::fail("enum: ends at %td: %s", r.end - p, mc::esc(in).c_str()); }
        else if (t != E(5)) mc::fail("enum written by a failed read: %s", mc::esc(in).c_str());
        std::list<char> l(in.begin(), in.end()); E t2 = E(5); auto r2 = cxon::from_bytes<X>(t2, l.cbegin(), l.cend()); if (!r2 != !r || t2 != t) mc::fail("enum: list differs: %s", mc::esc(in).c_str());
    }
    template <typename E> static void enm_map(const EMap<E>& em, const std::string& in, const std::string* name) { // as a key
        std::string s = "{" + in + (FMT == 2 ? "=" : ":") + "1}";
        if (!mc::at("enum key", s)) return;
        mc::trace(); const char* p = mc::guard().put(s); std::map<E, int> t; auto r = cxon::from_bytes<X>(t, p, p + s.size());
        const E* want = nullptr; if (name) for (auto& x : em) if (x.first == *name) want = &x.second;
        if (!r != !want) { mc::fail("enum key %s: %s", want ? "refused" : "accepted", mc::esc(s).c_str()); return; }
        if (want && (t.size() != 1 || t.begin()->first != *want || t.begin()->second != 1)) mc::fail("enum key misread: %s", mc::esc(s).c_str());
    }
    template <typename E> static void enm_write(const EMap<E>& em, E v) {
        if (!mc::at("enum write", mc::fmt("%lld", (long long)v))) return;
        mc::trace(); std::string o; auto r = cxon::to_bytes<X>(o, v); const std::string* want = nullptr; for (auto& x : em) if (x.second == v) { want = &x.first; break; }
        if (!want) { if (r || r.ec != WErr::argument_invalid || !o.empty()) mc::fail("unmapped enum %d written: %s", int(v), mc::esc(o).c_str()); return; }
        if (!r || !ref::json_valid(o.data(), o.data() + o.size()) || !ref::equal(ref::json_value(o), Val::T(*want))) { mc::fail("enum %d written as %s", int(v), mc::esc(o).c_str()); return; }
        enm_read(em, o, want);
        std::map<E, int> m; m[v] = 1; std::string k; auto rk = cxon::to_bytes<X>(k, m); std::map<E, int> n; auto rn = cxon::from_bytes<X>(n, k.data(), k.data() + k.size());
        if (FMT == 2 && (want->empty() || (*want)[0] == 'q')) return; // unquoted keys, see C20
        if (!rk || !rn || n != m) mc::fail("enum key %d does not read back: %s", int(v), mc::esc(k).c_str());
    }
    template <typename E> static void enums(const char* name, EMap<E> em) {
        mc::add(std::string("enum/") + name, [=] {
            std::vector<std::string> all; const char al[] = "onesONEStwx ";
            for (size_t n = 0, b = 0, e = 0; n <= 4; ++n) { if (!n) { all.push_back(""); b = 0; e = 1; continue; } for (size_t k = b; k < e; ++k) for (const char* c = al; *c; ++c) all.push_back(all[k] + *c); b = e; e = all.size(); }
            for (auto& x : em) { for (size_t k = 0; k <= x.first.size(); ++k) { all.push_back(x.first.substr(0, k)); all.push_back(x.first.substr(k)); for (char c : { 'a', '\n', '"', '\x7F' }) { std::string s = x.first; s.insert(k, 1, c); all.push_back(s); if (k < x.first.size()) { s = x.first; s[k] = c; all.push_back(s); } } } }
            for (auto& s : all) if (ref::utf8_valid(s)) for (int es = 0; es < 3; ++es) { std::string in = q_(s, es); enm_read(em, in, &s); if (FMT == 0) enm_map(em, in, &s); if (es == 0) { enm_read(em, " \n" + in, &s); enm_read(em, in.substr(0, in.size() - 1), nullptr); enm_read(em, in.substr(1), nullptr); } }
            for (std::string s : { "1", "0", "-1", "null", "true", "one", "[\"one\"]", "{\"one\":1}", "[]", "{}", "", " ", "\"one\\", "\"\\u", "'one'", "\"o\ne\"" }) enm_read(em, s, nullptr);
            for (size_t n = 1; n < 300; ++n) { std::string s(n, 'a'); enm_read(em, q_(s, 0), &s); s = std::string(K62) + s; enm_read(em, q_(s, 0), &s); }
            for (int i = -300; i <= 500; ++i) if ((long long)E(i) == i) enm_write(em, E(i));
        });
    }
    static void add_enums() {
        enums<E1>("E1", { { "one", E1::one }, { "on", E1::on }, { "ONES", E1::ones }, { "", E1::two } });
        enums<E2>("E2", { { "one", z0 }, { "q\"\\\n\xC3\xA9", z1 }, { K62, z255 } });
    }
#endif
// ---- known findings, and only those inputs
static void known() {
#   if FMT == 0
        for (std::string s : { std::string("{\"a\\u0000x\":1}"), std::string("{\"a\\u0000\":1}") }) if (mc::at("NUL in key", s)) { const char* p = mc::guard().put(s); M m; if (cxon::from_bytes<X>(m, p, p + s.size())) mc::fail("a key with NUL taken for the name before it"); }
        std::string s = "\"one\\u0000x\""; if (mc::at("NUL in enum", s)) { const char* p = mc::guard().put(s); E1 m; if (cxon::from_bytes<X>(m, p, p + s.size())) mc::fail("an enum name with NUL taken for the name before it"); }
#   elif FMT == 1
        std::string s("\xA1\x63" "a\0b\x01", 6); if (mc::at("NUL in key", s)) { const char* p = mc::guard().put(s); M m; if (cxon::from_bytes<X>(m, p, p + s.size())) mc::fail("a key with NUL taken for the name before it"); }
        for (std::string s : { std::string("\xA1\x61s\xC1\x01"), std::string("\xA1\x61s\x5F\x41\xFF\xFF") }) if (mc::at("skip", s)) { const char* p = mc::guard().put(s); M m; auto r = cxon::from_bytes<X>(m, p, p + s.size()); if (!r || size_t(r.end - p) != s.size()) mc::fail("a skipped member is not skipped whole"); }
#   endif
}
int main(int argc, char** argv) {
    bool T = false; for (int i = 1; i < argc; ++i) T = T || !strcmp(argv[i], "--thorough");
    mc::add("known", known);
    add_class<M>("M", T ? 4 : 3, T || FMT == 0 ? 8 : 7); add_class<MM>("MM", 2, T ? 7 : 5);
    add_class<D>("D", 3, 6); add_class<E>("E", 4, 4); add_class<One>("One", 4, 1); add_class<Sk>("Sk", 4, 1); add_class<L>("L", 4, 2); add_class<St>("St", 3, 3);
    add_class<Nt>("Nt", 3, 4);
#   if FMT != 1
        add_class<NtM>("NtM", 3, 4);
#   endif
#   if FMT == 2
        add_class<Bare>("Bare", 3, 5); skips<Bare>("Bare", T ? 4 : 3);
#   endif
    skips<M>("M", T ? 5 : 4); skips<MM>("MM", 3);
    mc::add("RW", [] {
        auto fs = Def<RW>::f();
        for (int a = -1; a < 2; ++a) for (int h = -1; h < 2; ++h) if (mc::at("read/write", std::to_string(a * 10 + h))) {
            RW t; t.a = a; t.h = h; Val w = map_({ { "c", v_(h) }, { "a", v_(a) }, { "h", v_(h) } }); write_one<X, RW>(fs, t, true, &w); }
    });
    add_class<RW>("RW/read", 3, 3, false);
#   if FMT == 0
        for (int sp = 0; sp < 2; ++sp) mc::add(mc::fmt("structure/%d", sp), [=] { std::string s; Val v = Val::M(); toks(s, 0, "", v, T ? 12 : 10, sp != 0); });
#   elif FMT == 1
        mc::add("structure", [=] { std::string s; toks(s, T ? 6 : 5); });
#   endif
    add_enums();
    return mc::main(argc, argv);
}
