// C04: what the JSON writer produces, for nodes and for C++ values: valid JSON that denotes the value and reads back equal.
#include "cxon/json.hxx"
#include "cxon/lib/node.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/string_view.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/list.hxx"
#include "cxon/lib/std/forward_list.hxx"
#include "cxon/lib/std/deque.hxx"
#include "cxon/lib/std/array.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/set.hxx"
#include "cxon/lib/std/unordered_map.hxx"
#include "cxon/lib/std/tuple.hxx"
#include "cxon/lib/std/utility.hxx"
#include "cxon/lib/std/optional.hxx"
#include "cxon/lib/std/valarray.hxx"
#include "cxon/lib/std/memory.hxx"
#include "nodeval.hxx"
using ref::Val; using N = cxon::json::node;
static const double NaN = std::numeric_limits<double>::quiet_NaN(), INF = std::numeric_limits<double>::infinity();

static long double as_real(const Val& v) { return v.k == Val::uin ? (long double)v.u : v.k == Val::neg ? -1.0L - (long double)v.u : (long double)v.d; }
// JSON does not tell kinds of numbers apart; infinities and NaN are written as strings
static bool same(const Val& want, const Val& got) {
    if (want.k == Val::rea) {
        if (std::isfinite(want.d)) return (got.k == Val::rea || got.k == Val::uin || got.k == Val::neg) && as_real(got) == (long double)want.d;
        return got.k == Val::txt && (std::isnan(want.d) ? got.s == "nan" || got.s == "-nan" : got.s == (want.d < 0 ? "-inf" : "inf"));
    }
    if (want.k != got.k) return false;
    switch (want.k) {
        case Val::arr: if (want.a.size() != got.a.size()) return false; for (size_t i = 0; i < want.a.size(); ++i) if (!same(want.a[i], got.a[i])) return false; return true;
        case Val::map: { // order of members is free
            if (want.a.size() != got.a.size()) return false;
            for (size_t i = 0; i < want.a.size(); i += 2) { size_t j = 0; for (; j < got.a.size(); j += 2) if (ref::equal(want.a[i], got.a[j])) break; if (j == got.a.size() || !same(want.a[i + 1], got.a[j + 1])) return false; }
            return true; }
        default: return ref::equal(want, got);
    }
}
static bool neg_zero(const Val& v) { if (v.k == Val::rea && v.d == 0 && std::signbit(v.d)) return true; for (auto& x : v.a) if (neg_zero(x)) return true; return false; } // reads back as the integer 0
static std::string cut(const std::string& s) { return mc::esc(s.substr(0, 300)); }
template <typename T> static bool written(const T& t, const Val& want, std::string& o) {
    mc::trace();
    auto r = cxon::to_bytes(o, t);
    if (!r) { mc::fail("write failed (%s): %s", r.ec.message().c_str(), ref::dump(want).substr(0, 300).c_str()); return false; }
    if (!ref::json_valid(o.data(), o.data() + o.size(), false, true)) { mc::fail("output is not JSON: %s for %s", cut(o).c_str(), ref::dump(want).substr(0, 300).c_str()); return false; }
    Val v = ref::json_value(o);
    if (!same(want, v)) { mc::fail("output %s denotes something else than %s", cut(o).c_str(), ref::dump(want).substr(0, 300).c_str()); return false; }
    mc::outcome(mc::hash(o.data(), std::min<size_t>(o.size(), 3)));
    if (mc::g().slot->evals % 20000 == 3) mc::sample(ref::dump(want).substr(0, 150) + " -> " + o.substr(0, 150));
    return true;
}
static void node_case(const Val& v) {
    N n = nv::to_json<N>(v);
    std::string o; if (!written(n, v, o)) return;
    std::string o2(o.size(), '\0'); auto r2 = cxon::to_bytes(&o2[0], &o2[0] + o2.size(), n);
    if (!r2 || r2.end != &o2[0] + o2.size() || o2 != o) mc::fail("range output differs: %s", cut(o2).c_str());
    std::string o3; auto r3 = cxon::to_bytes(std::back_inserter(o3), n);
    if (!r3 || o3 != o) mc::fail("iterator output differs: %s", cut(o3).c_str());
    N m; auto r = cxon::from_bytes(m, o.data(), o.data() + o.size());
    if (!r) { mc::fail("cannot be read back (%s): %s", r.ec.message().c_str(), cut(o).c_str()); return; }
    if (r.end != o.data() + o.size()) { mc::fail("reading back stops early: %s", cut(o).c_str()); return; }
    Val w = nv::from_json(m);
    if (!same(v, w)) { mc::fail("%s reads back as %s instead of %s", cut(o).c_str(), ref::dump(w).substr(0, 300).c_str(), ref::dump(v).substr(0, 300).c_str()); return; }
    std::string o4; if (!cxon::to_bytes(o4, m) || (o4 != o && !neg_zero(v))) mc::fail("writing what was read back gives other text: %s and %s", cut(o).c_str(), cut(o4).c_str());
    mc::state(mc::hash(o));
}
static void node_run(const char* label, const Val& v) { if (mc::at(label, ref::dump(v))) node_case(v); }
static Val A(std::initializer_list<Val> l) { Val v = Val::A(); v.a = l; return v; }
static Val M(std::initializer_list<Val> l) { Val v = Val::M(); v.a = l; return v; }
// a value in every position
static void node_pos(const char* label, const Val& v) { node_run(label, v); node_run(label, A({v})); node_run(label, A({v, v})); node_run(label, A({Val::N(), v, Val::A()})); node_run(label, M({Val::T("k"), v})); node_run(label, M({Val::T("k"), v, Val::T("l"), v})); node_run(label, A({A({v}), M({Val::T(""), A({v})})})); if (v.k == Val::txt) { node_run(label, M({v, v})); node_run(label, M({v, Val::M(), Val::T("kk"), v})); } }
static std::vector<uint64_t> bounds() {
    std::vector<uint64_t> r; for (uint64_t i = 0; i <= 300; ++i) r.push_back(i);
    for (int k = 8; k < 64; ++k) for (int d = -3; d <= 3; ++d) r.push_back((uint64_t(1) << k) + uint64_t(int64_t(d)));
    for (int d = 0; d < 4; ++d) r.push_back(~uint64_t(0) - unsigned(d));
    for (uint64_t p = 10; p < 10000000000000000000ull; p *= 10) { for (int d = -2; d <= 2; ++d) r.push_back(p + uint64_t(int64_t(d))); if (p > 1844674407370955161ull) break; }
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r;
}
static std::string pat(size_t n) { std::string s(n, 'a'); for (size_t i = 0; i < n; ++i) s[i] = char('a' + i % 26); return s; }

// ---- typed values
template <typename T> static bool eq(const T& a, const T& b) { return a == b; }
static bool eq(double a, double b) { return a == b || (a != a && b != b); }
static bool eq(float a, float b) { return a == b || (a != a && b != b); }
template <typename T> static bool eq(const std::valarray<T>& a, const std::valarray<T>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return false; return true; }
template <typename T> static void typed(const char* label, const std::string& id, const T& t, const Val& want) {
    if (!mc::at(label, id)) return;
    std::string o; if (!written(t, want, o)) return;
    T u{}; auto r = cxon::from_bytes(u, o.data(), o.data() + o.size());
    if (!r) { mc::fail("cannot be read back (%s): %s", r.ec.message().c_str(), cut(o).c_str()); return; }
    if (r.end != o.data() + o.size()) mc::fail("reading back stops early: %s", cut(o).c_str());
    if (!eq(t, u)) mc::fail("reads back as another value: %s", cut(o).c_str());
    std::string o2(o.size(), '\0'); auto r2 = cxon::to_bytes(&o2[0], &o2[0] + o2.size(), t);
    if (!r2 || r2.end != &o2[0] + o2.size() || o2 != o) mc::fail("range output differs");
    std::string o3; if (!cxon::to_bytes(o3, u) || (o3 != o && !neg_zero(want) && strcmp(label, "unordered_map"))) mc::fail("writing what was read back gives other text");
}
template <typename T> static Val int_val(T t) { return t < 0 ? Val::I(uint64_t(-1 - (long long)t)) : Val::U(uint64_t(t)); }
template <typename T> static void ints(const char* name) {
    mc::add(std::string("integers/") + name, [=] {
        auto one = [=](T t) { Val v = int_val(t); std::string id = std::to_string((long long)t); typed(name, id, t, v); typed(name, id, std::vector<T>{t, t}, A({v, v})); typed(name, id, std::map<T, T>{{t, t}}, M({Val::T(t < 0 ? std::to_string((long long)t) : std::to_string((unsigned long long)t)), v})); };
        if (sizeof(T) <= 2) for (long x = long(std::numeric_limits<T>::min()); x <= long(std::numeric_limits<T>::max()); ++x) one(T(x));
        else for (uint64_t b : bounds()) { if (b <= uint64_t(std::numeric_limits<T>::max())) { one(T(b)); if (std::is_signed<T>::value) one(T(-1 - (long long)b)); } }
    });
}
template <typename C> static Val arr_of(const C& c) { Val v = Val::A(); for (auto x : c) v.a.push_back(int_val((long long)x)); return v; }

int main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "--thorough") mc::g().thorough = 1;
    bool T = mc::thorough();
    {
        static ref::Trees t;
        t.leaves = { Val::U(0), Val::U(~0ull), Val::I(0), Val::I(0x7FFFFFFFFFFFFFFFull), Val::T(""), Val::T("a"), Val::T("\"\\\n"), Val::B(false), Val::B(true), Val::N(), Val::R(0.5), Val::R(-1e300) };
        t.keys = { Val::T(""), Val::T("\""), Val::T("k") };
        for (size_t n = 1; n <= (T ? 5u : 4u); ++n) { t.of(n); size_t parts = n < 4 ? 1 : n == 4 ? 32 : 256; for (size_t p = 0; p < parts; ++p) mc::add(mc::fmt("trees%zu/%zu", n, p), [=] { auto& x = t.of(n); for (size_t i = p; i < x.size(); i += parts) node_run("tree", x[i]); }); }
        static ref::Trees w;
        w.leaves = { Val::U(1), Val::T("b") }; w.keys = { Val::T("k"), Val::T("l") };
        for (size_t n = 5; n <= (T ? 8u : 7u); ++n) { w.of(n); for (size_t p = 0; p < 32; ++p) mc::add(mc::fmt("trees-thin%zu/%zu", n, p), [=] { auto& x = w.of(n); for (size_t i = p; i < x.size(); i += 32) node_run("tree", x[i]); }); }
    }
    mc::add("node/integers", [] { for (uint64_t b : bounds()) { node_pos("uint", Val::U(b)); if (b < (1ull << 63)) { node_pos("sint", Val::I(b)); if (mc::at("sint+", std::to_string(b))) { N n; n.imbue<N::sint>() = (long long)b; std::string o; written(n, Val::U(b), o); } } } });
    for (int q = 0; q < 8; ++q) mc::add(mc::fmt("node/reals/%d", q), [=] {
        for (uint64_t x = uint64_t(q); x < 4096; x += 8) for (uint64_t m : {0ull, 1ull, 0x8000000000000ull, 0x8000000000001ull, 0xFFFFFFFFFFFFFull, 0x5555555555555ull, 0xFFFFFE0000000ull, 0xFFC0000000000ull, 0x20000000ull, 0x10000000ull}) { uint64_t v = x << 52 | m; double d; memcpy(&d, &v, 8); node_run("real", Val::R(d)); if (m < 2) { node_run("real", A({Val::R(d), Val::R(-d)})); node_run("real", M({Val::T("r"), Val::R(d)})); } }
        if (q == 0) { for (int i = -2000; i <= 2000; ++i) { node_run("real", Val::R(i)); node_run("real", Val::R(i / 8.0)); node_run("real", Val::R(i / 100.0)); } double p = 1; for (int i = 0; i < 30; ++i, p *= 10) for (int d = -3; d <= 3; ++d) { node_run("real", Val::R(p + d)); node_run("real", Val::R(-p + d)); } for (double d : { NaN, INF, -INF, 0.0, -0.0, 1e-300, 5e-324, 1.7976931348623157e308 }) node_pos("real", Val::R(d)); }
    });
    mc::add("node/strings", [] {
        for (unsigned c = 0; c < 0x110000; ++c) if (!(c >= 0xD800 && c < 0xE000) && (c < 0x900 || c % 251 == 0 || (c & 0xFFFF) >= 0xFFF0 || (c >= 0xD7F0 && c < 0xE010) || (c >= 0x2020 && c < 0x2030))) node_run("char", Val::T(ref::utf8(c)));
        for (unsigned c = 0; c < 0x82; ++c) { node_pos("char", Val::T(ref::utf8(c))); for (unsigned d = 0; d < 0x82; ++d) node_run("pair", M({Val::T(ref::utf8(c) + ref::utf8(d)), Val::T(ref::utf8(d) + ref::utf8(c))})); }
        for (size_t n = 0; n <= 80; ++n) { node_pos("length", Val::T(pat(n))); for (size_t i = 0; i < n; ++i) for (const char* x : { "\"", "\\", "\x01", "\x1F", "\x7F", "\xC3\xA9", "\xF0\x9F\x98\x80", "/" }) { Val v = Val::T(pat(i) + x + pat(n - i - 1)); node_run("position", v); if (n % 8 < 2) node_run("position", M({v, v})); } }
        for (size_t n : { 100, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 70000 }) for (const char* x : { "", "\"", "\xE2\x82\xAC" }) node_run("long", A({Val::T(pat(n) + x), Val::T(x + pat(n)), M({Val::T(x + pat(n)), Val::U(1)})}));
    });
    mc::add("node/sizes", [] {
        for (size_t n : [] { std::vector<size_t> r; for (size_t i = 0; i <= 300; ++i) r.push_back(i); for (size_t i : { 1000, 5000 }) r.push_back(i); return r; }()) {
            Val a = Val::A(), m = Val::M(); for (size_t i = 0; i < n; ++i) { a.a.push_back(Val::U(i)); m.a.push_back(Val::T("k" + std::to_string(i))); m.a.push_back(Val::I(i)); }
            node_run("array", a); node_run("object", m); if (n <= 100) { node_run("mix", A({a, m, a})); node_run("mix", M({Val::T("a"), m, Val::T("b"), a})); }
        }
    });
    mc::add("node/deep", [] { for (size_t n = 1; n < 64; ++n) for (int p = 0; p < 16; ++p) { Val v = p & 4 ? Val::U(7) : Val::A(); for (size_t i = 0; i < n; ++i) v = (i % 2 ? p & 1 : p >> 1 & 1) ? A({v}) : M({Val::T("k"), v}); if (ref::depth(v) < 63) node_run("deep", p & 8 ? A({v, v}) : v); else if (ref::depth(v) == 63) node_run("deep", v); } });
    mc::add("node/keys", [] { // keys that are not strings have no JSON: refused, or at least never written as something that is not JSON
        std::vector<Val> k = { Val::U(0), Val::I(0), Val::R(0.5), Val::B(true), Val::N(), Val::A(), Val::M(), A({Val::U(1)}) };
        for (auto& x : k) for (auto& y : { Val::U(1), Val::A() }) for (int in = 0; in < 3; ++in) { Val m = M({x, y}); if (in == 1) m = A({m}); if (in == 2) m = M({Val::T("a"), m}); if (!mc::at("key", ref::dump(m))) continue; mc::trace(); std::string o; auto r = cxon::to_bytes(o, nv::to_json<N>(m)); if (r && !ref::json_valid(o.data(), o.data() + o.size())) mc::fail("wrote %s", cut(o).c_str()); }
        std::vector<std::string> s = { "", "a", "b", "\"", "\\", "\n", "\x01", "\xC3\xA9", "\xF0\x9F\x98\x80", "\x7F", "a\"", "\"a", std::string("\0", 1), pat(31) + "\"", pat(70) };
        for (auto& a : s) for (auto& b : s) for (auto& v : { Val::T("x"), Val::M(), Val::A(), Val::N() }) node_run("keys", a == b ? M({Val::T(a), v}) : M({Val::T(a), v, Val::T(b), v}));
    });
    ints<signed char>("schar"); ints<unsigned char>("uchar"); ints<short>("short"); ints<unsigned short>("ushort"); ints<int>("int"); ints<unsigned>("uint"); ints<long>("long"); ints<unsigned long>("ulong"); ints<long long>("llong"); ints<unsigned long long>("ullong");
    mc::add("typed/float", [] { for (uint32_t x = 0; x < 512; ++x) for (uint32_t m : {0u, 1u, 2u, 0x3FFFFFu, 0x400000u, 0x400001u, 0x7FFFFEu, 0x7FFFFFu, 0x555555u, 0x2AAAAAu, 0x1FFFu, 0x2000u, 0x2001u}) { uint32_t v = x << 23 | m; float f; memcpy(&f, &v, 4); if (mc::at("float", std::to_string(v))) { mc::trace(); std::string o, p; auto r = cxon::to_bytes(o, f); float g = 3; auto q = cxon::from_bytes(g, o); if (!r || !q || !eq(f, g) || (f != 0 && std::signbit(f) != std::signbit(g) && f == f) || !ref::json_valid(o.data(), o.data() + o.size()) || !cxon::to_bytes(p, g) || o != p) mc::fail("%s", cut(o).c_str()); } } });
    mc::add("typed/double", [] { for (uint64_t x = 0; x < 4096; ++x) for (uint64_t m : {0ull, 1ull, 0x8000000000000ull, 0xFFFFFFFFFFFFFull, 0x5555555555555ull, 0xFFFFFE0000000ull, 0xFFC0000000000ull}) { uint64_t v = x << 52 | m; double f; memcpy(&f, &v, 8); if (x == 2047 || x == 4095) f = std::copysign(m ? NaN : INF, f); typed("double", std::to_string(v), f, Val::R(f)); } });
    mc::add("typed/misc", [] {
        typed("bool", "0", false, Val::B(false)); typed("bool", "1", true, Val::B(true)); typed("nullptr", "", nullptr, Val::N());
        for (int c = 0; c < 128; ++c) { typed("char", std::to_string(c), char(c), Val::T(std::string(1, char(c)))); typed("char16", std::to_string(c), char16_t(c), Val::T(std::string(1, char(c)))); typed("char32", std::to_string(c), char32_t(c), Val::T(std::string(1, char(c)))); }
        for (auto x : { 0, 23, -1, 100000 }) if (mc::at("unique", std::to_string(x))) { std::unique_ptr<int> p(new int(x)), q; std::string o; written(p, int_val(x), o); auto r = cxon::from_bytes(q, o); if (!r || !q || *q != x) mc::fail("unique_ptr does not read back"); }
        if (mc::at("unique", "null")) { std::unique_ptr<int> p, q(new int(1)); std::string o; written(p, Val::N(), o); auto r = cxon::from_bytes(q, o); if (!r || q) mc::fail("null unique_ptr does not read back"); }
        if (mc::at("cstr", "null")) { const char* s = nullptr; std::string o; written(s, Val::N(), o); }
    });
    mc::add("typed/sizes", [] {
        for (size_t n : [] { std::vector<size_t> r; for (size_t i = 0; i <= 300; ++i) r.push_back(i); r.push_back(5000); return r; }()) {
            std::string id = std::to_string(n), p = pat(n); std::u16string u16; std::u32string u32; std::wstring ws; for (char c : p) { u16 += char16_t(c); u32 += char32_t(c); ws += wchar_t(c); }
            typed("string", id, p, Val::T(p)); typed("u16string", id, u16, Val::T(p)); typed("u32string", id, u32, Val::T(p)); typed("wstring", id, ws, Val::T(p));
            if (mc::at("string_view", id)) { std::string o; written(std::string_view(p), Val::T(p), o); }
            if (mc::at("const char*", id)) { std::string o; const char* c = p.c_str(); written(c, Val::T(p), o); }
            std::vector<int> vi; std::vector<bool> vb; std::list<long> li; std::deque<unsigned short> dq; std::map<std::string, unsigned> mp; std::map<int, std::string> mi; std::set<unsigned> st; std::unordered_map<std::string, int> um; std::valarray<int> va(n); std::vector<std::string> vs; std::vector<std::vector<int>> vv;
            for (size_t i = 0; i < n; ++i) { vi.push_back(int(i * 7) - 100); vb.push_back(i % 3 == 0); li.push_back(-long(i)); dq.push_back((unsigned short)i); mp["k" + std::to_string(i)] = unsigned(i); mi[int(i) - 30] = pat(i % 20); st.insert(unsigned(i)); um["k" + std::to_string(i)] = int(i); va[i] = int(i); vs.push_back(pat(i % 40)); vv.push_back(std::vector<int>(i % 4, int(i))); }
            std::forward_list<int> fl(vi.begin(), vi.end());
            Val b = Val::A(); for (bool x : vb) b.a.push_back(Val::B(x)); Val s = Val::A(); for (auto& x : vs) s.a.push_back(Val::T(x)); Val w = Val::A(); for (auto& x : vv) w.a.push_back(arr_of(x));
            Val m = Val::M(); for (auto& x : mp) { m.a.push_back(Val::T(x.first)); m.a.push_back(int_val(x.second)); }
            Val q = Val::M(); for (auto& x : mi) { q.a.push_back(Val::T(std::to_string(x.first))); q.a.push_back(Val::T(x.second)); }
            Val u = Val::M(); for (auto& x : um) { u.a.push_back(Val::T(x.first)); u.a.push_back(int_val(x.second)); }
            typed("vector<int>", id, vi, arr_of(vi)); typed("vector<bool>", id, vb, b); typed("list", id, li, arr_of(li)); typed("forward_list", id, fl, arr_of(fl)); typed("deque", id, dq, arr_of(dq)); typed("set", id, st, arr_of(st)); typed("map", id, mp, m); typed("map<int>", id, mi, q); typed("unordered_map", id, um, u); typed("valarray", id, va, arr_of(va)); typed("vector<string>", id, vs, s); typed("vector<vector>", id, vv, w);
        }
    });
    mc::add("typed/compound", [] {
        for (int x : { 0, 1, -1, 2147483647, -2147483647 - 1 }) for (const char* s : { "", "a", "\"", "\\\n", "\xC3\xA9", "\xF0\x9F\x98\x80", "0123456789012345678901234" }) {
            std::string id = std::to_string(x) + s; Val X = int_val(x), S = Val::T(s);
            typed("pair", id, std::pair<int, std::string>(x, s), A({X, S})); typed("tuple", id, std::make_tuple(x, std::string(s), x < 0), A({X, S, Val::B(x < 0)})); typed("tuple", "", std::tuple<>(), A({})); typed("tuple", id, std::tuple<int>(x), A({X}));
            typed("array", id, std::array<int, 3>{{x, 0, x}}, A({X, Val::U(0), X})); typed("optional", id, std::optional<int>(x), X);
            typed("map", id, std::map<std::string, std::vector<int>>{{s, {x, x}}}, M({S, A({X, X})})); typed("vector<pair>", id, std::vector<std::pair<int, std::string>>{{x, s}, {1, s}}, A({A({X, S}), A({Val::U(1), S})}));
            typed("nested", id, std::vector<std::map<std::string, std::vector<std::tuple<int, bool>>>>{{{s, {std::make_tuple(x, true)}}}, {}}, A({M({S, A({A({X, Val::B(true)})})}), M({})}));
            int a[3] = {x, 1, x}; if (mc::at("array[]", id)) { std::string o; written(a, A({X, Val::U(1), X}), o); int b[3] = {9, 9, 9}; auto r = cxon::from_bytes(b, o); if (!r || memcmp(a, b, sizeof a)) mc::fail("array does not read back"); }
            char c[8] = "ab\"\\c"; if (mc::at("char[]", id)) { std::string o; c[0] = s[0] > 0 ? s[0] : 'z'; written(c, Val::T(std::string(c, 7)), o); /* all but the last character, which is the terminator */ char d[8]; memset(d, 1, 8); auto r = cxon::from_bytes(d, o); if (!r || memcmp(c, d, 8)) mc::fail("char array does not read back"); }
        }
    });
    return mc::main(argc, argv);
}
