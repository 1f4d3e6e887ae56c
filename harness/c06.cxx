// C06: what the CBOR writer produces, for nodes and for C++ values: one well-formed item that denotes the value, with the
// shortest heads, and that reads back equal.
#include "cxon/cbor.hxx"
#include "cxon/lib/node.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/string_view.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/list.hxx"
#include "cxon/lib/std/forward_list.hxx"
#include "cxon/lib/std/deque.hxx"
#include "cxon/lib/std/array.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/set.hxx"
#include "cxon/lib/std/unordered_map.hxx"
#include "cxon/lib/std/tuple.hxx"
#include "cxon/lib/std/utility.hxx"
#include "cxon/lib/std/optional.hxx"
#include "cxon/lib/std/variant.hxx"
#include "cxon/lib/std/bitset.hxx"
#include "cxon/lib/std/complex.hxx"
#include "cxon/lib/std/valarray.hxx"
#include "cxon/lib/std/memory.hxx"
#include "cxon/lib/std/chrono.hxx"
#include "nodeval.hxx"
using ref::Val; using ref::Dec;
using CB = cxon::CBOR<>;

static bool wellformed(const std::string& o, Val& v) {
    const unsigned char *b = (const unsigned char*)o.data(), *e = b + o.size();
    Dec d{b, e}; d.count = true;
    if (d.item(v) != ref::ok || d.b != e || d.simple2) { mc::fail("output is not one well-formed item: %s", mc::hex(o.substr(0, 200)).c_str()); return false; }
    bool s = true; const unsigned char* q = ref::cbor_shortest(b, e, s);
    if (q != e) { mc::fail("output is not of definite length: %s", mc::hex(o.substr(0, 200)).c_str()); return false; }
    if (!s) { mc::fail("output uses a longer head than needed: %s", mc::hex(o.substr(0, 200)).c_str()); return false; }
    mc::outcome(mc::hash(o.data(), std::min<size_t>(o.size(), 3)));
    return true;
}
template <typename T>
static bool written(const T& t, const Val& want, std::string& o) {
    mc::trace();
    auto r = cxon::to_bytes<CB>(o, t);
    if (!r) { mc::fail("write failed (%s): %s", r.ec.message().c_str(), ref::dump(want).substr(0, 300).c_str()); return false; }
    Val v; if (!wellformed(o, v)) return false;
    if (!ref::equal(v, want)) { mc::fail("output denotes %s instead of %s", ref::dump(v).substr(0, 300).c_str(), ref::dump(want).substr(0, 300).c_str()); return false; }
    if (mc::g().slot->evals % 20000 == 3) mc::sample(ref::dump(want).substr(0, 150) + " -> " + mc::hex(o.substr(0, 100)));
    return true;
}
// ---- nodes
static void node_case(const Val& v) {
    auto n = nv::to_cbor<cxon::cbor::node>(v);
    std::string o; if (!written(n, v, o)) return;
    // through every other way to write: iterator and range, with the same bytes
    std::string o2(o.size(), '\0'); auto r2 = cxon::to_bytes<CB>(&o2[0], &o2[0] + o2.size(), n);
    if (!r2 || r2.end != &o2[0] + o2.size() || o2 != o) mc::fail("range output differs");
    std::vector<unsigned char> o3; auto r3 = cxon::to_bytes<CB>(std::back_inserter(o3), n);
    if (!r3 || std::string(o3.begin(), o3.end()) != o) mc::fail("iterator output differs");
    cxon::cbor::node m; auto r = cxon::from_bytes<CB>(m, o.data(), o.data() + o.size());
    if (!r) { mc::fail("cannot be read back (%s): %s", r.ec.message().c_str(), mc::hex(o.substr(0, 200)).c_str()); return; }
    if (r.end != o.data() + o.size()) { mc::fail("reading back stops early"); return; }
    Val w = nv::from_cbor(m);
    if (!ref::equal(v, w)) { mc::fail("reads back as %s instead of %s", ref::dump(w).substr(0, 300).c_str(), ref::dump(v).substr(0, 300).c_str()); return; }
    std::string o4; if (!cxon::to_bytes<CB>(o4, m) || o4 != o) mc::fail("writing what was read back gives other bytes");
    mc::state(mc::hash(o));
}
static void node_run(const char* label, const Val& v) { if (mc::at(label, ref::dump(v))) node_case(v); }
static const double NaN = std::numeric_limits<double>::quiet_NaN(), INF = std::numeric_limits<double>::infinity();
static std::vector<uint64_t> bounds() {
    std::vector<uint64_t> r; for (uint64_t i = 0; i <= 300; ++i) r.push_back(i);
    for (int k = 8; k < 64; ++k) for (int d = -3; d <= 3; ++d) r.push_back((uint64_t(1) << k) + uint64_t(int64_t(d)));
    for (int d = 0; d < 4; ++d) r.push_back(~uint64_t(0) - d);
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r;
}
static std::string pat(size_t n) { std::string s(n, 'a'); for (size_t i = 0; i < n; ++i) s[i] = char('a' + i % 26); return s; }
static std::string raw(size_t n) { std::string s(n, 'a'); for (size_t i = 0; i < n; ++i) s[i] = char(i * 37 + (i >> 8)); return s; }

// ---- typed values
template <typename T> static bool same(const T& a, const T& b) { return a == b; }
static bool same(double a, double b) { return ref::same_real(a, b); }
static bool same(float a, float b) { return ref::same_real(a, b); }
template <typename T>
static void typed(const char* label, const std::string& id, const T& t, const Val& want) {
    if (!mc::at(label, id)) return;
    std::string o; if (!written(t, want, o)) return;
    T u{}; auto r = cxon::from_bytes<CB>(u, o.data(), o.data() + o.size());
    if (!r) { mc::fail("cannot be read back (%s): %s", r.ec.message().c_str(), mc::hex(o.substr(0, 200)).c_str()); return; }
    if (r.end != o.data() + o.size()) mc::fail("reading back stops early: %s", mc::hex(o.substr(0, 200)).c_str());
    if (!same(t, u)) mc::fail("reads back as another value: %s", mc::hex(o.substr(0, 200)).c_str());
    std::string o2(o.size(), '\0'); auto r2 = cxon::to_bytes<CB>(&o2[0], &o2[0] + o2.size(), t);
    if (!r2 || r2.end != &o2[0] + o2.size() || o2 != o) mc::fail("range output differs");
}
template <typename T> static Val int_val(T t) { return t < 0 ? Val::I(uint64_t(-1 - (long long)t)) : Val::U(uint64_t(t)); }
template <typename T> static void ints(const char* name) {
    mc::add(std::string("integers/") + name, [=] {
        auto one = [=](T t) {
            bool ch = std::is_same<T, char>::value || std::is_same<T, wchar_t>::value; // characters are written as their unsigned code
            Val v = ch ? Val::U(uint64_t(typename std::make_unsigned<T>::type(t))) : int_val(t);
            typed(name, std::to_string((long long)t), t, v);
        };
        if (sizeof(T) <= 2) for (long x = long(std::numeric_limits<T>::min()); x <= long(std::numeric_limits<T>::max()); ++x) one(T(x));
        else for (uint64_t b : bounds()) { if (b <= uint64_t(std::numeric_limits<T>::max())) { one(T(b)); if (std::is_signed<T>::value) one(T(-1 - (long long)b)); } }
    });
}
template <typename T> static void chars(const char* name) {
    mc::add(std::string("characters/") + name, [=] { for (uint64_t b : bounds()) if (b <= uint64_t(std::numeric_limits<T>::max())) typed(name, std::to_string(b), T(b), Val::U(b)); });
}
template <typename C> static Val arr_of(const C& c) { Val v = Val::A(); for (auto x : c) v.a.push_back(int_val((long long)x)); return v; }

struct enum_holder {};

int main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "--thorough") mc::g().thorough = 1;
    bool T = mc::thorough();
    { // every tree
        static ref::Trees t;
        t.leaves = { Val::U(0), Val::U(24), Val::I(0), Val::T(""), Val::T("a"), Val::Y(std::string("\0", 1)), Val::B(false), Val::N(), Val::D(), Val::R(-0.0), Val::S(19) };
        t.keys = { Val::U(1), Val::T("k"), Val::Y("k") }; t.tags = { 0, 24 };
        for (size_t n = 1; n <= (T ? 5u : 4u); ++n) { t.of(n); size_t parts = n < 4 ? 1 : n == 4 ? 32 : 256; for (size_t p = 0; p < parts; ++p) mc::add(mc::fmt("trees%zu/%zu", n, p), [=] { auto& x = t.of(n); for (size_t i = p; i < x.size(); i += parts) node_run("tree", x[i]); }); }
        static ref::Trees w;
        w.leaves = { Val::U(23), Val::T("b") }; w.keys = { Val::U(0), Val::I(0), Val::A(), Val::N() }; w.tags = { 23 };
        for (size_t n = 5; n <= (T ? 7u : 6u); ++n) { w.of(n); for (size_t p = 0; p < 32; ++p) mc::add(mc::fmt("trees-thin%zu/%zu", n, p), [=] { auto& x = w.of(n); for (size_t i = p; i < x.size(); i += 32) node_run("tree", x[i]); }); }
    }
    mc::add("node/integers", [] { for (uint64_t b : bounds()) { node_run("uint", Val::U(b)); if (b < (1ull << 63)) node_run("sint", Val::I(b)); node_run("tag", Val::G(b, Val::N())); node_run("tag", Val::G(b, Val::G(b, Val::A()))); Val a = Val::A(); a.a = { Val::U(b), Val::U(b) }; node_run("in", a); Val m = Val::M(); m.a = { Val::U(b), Val::G(b, Val::U(b)) }; node_run("in", m); } });
    mc::add("node/sint", [] { // non-negative values held as signed integers
        for (uint64_t b : bounds()) if (b < (1ull << 63) && mc::at("sint", std::to_string(b))) {
            cxon::cbor::node n; n.imbue<cxon::cbor::node::sint>() = (long long)b; std::string o; written(n, Val::U(b), o); } });
    mc::add("node/simple", [] { for (int v = 0; v < 256; ++v) {
        if (v < 20 || v > 31) { node_run("simple", Val::S(v)); Val a = Val::A(); a.a = { Val::S(v), Val::S(v) }; node_run("simple", a); node_run("simple", Val::G(1, Val::S(v))); }
        else if (v != 24 && mc::at("simple-bad", std::to_string(v))) { // no encoding: must be refused
            auto n = nv::to_cbor<cxon::cbor::node>(Val::S(v)); std::string o; auto r = cxon::to_bytes<CB>(o, n); if (r) mc::fail("simple value %d written as %s", v, mc::hex(o).c_str()); } } });
    mc::add("node/reals", [] {
        for (uint64_t x = 0; x < 4096; ++x) for (uint64_t m : {0ull, 1ull, 0x8000000000000ull, 0x8000000000001ull, 0xFFFFFFFFFFFFFull, 0x5555555555555ull, 0xFFFFFE0000000ull, 0xFFC0000000000ull, 0x20000000ull, 0x10000000ull}) { uint64_t v = x << 52 | m; double d; memcpy(&d, &v, 8); node_run("real", Val::R(d)); }
        for (double d : { 0.0, 1.5, 65504.0, 65520.0, 1e300, 5e-324, 0.1, 3.4028234663852886e38, 1e-45, NaN, INF, -INF }) { Val a = Val::A(); a.a = { Val::R(d), Val::R(-d) }; node_run("real", a); node_run("real", Val::G(4, Val::R(d))); }
    });
    mc::add("node/sizes", [] {
        for (size_t n : [] { std::vector<size_t> r; for (size_t i = 0; i <= 300; ++i) r.push_back(i); for (size_t i : { 1000, 65534, 65535, 65536, 65537, 70000 }) r.push_back(i); return r; }()) {
            node_run("text", Val::T(pat(n))); node_run("bytes", Val::Y(raw(n)));
            Val a = Val::A(), m = Val::M(); for (size_t i = 0; i < n; ++i) { a.a.push_back(Val::U(i)); m.a.push_back(Val::U(i)); m.a.push_back(Val::I(i)); }
            node_run("array", a); node_run("map", m);
            if (n <= 300) { Val x = Val::A(); x.a = { Val::T(pat(n)), a, Val::Y(raw(n)), m, Val::U(n) }; node_run("mix", x); Val y = Val::M(); y.a = { Val::T(pat(n)), m, a, Val::T(pat(n)), Val::Y(raw(n)), a }; node_run("mix", y); }
        }
    });
    mc::add("node/deep", [] { for (size_t n = 1; n < 64; ++n) for (int p = 0; p < 9; ++p) { Val v = Val::U(7); for (size_t i = 0; i < n; ++i) { int k = (i % 2 ? p / 3 : p % 3); if (k == 0) { Val a = Val::A(); a.a.push_back(v); v = a; } else if (k == 1) { Val m = Val::M(); m.a = { Val::T("k"), v }; v = m; } else v = Val::G(300, v); } node_run("deep", v); } });
    mc::add("node/keys", [] { std::vector<Val> k = { Val::U(0), Val::U(24), Val::I(0), Val::T(""), Val::T("a"), Val::Y(""), Val::Y("a"), Val::A(), Val::M(), Val::G(0, Val::U(0)), Val::G(1, Val::U(0)), Val::B(false), Val::B(true), Val::N(), Val::D(), Val::R(0), Val::R(1), Val::S(1), Val::S(40) };
        for (auto& a : k) for (auto& b : k) for (auto& c : k) { Val m = Val::M(); m.a = { a, c }; if (ref::dump(a) != ref::dump(b)) { m.a.push_back(b); m.a.push_back(a); } node_run("keys", m); Val q = Val::A(); q.a = { a, b, c }; node_run("seq", q); } });
    // typed
    ints<signed char>("schar"); ints<unsigned char>("uchar"); ints<char>("char"); ints<short>("short"); ints<unsigned short>("ushort"); ints<int>("int"); ints<unsigned>("uint"); ints<long>("long"); ints<unsigned long>("ulong"); ints<long long>("llong"); ints<unsigned long long>("ullong"); ints<wchar_t>("wchar");
    chars<char16_t>("char16"); chars<char32_t>("char32");
#if defined(__cpp_char8_t)
    chars<char8_t>("char8");
#endif
    mc::add("typed/float", [] { for (uint32_t x = 0; x < 512; ++x) for (uint32_t m : {0u, 1u, 2u, 0x3FFFFFu, 0x400000u, 0x400001u, 0x7FFFFEu, 0x7FFFFFu, 0x555555u, 0x2AAAAAu, 0x1FFFu, 0x2000u, 0x2001u}) { uint32_t v = x << 23 | m; float f; memcpy(&f, &v, 4); typed("float", std::to_string(v), f, Val::R(double(f))); } });
    mc::add("typed/double", [] { for (uint64_t x = 0; x < 4096; ++x) for (uint64_t m : {0ull, 1ull, 0x8000000000000ull, 0xFFFFFFFFFFFFFull, 0x5555555555555ull, 0xFFFFFE0000000ull, 0xFFC0000000000ull}) { uint64_t v = x << 52 | m; double f; memcpy(&f, &v, 8); typed("double", std::to_string(v), f, Val::R(f)); } });
    mc::add("typed/misc", [] {
        typed("bool", "0", false, Val::B(false)); typed("bool", "1", true, Val::B(true)); typed("nullptr", "", nullptr, Val::N());
        typed("chrono", "s", std::chrono::seconds(-5), Val::I(4)); typed("complex", "", std::complex<double>(1, -2), [] { Val v = Val::A(); v.a = { Val::R(1), Val::R(-2) }; return v; }());
        for (auto x : { 0, 23, 24, -1, 100000 }) { std::unique_ptr<int> p(new int(x)); if (mc::at("unique", std::to_string(x))) { std::string o; written(p, int_val(x), o); std::unique_ptr<int> q; auto r = cxon::from_bytes<CB>(q, o); if (!r || !q || *q != x) mc::fail("unique_ptr does not read back"); } }
        { std::unique_ptr<int> p; if (mc::at("unique", "null")) { std::string o; written(p, Val::N(), o); std::unique_ptr<int> q(new int(1)); auto r = cxon::from_bytes<CB>(q, o); if (!r || q) mc::fail("null unique_ptr does not read back"); } }
        { const char* s = nullptr; if (mc::at("cstr", "null")) { std::string o; written(s, Val::N(), o); } }
    });
    mc::add("typed/sizes", [] {
        for (size_t n : [] { std::vector<size_t> r; for (size_t i = 0; i <= 300; ++i) r.push_back(i); for (size_t i : { 65535, 65536, 70000 }) r.push_back(i); return r; }()) {
            std::string id = std::to_string(n), p = pat(n), y = raw(n);
            typed("string", id, p, Val::T(p)); 
            typed("vector<uchar>", id, std::vector<unsigned char>(y.begin(), y.end()), Val::Y(y));
            typed("vector<schar>", id, std::vector<signed char>(y.begin(), y.end()), Val::Y(y));
            typed("vector<char>", id, std::vector<char>(p.begin(), p.end()), Val::T(p));
            if (mc::at("string_view", id)) { std::string o; written(std::string_view(p), Val::T(p), o); }
            if (mc::at("const char*", id)) { std::string o; const char* c = p.c_str(); written(c, Val::T(p + std::string(1, '\0')), o); } // the terminator belongs to the text (documented by the tests)
            std::vector<int> vi; std::vector<bool> vb; std::list<long> li; std::forward_list<int> fl; std::deque<unsigned short> dq; std::map<int, unsigned> mp; std::set<unsigned> st; std::unordered_map<unsigned, int> um; std::u16string u16; std::u32string u32; std::wstring ws; std::valarray<int> va(n);
            for (size_t i = 0; i < n; ++i) { vi.push_back(int(i * 7) - 100); vb.push_back(i % 3 == 0); li.push_back(-long(i)); dq.push_back((unsigned short)i); mp[int(i) - 30] = unsigned(i); st.insert(unsigned(i)); um[unsigned(i)] = int(i); u16 += char16_t(i); u32 += char32_t(i * 3); ws += wchar_t(i); va[i] = int(i); }
            fl.assign(vi.begin(), vi.end());
            Val b = Val::A(); for (bool x : vb) b.a.push_back(Val::B(x));
            Val m = Val::M(); for (auto& x : mp) { m.a.push_back(int_val(x.first)); m.a.push_back(int_val(x.second)); }
            Val u = Val::M(); for (auto& x : um) { u.a.push_back(int_val(x.first)); u.a.push_back(int_val(x.second)); }
            typed("vector<int>", id, vi, arr_of(vi)); typed("vector<bool>", id, vb, b); typed("list", id, li, arr_of(li)); typed("forward_list", id, fl, arr_of(fl)); typed("deque", id, dq, arr_of(dq)); typed("set", id, st, arr_of(st)); typed("map", id, mp, m); typed("unordered_map", id, um, u);
            typed("u16string", id, u16, arr_of(u16)); typed("u32string", id, u32, arr_of(u32)); typed("wstring", id, ws, arr_of(ws));
            if (mc::at("valarray", id)) { std::string o; if (written(va, arr_of(va), o)) { std::valarray<int> q; auto r = cxon::from_bytes<CB>(q, o); if (!r || q.size() != n || !std::equal(std::begin(q), std::end(q), vi.begin(), [](int, int) { return true; })) mc::fail("valarray does not read back"); else for (size_t i = 0; i < n; ++i) if (q[i] != int(i)) { mc::fail("valarray reads back as another value"); break; } } }
        }
    });
    mc::add("typed/compound", [] {
        for (int x : { 0, 1, 23, 24, 255, 256, -1, -24, -25, -257 }) for (const char* s : { "", "a", "\xC3\xA9", "0123456789012345678901234" }) {
            std::string id = std::to_string(x) + s; Val X = int_val(x), S = Val::T(s);
            auto A = [](std::initializer_list<Val> l) { Val v = Val::A(); v.a = l; return v; }; auto M = [](std::initializer_list<Val> l) { Val v = Val::M(); v.a = l; return v; };
            typed("pair", id, std::pair<int, std::string>(x, s), A({X, S})); typed("tuple", id, std::make_tuple(x, std::string(s), x < 0), A({X, S, Val::B(x < 0)})); typed("tuple", "", std::tuple<>(), A({})); typed("tuple", id, std::tuple<int>(x), A({X}));
            typed("array", id, std::array<int, 3>{{x, 0, x}}, A({X, Val::U(0), X})); typed("optional", id, std::optional<int>(x), X); typed("optional", "none", std::optional<int>(), Val::D()); /* an empty optional is undefined */
            typed("variant", id, std::variant<int, std::string>(x), A({Val::U(0), X})); typed("variant", id, std::variant<int, std::string>(std::string(s)), A({Val::U(1), S}));
            typed("map", id, std::map<std::string, std::vector<int>>{{s, {x, x}}}, M({S, A({X, X})})); typed("vector<pair>", id, std::vector<std::pair<int, std::string>>{{x, s}, {1, s}}, A({A({X, S}), A({Val::U(1), S})}));
            typed("nested", id, std::vector<std::map<int, std::vector<std::tuple<int, bool>>>>{{{x, {std::make_tuple(x, true)}}}}, A({M({X, A({A({X, Val::B(true)})})})}));
            int a[3] = {x, 1, x}; if (mc::at("array[]", id)) { std::string o; written(a, A({X, Val::U(1), X}), o); int b[3] = {9, 9, 9}; auto r = cxon::from_bytes<CB>(b, o); if (!r || memcmp(a, b, sizeof a)) mc::fail("array does not read back"); }
        }
        for (int k = 0; k < 512; ++k) { std::string y; y += char(7); y += char(k >> 8 & 1); y += char(k); typed("bitset9", std::to_string(k), std::bitset<9>(k), Val::Y(y)); }
        for (int k = 0; k < 256; ++k) { typed("bitset8", std::to_string(k), std::bitset<8>(k), Val::Y(std::string(1, '\0') + char(k))); if (k < 8) typed("bitset3", std::to_string(k), std::bitset<3>(k), Val::Y(std::string(1, '\5') + char(k))); }
        for (int k = 0; k < 65; ++k) { std::bitset<65> b; b.set(k); std::string y(10, '\0'); y[0] = 7; y[9 - k / 8] = char(1 << k % 8); typed("bitset65", std::to_string(k), b, Val::Y(y)); }
    });
    return mc::main(argc, argv);
}
