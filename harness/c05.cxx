// C05: what the CBOR node reader accepts, consumes and yields, against an RFC 8949 reference decoder.
#include "cxon/cbor.hxx"
#include "cxon/lib/node.hxx"
#include "nodeval.hxx"
using ref::Val; using ref::Dec;
static const size_t depth_limit = 64;

static bool big_neg(const Val& v) { if (v.k == Val::neg && v.u > 0x7FFFFFFFFFFFFFFFull) return true; for (auto& x : v.a) if (big_neg(x)) return true; return false; }
static bool err_ok(const std::error_condition& ec) { return ec && (!strcmp(ec.category().name(), "cxon/cbor/read") || !strcmp(ec.category().name(), "cxon/node")); }

static void judge(const char* b, size_t n) {
    const char* e = b + n;
    Dec d{(const unsigned char*)b, (const unsigned char*)e}; d.count = true;
    Val v; auto st = d.item(v);
    cxon::cbor::node nd;
    auto r = cxon::from_bytes<cxon::CBOR<>>(nd, b, e);
    mc::trace();
    mc::outcome(mc::mix(uint64_t(int(nd.kind())) << 4 | (bool(r) ? 1 : 0) | uint64_t(st) << 1, uint64_t(r.ec.value())));
    std::string s = n > 64 ? mc::hex(std::string(b, 64)) + "..." : mc::hex(std::string(b, n));
    if (r.end < b || r.end > e) { mc::fail("end is outside the input"); return; }
    if (!r && !err_ok(r.ec)) mc::fail("refused without a CBOR error code (%s/%s): %s", r.ec.category().name(), r.ec.message().c_str(), s.c_str());
    if (d.simple2) return;                          // F800..F81F: reserved then forbidden; not judged
    if (st != ref::ok) {
        if (r) mc::fail("accepted %s item: %s (consumed %zu)", st == ref::bad ? "a malformed" : "a truncated", s.c_str(), size_t(r.end - b));
        return;
    }
    if (big_neg(v)) { if (r) mc::fail("accepted a negative integer below the signed range: %s", s.c_str()); return; }
    if (ref::depth(v) >= depth_limit) return;
    if (!r) { if (!d.bad_utf8) mc::fail("refused a well-formed item (%s): %s = %s", r.ec.message().c_str(), s.c_str(), ref::dump(v).substr(0, 200).c_str()); return; }
    size_t want = size_t((const char*)d.b - b), got = size_t(r.end - b);
    if (want != got) { mc::fail("consumed %zu bytes instead of %zu: %s", got, want, s.c_str()); return; }
    if (ref::has_dup_keys(v)) return;
    Val w = nv::from_cbor(nd);
    if (mc::g().slot->evals % 60000 == 11) mc::sample(s + " -> " + ref::dump(w).substr(0, 200));
    if (!ref::equal(v, w)) mc::fail("value differs: %s expected %s got %s", s.c_str(), ref::dump(v).substr(0, 300).c_str(), ref::dump(w).substr(0, 300).c_str());
}
static void run(const char* label, const std::string& s) { if (mc::at(label, s)) judge(mc::guard().put(s), s.size()); }
static void big(const char* label, const std::string& s) { if (mc::at(label, s)) { mc::Guard g(s.size() + 64); judge(g.put(s), s.size()); } }

static std::string B(std::initializer_list<int> l) { std::string s; for (int x : l) s += char(x); return s; }
static std::string wide(unsigned mt, unsigned w, uint64_t v) { // head of an explicit width, w 0..3
    std::string s(1, char(mt << 5 | (24 + w))); for (int i = (1 << w) - 1; i >= 0; --i) s += char(v >> (8 * i)); return s;
}
static std::vector<std::string> heads(unsigned mt, uint64_t v) { // every encoding of a head
    std::vector<std::string> r; if (v < 24) r.push_back(std::string(1, char(mt << 5 | v)));
    for (unsigned w = 0; w < 4; ++w) if (w == 3 || v < (uint64_t(1) << (8 << w))) r.push_back(wide(mt, w, v));
    return r;
}
static std::vector<uint64_t> bounds() {
    std::vector<uint64_t> r; for (uint64_t i = 0; i <= 300; ++i) r.push_back(i);
    for (int k = 8; k < 64; ++k) for (int d = -3; d <= 3; ++d) r.push_back((uint64_t(1) << k) + uint64_t(int64_t(d)));
    for (int d = 0; d < 4; ++d) r.push_back(~uint64_t(0) - d);
    for (uint64_t p = 1000; p < 10000000000000000000ull; p *= 10) { r.push_back(p); r.push_back(p - 1); if (p > 1844674407370955161ull) break; }
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r;
}

// every viable token prefix extended by every token
static const std::vector<std::string>& tokens(int set) {
    static const std::vector<std::string> a = { B({0x00}), B({0x20}), B({0x40}), B({0x41,'x'}), B({0x61,'y'}), B({0x60}), B({0x80}), B({0x81}), B({0x82}), B({0xA0}), B({0xA1}), B({0xC1}), B({0x9F}), B({0xBF}), B({0x5F}), B({0x7F}), B({0xFF}), B({0xF6}), B({0xF7}) };
    static const std::vector<std::string> b = { B({0x17}), B({0x18,0x18}), B({0x19,1,0}), B({0x1A,0,1,0,0}), B({0x1B,0,0,0,1,0,0,0,0}), B({0x37}), B({0x38,0xFF}), B({0x3B,0x7F,255,255,255,255,255,255,255}), B({0x3B,0x80,0,0,0,0,0,0,0}),
        B({0x42,1,2}), B({0x58,1,7}), B({0x59,0,1,8}), B({0x62,0xC3,0xA9}), B({0x78,1,'z'}), B({0x7A,0,0,0,1,'w'}), B({0x98,2}), B({0x99,0,1}), B({0x9B,0,0,0,0,0,0,0,1}), B({0x83}), B({0xA2}), B({0xB8,1}), B({0xBA,0,0,0,1}), B({0x9F}), B({0xBF}), B({0x5F}), B({0x7F}), B({0xFF}),
        B({0xD7}), B({0xD8,0x18}), B({0xD9,1,0}), B({0xDB,0,0,0,0,0,0,0,2}), B({0xDC}), B({0xF4}), B({0xF5}), B({0xE0}), B({0xF3}), B({0xF8,0xFF}), B({0xF8,0x20}), B({0xF9,0x3C,0}), B({0xFA,0x3F,0x80,0,0}), B({0xFB,0x3F,0xF0,0,0,0,0,0,0}), B({0xFC}), B({0x1C}), B({0x5C}), B({0x9E}), B({0x18}), B({0xF8}), B({0xF9,0}) };
    return set ? b : a;
}
static void dfs(int set, std::string& s, int left, const char* label) {
    run(label, s);
    if (!left) return;
    Dec d{(const unsigned char*)s.data(), (const unsigned char*)s.data() + s.size()}; Val v; auto st = d.item(v);
    if (st != ref::shrt && !s.empty()) return; // decided: longer inputs only add unread bytes (covered by byte strings)
    for (auto& t : tokens(set)) { size_t z = s.size(); s += t; dfs(set, s, left - 1, label); s.resize(z); }
}
static void dfs_units(int set, int depth, const char* label) {
    auto& tk = tokens(set);
    for (size_t i = 0; i < tk.size(); ++i) for (size_t j = 0; j < tk.size(); ++j) mc::add(mc::fmt("%s/%zu.%zu", label, i, j), [=, &tk] {
        std::string s = tk[i];
        Dec d{(const unsigned char*)s.data(), (const unsigned char*)s.data() + s.size()}; Val v; if (d.item(v) != ref::shrt) { if (j == 0) run(label, s); run(label, s + tk[j]); return; }
        if (j == 0) run(label, s);
        s += tk[j]; dfs(set, s, depth - 2, label);
    });
}

static std::vector<std::string> corpus() {
    std::vector<std::string> r;
    for (uint64_t v : { 0ull, 23ull, 24ull, 255ull, 256ull, 65535ull, 65536ull, 4294967295ull, 4294967296ull, 9223372036854775807ull, 18446744073709551615ull })
        for (unsigned mt : {0u, 1u}) for (auto& h : heads(mt, v)) r.push_back(h);
    for (size_t n : {0, 1, 3, 23, 24, 40}) for (unsigned mt : {2u, 3u}) for (auto& h : heads(mt, n)) r.push_back(h + std::string(n, 'a'));
    r.push_back(B({0x5F,0x42,1,2,0x41,3,0xFF})); r.push_back(B({0x7F,0x61,'a',0x60,0x78,1,'b',0xFF})); r.push_back(B({0x5F,0xFF})); r.push_back(B({0x7F,0xFF}));
    r.push_back(B({0x83,1,0x82,2,3,0x9F,4,5,0xFF})); r.push_back(B({0x9F,1,0x82,2,3,0x9F,4,5,0xFF,0xFF})); r.push_back(B({0xA2,0x61,'a',1,0x61,'b',0x82,2,3})); r.push_back(B({0xBF,0x61,'a',1,0x61,'b',0x9F,2,3,0xFF,0xFF}));
    r.push_back(B({0xA3,1,2,0xF6,0x20,0x40,0xA0})); r.push_back(B({0xC0,0x61,'t'})); r.push_back(B({0xD8,0x20,0xC1,0x82,0xC2,0x41,1,0xD9,1,2,0xA1,1,0xC3,2})); r.push_back(B({0xDB,255,255,255,255,255,255,255,255,0}));
    r.push_back(B({0xF4})); r.push_back(B({0xF5})); r.push_back(B({0xF6})); r.push_back(B({0xF7})); r.push_back(B({0xE5})); r.push_back(B({0xF8,0x64})); r.push_back(B({0xF9,0x7C,1})); r.push_back(B({0xFA,0x47,0xC3,0x50,0})); r.push_back(B({0xFB,0xC0,0x10,0x66,0x66,0x66,0x66,0x66,0x66}));
    r.push_back(B({0x98,3,0xF9,0,1,0xFA,0,0,0,1,0xFB,0,0,0,0,0,0,0,1})); r.push_back(B({0x82,0x5F,0x41,1,0xFF,0xBF,0x7F,0x61,'k',0xFF,0xD7,0x9F,0xFF,0xFF}));
    return r;
}

int main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "--thorough") mc::g().thorough = 1;
    bool T = mc::thorough();
    mc::add("bytes<=2", [] { run("bytes", ""); for (int a = 0; a < 256; ++a) { run("bytes", B({a})); for (int b = 0; b < 256; ++b) run("bytes", B({a, b})); } });
    for (int a = 0; a < 256; ++a) mc::add(mc::fmt("bytes3/%02x", a), [=] { std::string s(3, char(a)); for (int b = 0; b < 256; ++b) for (int c = 0; c < 256; ++c) { s[1] = char(b); s[2] = char(c); run("bytes", s); } });
    if (T) for (int a : {0x5F, 0x7F, 0x81, 0x82, 0x83, 0x9F, 0xA1, 0xA2, 0xBF, 0xC1, 0xD8, 0x58, 0x78, 0x98, 0xB8, 0x42, 0x43, 0x1A}) for (int b = 0; b < 256; ++b) mc::add(mc::fmt("bytes4/%02x.%02x", a, b), [=] { std::string s(4, char(a)); s[1] = char(b); for (int c = 0; c < 256; ++c) for (int d = 0; d < 256; ++d) { s[2] = char(c); s[3] = char(d); run("bytes", s); } });
    dfs_units(0, T ? 7 : 6, "tokens"); dfs_units(1, T ? 5 : 4, "tokens+");
    mc::add("integers", [] {
        for (uint64_t v : bounds()) for (unsigned mt : {0u, 1u}) for (auto& h : heads(mt, v)) {
            run("integer", h);
            run("integer-in", B({0x81}) + h); run("integer-in", B({0xA1}) + h + h); run("integer-in", B({0xC5}) + h); run("integer-in", B({0x9F}) + h + h + B({0xFF}));
            for (size_t k = 1; k < h.size(); ++k) run("integer-cut", h.substr(0, k));
        }
    });
    mc::add("tags", [] { for (uint64_t v : bounds()) for (auto& h : heads(6, v)) { run("tag", h + B({1})); run("tag", h + h + B({0x80})); run("tag", B({0x82}) + h + B({0xF6, 0x61, 'a'})); run("tag-cut", h); for (size_t k = 1; k < h.size(); ++k) run("tag-cut", h.substr(0, k)); } });
    mc::add("simple", [] { for (int v = 0; v < 256; ++v) { run("simple", B({0xF8, v})); run("simple", B({0x82, 0xF8, v, 1})); run("simple", B({0xE0 | (v & 31), v, v, v, v, v, v, v, v})); } });
    mc::add("half", [] { for (int v = 0; v < 65536; ++v) { run("half", B({0xF9, v >> 8, v})); run("half-cut", B({0xF9, v >> 8})); } });
    mc::add("single", [] { for (uint32_t x = 0; x < 512; ++x) for (uint32_t m : {0u, 1u, 2u, 0x3FFFFFu, 0x400000u, 0x400001u, 0x7FFFFEu, 0x7FFFFFu, 0x555555u, 0x2AAAAAu, 0x123456u, 0x1FFFu, 0x2000u, 0x2001u}) { uint32_t v = x << 23 | m; std::string s(1, '\xFA'); for (int i = 3; i >= 0; --i) s += char(v >> (8 * i)); run("single", s); run("single", B({0x82}) + s + s); for (size_t k = 1; k < 5; ++k) run("single-cut", s.substr(0, k)); } });
    mc::add("double", [] { for (uint64_t x = 0; x < 4096; ++x) for (uint64_t m : {0ull, 1ull, 0x8000000000000ull, 0x8000000000001ull, 0xFFFFFFFFFFFFFull, 0x5555555555555ull, 0xAAAAAAAAAAAAAull, 0x123456789ABCDull, 0xFFFFFE0000000ull, 0xFFC0000000000ull}) { uint64_t v = x << 52 | m; std::string s(1, '\xFB'); for (int i = 7; i >= 0; --i) s += char(v >> (8 * i)); run("double", s); } for (size_t k = 1; k < 9; ++k) run("double-cut", std::string(k, '\xFB')); });
    mc::add("strings", [] {
        for (unsigned mt : {2u, 3u}) for (size_t n = 0; n <= 300; ++n) for (auto& h : heads(mt, n)) {
            std::string t(n, 'a'); for (size_t i = 0; i < n; ++i) t[i] = char('a' + i % 26);
            big("string", h + t); big("string", h + t + B({0})); if (n) big("string-cut", h + t.substr(1)); if (n <= 40) { big("string-in", B({0x82}) + h + t + h + t); big("string-in", B({0xA1}) + h + t + h + t); big("string-chunk", B({int(mt << 5 | 31)}) + h + t + h + t + B({0xFF})); big("string-chunk-cut", B({int(mt << 5 | 31)}) + h + t); }
            if (mt == 2 && n >= 2) { for (int c : {0, 0x1F, 0x7F, 0x80, 0xFF}) { t[0] = t[n - 1] = char(c); big("string", h + t); } }
        }
        for (unsigned mt : {2u, 3u}) for (size_t n : {1000, 4095, 4096, 65535, 65536, 70000}) for (auto& h : heads(mt, n)) { std::string t(n, 'q'); big("string-big", h + t); big("string-big", h + t.substr(1)); }
        // claims without content
        for (unsigned mt : {2u, 3u, 4u, 5u}) for (uint64_t v : bounds()) if (v) for (auto& h : heads(mt, v)) { run("claim", h); if (v > 3) run("claim", h + B({1, 2, 3})); run("claim", B({0x81}) + h + B({1})); run("claim", B({int(mt << 5 | 31)}) + h + B({1})); }
    });
    mc::add("chunks", [] { // every sequence of up to 4 chunks out of these, every wrong chunk
        std::vector<std::string> c; for (size_t n : {0, 1, 2, 23, 24, 33}) c.push_back(ref::cbor_head(2, n) + std::string(n, 'c'));
        c.push_back(wide(2, 0, 1) + "w"); c.push_back(wide(2, 3, 2) + "ww"); c.push_back(B({0x5F, 0xFF})); c.push_back(B({0x61, 'x'})); c.push_back(B({0x00})); c.push_back(B({0x80})); c.push_back(B({0xF6})); c.push_back(B({0x5C})); c.push_back(B({0xC1, 0x41, 1}));
        std::function<void(std::string, int)> rec = [&](std::string s, int left) { for (auto m : {0, 1}) { std::string t = s; t[0] = m ? '\x7F' : '\x5F'; if (m) { /* same shape with text chunks */ size_t i = 1; (void)i; }
                run("chunks", t); run("chunks", t + B({0xFF})); run("chunks", B({0x82}) + t + B({0xFF, 0x01})); }
            if (left) for (auto& x : c) rec(s + x, left - 1); };
        rec(B({0x5F}), 4);
        std::vector<std::string> d; for (size_t n : {0, 1, 24}) d.push_back(ref::cbor_head(3, n) + std::string(n, 't')); d.push_back(B({0x62, 0xC3, 0xA9})); d.push_back(B({0x41, 'b'})); d.push_back(B({0x7F, 0xFF}));
        std::function<void(std::string, int)> rt = [&](std::string s, int left) { run("chunks-t", s); run("chunks-t", s + B({0xFF})); run("chunks-t", B({0xA1}) + s + B({0xFF, 0x01})); if (left) for (auto& x : d) rt(s + x, left - 1); };
        rt(B({0x7F}), 4);
    });
    mc::add("sizes", [] {
        for (size_t n = 0; n <= 300; ++n) {
            std::string a, m; for (size_t i = 0; i < n; ++i) { a += ref::cbor_head(0, i); m += ref::cbor_head(0, i) + ref::cbor_head(1, i); }
            for (auto& h : heads(4, n)) { big("array", h + a); big("array", h + a + B({0})); if (n) big("array-cut", h + a.substr(0, a.size() - 1)); }
            for (auto& h : heads(5, n)) { big("map", h + m); big("map", h + m + B({0})); if (n) { big("map-cut", h + m.substr(0, m.size() - 1)); big("map-cut", h + m.substr(0, m.size() - ref::cbor_head(1, n - 1).size())); } }
            big("array", B({0x9F}) + a + B({0xFF})); big("array-cut", B({0x9F}) + a); big("map", B({0xBF}) + m + B({0xFF})); big("map-cut", B({0xBF}) + m); big("map-odd", B({0xBF}) + m + B({0x41, 1, 0xFF}));
        }
    });
    mc::add("depth", [] { // every way to nest up to 6 levels out of 8 openers, and deep uniform and alternating ones
        static const std::vector<std::pair<std::string, std::string>> o = { {B({0x81}), ""}, {B({0x9F}), B({0xFF})}, {B({0xA1, 0x00}), ""}, {B({0xBF, 0x00}), B({0xFF})}, {B({0xC1}), ""}, {B({0xD8, 0x40}), ""}, {B({0x82, 0x01}), ""}, {B({0xA1}), B({0x00})} };
        std::function<void(std::string, std::string, int)> rec = [&](std::string x, std::string y, int left) { run("nest", x + B({0x61, 'z'}) + y); run("nest", x + y); run("nest", x); run("nest", x + B({0xFF}) + y); if (left) for (auto& p : o) rec(x + p.first, p.second + y, left - 1); };
        rec("", "", mc::thorough() ? 6 : 5);
        for (size_t n = 1; n < 70; ++n) for (size_t p = 0; p < o.size(); ++p) for (size_t q = 0; q < o.size(); ++q) { std::string x, y; for (size_t i = 0; i < n; ++i) { auto& z = o[i % 2 ? p : q]; x += z.first; y = z.second + y; } run("deep", x + B({0x01}) + y); run("deep", x + B({0x01}) + y.substr(y.empty() ? 0 : 1)); }
    });
    mc::add("keys", [] { // every kind of key and value
        std::vector<std::string> k = { B({0}), B({0x20}), B({0x41, 1}), B({0x61, 'k'}), B({0x81, 1}), B({0xA1, 1, 2}), B({0xC1, 1}), B({0xF4}), B({0xF6}), B({0xF7}), B({0xE5}), B({0xF9, 0x3C, 0}), B({0x5F, 0x41, 2, 0xFF}), B({0x7F, 0x61, 'l', 0xFF}), B({0x9F, 1, 0xFF}), B({0xBF, 1, 2, 0xFF}) };
        for (auto& a : k) for (auto& v : k) { run("key", B({0xA1}) + a + v); run("key", B({0xBF}) + a + v + B({0xFF})); for (auto& c : k) { run("key", B({0xA2}) + a + v + c + a); run("key", B({0x83}) + a + v + c); } }
    });
    mc::add("mutations", [] { // every byte of every corpus item replaced by every value, removed, doubled; every prefix
        for (auto& s : corpus()) {
            run("corpus", s); for (size_t i = 0; i < s.size(); ++i) { run("prefix", s.substr(0, i)); run("remove", s.substr(0, i) + s.substr(i + 1)); run("double", s.substr(0, i + 1) + s.substr(i));
                for (int c = 0; c < 256; ++c) { std::string t = s; t[i] = char(c); run("replace", t); } }
            for (auto& t : corpus()) { run("pair", s + t); run("pair", B({0x82}) + s + t); run("pair", B({0xA1}) + s + t); }
        }
    });
    return mc::main(argc, argv);
}
