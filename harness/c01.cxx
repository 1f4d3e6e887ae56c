// C01: what the JSON node reader accepts, where it stops and what it yields, against a pushdown
// automaton of RFC 8259 and a reference value builder.
#include "cxon/json.hxx"
#include "cxon/lib/node.hxx"
#include "nodeval.hxx"
using ref::Val; using ref::Pda;

struct strict_traits : cxon::json::format_traits { struct number : cxon::json::format_traits::number { static constexpr bool strict = true; }; };
using DEF = cxon::JSON<>; using STR = cxon::JSON<strict_traits>;
static const size_t depth_limit = 64;

// a number token so small that it rounds to zero (or is below the normal range) may be refused: RFC 8259 lets the range be limited
static bool tiny(const std::string& s) {
    size_t i = 0;
    while (i < s.size()) {
        if ((s[i] >= '0' && s[i] <= '9') || s[i] == '-') {
            size_t j = i; bool nz = false, ex = false; while (j < s.size() && ((s[j] >= '0' && s[j] <= '9') || strchr("+-.eE", s[j]))) { ex |= s[j] == 'e' || s[j] == 'E'; nz |= !ex && s[j] >= '1' && s[j] <= '9'; ++j; }
            if (nz && std::fabs(strtod(s.substr(i, j - i).c_str(), nullptr)) < std::numeric_limits<double>::min()) return true;
            i = j;
        }
        else ++i;
    }
    return false;
}
static bool has_inf(const Val& v) { if (v.k == Val::rea && std::isinf(v.d)) return true; for (auto& x : v.a) if (has_inf(x)) return true; return false; }

template <typename X>
static void judge(const std::string& s, bool strict, bool build_model = true) {
    const char* b = mc::guard().put(s); const char* e = b + s.size();
    cxon::json::node n;
    auto r = cxon::from_bytes<X>(n, b, e);
    mc::trace();
    bool valid = ref::json_valid(s.data(), s.data() + s.size(), false, true);
    bool ok = bool(r);
    size_t end = size_t(r.end - b);
    if (r.end < b || r.end > e) { mc::fail("end is outside the input"); return; }
    uint64_t oh = (ok ? 1 : 0) | uint64_t(int(n.kind())) << 1 | uint64_t(r.ec.value()) << 5;
    mc::outcome(mc::mix(oh, valid));
    if (valid) {
        Val v = ref::json_value(s);
        if (has_inf(v)) { if (ok) mc::fail("accepted a number beyond the range of double"); return; }
        if (ref::depth(v) >= depth_limit) return;
        if (!ok && tiny(s)) return;
        if (!ok) { mc::fail("rejected valid JSON (%s): %s", r.ec.message().c_str(), mc::esc(s).c_str()); return; }
        size_t want = size_t(ref::json_value_end(s.data(), s.data() + s.size()) - s.data());
        if (end < want || !ref::json_valid(s.data(), s.data() + end)) { mc::fail("valid JSON read up to %zu instead of %zu: %s", end, want, mc::esc(s).c_str()); return; }
        if (ref::has_dup_keys(v)) return;
        Val w = nv::from_json(n);
        if (mc::g().slot->evals % 30000 == 11) mc::sample(s + " -> " + ref::dump(w));
        if (!ref::equal(v, w)) mc::fail("value differs: text %s expected %s got %s", mc::esc(s).c_str(), ref::dump(v).c_str(), ref::dump(w).c_str());
        return;
    }
    if (ok) {
        // the consumed part must be a JSON text of its own
        if (ref::json_valid(s.data(), s.data() + end)) {
            Val v = ref::json_value(s.substr(0, end));
            if (ref::has_dup_keys(v)) return;
            Val w = nv::from_json(n);
            if (!ref::equal(v, w)) mc::fail("value of the accepted prefix differs: %s [0,%zu) expected %s got %s", mc::esc(s).c_str(), end, ref::dump(v).c_str(), ref::dump(w).c_str());
        }
        else if (strict) mc::fail("accepted what is not JSON: %s (consumed %zu)", mc::esc(s).c_str(), end);
        else if (!ref::json_valid(s.data(), s.data() + end, true)) mc::fail("accepted what is not JSON even with malformed numbers allowed: %s (consumed %zu)", mc::esc(s).c_str(), end);
    }
    else if (!r.ec) mc::fail("failed without an error code");
    if (mc::g().slot->evals % 400000 == 7) mc::sample(s + " -> " + (ok ? "ok" : r.ec.message()) + " at " + std::to_string(end));
}
static void both(const std::string& s) { judge<DEF>(s, false); }
static void strict_only(const std::string& s) { judge<STR>(s, true); }

// depth-first over token sequences: every viable prefix is extended by every token, one dead token included
static const std::vector<std::string>& tokens(int set) {
    static const std::vector<std::string> a = { "{", "}", "[", "]", ":", ",", "\"a\"", "\"b\"", "1", "null", " " };
    static const std::vector<std::string> b = { "{", "}", "[", "]", ":", ",", "\"a\"", "\"\\n\"", "\"\\ud83d\\ude00\"", "\"\xC3\xA9\"", "-1", "2.5", "0", "true", "false", "null", "1e2", "\n", "/", "'" };
    return set == 0 ? a : b;
}
static void dfs(int set, const Pda& p, std::string& s, int left, const char* label) {
    if (mc::at(label, s)) { both(s); strict_only(s); }
    if (!left) return;
    for (auto& t : tokens(set)) {
        Pda q = p; bool alive = true;
        for (char c : t) if (!q.step((unsigned char)c)) { alive = false; break; }
        size_t z = s.size(); s += t;
        if (alive) dfs(set, q, s, left - 1, label);
        else if (mc::at(label, s)) { both(s); strict_only(s); }
        s.resize(z);
    }
}
static void dfs_unit(int set, int depth, const char* label) {
    auto& tk = tokens(set);
    for (size_t i = 0; i < tk.size(); ++i) for (size_t j = 0; j < tk.size(); ++j)
        mc::add(mc::fmt("tokens%d/%zu.%zu", set, i, j), [=, &tk] {
            Pda p; std::string s; bool alive = true;
            for (size_t k : {i, j}) { if (!alive) return; for (char c : tk[k]) if (!p.step((unsigned char)c)) { alive = false; break; } s += tk[k]; }
            if (!alive) { if (mc::at(label, s)) { both(s); strict_only(s); } return; }
            dfs(set, p, s, depth - 2, label);
        });
}

static void bytes_units() { // every byte string up to 2, then (3 bytes) every first byte a unit
    mc::add("bytes<=2", [] {
        std::string s;
        if (mc::at("bytes", s)) { both(s); strict_only(s); }
        for (int a = 0; a < 256; ++a) { s.assign(1, char(a)); if (mc::at("bytes", s)) { both(s); strict_only(s); }
            for (int b = 0; b < 256; ++b) { s.assign(1, char(a)); s += char(b); if (mc::at("bytes", s)) { both(s); strict_only(s); } } }
    });
    for (int a = 0; a < 256; ++a) mc::add(mc::fmt("bytes3/%02x", a), [a] {
        std::string s(3, char(a));
        for (int b = 0; b < 256; ++b) for (int c = 0; c < 256; ++c) { s[1] = char(b); s[2] = char(c); if (mc::at("bytes", s)) both(s); }
    });
    // inside a string: every byte, pair and triple after a quote, closed
    for (int a = 0; a < 256; ++a) mc::add(mc::fmt("instring/%02x", a), [a] {
        auto run = [](const std::string& x) { if (mc::at("instring", x)) both(x); };
        std::string p = "\""; p += char(a);
        run(p); run(p + "\"");
        for (int b = 0; b < 256; ++b) {
            std::string q = p + char(b); run(q + "\"");
            // third byte: every class boundary
            static const int cls[] = { 0, 0x1F, 0x20, '"', '\\', 'u', 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xFF };
            for (int c : cls) { run(q + char(c) + "\""); if (a >= 0xE0) for (int d : cls) run(q + char(c) + char(d) + "\""); }
        }
    });
}
static void alphabet_unit(const char* name, const std::string& al, size_t len, bool strict) {
    for (size_t i = 0; i < al.size(); ++i) for (size_t j = 0; j < al.size(); ++j)
        mc::add(mc::fmt("%s/%zu.%zu", name, i, j), [=] {
            std::string s(len, al[0]); s[0] = al[i]; s[1] = al[j];
            std::vector<size_t> k(len, 0);
            for (;;) {
                for (size_t q = 2; q < len; ++q) s[q] = al[k[q]];
                if (mc::at(name, s)) { strict ? strict_only(s) : both(s); }
                size_t q = len; while (q > 2) { --q; if (++k[q] < al.size()) break; k[q] = 0; if (q == 2) return; }
                if (len == 2) return;
            }
        });
}
// numbers: every string of length <= n over the number alphabet, alone and inside an array
static void number_units(int n) {
    static const std::string al = "0129.-+eE";
    for (char f : al) mc::add(std::string("numbers/") + f, [=] {
        std::function<void(std::string&)> rec = [&](std::string& s) {
            if (mc::at("number", s)) { both(s); strict_only(s); both("[" + s + "]"); strict_only("[" + s + ",0]"); }
            if (int(s.size()) == n) return;
            for (char c : al) { s += c; rec(s); s.pop_back(); }
        };
        std::string s(1, f); rec(s);
    });
    mc::add("numbers/limits", [] {
        auto run = [](const std::string& s) { for (auto& x : { s, "[" + s + "]", "{\"a\":" + s + "}", "[" + s + "," + s + " ]" }) if (mc::at("number-limit", x)) { both(x); strict_only(x); } };
        // around every power of ten and two, both signs, and every length of digits
        for (int sg = 0; sg < 2; ++sg) {
            std::string p = sg ? "-" : "";
            for (int l = 1; l <= 60; ++l) for (char d : {'1', '9', '5'}) { run(p + std::string(size_t(l), d)); run(p + d + std::string(size_t(l), '0')); run(p + "0." + std::string(size_t(l), d)); run(p + std::string(size_t(l), d) + "." + d); }
            for (int k = 0; k < 64; ++k) for (int dl = -2; dl <= 2; ++dl) {
                uint64_t v = (uint64_t(1) << k) + uint64_t(int64_t(dl)); run(p + std::to_string(v));
                v = (k ? uint64_t(-1) >> k : uint64_t(-1)); if (dl <= 0) run(p + std::to_string(v + uint64_t(int64_t(dl))));
            }
            for (const char* t : { "9223372036854775806", "9223372036854775807", "9223372036854775808", "9223372036854775809", "9223372036854775810", "9223372036854775817", "9223372036854775818", "18446744073709551609", "18446744073709551610", "18446744073709551614", "18446744073709551615",
                "18446744073709551616", "18446744073709551617", "18446744073709551619", "18446744073709551620", "18446744073709551625", "28446744073709551615", "99999999999999999999", "10000000000000000000", "100000000000000000000", "184467440737095516150", "184467440737095516159" }) run(p + t);
            for (int x = -330; x <= 310; ++x) { run(p + "1e" + std::to_string(x)); run(p + "9.99E" + std::to_string(x)); if (x >= 0) run(p + "4.5e+" + std::to_string(x)); }
            for (const char* t : { "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "4.9e-324", "5e-324", "2.2250738585072014e-308", "2.2250738585072011e-308", "0.1", "0.30000000000000004", "9007199254740993", "9007199254740993.0", "9007199254740992.5", "0e0", "0.0", "0E+5", "0e-5" }) run(p + t);
        }
    });
}
static void shape_units() {
    mc::add("shapes/lengths", [] { // strings of every length with a special at every position
        for (size_t n = 0; n <= 70; ++n) for (size_t k = 0; k <= n; ++k)
            for (const char* sp : { "", "\\\"", "\\\\", "\\/", "\\b", "\\u0041", "\\u00e9", "\\u20ac", "\\ud83d\\ude00", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\x7F", "/", "'", "\xC3", "\x80", "\x01", "\\x", "\n", "\\ud83d", "\\u12" }) {
                std::string s = "\"" + std::string(k, 'x') + sp + std::string(n - k, 'y') + "\"";
                if (mc::at("string", s)) both(s);
                if (n % 8 == 1 || k % 16 == 15) { std::string t = "{" + s + ":" + s + "}"; if (mc::at("string-key", t)) both(t); }
            }
    });
    mc::add("shapes/whitespace", [] { // every run length of white space at every gap
        static const char* parts[] = { "", "{", "\"a\"", ":", "[", "1", ",", "true", "]", ",", "\"b\"", ":", "-2.5e1", "}", "" };
        size_t np = sizeof parts / sizeof *parts;
        for (size_t n : {1, 2, 3, 7, 15, 16, 17, 31, 32, 33, 64, 100}) for (size_t g = 1; g < np; ++g) for (char c : {' ', '\t', '\n', '\r', '\v', '\f', '\0', '\xA0', '/'}) {
            std::string s; for (size_t i = 0; i < np; ++i) { if (i == g) { s += std::string(n - 1, ' '); s += c; s += c == ' ' || c == '\n' ? "\r\n\t " : ""; } s += parts[i]; }
            if (mc::at("whitespace", s)) { both(s); strict_only(s); }
        }
    });
    mc::add("shapes/sizes", [] { // containers of every size
        for (size_t n = 0; n <= 300; ++n) {
            std::string a = "[", o = "{";
            for (size_t i = 0; i < n; ++i) { a += (i ? "," : "") + std::to_string(i); o += (i ? ",\"k" : "\"k") + std::to_string(i) + "\":[" + std::to_string(i) + "]"; }
            if (mc::at("array-size", a + "]")) both(a + "]");
            if (mc::at("object-size", o + "}")) both(o + "}");
            if (mc::at("array-size", a + ",]")) both(a + ",]");
            if (mc::at("object-size", o + ",}")) both(o + ",}");
        }
    });
    mc::add("shapes/nesting", [] { // every bracket word of length <= 14 over [ ] { }
        std::function<void(std::string&, int)> rec = [&](std::string& s, int left) {
            if (mc::at("brackets", s)) both(s);
            if (!left) return;
            for (const char* t : { "[", "]", "{\"a\":", "}", "1" , "," }) { size_t z = s.size(); s += t;
                Pda p; bool al = true; for (char c : s) if (!p.step((unsigned char)c)) { al = false; break; }
                if (al) rec(s, left - 1); else if (mc::at("brackets", s)) both(s);
                s.resize(z); }
        };
        std::string s; rec(s, mc::thorough() ? 13 : 10);
        for (size_t n = 1; n < 64; ++n) {
            std::string x, y; for (size_t i = 0; i < n; ++i) { x += i % 2 ? "[" : "{\"a\":"; y = (i % 2 ? "]" : "}") + y; }
            for (std::string t : { x + "1" + y, x + y, x + "1" + y.substr(1), x + "1" + y + "]", std::string(n, '[') + std::string(n, ']'), std::string(n, '[') + std::string(n, '}') }) if (mc::at("deep", t)) both(t);
        }
    });
    mc::add("shapes/escapes", [] { // every \uXXXX, every pair class
        char b[64];
        for (unsigned u = 0; u < 0x10000; ++u) for (const char* f : { "\"\\u%04x\"", "\"\\u%04X\"" }) { snprintf(b, sizeof b, f, u); if (mc::at("u-escape", b, strlen(b))) both(b); }
        for (unsigned h = 0xD800; h < 0xDC00; h += 1) for (unsigned l : {0xDBFFu, 0xDC00u, 0xDC01u, 0xDE0Fu, 0xDFFFu, 0xE000u, 0x0041u}) { snprintf(b, sizeof b, "[\"\\u%04x\\u%04X\"]", h, l); if (mc::at("u-pair", b, strlen(b))) both(b); }
        for (unsigned l = 0xDC00; l < 0xE000; ++l) { snprintf(b, sizeof b, "\"\\uD801\\u%04X\"", l); if (mc::at("u-pair", b, strlen(b))) both(b); }
    });
    mc::add("shapes/literals", [] { // every literal with one byte replaced, dropped or doubled
        for (std::string l : { "true", "false", "null" }) for (int wrap = 0; wrap < 3; ++wrap) {
            auto run = [&](const std::string& x) { std::string t = wrap == 0 ? x : wrap == 1 ? "[" + x + "]" : "{\"k\":" + x + ",\"l\":1}"; if (mc::at("literal", t)) { both(t); strict_only(t); } };
            run(l);
            for (size_t i = 0; i < l.size(); ++i) {
                for (int c = 0; c < 256; ++c) { std::string x = l; x[i] = char(c); run(x); x = l; x.insert(i, 1, char(c)); run(x); }
                std::string x = l; x.erase(i, 1); run(x); run(l.substr(0, i));
            }
            for (int c = 0; c < 256; ++c) run(l + char(c));
        }
    });
}

int main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "--thorough") mc::g().thorough = 1;
    bool T = mc::thorough();
    bytes_units();
    dfs_unit(0, T ? 10 : 8, "tokens");
    dfs_unit(1, T ? 6 : 5, "tokens+");
    alphabet_unit("alpha4", "{}[]:,\"\\ntrueuflas-0123.eE +d8'/\x01\xC3\xA9", 4, false);
    alphabet_unit("alpha5", "{}[]:,\"1-.e \\n", T ? 6 : 5, false);
    alphabet_unit("alpha5s", "{}[]:,\"1-.e0", T ? 6 : 5, true);
    number_units(T ? 7 : 6);
    shape_units();
    return mc::main(argc, argv);
}
