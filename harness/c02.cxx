// C02: JSON strings and characters, every character type, read and written, against the automaton
// and a separate transcoder.
#include "cxon/json.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/string_view.hxx"
#include "ref.hxx"
#include <string_view>
using ref::Val; using ref::Pda;
using DEF = cxon::JSON<>;

// a multi-pass iterator that is not random-access
struct Fwd {
    using iterator_category = std::forward_iterator_tag; using value_type = char; using difference_type = std::ptrdiff_t; using pointer = const char*; using reference = const char&;
    const char* p = nullptr;
    reference operator *() const { return *p; } Fwd& operator ++() { ++p; return *this; } Fwd operator ++(int) { Fwd f = *this; ++p; return f; }
    bool operator ==(const Fwd& o) const { return p == o.p; } bool operator !=(const Fwd& o) const { return p != o.p; }
};

template <typename T> static std::basic_string<T> put(const std::vector<uint32_t>& cs) {
    std::basic_string<T> o;
    for (uint32_t c : cs) {
        if (sizeof(T) == 1) { for (char x : ref::utf8(c)) o += T(x); }
        else if (sizeof(T) == 2 && c > 0xFFFF) { o += T(0xD800 + ((c - 0x10000) >> 10)); o += T(0xDC00 + ((c - 0x10000) & 0x3FF)); }
        else o += T(c);
    }
    return o;
}
template <typename T> static const char* tname() {
    return std::is_same<T, char>::value ? "char" : std::is_same<T, char16_t>::value ? "char16_t" : std::is_same<T, char32_t>::value ? "char32_t" : std::is_same<T, wchar_t>::value ? "wchar_t" : "char8_t";
}
// what the text says: a string from the first quote to its end; 0: must be refused
struct Want { size_t end = 0; std::vector<uint32_t> cs; };
static Want want(const std::string& s) {
    Want w; Pda p; size_t i = 0; bool q = false;
    for (; i < s.size(); ++i) {
        if (!q && !Pda::ws((unsigned char)s[i])) { if (s[i] != '"') return w; q = true; }
        if (!p.step((unsigned char)s[i])) return w;
        mc::transition(); mc::state(p.key_hash());
        if (p.complete_nonnum()) { w.end = i + 1; w.cs = ref::utf8_decode(ref::json_value(s.substr(0, w.end)).s); return w; }
    }
    return w;
}
template <typename S> static void read_str(const std::string& s, const Want& w) {
    using T = typename S::value_type;
    const char* b = mc::guard().put(s); const char* e = b + s.size();
    S t; auto r = cxon::from_bytes<DEF>(t, b, e); mc::trace();
    if (w.end) {
        if (!r) mc::fail("%s string refused (%s): %s", tname<T>(), r.ec.message().c_str(), mc::esc(s).c_str());
        else if (size_t(r.end - b) != w.end) mc::fail("%s string ends at %zu, expected %zu: %s", tname<T>(), size_t(r.end - b), w.end, mc::esc(s).c_str());
        else { auto x = put<T>(w.cs); if (t.size() != x.size() || !std::equal(x.begin(), x.end(), t.begin())) mc::fail("%s string holds other code points: %s: %s, expected %s", tname<T>(), mc::esc(s).c_str(), mc::hex(t.data(), t.size() * sizeof(T)).c_str(), mc::hex(x.data(), x.size() * sizeof(T)).c_str()); }
    }
    else if (r) mc::fail("%s string accepted, not a JSON string: %s", tname<T>(), mc::esc(s).c_str());
    else if (!r.ec) mc::fail("refused without an error code");
    mc::outcome(mc::mix(uint64_t(r.ec.value()), t.size()));
}
template <typename T> static void read_chr(const std::string& s, const Want& w) {
    const char* b = mc::guard().put(s); const char* e = b + s.size();
    T t = T('#'); auto r = cxon::from_bytes<DEF>(t, b, e); mc::trace();
    bool one = w.end && w.cs.size() == 1 && (sizeof(T) == 4 || w.cs[0] <= (sizeof(T) == 2 ? 0xFFFFu : 0xFFu));
    if (one) {
        if (!r) mc::fail("%s refused (%s): %s", tname<T>(), r.ec.message().c_str(), mc::esc(s).c_str());
        else if (size_t(r.end - b) != w.end) mc::fail("%s ends at %zu, expected %zu: %s", tname<T>(), size_t(r.end - b), w.end, mc::esc(s).c_str());
        else if (t != T(w.cs[0])) mc::fail("%s is %lx: %s", tname<T>(), (unsigned long)t, mc::esc(s).c_str());
    }
    else if (r) mc::fail("%s accepted, not one character: %s", tname<T>(), mc::esc(s).c_str());
}
template <typename T, size_t N> static void read_arr(const std::string& s, const Want& w) {
    const char* b = mc::guard().put(s); const char* e = b + s.size();
    static mc::Guard g(4096);
    using A = T[N]; A& t = *reinterpret_cast<A*>(g.tail(sizeof(A)));
    for (auto& x : t) x = T('#');
    T* before = t - 1; *before = T('!');
    auto r = cxon::from_bytes<DEF>(t, b, e); mc::trace();
    auto x = put<T>(w.cs);
    if (*before != T('!')) mc::fail("%s[%zu] written before its start: %s", tname<T>(), N, mc::esc(s).c_str());
    if (w.end && x.size() <= N) {
        if (!r) { mc::fail("%s[%zu] refused (%s): %s", tname<T>(), N, r.ec.message().c_str(), mc::esc(s).c_str()); return; }
        if (size_t(r.end - b) != w.end) mc::fail("%s[%zu] ends at %zu, expected %zu: %s", tname<T>(), N, size_t(r.end - b), w.end, mc::esc(s).c_str());
        if (!std::equal(x.begin(), x.end(), &t[0])) mc::fail("%s[%zu] holds other code points: %s", tname<T>(), N, mc::esc(s).c_str());
        else if (x.size() < N && t[x.size()] != T(0)) mc::fail("%s[%zu] is not terminated: %s", tname<T>(), N, mc::esc(s).c_str());
    }
    else if (r) mc::fail("%s[%zu] accepted what does not fit or is not a string: %s", tname<T>(), N, mc::esc(s).c_str());
}
template <typename T> static void read_ptr(const std::string& s, const Want& w) {
    const char* b = mc::guard().put(s); const char* e = b + s.size();
    T* t = nullptr; auto r = cxon::from_bytes<DEF>(t, b, e); mc::trace();
    if (w.end) {
        auto x = put<T>(w.cs);
        if (!r) mc::fail("%s* refused (%s): %s", tname<T>(), r.ec.message().c_str(), mc::esc(s).c_str());
        else if (size_t(r.end - b) != w.end || !std::equal(x.begin(), x.end(), t) || t[x.size()] != T(0)) mc::fail("%s* differs: %s", tname<T>(), mc::esc(s).c_str());
    }
    else if (r) mc::fail("%s* accepted, not a string: %s", tname<T>(), mc::esc(s).c_str());
    if (r) ::operator delete((void*)t);
}
static void read_fwd(const std::string& s, const Want& w) {
    const char* b = mc::guard().put(s);
    std::string t; auto r = cxon::from_bytes<DEF>(t, Fwd{b}, Fwd{b + s.size()}); mc::trace();
    if (w.end) {
        if (!r) mc::fail("forward iterator: refused (%s): %s", r.ec.message().c_str(), mc::esc(s).c_str());
        else if (size_t(r.end.p - b) != w.end || t != put<char>(w.cs)) mc::fail("forward iterator: differs: %s: %s up to %zu", mc::esc(s).c_str(), mc::esc(t).c_str(), size_t(r.end.p - b));
    }
    else if (r) mc::fail("forward iterator: accepted, not a JSON string: %s", mc::esc(s).c_str());
}
static void read_all(const std::string& s, bool more = true) {
    Want w = want(s);
    read_str<std::string>(s, w); read_str<std::u8string>(s, w); read_str<std::u16string>(s, w); read_str<std::u32string>(s, w); read_str<std::wstring>(s, w);
    read_fwd(s, w);
    if (more) { read_chr<char>(s, w); read_chr<char8_t>(s, w); read_chr<char16_t>(s, w); read_chr<char32_t>(s, w); read_chr<wchar_t>(s, w); }
    if (mc::g().slot->evals % 90001 == 17) mc::sample("read " + s + " -> " + (w.end ? std::to_string(w.cs.size()) + " code points" : "refused"));
}
static void read_sized(const std::string& s) {
    Want w = want(s);
    read_arr<char, 1>(s, w); read_arr<char, 2>(s, w); read_arr<char, 3>(s, w); read_arr<char, 4>(s, w); read_arr<char, 5>(s, w); read_arr<char, 8>(s, w);
    read_arr<char8_t, 3>(s, w); read_arr<char8_t, 4>(s, w);
    read_arr<char16_t, 1>(s, w); read_arr<char16_t, 2>(s, w); read_arr<char16_t, 3>(s, w); read_arr<char32_t, 1>(s, w); read_arr<char32_t, 2>(s, w); read_arr<char32_t, 3>(s, w); read_arr<wchar_t, 2>(s, w);
    read_ptr<char>(s, w); read_ptr<char16_t>(s, w); read_ptr<char32_t>(s, w); read_ptr<wchar_t>(s, w); read_ptr<char8_t>(s, w);
}

// ---- write
static bool denotes(const std::string& out, const std::vector<uint32_t>& cs, const char* who) {
    if (!ref::json_valid(out.data(), out.data() + out.size(), false, true) || out.empty() || out[0] != '"') { mc::fail("%s: the output is not a JSON string: %s", who, mc::esc(out).c_str()); return false; }
    if (ref::json_value(out).s != put<char>(cs)) { mc::fail("%s: the output denotes another string: %s", who, mc::esc(out).c_str()); return false; }
    return true;
}
template <typename T> static void write_str(const std::vector<uint32_t>& cs, size_t offset = 0) {
    auto x = put<T>(cs); size_t n = x.size() * sizeof(T);
    static mc::Guard g(1 << 16);
    // ends at the page, or starts at a given distance from an aligned address
    const T* p = offset ? (const T*)(g.base + 4096 + (offset - 1) * sizeof(T)) : (const T*)g.tail(n);
    if (n) memcpy((void*)p, x.data(), n);
    std::string o; auto r = cxon::to_bytes<DEF>(std::back_inserter(o), std::basic_string_view<T>(p, x.size())); mc::trace();
    std::string who = mc::fmt("%s string of %zu", tname<T>(), x.size());
    if (!r) { mc::fail("%s: write fails (%s)", who.c_str(), r.ec.message().c_str()); return; }
    if (!denotes(o, cs, who.c_str())) return;
    std::string o2; auto r2 = cxon::to_bytes<DEF>(o2, x); mc::trace();
    if (!r2 || o2 != o) mc::fail("%s: string and string_view are written differently: %s", who.c_str(), mc::esc(o2).c_str());
    std::basic_string<T> y; const char* b = mc::guard().put(o);
    auto rr = cxon::from_bytes<DEF>(y, b, b + o.size()); mc::trace();
    if (!rr || rr.end != b + o.size() || y != x) mc::fail("%s: reads back differently: %s", who.c_str(), mc::esc(o).c_str());
}
template <typename T> static void write_chr(uint32_t c) {
    std::string o; auto r = cxon::to_bytes<DEF>(std::back_inserter(o), T(c)); mc::trace();
    if (!r) { mc::fail("%s %x: write fails", tname<T>(), c); return; }
    if (!denotes(o, {c}, tname<T>())) return;
    T y = T('#'); const char* b = mc::guard().put(o); auto rr = cxon::from_bytes<DEF>(y, b, b + o.size());
    if (!rr || rr.end != b + o.size() || y != T(c)) mc::fail("%s %x: reads back differently: %s", tname<T>(), c, mc::esc(o).c_str());
}
template <typename T> static void write_ptr(const std::vector<uint32_t>& cs) { // terminated
    auto x = put<T>(cs); static mc::Guard g(1 << 16); size_t n = (x.size() + 1) * sizeof(T);
    T* p = (T*)g.tail(n); memcpy((void*)p, x.c_str(), n);
    std::string o; auto r = cxon::to_bytes<DEF>(std::back_inserter(o), (const T*)p); mc::trace();
    if (!r) mc::fail("%s*: write fails", tname<T>()); else denotes(o, cs, tname<T>());
}
template <typename T, size_t N> static void write_arr(const std::vector<uint32_t>& cs) {
    auto x = put<T>(cs); if (x.size() > N || (x.size() == N && x[N - 1] == T(0)) || (x.size() + 1 < N)) return;
    static mc::Guard g(4096); using A = T[N]; A& t = *reinterpret_cast<A*>(g.tail(sizeof(A)));
    for (size_t i = 0; i < N; ++i) t[i] = i < x.size() ? x[i] : T(0);
    std::string o; auto r = cxon::to_bytes<DEF>(std::back_inserter(o), t); mc::trace();
    if (!r) mc::fail("%s[%zu]: write fails", tname<T>(), N); else denotes(o, cs, tname<T>());
}
static void write_all(const std::vector<uint32_t>& cs, size_t offset = 0) {
    write_str<char>(cs, offset); write_str<char8_t>(cs, offset); write_str<char16_t>(cs, offset); write_str<char32_t>(cs, offset); write_str<wchar_t>(cs, offset);
    if (mc::g().slot->evals % 90001 == 18) mc::sample("write " + mc::esc(put<char>(cs)));
}
static void at_write(const char* l, const std::vector<uint32_t>& cs, size_t off = 0) {
    if (mc::at(l, put<char>(cs) + (off ? mc::fmt(" @%zu", off - 1) : ""))) write_all(cs, off);
}

int main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "--thorough") mc::g().thorough = 1;
    const bool T = mc::thorough();
    // every code point, every form
    for (uint32_t hi = 0; hi < 0x110; ++hi) mc::add(mc::fmt("codepoints/%02x", hi), [hi] {
        for (uint32_t c = hi << 12; c < (hi + 1) << 12; ++c) {
            char f[4][32]; int nf = 0;
            if (c < 0x10000) { sprintf(f[nf++], "\\u%04x", c); sprintf(f[nf++], "\\u%04X", c); }
            else { uint32_t a = 0xD800 + ((c - 0x10000) >> 10), b = 0xDC00 + ((c - 0x10000) & 0x3FF); sprintf(f[nf++], "\\u%04x\\u%04X", a, b); }
            for (int k = 0; k < nf; ++k) { std::string s = std::string("\"") + f[k] + "\""; if (mc::at("escape", s)) read_all(s); }
            if (c >= 0xD800 && c <= 0xDFFF) { std::string s = "\""; ref::utf8_put(s, c); s += "\""; if (mc::at("raw", s)) read_all(s); continue; } // encoded surrogates are ill-formed
            std::string s = "\"" + ref::utf8(c) + "\""; if (mc::at("raw", s)) read_all(s);
            if (mc::at("write", ref::utf8(c))) {
                write_all({c});
                if (c < 0x80) { write_chr<char>(c); write_chr<char8_t>(c); }
                if (c < 0x10000) write_chr<char16_t>(c);
                write_chr<char32_t>(c); write_chr<wchar_t>(c);
            }
        }
    });
    // ill-formed UTF-8: every lead byte, all boundary continuations, with and without what follows
    for (int a = 0; a < 256; ++a) mc::add(mc::fmt("utf8/%02x", a), [a, T] {
        static const int cl[] = { 'x', 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC2, 0xE0, 0xF4, 0xFF, '"' };
        for (const char* pre : { "", "p", "\xC3\xA9" }) {
            std::string s = std::string("\"") + pre + char(a);
            auto run = [&](const std::string& x) { for (const char* tail : { "", "\"", "z\"" }) { std::string y = x + tail; if (mc::at("utf8", y)) { read_all(y, !*pre); if (!*pre) read_sized(y); } } };
            run(s);
            for (int b : cl) { run(s + char(b)); for (int c : cl) { run(s + char(b) + char(c)); if ((a >= 0xE0 || T)) for (int d : cl) { std::string y = s + char(b) + char(c) + char(d) + "\""; if (mc::at("utf8", y)) read_all(y, false); } } }
        }
    });
    // escapes: every byte after the backslash, every byte at every digit, high surrogates followed by everything
    mc::add("escapes", [] {
        auto run = [](const std::string& s) { for (const char* pre : { "\"", "\"a", " \"\xC3\xA9" }) for (const char* end : { "", "\"", "b\"", "\\" }) { std::string y = pre + s + end; if (mc::at("escape", y)) { read_all(y); read_sized(y); } } };
        for (int c = 0; c < 256; ++c) {
            run(std::string("\\") + char(c));
            for (const char* u : { "\\u0041", "\\uD83D\\uDE00", "\\u00e9", "\\uFFFF" }) for (size_t i = 2; u[i]; ++i) { std::string s = u; s[i] = char(c); run(s); run(s.substr(0, i)); }
            for (const char* u : { "\\uD800", "\\uDBFF", "\\uda00" }) { run(u + std::string(1, char(c))); run(std::string(u) + "\\" + char(c)); }
        }
        for (uint32_t h : { 0xD7FFu, 0xD800u, 0xD801u, 0xDBFFu, 0xDC00u, 0xDFFFu, 0xE000u }) for (uint32_t l : { 0u, 0x41u, 0xD7FFu, 0xD800u, 0xDBFFu, 0xDC00u, 0xDC01u, 0xDFFFu, 0xE000u, 0xFFFFu }) { char b[32]; sprintf(b, "\\u%04x\\u%04x", h, l); run(b); sprintf(b, "\\u%04X", h); run(b + ref::utf8(0x10400).substr(0)); }
    });
    // sequences of tokens
    static const std::vector<std::string> tk = { "x", "\\\"", "\\\\", "\\n", "\xC3\xA9", "\\u00e9", "\xF0\x9F\x98\x80", "\\ud83d\\ude00", "\\ud83d", "\\ude00", "\x80", "\xC3", "\x01", "\"", "\\q", std::string(1, '\0'), "/", "'", "\\/", "\xE2\x82\xAC", "\\u0000" };
    for (size_t i = 0; i < tk.size(); ++i) mc::add("tokens/" + std::to_string(i), [i, T] {
        std::function<void(const std::string&, int)> rec = [&](const std::string& s, int left) {
            if (mc::at("tokens", s)) { read_all(s, false); if (left >= 1 + T) read_sized(s); }
            if (mc::at("tokens", s + "\"")) { read_all(s + "\"", false); if (left >= 1 + T) read_sized(s + "\""); }
            if (left) for (auto& t : tk) rec(s + t, left - 1);
        };
        rec("\"" + tk[i], T ? 4 : 3);
    });
    // every length and position
    mc::add("lengths/plain", [] { for (size_t n = 0; n < 300; ++n) for (size_t off = 0; off <= 17; ++off) at_write("length", std::vector<uint32_t>(n, 'x'), off);
        for (size_t n : {511, 512, 513, 1023, 1024, 4095, 4096}) at_write("length", std::vector<uint32_t>(n, 'x')); });
    for (size_t q = 0; q < 8; ++q) mc::add(mc::fmt("lengths/%zu", q), [q, T] {
        std::vector<uint32_t> sp; for (uint32_t c = 0; c < 0x23; ++c) sp.push_back(c);
        for (uint32_t c : { 0x27u, 0x2Fu, 0x5Bu, 0x5Cu, 0x5Du, 0x7Eu, 0x7Fu, 0x80u, 0x9Fu, 0xE9u, 0x7FFu, 0x800u, 0x2028u, 0x20ACu, 0xFFFDu, 0xFFFFu, 0x10000u, 0x1F600u, 0x10FFFFu }) sp.push_back(c);
        for (size_t n = 1; n <= (T ? 140u : 68u); ++n) if (n % 8 == q) for (size_t k = 0; k < n; ++k) for (uint32_t c : sp) {
            std::vector<uint32_t> v(n, 'x'); v[k] = c; at_write("position", v, T ? (n + k + c) % 18 : 0);
            if (c < 0x23 && c % 5) continue;
            std::string s = "\"" + std::string(k, 'x') + (c < 0x20 || c == '"' || c == '\\' ? mc::fmt("\\u%04x", c) : ref::utf8(c)) + std::string(n - k - 1, 'y') + "\"";
            if (mc::at("read-position", s)) read_all(s, false);
            if (c < 0x20 || c == '"') { s = "\"" + std::string(k, 'x') + char(c) + std::string(n - k - 1, 'y') + "\""; if (mc::at("read-position", s)) read_all(s, false); }
        }
    });
    // two specials at every pair of positions
    for (size_t q = 0; q < 8; ++q) mc::add(mc::fmt("pairs/%zu", q), [q, T] {
        for (size_t n = 2; n <= (T ? 50u : 35u); ++n) for (size_t i = 0; i < n; ++i) if ((i + n) % 8 == q) for (size_t j = i + 1; j < n; ++j)
            for (uint32_t a : { 0x22u, 0x0Au, 0x5Cu, 0x00u }) for (uint32_t b : { 0x22u, 0x1Fu, 0xE9u, 0x1F600u }) {
                std::vector<uint32_t> v(n, 'x'); v[i] = a; v[j] = b; if (mc::at("pair", put<char>(v))) { write_str<char>(v); if ((a == 0x22 && b == 0x22) || b == 0x1F600) { write_str<char16_t>(v); write_str<char8_t>(v); } }
            }
    });
    // every subset of positions of a 16-byte block, plain block before/after
    for (int q = 0; q < 16; ++q) mc::add(mc::fmt("masks/%d", q), [q, T] {
        for (uint32_t m = 0; m < 4096; ++m) { uint32_t k = m << 4 | uint32_t(q);
            for (int mode = 0; mode < (T ? 4 : 2); ++mode) {
                std::vector<uint32_t> v; if (mode == 1 || mode == 3) v.assign(mode == 1 ? 16 : 5, 'a');
                for (int i = 0; i < 16; ++i) v.push_back((k >> i & 1) ? ((m & 1) ? 0x22u : 0x1Bu) : 'x');
                if (mode) v.insert(v.end(), mode == 1 ? 3 : 16, 'z');
                if (mc::at("mask", put<char>(v))) write_str<char>(v);
            } }
    });
    // every short ASCII string
    for (uint32_t a = 0; a < 128; ++a) mc::add(mc::fmt("ascii/%02x", a), [a, T] {
        for (uint32_t b = 0; b < 128; ++b) {
            std::vector<uint32_t> v = { a, b };
            if (mc::at("ascii2", put<char>(v))) { write_all(v); write_arr<char, 2>(v); write_arr<char, 3>(v); write_arr<char16_t, 3>(v); if (a && b) { write_ptr<char>(v); write_ptr<char8_t>(v); write_ptr<char16_t>(v); write_ptr<char32_t>(v); write_ptr<wchar_t>(v); } }
            if (T || a < 0x30 || a == 0x5C) for (uint32_t c = 0; c < 128; ++c) { v = { a, b, c }; if (mc::at("ascii3", put<char>(v))) { write_str<char>(v); if (T) write_str<char32_t>(v); } }
        }
        for (size_t n = 0; n < 40; ++n) { std::vector<uint32_t> v(n, a ? a : 1); if (mc::at("run", put<char>(v))) { write_all(v); write_ptr<char>(v); write_arr<char, 16>(v); write_arr<char, 17>(v); write_arr<char, 32>(v); write_arr<char32_t, 16>(v); } }
    });
    return mc::main(argc, argv);
}
