// Reference models, deliberately boring: a value tree, a byte-level pushdown automaton for RFC 8259,
// a recursive RFC 8259 value builder, UTF-8 and an RFC 8949 decoder / preferred encoder.
#pragma once
#include "mc.hxx"
#include <cmath>
#include <limits>
#include <map>

namespace ref {

    struct Val {
        enum K : uint8_t { none, nul, boo, uin, neg, rea, txt, byt, arr, map, tag, sim, und } k = none;
        uint64_t u = 0;                 // boo, uin, neg (value is -1-u), tag, sim
        double d = 0;                   // rea
        std::string s;                  // txt, byt
        std::vector<Val> a;             // arr elements, map k/v alternating, tag's value
        static Val N() { Val v; v.k = nul; return v; }
        static Val B(bool b) { Val v; v.k = boo; v.u = b; return v; }
        static Val U(uint64_t u) { Val v; v.k = uin; v.u = u; return v; }
        static Val I(uint64_t u) { Val v; v.k = neg; v.u = u; return v; }
        static Val R(double d) { Val v; v.k = rea; v.d = d; return v; }
        static Val T(const std::string& s) { Val v; v.k = txt; v.s = s; return v; }
        static Val Y(const std::string& s) { Val v; v.k = byt; v.s = s; return v; }
        static Val A() { Val v; v.k = arr; return v; }
        static Val M() { Val v; v.k = map; return v; }
        static Val G(uint64_t t, const Val& x) { Val v; v.k = tag; v.u = t; v.a.push_back(x); return v; }
        static Val S(uint64_t u) { Val v; v.k = sim; v.u = u; return v; }
        static Val D() { Val v; v.k = und; return v; }
    };
    inline bool same_real(double a, double b) {
        if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
        return a == b && std::signbit(a) == std::signbit(b);
    }
    inline std::string dump(const Val& v);
    // maps are compared as multisets of pairs
    inline std::string dump(const Val& v) {
        switch (v.k) {
            case Val::none: return "?";
            case Val::nul: return "null";
            case Val::boo: return v.u ? "true" : "false";
            case Val::uin: return "u" + std::to_string(v.u);
            case Val::neg: return "-1-" + std::to_string(v.u);
            case Val::rea: { char b[64]; if (std::isnan(v.d)) return "nan"; snprintf(b, sizeof b, "r%.17g", v.d); return b; }
            case Val::txt: return "t'" + mc::esc(v.s) + "'";
            case Val::byt: return "h'" + mc::hex(v.s) + "'";
            case Val::arr: { std::string o = "["; for (auto& x : v.a) o += dump(x) + ","; return o + "]"; }
            case Val::map: {
                std::vector<std::string> p; for (size_t i = 0; i + 1 < v.a.size(); i += 2) p.push_back(dump(v.a[i]) + ":" + dump(v.a[i + 1]));
                std::sort(p.begin(), p.end()); std::string o = "{"; for (auto& x : p) o += x + ","; return o + "}"; }
            case Val::tag: return "tag" + std::to_string(v.u) + "(" + dump(v.a[0]) + ")";
            case Val::sim: return "simple" + std::to_string(v.u);
            case Val::und: return "undefined";
        }
        return "!";
    }
    inline bool equal(const Val& a, const Val& b) {
        if (a.k != b.k) return false;
        switch (a.k) {
            case Val::rea: return same_real(a.d, b.d);
            case Val::txt: case Val::byt: return a.s == b.s;
            case Val::arr: if (a.a.size() != b.a.size()) return false; for (size_t i = 0; i < a.a.size(); ++i) if (!equal(a.a[i], b.a[i])) return false; return true;
            case Val::tag: return a.u == b.u && equal(a.a[0], b.a[0]);
            case Val::map: return a.a.size() == b.a.size() && dump(a) == dump(b);
            case Val::boo: case Val::uin: case Val::neg: case Val::sim: return a.u == b.u;
            default: return true;
        }
    }
    inline bool has_dup_keys(const Val& v) {
        if (v.k == Val::map) {
            std::vector<std::string> p; for (size_t i = 0; i + 1 < v.a.size(); i += 2) p.push_back(dump(v.a[i]));
            std::sort(p.begin(), p.end()); if (std::adjacent_find(p.begin(), p.end()) != p.end()) return true;
        }
        for (auto& x : v.a) if (has_dup_keys(x)) return true;
        return false;
    }
    inline size_t depth(const Val& v) { // containers nested
        size_t d = 0; for (auto& x : v.a) d = std::max(d, depth(x));
        return d + (v.k == Val::arr || v.k == Val::map || v.k == Val::tag);
    }

    // ---------------------------------------------------------------- UTF-8
    inline void utf8_put(std::string& o, uint32_t c) {
        if (c < 0x80) o += char(c);
        else if (c < 0x800) { o += char(0xC0 | c >> 6); o += char(0x80 | (c & 63)); }
        else if (c < 0x10000) { o += char(0xE0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
        else { o += char(0xF0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
    }
    inline std::string utf8(uint32_t c) { std::string s; utf8_put(s, c); return s; }
    // length of the valid sequence at b, 0 if invalid; Unicode 15 table 3-7
    inline unsigned utf8_len(const unsigned char* b, const unsigned char* e) {
        if (b == e) return 0;
        unsigned c = b[0];
        if (c < 0x80) return 1;
        size_t n = size_t(e - b);
        auto t = [&](size_t i, unsigned lo, unsigned hi) { return n > i && b[i] >= lo && b[i] <= hi; };
        if (c >= 0xC2 && c <= 0xDF) return t(1, 0x80, 0xBF) ? 2 : 0;
        if (c == 0xE0) return t(1, 0xA0, 0xBF) && t(2, 0x80, 0xBF) ? 3 : 0;
        if ((c >= 0xE1 && c <= 0xEC) || c == 0xEE || c == 0xEF) return t(1, 0x80, 0xBF) && t(2, 0x80, 0xBF) ? 3 : 0;
        if (c == 0xED) return t(1, 0x80, 0x9F) && t(2, 0x80, 0xBF) ? 3 : 0;
        if (c == 0xF0) return t(1, 0x90, 0xBF) && t(2, 0x80, 0xBF) && t(3, 0x80, 0xBF) ? 4 : 0;
        if (c >= 0xF1 && c <= 0xF3) return t(1, 0x80, 0xBF) && t(2, 0x80, 0xBF) && t(3, 0x80, 0xBF) ? 4 : 0;
        if (c == 0xF4) return t(1, 0x80, 0x8F) && t(2, 0x80, 0xBF) && t(3, 0x80, 0xBF) ? 4 : 0;
        return 0;
    }
    inline bool utf8_valid(const std::string& s) {
        const unsigned char* b = (const unsigned char*)s.data(); const unsigned char* e = b + s.size();
        while (b != e) { unsigned n = utf8_len(b, e); if (!n) return false; b += n; }
        return true;
    }
    inline std::vector<uint32_t> utf8_decode(const std::string& s) { // valid input
        std::vector<uint32_t> o; size_t i = 0;
        while (i < s.size()) {
            unsigned char c = (unsigned char)s[i]; unsigned n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
            uint32_t v = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
            for (unsigned k = 1; k < n; ++k) v = v << 6 | ((unsigned char)s[i + k] & 63);
            o.push_back(v); i += n;
        }
        return o;
    }

    // ---------------------------------------------------------------- RFC 8259, byte-level pushdown automaton
    // lax_num: a number token may be malformed (the documented-off `number::strict`)
    struct Pda {
        enum S : uint8_t { val, val_or_close, key_or_close, key, colon, after, str, esc, u1, u2, u3, u4, lo_bs, lo_u, l1, l2, l3, l4, t1, t2, t3, e0, ed, f0, f4,
            lit, minus, zero, inte, dot, frac, exp, exps, expd, laxnum, dead };
        uint8_t st = val, inkey = 0, hs = 0, top = 0; // hs: state of \u digits: bit0 first digit D.. ; 
        uint8_t lax = 0; char lp[8] = {0}; uint8_t ln = 0; uint16_t cu = 0;
        char stack[80] = {0};
        static bool ws(unsigned char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
        static int hexv(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
        bool num_final() const { return st == zero || st == inte || st == frac || st == expd || st == laxnum; }
        bool accepting() const { return top == 0 && (st == after || num_final()); }
        bool complete_nonnum() const { return top == 0 && st == after; }
        void pop_value() { st = after; }
        void str_begin(bool k) { st = str; inkey = k; }
        void str_end() { if (inkey) st = colon; else pop_value(); inkey = 0; }
        bool start_value(unsigned char c) {
            switch (c) {
                case '"': str_begin(false); return true;
                case '{': if (top >= 79) { st = dead; return false; } stack[top++] = '{'; st = key_or_close; return true;
                case '[': if (top >= 79) { st = dead; return false; } stack[top++] = '['; st = val_or_close; return true;
                case 't': strcpy(lp, "rue"); ln = 0; st = lit; return true;
                case 'f': strcpy(lp, "alse"); ln = 0; st = lit; return true;
                case 'n': strcpy(lp, "ull"); ln = 0; st = lit; return true;
                case '-': st = lax ? laxnum : minus; return true;
                case '0': st = lax ? laxnum : zero; return true;
                default:
                    if (c >= '1' && c <= '9') { st = lax ? laxnum : inte; return true; }
                    if (lax && (c == '+' || c == '.' || c == 'N' || c == 'I' || c == 'i')) { st = laxnum; return true; }
            }
            st = dead; return false;
        }
        bool after_value(unsigned char c) {
            if (ws(c)) { st = after; return true; }
            if (top == 0) { st = dead; return false; }
            if (c == ',') { st = stack[top - 1] == '{' ? key : val; return true; }
            if ((c == '}' && stack[top - 1] == '{') || (c == ']' && stack[top - 1] == '[')) { --top; st = after; return true; }
            st = dead; return false;
        }
        bool step(unsigned char c) {
            switch (st) {
                case dead: return false;
                case val: if (ws(c)) return true; return start_value(c);
                case val_or_close: if (ws(c)) return true; if (c == ']') { --top; st = after; return true; } return start_value(c);
                case key_or_close: if (ws(c)) return true; if (c == '}') { --top; st = after; return true; } if (c == '"') { str_begin(true); return true; } st = dead; return false;
                case key: if (ws(c)) return true; if (c == '"') { str_begin(true); return true; } st = dead; return false;
                case colon: if (ws(c)) return true; if (c == ':') { st = val; return true; } st = dead; return false;
                case after: return after_value(c);
                case str:
                    if (c == '"') { str_end(); return true; }
                    if (c == '\\') { st = esc; return true; }
                    if (c < 0x20) { st = dead; return false; }
                    if (c < 0x80) return true;
                    if (c >= 0xC2 && c <= 0xDF) { st = t1; return true; }
                    if (c == 0xE0) { st = e0; return true; }
                    if (c == 0xED) { st = ed; return true; }
                    if (c >= 0xE1 && c <= 0xEF) { st = t2; return true; }
                    if (c == 0xF0) { st = f0; return true; }
                    if (c >= 0xF1 && c <= 0xF3) { st = t3; return true; }
                    if (c == 0xF4) { st = f4; return true; }
                    st = dead; return false;
                case e0: if (c >= 0xA0 && c <= 0xBF) { st = t1; return true; } st = dead; return false;
                case ed: if (c >= 0x80 && c <= 0x9F) { st = t1; return true; } st = dead; return false;
                case f0: if (c >= 0x90 && c <= 0xBF) { st = t2; return true; } st = dead; return false;
                case f4: if (c >= 0x80 && c <= 0x8F) { st = t2; return true; } st = dead; return false;
                case t3: if (c >= 0x80 && c <= 0xBF) { st = t2; return true; } st = dead; return false;
                case t2: if (c >= 0x80 && c <= 0xBF) { st = t1; return true; } st = dead; return false;
                case t1: if (c >= 0x80 && c <= 0xBF) { st = str; return true; } st = dead; return false;
                case esc:
                    switch (c) { case '"': case '\\': case '/': case 'b': case 'f': case 'n': case 'r': case 't': st = str; return true; case 'u': st = u1; cu = 0; return true; }
                    st = dead; return false;
                case u1: case u2: case u3: case u4: case l1: case l2: case l3: case l4: {
                    int v = hexv(c); if (v < 0) { st = dead; return false; }
                    cu = uint16_t(cu << 4 | v);
                    if (st == u2 && (cu >> 3) == 0x1B && (cu & 7) >= 4) { st = dead; return false; }       // DC..DF first: unpaired
                    if (st == u4) { st = cu >= 0xD800 && cu <= 0xDBFF ? lo_bs : str; cu = st == str ? 0 : cu; if (st == lo_bs) cu = 0; return true; }
                    if (st == l1 && v != 0xD) { st = dead; return false; }
                    if (st == l2 && v < 0xC) { st = dead; return false; }
                    if (st == l4) { st = str; cu = 0; return true; }
                    ++st; return true; }
                case lo_bs: if (c == '\\') { st = lo_u; return true; } st = dead; return false;
                case lo_u: if (c == 'u') { st = l1; cu = 0; return true; } st = dead; return false;
                case lit:
                    if ((unsigned char)lp[ln] == c) { if (!lp[++ln]) { memset(lp, 0, sizeof lp); ln = 0; st = after; } return true; }
                    if (lax && lp[0] == 'u' && ln == 0 && c == 'a') { st = laxnum; return true; }
                    st = dead; return false;
                case minus: if (c == '0') { st = zero; return true; } if (c >= '1' && c <= '9') { st = inte; return true; } st = dead; return false;
                case zero: if (c == '.') { st = dot; return true; } if (c == 'e' || c == 'E') { st = exp; return true; } return after_value(c);
                case inte: if (c >= '0' && c <= '9') return true; if (c == '.') { st = dot; return true; } if (c == 'e' || c == 'E') { st = exp; return true; } return after_value(c);
                case dot: if (c >= '0' && c <= '9') { st = frac; return true; } st = dead; return false;
                case frac: if (c >= '0' && c <= '9') return true; if (c == 'e' || c == 'E') { st = exp; return true; } return after_value(c);
                case exp: if (c == '+' || c == '-') { st = exps; return true; } // fallthrough
                case exps: if (c >= '0' && c <= '9') { st = expd; return true; } st = dead; return false;
                case expd: if (c >= '0' && c <= '9') return true; return after_value(c);
                case laxnum: if ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '+' || c == '-' || c == '.') return true; return after_value(c);
            }
            return false;
        }
        uint64_t key_hash() const { uint64_t h = mc::hash(stack, top); uint8_t x[20] = {st, inkey, ln, lax, uint8_t(cu >> 8), uint8_t(cu), top}; memcpy(x + 8, lp, 8); return mc::hash(x, sizeof x, h); }
    };
    // accepts the whole text (with surrounding white space)
    inline bool json_valid(const char* b, const char* e, bool lax = false, bool count = false) {
        Pda p; p.lax = lax;
        for (; b != e; ++b) {
            bool ok = p.step((unsigned char)*b);
            if (count) { mc::transition(); mc::state(p.key_hash()); }
            if (!ok) return false;
        }
        return p.accepting();
    }
    // end of the value (not of the trailing white space) in a valid text, by the last byte that is not white space
    inline const char* json_value_end(const char* b, const char* e) { while (e != b && Pda::ws((unsigned char)e[-1])) --e; return e; }

    // exact decimal comparison is left to strtod/strtoull (glibc: correctly rounded)
    inline Val json_number(const std::string& t) {
        bool integral = t.find_first_of(".eE") == std::string::npos;
        if (integral) {
            bool ng = t[0] == '-'; std::string d = ng ? t.substr(1) : t; // no leading zeros
            if (d.size() < 20 || (d.size() == 20 && d <= "18446744073709551615")) {
                uint64_t u = strtoull(d.c_str(), nullptr, 10);
                if (!ng) return Val::U(u);
                if (u == 0) return Val::U(0);
                if (u <= uint64_t(1) << 63) return Val::I(u - 1);
            }
        }
        return Val::R(strtod(t.c_str(), nullptr));
    }
    // value of a valid text
    inline Val json_build(const char*& b, const char* e) {
        auto skip = [&] { while (b != e && Pda::ws((unsigned char)*b)) ++b; };
        auto str = [&] {
            std::string o; ++b;
            while (*b != '"') {
                if (*b != '\\') { o += *b++; continue; }
                ++b; char c = *b++;
                switch (c) {
                    case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
                    case 'u': {
                        auto h4 = [&] { uint32_t v = 0; for (int k = 0; k < 4; ++k) v = v << 4 | uint32_t(Pda::hexv((unsigned char)*b++)); return v; };
                        uint32_t v = h4();
                        if (v >= 0xD800 && v < 0xDC00) { b += 2; uint32_t w = h4(); v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00); }
                        utf8_put(o, v); break; }
                    default: o += c;
                }
            }
            ++b; return o;
        };
        skip();
        Val v;
        switch (*b) {
            case '"': return Val::T(str());
            case 't': b += 4; return Val::B(true);
            case 'f': b += 5; return Val::B(false);
            case 'n': b += 4; return Val::N();
            case '[':
                v = Val::A(); ++b; skip();
                if (*b == ']') { ++b; return v; }
                for (;;) { v.a.push_back(json_build(b, e)); skip(); if (*b++ == ']') return v; }
            case '{':
                v = Val::M(); ++b; skip();
                if (*b == '}') { ++b; return v; }
                for (;;) { skip(); v.a.push_back(Val::T(str())); skip(); ++b; v.a.push_back(json_build(b, e)); skip(); if (*b++ == '}') return v; }
            default: {
                std::string t; while (b != e && ((*b >= '0' && *b <= '9') || *b == '-' || *b == '+' || *b == '.' || *b == 'e' || *b == 'E')) t += *b++;
                return json_number(t); }
        }
    }
    inline Val json_value(const std::string& s) { const char* b = s.data(); return json_build(b, b + s.size()); }

    // ---------------------------------------------------------------- RFC 8949
    inline double half(uint16_t h) {
        int e = h >> 10 & 31; int m = h & 1023; double v;
        if (e == 0) v = std::ldexp(m, -24); else if (e != 31) v = std::ldexp(m + 1024, e - 25); else v = m ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity();
        return h & 0x8000 ? -v : v;
    }
    // status of the first item of a byte sequence
    enum St { ok, bad, shrt /* needs more bytes */ };
    struct Dec {
        const unsigned char *b, *e; bool count = false; size_t nesting = 0;
        bool simple2 = false;        // met a two-byte simple value < 32 (not well-formed by RFC 8949, reserved by RFC 7049)
        bool bad_utf8 = false;
        Dec(const unsigned char* b_, const unsigned char* e_) : b(b_), e(e_) {}
        St head(uint8_t& mt, uint8_t& ai, uint64_t& v) {
            if (b == e) return shrt;
            mt = uint8_t(*b >> 5); ai = uint8_t(*b & 31); ++b; v = ai;
            if (ai < 24 || ai == 31) return ok;
            if (ai > 27) return bad;
            size_t n = size_t(1) << (ai - 24);
            if (size_t(e - b) < n) return shrt;
            v = 0; for (size_t i = 0; i < n; ++i) v = v << 8 | *b++;
            return ok;
        }
        St item(Val& o) {
            uint8_t mt, ai; uint64_t v; St s = head(mt, ai, v);
            if (count) { mc::transition(); uint64_t x[3] = {uint64_t(mt) << 8 | ai, nesting, uint64_t(s)}; mc::state(mc::hash(x, sizeof x)); }
            if (s != ok) return s;
            switch (mt) {
                case 0: if (ai == 31) return bad; o = Val::U(v); return ok;
                case 1: if (ai == 31) return bad; o = Val::I(v); return ok;
                case 2: case 3: {
                    std::string t;
                    if (ai != 31) { if (uint64_t(e - b) < v) return shrt; t.assign((const char*)b, size_t(v)); b += v; if (mt == 3 && !utf8_valid(t)) bad_utf8 = true; }
                    else for (;;) {
                        if (b == e) return shrt;
                        if (*b == 0xFF) { ++b; break; }
                        uint8_t m2, a2; uint64_t v2; s = head(m2, a2, v2);
                        if (m2 != mt || a2 == 31) return bad;
                        if (s != ok) return s;
                        if (uint64_t(e - b) < v2) return shrt;
                        std::string u((const char*)b, size_t(v2)); b += v2; if (mt == 3 && !utf8_valid(u)) bad_utf8 = true; t += u;
                        if (count) mc::transition();
                    }
                    o = mt == 2 ? Val::Y(t) : Val::T(t); return ok; }
                case 4: case 5: {
                    Val c = mt == 4 ? Val::A() : Val::M(); ++nesting;
                    uint64_t k = mt == 4 ? 1 : 2;
                    for (uint64_t i = 0; ; ++i) {
                        if (ai != 31) { if (i == v) break; }
                        else { if (b == e) return shrt; if (*b == 0xFF) { ++b; break; } }
                        for (uint64_t q = 0; q < k; ++q) { Val x; s = item(x); if (s != ok) return s; c.a.push_back(x); }
                    }
                    --nesting; o = c; return ok; }
                case 6: { if (ai == 31) return bad; Val x; ++nesting; s = item(x); --nesting; if (s != ok) return s; o = Val::G(v, x); return ok; }
                default:
                    if (ai == 31) return bad;
                    if (ai == 20) o = Val::B(false); else if (ai == 21) o = Val::B(true); else if (ai == 22) o = Val::N(); else if (ai == 23) o = Val::D();
                    else if (ai < 20) o = Val::S(v);
                    else if (ai == 24) { if (v < 32) simple2 = true; o = Val::S(v); }
                    else if (ai == 25) o = Val::R(half(uint16_t(v)));
                    else if (ai == 26) { float f; uint32_t w = uint32_t(v); memcpy(&f, &w, 4); o = Val::R(double(f)); }
                    else { double d; memcpy(&d, &v, 8); o = Val::R(d); }
                    return ok;
            }
        }
    };
    inline void cbor_head(std::string& o, unsigned mt, uint64_t v) {
        if (v < 24) { o += char(mt << 5 | v); return; }
        unsigned n = v <= 0xFF ? 0 : v <= 0xFFFF ? 1 : v <= 0xFFFFFFFFull ? 2 : 3;
        o += char(mt << 5 | (24 + n));
        for (int i = (1 << n) - 1; i >= 0; --i) o += char(v >> (8 * i));
    }
    inline std::string cbor_head(unsigned mt, uint64_t v) { std::string o; cbor_head(o, mt, v); return o; }
    // definite-length, shortest heads; reals as binary64
    inline void cbor_encode(std::string& o, const Val& v) {
        switch (v.k) {
            case Val::nul: o += '\xF6'; break; case Val::und: o += '\xF7'; break; case Val::boo: o += v.u ? '\xF5' : '\xF4'; break;
            case Val::uin: cbor_head(o, 0, v.u); break; case Val::neg: cbor_head(o, 1, v.u); break;
            case Val::byt: cbor_head(o, 2, v.s.size()); o += v.s; break; case Val::txt: cbor_head(o, 3, v.s.size()); o += v.s; break;
            case Val::arr: cbor_head(o, 4, v.a.size()); for (auto& x : v.a) cbor_encode(o, x); break;
            case Val::map: cbor_head(o, 5, v.a.size() / 2); for (auto& x : v.a) cbor_encode(o, x); break;
            case Val::tag: cbor_head(o, 6, v.u); cbor_encode(o, v.a[0]); break;
            case Val::sim: if (v.u < 24) o += char(0xE0 | v.u); else { o += '\xF8'; o += char(v.u); } break;
            case Val::rea: { o += '\xFB'; uint64_t w; memcpy(&w, &v.d, 8); for (int i = 7; i >= 0; --i) o += char(w >> (8 * i)); break; }
            default: break;
        }
    }
    inline std::string cbor_encode(const Val& v) { std::string o; cbor_encode(o, v); return o; }

    // every tree of exactly n nodes: leaves, arrays and, when given, maps (keys from a list, distinct and ascending) and tags
    struct Trees {
        std::vector<Val> leaves, keys; std::vector<uint64_t> tags; bool maps = true;
        std::map<size_t, std::vector<Val>> memo; // by number of nodes
        const std::vector<Val>& of(size_t n) {
            auto f = memo.find(n); if (f != memo.end()) return f->second;
            std::vector<Val> r;
            if (n == 1) { r = leaves; r.push_back(Val::A()); if (maps) r.push_back(Val::M()); }
            else {
                for (auto t : tags) for (auto& x : of(n - 1)) r.push_back(Val::G(t, x));
                seq(n - 1, Val::A(), 1, 0, r);
                if (maps) seq(n - 1, Val::M(), 2, 0, r);
            }
            return memo[n] = r;
        }
        private:
            void seq(size_t left, const Val& c, int k, size_t key, std::vector<Val>& r) {
                if (left == 0) { r.push_back(c); return; }
                for (size_t m = 1; m <= left; ++m) for (auto& x : of(m)) {
                    if (k == 1) { Val d = c; d.a.push_back(x); seq(left - m, d, k, 0, r); }
                    else for (size_t q = key; q < keys.size(); ++q) { Val d = c; d.a.push_back(keys[q]); d.a.push_back(x); seq(left - m, d, k, q + 1, r); }
                }
            }
    };

    // are all heads of a (definite-length) item the shortest possible; end: first byte after it, null when ill-formed or indefinite
    inline const unsigned char* cbor_shortest(const unsigned char* b, const unsigned char* e, bool& shortest) {
        if (b == e) return nullptr;
        Dec d{b, e}; uint8_t mt, ai; uint64_t v; if (d.head(mt, ai, v) != ok || ai == 31) return nullptr;
        if (mt != 7 && size_t(d.b - b) != cbor_head(mt, v).size()) shortest = false;
        b = d.b;
        switch (mt) {
            case 0: case 1: return b;
            case 2: case 3: return uint64_t(e - b) < v ? nullptr : b + v;
            case 4: case 5: for (uint64_t i = 0; i < v * (mt - 3); ++i) if (!(b = cbor_shortest(b, e, shortest))) return nullptr; return b;
            case 6: return cbor_shortest(b, e, shortest);
            default: return b;
        }
    }

}   // ref
