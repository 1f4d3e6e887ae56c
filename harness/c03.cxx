// C03: numbers of every arithmetic type, read and written, against glibc's correctly rounded
// conversions and 128-bit integer arithmetic.
#include "cxon/json.hxx"
#include "cxon/lib/std/vector.hxx"
#include "ref.hxx"
#include <list>
#include <iterator>
using ref::Pda;
struct strict_traits : cxon::json::format_traits { struct number : cxon::json::format_traits::number { static constexpr bool strict = true; }; };
using DEF = cxon::JSON<>; using STR = cxon::JSON<strict_traits>;
typedef __int128 i128;

template <typename T> static const char* tname();
#define N_(T) template <> const char* tname<T>() { return #T; }
N_(signed char) N_(unsigned char) N_(short) N_(unsigned short) N_(int) N_(unsigned) N_(long) N_(unsigned long) N_(long long) N_(unsigned long long) N_(float) N_(double) N_(long double) N_(bool)
#undef N_

static bool digit(char c) { return c >= '0' && c <= '9'; }
// the longest JSON number at the start of s (0: none)
static size_t json_token(const std::string& s) {
    size_t i = 0, n = s.size();
    if (i < n && s[i] == '-') ++i;
    if (i == n || !digit(s[i])) return 0;
    if (s[i] == '0') ++i; else while (i < n && digit(s[i])) ++i;
    size_t k = i;
    if (i + 1 < n && s[i] == '.' && digit(s[i + 1])) { ++i; while (i < n && digit(s[i])) ++i; k = i; }
    if (i < n && (s[i] == 'e' || s[i] == 'E')) { size_t j = i + 1; if (j < n && (s[j] == '+' || s[j] == '-')) ++j; if (j < n && digit(s[j])) { while (j < n && digit(s[j])) ++j; k = j; } }
    return k;
}
static bool token_char(char c) { return digit(c) || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '.' || c == '+' || c == '-' || c == '"'; }
// integer of a text of digits with an optional '-'; false: beyond 2^100
static bool big(const std::string& t, i128& v) {
    size_t i = t[0] == '-'; if (i == t.size()) return false; v = 0;
    for (; i < t.size(); ++i) { if (!digit(t[i])) return false; if (v < (i128(1) << 100)) v = v * 10 + (t[i] - '0'); }
    if (t[0] == '-') v = -v;
    return true;
}
template <typename T> static T conv(const char* s, char** e);
template <> float conv<float>(const char* s, char** e) { return strtof(s, e); }
template <> double conv<double>(const char* s, char** e) { return strtod(s, e); }
template <> long double conv<long double>(const char* s, char** e) { return strtold(s, e); }
template <typename T> static bool same(T a, T b) { return std::isnan(a) ? std::isnan(b) : a == b && std::signbit(a) == std::signbit(b); }

struct Res { bool ok; size_t end; std::error_condition ec; };
template <typename X, typename T> static Res ptr(T& t, const std::string& s) {
    // libstdc++ 13's std::from_chars(long double) itself looks past the end of "-" or "i00": not at the edge of the page
    std::string pad = s + std::string(16, ' '); bool ld = std::is_same<T, long double>::value;
    const char* b = ld ? pad.data() : mc::guard().put(s); auto r = cxon::from_bytes<X>(t, b, b + s.size()); mc::trace(); return { bool(r), size_t(r.end - b), r.ec }; }
template <typename T> static Res lst(T& t, const std::string& s) { std::list<char> l(s.begin(), s.end()); auto r = cxon::from_bytes<DEF>(t, l.begin(), l.end()); mc::trace(); return { bool(r), size_t(std::distance(l.cbegin(), std::list<char>::const_iterator(r.end))), r.ec }; }

// whole: the token is everything (then a failure or the full length are the only answers when it is valid)
enum Mode { lax, strict, generic };
template <typename T> static void judge_int(const std::string& s, T t, const Res& r, Mode m) {
    const char* who = m == lax ? "" : m == strict ? "strict " : "list ";
    size_t ws = 0; while (ws < s.size() && Pda::ws((unsigned char)s[ws])) ++ws;
    std::string u = s.substr(ws);
    size_t k = json_token(u); bool integral = k && u.substr(0, k).find_first_of(".eE") == std::string::npos;
    bool alone = k && (k == u.size() || !token_char(u[k]));
    mc::outcome(mc::mix(uint64_t(r.ec.value()), uint64_t(k)));
    i128 v; bool fits = integral && big(u.substr(0, k), v) && v >= i128(std::numeric_limits<T>::min()) && v <= i128(std::numeric_limits<T>::max());
    if (fits && alone) {
        if (!r.ok && std::is_unsigned<T>::value && u[0] == '-') return;     // -0
        if (!r.ok && m == generic && k >= 31) return;                       // longer than the number buffer (documented)
        if (!r.ok) { mc::fail("%s%s refused (%s): %s", who, tname<T>(), r.ec.message().c_str(), mc::esc(s).c_str()); return; }
        if (r.end != ws + k) mc::fail("%s%s stops at %zu, expected %zu: %s", who, tname<T>(), r.end, ws + k, mc::esc(s).c_str());
        if (i128(t) != v) mc::fail("%s%s reads as %lld (%llu): %s", who, tname<T>(), (long long)t, (unsigned long long)t, mc::esc(s).c_str());
        return;
    }
    if (!r.ok) { if (!r.ec) mc::fail("%s%s refused without an error code", who, tname<T>()); return; }
    // accepted: what was consumed must be an integer of that value (leading zeros only when not strict)
    if (r.end <= ws || r.end > s.size()) { mc::fail("%s%s accepted nothing: %s", who, tname<T>(), mc::esc(s).c_str()); return; }
    std::string c = s.substr(ws, r.end - ws);
    if (!big(c, v) || v != i128(t)) { mc::fail("%s%s accepted '%s' of %s as %lld", who, tname<T>(), mc::esc(c).c_str(), mc::esc(s).c_str(), (long long)t); return; }
    if (m != lax && json_token(c) != c.size()) mc::fail("%s%s accepted '%s', no JSON number", who, tname<T>(), mc::esc(c).c_str());
    if (integral && !fits && r.end >= ws + k) mc::fail("%s%s accepted a number out of range: %s", who, tname<T>(), mc::esc(s).c_str());
    if (r.end < s.size() && digit(s[r.end]) && !(c == "0" || c == "-0")) mc::fail("%s%s stops inside the token at %zu: %s", who, tname<T>(), r.end, mc::esc(s).c_str());
}
template <typename T> static void read_int(const std::string& s) {
    { T t = 99; Res r = ptr<DEF>(t, s); judge_int<T>(s, t, r, lax); }
    { T t = 99; Res r = ptr<STR>(t, s); judge_int<T>(s, t, r, strict); }
    { T t = 99; Res r = lst(t, s); judge_int<T>(s, t, r, generic); }
}
// typed reads also skip \v and \f as white space, which no property speaks of
static bool vf(const std::string& s) { return s.find_first_of("\v\f") != std::string::npos; }
static void ints(const std::string& s) {
    if (vf(s)) return;
    mc::state(mc::hash(s)); mc::transition(s.size());
    read_int<signed char>(s); read_int<unsigned char>(s); read_int<short>(s); read_int<unsigned short>(s); read_int<int>(s); read_int<unsigned>(s);
    read_int<long>(s); read_int<unsigned long>(s); read_int<long long>(s); read_int<unsigned long long>(s);
    if (mc::g().slot->evals % 50003 == 3) mc::sample("integers of " + s.substr(0, 80));
}
template <typename T> static void judge_flt(const std::string& s, T t, const Res& r, Mode m) {
    const char* who = m == lax ? "" : m == strict ? "strict " : "list ";
    size_t ws = 0; while (ws < s.size() && Pda::ws((unsigned char)s[ws])) ++ws;
    std::string u = s.substr(ws);
    size_t k = json_token(u); bool alone = k && (k == u.size() || !token_char(u[k]));
    mc::outcome(mc::mix(uint64_t(r.ec.value()), uint64_t(k)));
    for (const char* q : { "\"inf\"", "\"-inf\"", "\"nan\"", "\"-nan\"" }) if (u.compare(0, strlen(q), q) == 0) { // the library's form of what JSON cannot say
        if (!r.ok || r.end != ws + strlen(q)) { mc::fail("%s%s: %s: refused or wrong end", who, tname<T>(), mc::esc(s).c_str()); return; }
        bool neg = q[1] == '-'; if (q[1 + neg] == 'i' ? !(std::isinf(t) && std::signbit(t) == neg) : !std::isnan(t)) mc::fail("%s%s: %s: reads as another value", who, tname<T>(), mc::esc(s).c_str());
        return;
    }
    if (alone) {
        std::string c = u.substr(0, k); char* e; T v = conv<T>(c.c_str(), &e);
        if (std::isinf(v)) { if (r.ok) mc::fail("%s%s accepted a number out of range as %Lg: %s", who, tname<T>(), (long double)t, mc::esc(s).c_str()); return; }
        if (!r.ok && std::fabs(v) < std::numeric_limits<T>::min() && c.find_first_of("123456789") < c.find_first_of("eE")) return; // underflow may be refused
        if (!r.ok && m == generic && k >= 63) return;
        if (!r.ok) { mc::fail("%s%s refused (%s): %s", who, tname<T>(), r.ec.message().c_str(), mc::esc(s).c_str()); return; }
        if (r.end != ws + k) mc::fail("%s%s stops at %zu, expected %zu: %s", who, tname<T>(), r.end, ws + k, mc::esc(s).c_str());
        if (!same(t, v)) mc::fail("%s%s reads as %.36Lg, expected %.36Lg: %s", who, tname<T>(), (long double)t, (long double)v, mc::esc(s).c_str());
        return;
    }
    if (!r.ok) { if (!r.ec) mc::fail("%s%s refused without an error code", who, tname<T>()); return; }
    if (r.end <= ws || r.end > s.size()) { mc::fail("%s%s accepted nothing: %s", who, tname<T>(), mc::esc(s).c_str()); return; }
    std::string c = s.substr(ws, r.end - ws); char* e; T v = conv<T>(c.c_str(), &e);
    if (*e || !same(t, v) || c[0] == '+' || Pda::ws((unsigned char)c[0]) || (!std::isnan(t) && c.find_first_of("xXpP") != std::string::npos)) mc::fail("%s%s accepted '%s' as %.20Lg", who, tname<T>(), mc::esc(c).c_str(), (long double)t);
    else if (m != lax && json_token(c) != c.size()) mc::fail("%s%s accepted '%s', no JSON number", who, tname<T>(), mc::esc(c).c_str());
    else if (std::isinf(t) && digit(c[c[0] == '-'])) mc::fail("%s%s accepted a number out of range: %s", who, tname<T>(), mc::esc(c).c_str());
    else if (r.end < s.size() && digit(s[r.end]) && digit(c.back()) && c != "0" && c != "-0") mc::fail("%s%s stops inside the token at %zu: %s", who, tname<T>(), r.end, mc::esc(s).c_str());
}
template <typename T> static void read_flt(const std::string& s) {
    { T t = 99; Res r = ptr<DEF>(t, s); judge_flt<T>(s, t, r, lax); }
    { T t = 99; Res r = ptr<STR>(t, s); judge_flt<T>(s, t, r, strict); }
    { T t = 99; Res r = lst(t, s); judge_flt<T>(s, t, r, generic); }
}
static void flts(const std::string& s) { if (vf(s)) return; read_flt<float>(s); read_flt<double>(s); read_flt<long double>(s); if (mc::g().slot->evals % 50003 == 4) mc::sample("reals of " + s.substr(0, 80)); }
// as an element: the array is accepted only when the element is a number that fits
template <typename T> static void elem(const std::string& tok) {
    for (int k = 0; k < 2; ++k) {
        std::string s = k ? "[7, " + tok + " ,5]" : "[" + tok + "]"; const char* b = mc::guard().put(s);
        std::vector<T> t; auto r = cxon::from_bytes<STR>(t, b, b + s.size()); mc::trace();
        bool valid = json_token(tok) == tok.size() && !tok.empty(); bool fits = false; T want = 0;
        if (std::is_integral<T>::value) { i128 v; fits = valid && big(tok, v) && v >= i128(std::numeric_limits<T>::min()) && v <= i128(std::numeric_limits<T>::max()); want = fits ? T(v) : T(0); if (fits && std::is_unsigned<T>::value && tok[0] == '-') { if (!r) return; } }
        else { double v = valid ? strtod(tok.c_str(), nullptr) : 0; if (sizeof(T) == 4) v = strtof(tok.c_str(), nullptr); fits = valid && !std::isinf(v); want = T(v); if (!r && fits && std::fabs(v) < double(std::numeric_limits<T>::min())) return; }
        if (fits != bool(r)) { mc::fail("vector<%s>: %s: %s", tname<T>(), r ? "accepted" : "refused", mc::esc(s).c_str()); return; }
        if (r && (t.size() != (k ? 3u : 1u) || t[size_t(k)] != want || r.end != b + s.size())) mc::fail("vector<%s>: holds other values: %s", tname<T>(), mc::esc(s).c_str());
    }
}
static void elems(const std::string& s) { if (s.find_first_of("\"") != std::string::npos || s.find_first_of(" \t\n\r") != std::string::npos) return; elem<signed char>(s); elem<unsigned short>(s); elem<int>(s); elem<unsigned>(s); elem<long>(s); elem<unsigned long long>(s); elem<float>(s); elem<double>(s); }

template <typename T> static void write_int(T v) {
    mc::state(mc::hash(&v, sizeof v)); mc::transition(2);
    std::string o; auto r = cxon::to_bytes<DEF>(std::back_inserter(o), v); mc::trace();
    i128 x = i128(v); std::string w; bool ng = x < 0; if (ng) x = -x; do w.insert(w.begin(), char('0' + int(x % 10))); while (x /= 10); if (ng) w = "-" + w;
    if (!r || o != w) { mc::fail("%s %s is written as %s", tname<T>(), w.c_str(), mc::esc(o).c_str()); return; }
    T t = T(~v); Res q = ptr<DEF>(t, o); if (!q.ok || q.end != o.size() || t != v) mc::fail("%s %s reads back as %lld", tname<T>(), w.c_str(), (long long)t);
    t = T(~v); q = ptr<STR>(t, o); if (!q.ok || q.end != o.size() || t != v) mc::fail("strict %s %s reads back as %lld", tname<T>(), w.c_str(), (long long)t);
    t = T(~v); q = lst(t, o); if (!q.ok || q.end != o.size() || t != v) mc::fail("list %s %s reads back as %lld", tname<T>(), w.c_str(), (long long)t);
}
template <typename T> static void write_flt(T v, bool all = true) {
    mc::state(mc::hash(&v, sizeof(T) > 10 ? 10 : sizeof(T))); mc::transition(2);
    char buf[128]; auto r = cxon::to_bytes<DEF>(&buf[0], &buf[0] + sizeof buf, v); mc::trace();
    std::string o(&buf[0], r ? r.end : &buf[0]);
    if (!r) { mc::fail("%s %.36Lg: write fails (%s)", tname<T>(), (long double)v, r.ec.message().c_str()); return; }
    if (std::isfinite(v)) {
        if (json_token(o) != o.size() || o.empty()) { mc::fail("%s %.36Lg: written as '%s', no JSON number", tname<T>(), (long double)v, mc::esc(o).c_str()); return; }
        char* e; if (!same(conv<T>(o.c_str(), &e), v)) { mc::fail("%s %.36Lg: written as '%s', another value", tname<T>(), (long double)v, mc::esc(o).c_str()); return; }
    }
    else if (!ref::json_valid(o.data(), o.data() + o.size())) { mc::fail("%s %Lg: written as '%s', no JSON", tname<T>(), (long double)v, mc::esc(o).c_str()); return; }
    auto back = [&](const char* who, T t, const Res& q) { if (!q.ok || q.end != o.size() || !same(t, v)) mc::fail("%s%s %.36Lg: written as %s, reads back as %.36Lg (%s)", who, tname<T>(), (long double)v, o.c_str(), (long double)t, q.ec.message().c_str()); };
    { T t = 99; Res q = ptr<DEF>(t, o); back("", t, q); }
    if (all) { { T t = 99; Res q = ptr<STR>(t, o); back("strict ", t, q); } { T t = 99; Res q = lst(t, o); back("list ", t, q); } }
}

int main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "--thorough") mc::g().thorough = 1;
    const bool T = mc::thorough();
    // every text over the number alphabet
    static const std::string al = "0129.-+eE";
    for (char f : al) for (char g : al) mc::add(mc::fmt("texts/%c%c", f, g), [f, g, T] {
        std::function<void(const std::string&, int)> rec = [&](const std::string& s, int left) {
            if (mc::at("text", s)) { ints(s); flts(s); elems(s); }
            if (mc::at("text", s + ",")) { ints(s + ","); flts(s + ","); }
            if (left) for (char c : al) rec(s + c, left - 1);
        };
        if (g == '0') { std::string s(1, f); if (mc::at("text", s)) { ints(s); flts(s); elems(s); } }
        rec(std::string(1, f) + g, T ? 4 : 3);
    });
    static const std::string al2 = "01.-+einfatyN\"xI";
    for (char f : al2) mc::add(mc::fmt("words/%c", f), [f, T] {
        std::function<void(const std::string&, int)> rec = [&](const std::string& s, int left) {
            if (mc::at("word", s)) { read_int<int>(s); read_int<unsigned long>(s); flts(s); elems(s); }
            if (left) for (char c : al2) rec(s + c, left - 1);
        };
        rec(std::string(1, f), T ? 4 : 3);
    });
    mc::add("words", [] {
        for (std::string w : { "\"inf\"", "\"-inf\"", "\"nan\"", "\"-nan\"", "Infinity", "-Infinity", "NaN", "nan", "inf", "infinity", "nan(1)", "0x10", "1e5", "true", "null", "\"1\"", "-", "--1", "- 1", "1 2" }) {
            for (const char* ws : { "", " ", "\t\n\r " }) {
                for (size_t i = 0; i <= w.size(); ++i) { std::string s = ws + w.substr(0, i); if (mc::at("word", s)) { ints(s); flts(s); } s += "\""; if (mc::at("word", s)) { ints(s); flts(s); } }
                for (size_t i = 0; i < w.size(); ++i) for (int c = 0; c < 256; ++c) { std::string s = ws + w; s[strlen(ws) + i] = char(c); if (mc::at("word", s)) { ints(s); flts(s); } }
            }
        }
    });
    // every integer of small magnitude, as text, into every type
    for (int q = 0; q < 16; ++q) mc::add(mc::fmt("small/%d", q), [q] {
        for (long v = -70000 + q; v <= 70000; v += 16) { std::string s = std::to_string(v); if (mc::at("small", s)) { ints(s); flts(s); if (std::labs(v) < 300 || v % 17 == 0) { elems(s); ints(" " + s + "]"); flts(s + ".5e1"); flts("\n" + s + "E-2 "); } } }
    });
    // around every boundary of every type and every power of two and ten
    for (int q = 0; q < 8; ++q) mc::add(mc::fmt("limits/%d", q), [q] {
        std::vector<i128> base; for (int k = 0; k <= 70; ++k) base.push_back(i128(1) << k);
        i128 p = 1; for (int k = 0; k < 22; ++k) { for (int d = 1; d < 10; ++d) base.push_back(p * d); p *= 10; }
        for (i128 b : { i128(127), i128(255), i128(32767), i128(65535), i128(2147483647), i128(4294967295u), i128(9223372036854775807), i128(18446744073709551615u) }) { base.push_back(b / 10); base.push_back(b * 10); base.push_back(b * 2); base.push_back(b + (b + 1)); base.push_back(b * 16 + 1); }
        for (size_t n = 0; n < base.size(); ++n) if (n % 8 == size_t(q)) for (int d = -12; d <= 12; ++d) for (int sg = 0; sg < 2; ++sg) {
            i128 x = base[n] + d; if (x < 0) continue; std::string s; do s.insert(s.begin(), char('0' + int(x % 10))); while (x /= 10); if (sg) s = "-" + s;
            for (const char* tail : { "", ".0", "e0", ".9", "0", "00000000000000000000", "e1", " " }) if (mc::at("limit", s + tail)) { ints(s + tail); flts(s + tail); elems(s + tail); }
        }
    });
    // every length of digits
    mc::add("lengths", [] {
        for (size_t n = 1; n <= 130; ++n) for (char d : { '0', '1', '9', '4' }) for (const char* sg : { "", "-" }) for (int z = 0; z < 4; ++z) {
            std::string s = z == 0 ? std::string(n, d) : z == 1 ? "0." + std::string(n, d) : z == 2 ? "1" + std::string(n, d) + "e-" + std::to_string(n) : std::string(n, '0') + d;
            s = sg + s; if (mc::at("length", s)) { ints(s); flts(s); elems(s); }
        }
        for (int x = -5000; x <= 5000; x += (std::abs(x) < 340 ? 1 : 37)) for (const char* m : { "1", "9.999999999999999999999", "-2.5", "4.9", "0", "0.0", "17976931348623157", "1.17549435", "3.40282346638528859811704183484516925440", "3.4028236", "1.18973149535723176502" }) for (const char* e : { "e", "E", "e+" }) {
            if (x < 0 && e[1]) continue; std::string s = std::string(m) + e + std::to_string(x); if (mc::at("exponent", s)) flts(s);
        }
    });
    // exact midpoints between neighbours: the digits decide only at the very end
    for (int q = 0; q < 16; ++q) mc::add(mc::fmt("midpoints/%d", q), [q, T] {
        static char buf[1400];
        auto dig = [&](const std::string& s) { size_t p = s.find('e'); return std::vector<std::string>{ s, s.substr(0, p) + "1" + s.substr(p), s.substr(0, p - 1) + char(s[p - 1] - 1) + "9" + s.substr(p) }; };
        for (int e = 1; e < 255; ++e) if (e % 16 == q) for (uint32_t m : { 0u, 1u, 2u, 3u, 0x2AAAAAu, 0x400000u, 0x7FFFFEu, 0x7FFFFFu }) {
            uint32_t w = uint32_t(e) << 23 | m; float a; memcpy(&a, &w, 4); ++w; float b; memcpy(&b, &w, 4); if (std::isinf(b)) continue;
            snprintf(buf, sizeof buf, "%.160e", (double(a) + double(b)) / 2); std::string s = buf; size_t p = s.find('e'), z = p; while (s[z - 1] == '0') --z; s.erase(z, p - z);
            for (auto& x : dig(s)) if (s[s.find('e') - 1] > '0' && mc::at("midpoint-float", x)) { read_flt<float>(x); read_flt<double>(x); }
        }
        for (int e = 1; e < 2046; e += T ? 1 : 7) if (e % 16 == q) for (uint64_t m : { uint64_t(0), uint64_t(1), uint64_t(2), uint64_t(0x5555555555555), uint64_t(0x8000000000000), uint64_t(0xFFFFFFFFFFFFE), uint64_t(0xFFFFFFFFFFFFF) }) {
            uint64_t w = uint64_t(e) << 52 | m; double a; memcpy(&a, &w, 8); ++w; double b; memcpy(&b, &w, 8);
            snprintf(buf, sizeof buf, "%.1100Le", ((long double)a + (long double)b) / 2); std::string s = buf; size_t p = s.find('e'), z = p; while (s[z - 1] == '0') --z; s.erase(z, p - z);
            for (auto& x : dig(s)) if (s[s.find('e') - 1] > '0' && mc::at("midpoint-double", x)) read_flt<double>(x);
        }
    });
    // written values: every 8- and 16-bit integer, patterns of the wider ones
    for (int q = 0; q < 8; ++q) mc::add(mc::fmt("write/int/%d", q), [q] {
        auto W = [](uint64_t v) { if (!mc::at("write", &v, 8)) return;
            write_int<signed char>((signed char)v); write_int<unsigned char>((unsigned char)v); write_int<short>(short(v)); write_int<unsigned short>((unsigned short)v); write_int<int>(int(v)); write_int<unsigned>(unsigned(v));
            write_int<long>(long(v)); write_int<unsigned long>(v); write_int<long long>((long long)v); write_int<unsigned long long>(v);
            write_int<int>(-int(v)); write_int<long>(long(-v)); };
        for (uint64_t v = uint64_t(q); v < 65536; v += 8) W(v);
        for (int a = q; a < 64; a += 8) for (int b = 0; b <= a; ++b) for (int d = -2; d <= 2; ++d) { W((uint64_t(1) << a) + (uint64_t(1) << b) + uint64_t(int64_t(d))); W((uint64_t(1) << a) - (uint64_t(1) << b) + uint64_t(int64_t(d))); W(~((uint64_t(1) << a) - (uint64_t(1) << b)) + uint64_t(int64_t(d))); }
        uint64_t p = 1; for (int k = 0; k < 20; ++k, p *= 10) for (int d = 1 + q; d < 10; d += 8) for (int z = -1; z <= 1; ++z) { W(p * uint64_t(d) + uint64_t(int64_t(z))); W(uint64_t(0) - p * uint64_t(d) + uint64_t(int64_t(z))); }
    });
    for (int q = 0; q < 256; ++q) mc::add(mc::fmt("write/float/%d", q), [q, T] { // all exponents, both signs
        for (int sg = 0; sg < 2; ++sg) {
            uint32_t base = uint32_t(sg) << 31 | uint32_t(q) << 23;
            auto W = [&](uint32_t m) { uint32_t w = base | m; float f; memcpy(&f, &w, 4); if (mc::at("write-float", &w, 4)) write_flt<float>(f, !T || (m & 0xFFF) == 1); };
            if (T) for (uint32_t m = 0; m < 1u << 23; ++m) W(m);
            else { for (uint32_t m = 0; m < 1u << 10; ++m) { W(m); W(m << 13); W(0x7FFFFF - m); } }
        }
    });
    for (int q = 0; q < 64; ++q) mc::add(mc::fmt("write/double/%d", q), [q, T] {
        for (int e = q; e < 2048; e += 64) for (int sg = 0; sg < 2; ++sg) {
            auto W = [&](uint64_t m) { uint64_t w = uint64_t(sg) << 63 | uint64_t(e) << 52 | (m & 0xFFFFFFFFFFFFFull); double d; memcpy(&d, &w, 8); if (!mc::at("write-double", &w, 8)) return; write_flt<double>(d); write_flt<long double>((long double)d); if (std::fabs(d) < 1e300) write_flt<long double>((long double)d / 3); };
            W(0); W(~uint64_t(0)); W(0x5555555555555); W(0xAAAAAAAAAAAAA); W(3); W(0x123456789ABCD);
            for (int b = 0; b < 52; b += T ? 1 : 3) { W(uint64_t(1) << b); W((uint64_t(1) << b) - 1); W(~((uint64_t(1) << b) - 1)); W(~(uint64_t(1) << b)); if (T) for (int c = 0; c < b; ++c) W(uint64_t(1) << b | uint64_t(1) << c); }
        }
    });
    mc::add("write/decimal", [] { // short decimals and products of tens
        for (int m = 1; m < 1000; ++m) for (int e = -320; e <= 306; e += 3) { std::string s = std::to_string(m) + "e" + std::to_string(e); if (mc::at("write-decimal", s)) { write_flt<double>(strtod(s.c_str(), nullptr)); if (m < 100) { write_flt<float>(strtof(s.c_str(), nullptr)); write_flt<long double>(strtold(s.c_str(), nullptr)); } } }
    });
    mc::add("write/long-double", [] {
        for (int e = -16440; e <= 16380; e += 7) for (const char* m : { "1", "1.5", "3.3", "9.87654321987654321" }) { std::string s = m; if (mc::at("write-long-double", s + " 2^" + std::to_string(e))) { long double v = std::ldexp(strtold(m, nullptr), e); if (std::fabs(v) >= std::numeric_limits<long double>::min()) { write_flt<long double>(v, false); write_flt<long double>(-v, false); } } }
        for (long double v : { std::numeric_limits<long double>::infinity(), -std::numeric_limits<long double>::infinity(), std::numeric_limits<long double>::quiet_NaN(), std::numeric_limits<long double>::max(), std::numeric_limits<long double>::min(), 0.0L, -0.0L }) if (mc::at("write-long-double", mc::fmt("%Lg", v))) write_flt<long double>(v);
    });
    mc::add("bool", [] {
        for (int c = 0; c < 256; ++c) for (size_t i = 0; i < 6; ++i) for (std::string w : { "true", "false" }) for (int mode = 0; mode < 3; ++mode) {
            std::string s = w; if (mode == 0) { if (i >= s.size()) continue; s[i] = char(c); } else if (mode == 1) s.insert(std::min(i, s.size()), 1, char(c)); else { s = s.substr(0, std::min(i, s.size())); if (c) continue; }
            if (vf(s) || !mc::at("bool", s)) continue;
            Pda p; size_t end = 0; size_t k = 0; while (k < s.size() && Pda::ws((unsigned char)s[k])) ++k; std::string u = s.substr(k); bool tr = u.compare(0, 4, "true") == 0, fa = u.compare(0, 5, "false") == 0; end = k + (tr ? 4 : 5); (void)p;
            for (int path = 0; path < 3; ++path) { bool t = !tr; Res r = path == 0 ? ptr<DEF>(t, s) : path == 1 ? ptr<STR>(t, s) : lst(t, s);
                if ((tr || fa) != r.ok || (r.ok && (t != tr || r.end != end))) mc::fail("bool: %s: %s %d, end %zu", mc::esc(s).c_str(), r.ok ? "accepted" : "refused", int(t), r.end); }
        }
        for (bool v : { true, false }) if (mc::at("bool-write", v ? "true" : "false", 4)) { std::string o; auto r = cxon::to_bytes<DEF>(std::back_inserter(o), v); if (!r || o != (v ? "true" : "false")) mc::fail("bool is written as %s", o.c_str()); }
    });
    return mc::main(argc, argv);
}
