// C10: writers honour the capacity and the failures of their output.  Values of every type (read from the inputs of inputs.hxx)
// are written to every kind of output, for every capacity / point of failure, and compared with what goes into a std::string.
#include "targets.hxx"
#include "cxon/lang/json/tidy.hxx"
#include <sstream>
#include <unordered_set>
#ifndef FMT
#   define FMT 0
#endif
#ifndef GRP
#   define GRP 0
#endif
#if FMT == 0
    using X = cxon::JSON<>;
#elif FMT == 1
    using X = cxon::CBOR<>;
#else
    using X = cxon::CXCF<>;
#endif
#if FMT == 1
    using UC = unsigned char;
#else
    using UC = char;
#endif
#include "inputs.hxx"
using tg::Tag; using tg::Box;
template <typename T> struct Drop { static void f(T&) {} };
template <typename T> struct Drop<T*> { static void f(T*& p) { p = nullptr; } };
template <typename T> struct is_node : std::false_type {};
template <typename T> struct is_node<cxon::json::basic_node<T>> : std::true_type {};
template <typename T> struct is_node<cxon::cbor::basic_node<T>> : std::true_type {};
template <typename T> static bool rd_(T& t, const char* b, const char* e, std::true_type) { return bool(cxon::from_bytes<X>(t, b, e)); }
template <typename T> static bool rd_(T& t, const char* b, const char* e, std::false_type) { return bool(cxon::from_bytes<X>(t, b, e, cxon::node::recursion_guard::set(0))); }
// outputs
template <typename O, typename T> static auto to_(O&& o, const T& t, std::true_type) -> decltype(cxon::to_bytes<X>(std::forward<O>(o), t)) { return cxon::to_bytes<X>(std::forward<O>(o), t); }
template <typename O, typename T> static auto to_(O&& o, const T& t, std::false_type) -> decltype(cxon::to_bytes<X>(std::forward<O>(o), t)) { return cxon::to_bytes<X>(std::forward<O>(o), t, cxon::node::recursion_guard::set(0)); }
template <typename I, typename T> static auto tr_(I b, I e, const T& t, std::true_type) -> decltype(cxon::to_bytes<X>(b, e, t)) { return cxon::to_bytes<X>(b, e, t); }
template <typename I, typename T> static auto tr_(I b, I e, const T& t, std::false_type) -> decltype(cxon::to_bytes<X>(b, e, t)) { return cxon::to_bytes<X>(b, e, t, cxon::node::recursion_guard::set(0)); }
#define TO(o, t) to_(o, t, is_node<T>())
struct Full {};
// k bytes fit
template <typename C> struct SinkAll { // append() that reports, all or nothing: later, smaller parts could fit
    using value_type = C; std::string s; size_t k; size_t refused;
    explicit SinkAll(size_t k_) : k(k_), refused(0) {}
    const char* begin() const { return s.data(); } const char* end() const { return s.data() + s.size(); }
    bool no() { ++refused; return false; }
    void push_back(C c) { if (s.size() < k) s += char(c); else ++refused; }
    bool append(C c) { return s.size() < k ? (s += char(c), true) : no(); }
    template <typename I, typename = typename std::iterator_traits<I>::value_type> bool append(I p, size_t n) { if (n > k - s.size()) return no(); for ( ; n; --n, ++p) s += char(*p); return true; }
    template <typename I, typename = typename std::iterator_traits<I>::value_type> bool append(I f, I l) { return f == l || append(f, size_t(std::distance(f, l))); }
    bool append(unsigned n, C c) { return n <= k - s.size() ? (s.append(n, char(c)), true) : no(); }
};
template <typename C> struct SinkPart : SinkAll<C> { // takes what fits of a part
    explicit SinkPart(size_t k) : SinkAll<C>(k) {}
    using B = SinkAll<C>; using B::s; using B::k;
    bool append(C c) { return B::append(c); }
    template <typename I, typename = typename std::iterator_traits<I>::value_type> bool append(I p, size_t n) { if (n <= k - s.size()) return B::append(p, n); while (s.size() < k) s += char(*p), ++p; return B::no(); }
    template <typename I, typename = typename std::iterator_traits<I>::value_type> bool append(I f, I l) { return f == l || append(f, size_t(std::distance(f, l))); }
    bool append(unsigned n, C c) { if (n <= k - s.size()) return B::append(n, c); s.append(k - s.size(), char(c)); return B::no(); }
};
template <typename C> struct SinkGood { // push_back and good()
    using value_type = C; std::string s; size_t k; bool ok; size_t late;
    explicit SinkGood(size_t k_) : k(k_), ok(true), late(0) {}
    const char* begin() const { return s.data(); } const char* end() const { return s.data() + s.size(); }
    void push_back(C c) { if (ok && s.size() < k) s += char(c); else ok = false; }
    bool good() const { return ok; }
};
template <typename C> struct SinkThrow {
    using value_type = C; std::string s; size_t k;
    explicit SinkThrow(size_t k_) : k(k_) {}
    const char* begin() const { return s.data(); } const char* end() const { return s.data() + s.size(); }
    void push_back(C c) { if (s.size() >= k) throw Full(); s += char(c); }
};
struct PtrOut { // an output iterator that carries its position
    using iterator_category = std::output_iterator_tag; using value_type = void; using difference_type = std::ptrdiff_t; using pointer = void; using reference = void;
    char* p; char* e; bool* bad;
    struct Ref { PtrOut* o; Ref& operator =(char c) { if (o->p == o->e) *o->bad = true; else *o->p = c; return *this; } };
    Ref operator *() { return Ref{ this }; }
    PtrOut& operator ++() { if (p == e) *bad = true; else ++p; return *this; } PtrOut operator ++(int) { PtrOut x = *this; ++*this; return x; }
};
struct OutBounds { char *b, *e; bool bad; };
template <typename Cat> struct OutIt_ { // forward and random access output, which knows its ends
    using iterator_category = Cat; using value_type = char; using difference_type = std::ptrdiff_t; using pointer = char*; using reference = char&;
    char* p; OutBounds* g;
    OutIt_(char* p_ = nullptr, OutBounds* g_ = nullptr) : p(p_), g(g_) {}
    char& operator *() const { static char z; if (p < g->b || p >= g->e) { g->bad = true; return z; } return *p; }
    OutIt_& operator ++() { if (p >= g->e) g->bad = true; else ++p; return *this; } OutIt_ operator ++(int) { auto c = *this; ++*this; return c; }
    OutIt_& operator --() { if (p <= g->b) g->bad = true; else --p; return *this; } OutIt_ operator --(int) { auto c = *this; --*this; return c; }
    OutIt_& operator +=(std::ptrdiff_t n) { if (n > g->e - p || n < g->b - p) { g->bad = true; p = n > 0 ? g->e : g->b; } else p += n; return *this; }
    OutIt_& operator -=(std::ptrdiff_t n) { return *this += -n; } OutIt_ operator +(std::ptrdiff_t n) const { auto c = *this; return c += n; } OutIt_ operator -(std::ptrdiff_t n) const { auto c = *this; return c -= n; }
    friend OutIt_ operator +(std::ptrdiff_t n, const OutIt_& c) { return c + n; }
    std::ptrdiff_t operator -(const OutIt_& o) const { return p - o.p; } char& operator [](std::ptrdiff_t n) const { return *(*this + n); }
    bool operator ==(const OutIt_& o) const { return p == o.p; } bool operator !=(const OutIt_& o) const { return p != o.p; }
    bool operator <(const OutIt_& o) const { return p < o.p; } bool operator >(const OutIt_& o) const { return p > o.p; } bool operator <=(const OutIt_& o) const { return p <= o.p; } bool operator >=(const OutIt_& o) const { return p >= o.p; }
};
struct Buf : std::streambuf { std::string s; size_t k; explicit Buf(size_t k_) : k(k_) {} int_type overflow(int_type c) override { if (s.size() >= k) return traits_type::eof(); s += char(c); return c; } };
static mc::Guard& room() { static mc::Guard g(1 << 20); return g; }

struct Run {
    const char* text; size_t len;
    static bool prefix(const std::string& s, const std::string& x) { return s.size() <= x.size() && !x.compare(0, s.size(), s); }
    static void whole(const char* name, const char* kind, bool ok, const std::string& s, const std::string& x) {
        mc::trace(); mc::transition();
        if (!ok) mc::fail("%s: writing to %s fails: %s", name, kind, mc::esc(x.substr(0, 100)).c_str());
        else if (s != x) mc::fail("%s: %s into %s, %s into a string", name, mc::esc(s.substr(0, 100)).c_str(), kind, mc::esc(x.substr(0, 100)).c_str());
    }
    template <typename R> static void part(const char* name, const char* kind, const R& r, const std::string& s, const std::string& x, size_t k) {
        mc::trace(); mc::transition();
        if (bool(r) != (k >= x.size())) mc::fail("%s: %s of %zu bytes: %s (%zu needed): %s", name, kind, k, r ? "no error" : r.ec.message().c_str(), x.size(), mc::esc(x.substr(0, 100)).c_str());
        else if (!r && r.ec != X::write_error::output_failure) mc::fail("%s: %s of %zu bytes of %zu: error '%s'", name, kind, k, x.size(), r.ec.message().c_str());
        else if (!prefix(s, x) || r && s != x) mc::fail("%s: %s of %zu bytes holds %s, not of %s", name, kind, k, mc::esc(s.substr(0, 100)).c_str(), mc::esc(x.substr(0, 100)).c_str());
    }
    template <typename R> static void range(const char* name, const char* kind, const R& r, long end, const char* b, size_t k, char fill, const std::string& x) {
        if (end < 0 || size_t(end) > k) { mc::fail("%s: %s of %zu bytes: end at %ld", name, kind, k, end); return; }
        part(name, kind, r, std::string(b, size_t(end)), x, k);
        size_t p = 0; while (p < k && p < x.size() && b[p] == x[p]) ++p; // a prefix may be stored, what follows is untouched
        for (size_t i = p; i < k; ++i) if (b[i] != fill) { mc::fail("%s: %s of %zu bytes: stray byte at %zu of %s", name, kind, k, i, mc::esc(x.substr(0, 100)).c_str()); return; }
        if (r && size_t(end) != x.size()) mc::fail("%s: %s of %zu bytes: end at %ld of %zu", name, kind, k, end, x.size());
    }
    static const std::vector<size_t>& caps(size_t n) {
        static std::vector<size_t> v; v.clear();
        if (n <= 260) for (size_t k = 0; k <= n + 2; ++k) v.push_back(k);
        else { for (size_t k = 0; k <= n + 2; ++k) if (n < 1100 ? k < 40 || k + 40 > n || (k + 2) % 64 < 5 && k < 300 || (k + 2) % 256 < 5 : k < 5 || k + 6 > n || (k + 1) % 256 < 3 && k < 600 || (k + 1) % 4096 < 3) v.push_back(k); }
        return v;
    }
    template <typename T> void operator ()(Tag<T>, const char* name, unsigned id) const {
        Box<T> t; if (!rd_(*t, text, text + len, is_node<T>())) { Drop<T>::f(*t); return; }
        std::string x; auto r0 = TO(x, *t);
        static std::unordered_set<unsigned long long> seen; if (!seen.insert(mc::mix(mc::hash(x) ^ (r0 ? 0 : 99), id)).second) return;
        if (!r0) { if (r0.ec == X::write_error::output_failure) mc::fail("%s: output error writing to a string after %s", name, mc::esc(x.substr(0, 100)).c_str()); return; }
        mc::state(mc::mix(mc::hash(x), id)); mc::outcome(mc::mix(id, x.size() > 40 ? 40 : x.size()));
        if (id % 3 == 0 && mc::g().slot->evals % 499 == 3) mc::sample(std::string(name) + ": " + mc::esc(x.substr(0, 60)));
        size_t n = x.size();
        if (size_t(std::distance(x.cbegin(), std::string::const_iterator(r0.end))) != 0) mc::fail("%s: the result of writing to an empty string does not start it", name);
        { std::string s = "pre"; auto r = TO(s, *t); whole(name, "a string with content", bool(r), s, "pre" + x); if (s.size() >= 3 && r.end - s.begin() != 3) mc::fail("%s: the result of writing to a string starts at %ld", name, long(r.end - s.begin())); }
        { std::vector<UC> s; auto r = TO(s, *t); whole(name, "a vector", bool(r), std::string(s.begin(), s.end()), x); }
        { std::list<char> s(2, 'p'); auto r = TO(s, *t); whole(name, "a list", bool(r), std::string(s.begin(), s.end()), "pp" + x); if (std::distance(s.begin(), r.end) != 2) mc::fail("%s: the result of writing to a list of 2 starts at %ld", name, long(std::distance(s.begin(), r.end))); }
        { std::string s; auto r = TO(std::back_inserter(s), *t); whole(name, "a back inserter", bool(r), s, x); }
        { std::stringbuf s; auto r = TO(std::ostreambuf_iterator<char>(&s), *t); whole(name, "a stream", bool(r) && !r.end.failed(), s.str(), x); }
        { std::string s(n, '?'); bool bad = false; PtrOut o = { &s[0], &s[0] + n, &bad }; auto r = TO(o, *t); whole(name, "an output iterator", bool(r), s, x); if (bad || r.end.p != &s[0] + n) mc::fail("%s: an output iterator is left at %ld of %zu", name, long(r.end.p - &s[0]), n); }
#       if KINDS
        { std::deque<char> s; auto r = TO(s, *t); whole(name, "a deque", bool(r), std::string(s.begin(), s.end()), x); }
        { std::vector<char> s; auto r = TO(std::back_inserter(s), *t); whole(name, "a back inserter of a vector", bool(r), std::string(s.begin(), s.end()), x); }
        { std::ostringstream s; auto r = TO(std::ostream_iterator<char>(s), *t); whole(name, "an ostream_iterator", bool(r), s.str(), x); }
        { std::list<char> s; auto r = TO(std::front_inserter(s), *t); whole(name, "a front inserter", bool(r), std::string(s.rbegin(), s.rend()), x); }
#       endif
#       if FMT == 0 // indenters over a range agree with those of a string
            std::string y; { auto r = TO(cxon::json::make_indenter(y), *t); if (!r) mc::fail("%s: writing indented fails", name); }
            { std::string s(y.size(), '?'); bool bad = false; PtrOut o = { &s[0], &s[0] + s.size(), &bad }; auto r = TO(cxon::json::make_indenter(o), *t); whole(name, "an indenter over an output iterator", bool(r), s, y); if (bad) mc::fail("%s: an indenter writes behind its end", name); }
#       endif
        for (size_t k : caps(n)) {
            mc::beat();
            char fill = k < n && x[k] == char(0xA5) ? char(0x5A) : char(0xA5); // differs from what would be written first
            char* b = (char*)room().tail(k); char* base = b - 64; memset(base, fill, 64 + k);
            { auto r = tr_((UC*)b, (UC*)b + k, *t, is_node<T>()); range(name, "a range", r, long((char*)r.end - b), b, k, fill, x); for (int i = 0; i < 64; ++i) if (base[i] != fill) { mc::fail("%s: bytes written in front of the range", name); break; } }
            { memset(b, fill, k); OutBounds g = { b, b + k, false }; using I = OutIt_<std::forward_iterator_tag>; auto r = tr_(I(b, &g), I(b + k, &g), *t, is_node<T>()); range(name, "a range of forward iterators", r, long(r.end.p - b), b, k, fill, x); if (g.bad) mc::fail("%s: a range of %zu bytes is left", name, k); }
            { SinkAll<UC> s(k); auto r = TO(s, *t); part(name, "a container whose append() fails", r, s.s, x, k); }
            { SinkGood<UC> s(k); auto r = TO(s, *t); part(name, "a container that is not good()", r, s.s, x, k); }
            { SinkThrow<UC> s(k); bool threw = false; try { auto r = TO(s, *t); if (!r) mc::fail("%s: error instead of the exception of the output", name); } catch (Full&) { threw = true; } mc::trace(); mc::transition(); if (threw != (k < n) || !prefix(s.s, x) || (!threw && s.s != x)) mc::fail("%s: an output that throws after %zu bytes holds %s of %s", name, k, mc::esc(s.s.substr(0, 100)).c_str(), mc::esc(x.substr(0, 100)).c_str()); }
#           if KINDS
            { SinkPart<UC> s(k); auto r = TO(s, *t); part(name, "a container whose append() takes a part", r, s.s, x, k); }
            { memset(b, fill, k); OutBounds g = { b, b + k, false }; using I = OutIt_<std::bidirectional_iterator_tag>; auto r = tr_(I(b, &g), I(b + k, &g), *t, is_node<T>()); range(name, "a range of bidirectional iterators", r, long(r.end.p - b), b, k, fill, x); if (g.bad) mc::fail("%s: a range of %zu bytes is left", name, k); }
            { memset(b, fill, k); OutBounds g = { b, b + k, false }; using I = OutIt_<std::random_access_iterator_tag>; auto r = tr_(I(b, &g), I(b + k, &g), *t, is_node<T>()); range(name, "a range of random access iterators", r, long(r.end.p - b), b, k, fill, x); if (g.bad) mc::fail("%s: a range of %zu bytes is left", name, k); }
            if (k <= n) { std::string s(k, fill); auto r = tr_(s.begin(), s.end(), *t, is_node<T>()); range(name, "the range of a string", r, long(r.end - s.begin()), s.data(), k, fill, x); }
            { Buf s(k); auto r = TO(std::ostreambuf_iterator<char>(&s), *t); mc::trace(); if (!prefix(s.s, x) || (k >= n && (!r || s.s != x)) || (k < n && r && !r.end.failed())) mc::fail("%s: a stream that fails after %zu bytes holds %s of %s", name, k, mc::esc(s.s.substr(0, 100)).c_str(), mc::esc(x.substr(0, 100)).c_str()); }
#           endif
        }
#       if FMT == 0
            if (y.size() < 400) for (size_t k = 0; k <= y.size() + 2; ++k) {
                mc::beat();
                char* b = (char*)room().tail(k); memset(b, '\x7F', k);
                auto r = TO(cxon::json::make_indenter(b, b + k), *t); mc::trace(); mc::transition();
                if (bool(r) != (k >= y.size())) { mc::fail("%s: an indenter over %zu bytes: %s (%zu needed): %s", name, k, r ? "no error" : "error", y.size(), mc::esc(y.substr(0, 100)).c_str()); continue; }
                if (!r && r.ec != X::write_error::output_failure) mc::fail("%s: an indenter over %zu bytes of %zu: error '%s'", name, k, y.size(), r.ec.message().c_str());
                size_t p = 0; while (p < k && p < y.size() && b[p] == y[p]) ++p;
                for (size_t i = p; i < k; ++i) if (b[i] != '\x7F') { mc::fail("%s: an indenter over %zu bytes: stray byte at %zu of %s: %s", name, k, i, mc::esc(y.substr(0, 100)).c_str(), mc::esc(std::string(b, k)).c_str()); break; }
                if (r && p != y.size()) mc::fail("%s: an indenter over %zu bytes holds %s, not %s", name, k, mc::esc(std::string(b, k)).c_str(), mc::esc(y.substr(0, 100)).c_str());
            }
#       endif
    }
};
static void run(const char* label, const std::string& s) {
    if (s.size() > (GRP == 1 || GRP == 4 ? 5000 : 1200)) return;
    if (!mc::at(label, s)) return;
    const char* g = mc::guard().put(s);
    Run r = { g, s.size() };
    unsigned id = 0;
#   if FMT == 0
        tg::json_group(GRP, r, id);
#   elif FMT == 1
        tg::cbor_group(GRP, r, id);
#   else
        tg::cxcf(r, id);
#   endif
}
int main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "--thorough") mc::g().thorough = 1;
    bool T = mc::thorough();
    inp::add(run, 3 + (T && FMT != 1), T);
    return mc::main(argc, argv);
}
