// C09: the result of a read does not depend on the kind of iterator or container: every input is read into every target
// through %s (the reference) and eleven other kinds, and verdict, error, value and position are compared.
#include "targets.hxx"
#include <sstream>
#ifndef FMT
#   define FMT 0
#endif
#ifndef GRP
#   define GRP 0
#endif
#if FMT == 0
    using X = cxon::JSON<>;
#elif FMT == 1
    using X = cxon::CBOR<>;
#else
    using X = cxon::CXCF<>;
#endif
#if FMT == 1
    using UC = unsigned char;
#else
    using UC = char;
#endif
#if FMT == 1
    enum { CLS_ = 0 }; static bool overflow(const std::error_condition&) { return false; }
#else
    enum { CLS_ = 1 }; static bool overflow(const std::error_condition& e) { return e == cxon::json::read_error::overflow; }
#endif
#include "inputs.hxx"
#ifdef STRICT
    struct strict_traits : cxon::json::format_traits { struct number : cxon::json::format_traits::number { static constexpr bool strict = true; }; };
    using XS = cxon::JSON<strict_traits>;
#   define X XS
#endif
using tg::Tag; using tg::Box; using tg::Chk; using tg::Bounds;
template <typename T> struct Drop { static void f(T&) {} };
template <typename T> struct Drop<T*> { static void f(T*& p) { p = nullptr; } }; // raw pointers are not defined after a failure
template <typename T> struct is_node : std::false_type {};
template <typename T> struct is_node<cxon::json::basic_node<T>> : std::true_type {};
template <typename T> struct is_node<cxon::cbor::basic_node<T>> : std::true_type {};
template <typename T, typename I> static auto rd_(T& t, I b, I e, std::true_type) -> decltype(cxon::from_bytes<X>(t, b, e)) { return cxon::from_bytes<X>(t, b, e); }
template <typename T, typename I> static auto rd_(T& t, I b, I e, std::false_type) -> decltype(cxon::from_bytes<X>(t, b, e)) { return cxon::from_bytes<X>(t, b, e, cxon::node::recursion_guard::set(0)); }
template <typename T, typename I> static auto ri_(T& t, const I& i, std::true_type) -> decltype(cxon::from_bytes<X>(t, i)) { return cxon::from_bytes<X>(t, i); }
template <typename T, typename I> static auto ri_(T& t, const I& i, std::false_type) -> decltype(cxon::from_bytes<X>(t, i)) { return cxon::from_bytes<X>(t, i, cxon::node::recursion_guard::set(0)); }

struct Res { bool ok; std::error_condition ec; long end; std::string v; };
#ifdef STRICT
    enum { STRICT_ = 1 };
#else
    enum { STRICT_ = 0 };
#endif
static bool is_number(const std::string& w) {
    size_t i = 0, n = w.size(); auto digits = [&] { size_t b = i; while (i < n && isdigit((unsigned char)w[i])) ++i; return i > b; };
    if (i < n && w[i] == '-') ++i;
    if (i < n && w[i] == '0') ++i; else if (!digits()) return false;
    if (i < n && w[i] == '.') { ++i; if (!digits()) return false; }
    if (i < n && (w[i] == 'e' || w[i] == 'E')) { ++i; if (i < n && (w[i] == '+' || w[i] == '-')) ++i; if (!digits()) return false; }
    return i == n;
}
// is there a number token that only the pointer reader may accept (lax numbers), or that is longer than the buffers of the others?
// the text outside strings is cut into number-like words
static bool number_exempt(const std::string& s, bool in_quotes) {
    if (FMT == 1) return false;
    for (size_t i = 0; i < s.size(); ) {
        if (s[i] == '"' && !in_quotes) { for (++i; i < s.size() && s[i] != '"'; ++i) if (s[i] == '\\') ++i; if (i < s.size()) ++i; continue; }
        size_t b = i; while (i < s.size() && (isalnum((unsigned char)s[i]) || strchr("+-.()", s[i]) && s[i])) ++i;
        if (b == i) { ++i; continue; }
        std::string w = s.substr(b, i - b); if (w == "true" || w == "false" || w == "null") continue;
        bool num = false; for (char c : w) if (isdigit((unsigned char)c)) num = true; if (!num && !strpbrk(w.c_str(), "inINtyTY+-.eE")) continue;
        if (w.size() >= 32) return true;
        if (!STRICT_ && !is_number(w)) return true;
    }
    return false;
}
struct Run {
    const std::string& s; bool ex, keys; const char* g;
    const std::list<char>& li; const std::forward_list<char>& fl; const std::deque<char>& dq; const std::vector<UC>& uv;
    std::stringbuf& sb;
    template <typename T> static Res done(Box<T>& t, bool ok, const std::error_condition& ec, long end) { Res r = { ok, ec, end, ok ? t.show() : std::string() }; if (!ok) Drop<T>::f(*t); return r; }
    const char* R() const { return ex ? "the iterators of a string" : "pointers"; }
    void cmp(const char* name, const char* kind, const Res& a, const Res& b, bool pos, bool fin) const { // fin: positions of failures compare, too
        mc::trace();
        if (a.ok != b.ok) { mc::fail("%s: %s through %s and %s through %s: %s (%s)", name, a.ok ? "accepted" : "refused", R(), b.ok ? "accepted" : "refused", kind, mc::esc(s.substr(0, 150)).c_str(), (a.ok ? b : a).ec.message().c_str()); return; }
        // of several faults of an input any may be reported: ill-formed strings that do not fit, or that are keys of classes
        bool loose = (strstr(name, "[") || !strcmp(name, "En")) && (overflow(a.ec) || overflow(b.ec)) || CLS_ && (!strcmp(name, "Inner") || !strcmp(name, "Cls") || !strcmp(name, "Cfg") || strstr(name, "Inner>"));
        if (!a.ok && loose) return;
        if (!a.ok && a.ec != b.ec) { mc::fail("%s: error '%s' through %s, '%s' through %s: %s", name, a.ec.message().c_str(), R(), b.ec.message().c_str(), kind, mc::esc(s.substr(0, 150)).c_str()); return; }
        if (a.ok && a.v != b.v) { mc::fail("%s: %s through %s, %s through %s: %s", name, a.v.substr(0, 100).c_str(), R(), b.v.substr(0, 100).c_str(), kind, mc::esc(s.substr(0, 150)).c_str()); return; }
        if (pos && (a.ok || fin) && a.end != b.end) mc::fail("%s: ends at %ld through %s, at %ld through %s: %s (%s)", name, a.end, R(), b.end, kind, mc::esc(s.substr(0, 150)).c_str(), a.ok ? "accepted" : a.ec.message().c_str());
    }
    template <typename C, typename T> Res chk() const { Bounds bs = { g, g + s.size(), false }; Chk<C> b(g, &bs), e(g + s.size(), &bs); Box<T> t; auto r = rd_(*t, b, e, is_node<T>()); return done(t, bool(r), r.ec, long(r.end.p - g)); }
    template <typename T, typename I> static Res it(I b, I e) { Box<T> t; auto r = rd_(*t, b, e, is_node<T>()); return done(t, bool(r), r.ec, long(std::distance(b, r.end))); }
    template <typename T, typename I> static Res ir(const I& i) { Box<T> t; auto r = ri_(*t, i, is_node<T>()); return done(t, bool(r), r.ec, long(std::distance(std::begin(i), r.end))); }
    template <typename T> void operator ()(Tag<T>, const char* name, unsigned id) const {
        Res a; { Box<T> t; auto r = rd_(*t, g, g + s.size(), is_node<T>()); a = done(t, bool(r), r.ec, long(r.end - g)); }
        mc::outcome(mc::mix(id, a.ok));
        if (mc::g().slot->evals % 50021 == 7 && id % 7 == 3) mc::sample(std::string(name) + ": " + mc::esc(s.substr(0, 60)) + (a.ok ? " -> " + a.v.substr(0, 80) : " refused: " + a.ec.message()));
        const Res& p = a; Res q = it<T>(s.begin(), s.end());
        if (ex || (keys && strstr(name, "map<int"))) { cmp(name, "a string argument", a, ir<T>(s), true, true); return; } // number tokens outside the grammar, which some kinds may take
        cmp(name, "the iterators of a string", a, q, true, true);
        cmp(name, "a string argument", p, ir<T>(s), true, true); // goes through pointers
        cmp(name, "random access iterators", a, chk<std::random_access_iterator_tag, T>(), true, true);
        cmp(name, "bidirectional iterators", a, chk<std::bidirectional_iterator_tag, T>(), true, true);
        cmp(name, "forward iterators", a, chk<std::forward_iterator_tag, T>(), true, true);
        cmp(name, "input iterators", a, chk<std::input_iterator_tag, T>(), true, false);
#       if KINDS
        cmp(name, "a list", a, ir<T>(li), true, true);
        cmp(name, "a forward_list", a, ir<T>(fl), true, true);
        cmp(name, "a deque", a, it<T>(dq.begin(), dq.end()), true, true);
        cmp(name, "a vector of bytes", p, ir<T>(uv), true, true);
        { Box<T> t; sb.pubseekpos(0, std::ios::in); auto r = rd_(*t, std::istreambuf_iterator<char>(&sb), std::istreambuf_iterator<char>(), is_node<T>()); long at = long(sb.pubseekoff(0, std::ios::cur, std::ios::in)); cmp(name, "a stream", a, done(t, bool(r), r.ec, at), true, false); }
#       endif
    }
};
static void run(const char* label, const std::string& s) {
    if (s.size() > 5000) return;
    if (!mc::at(label, s)) return;
    mc::state(mc::hash(s)); mc::transition();
    const char* g = mc::guard().put(s);
    static std::list<char> li; static std::forward_list<char> fl; static std::deque<char> dq; static std::vector<UC> uv; static std::stringbuf sb(std::ios::in);
#   if KINDS
        li.assign(s.begin(), s.end()); fl.assign(s.begin(), s.end()); dq.assign(s.begin(), s.end()); uv.assign(s.begin(), s.end()); sb.str(s);
#   endif
    Run r = { s, number_exempt(s, false), number_exempt(s, true), g, li, fl, dq, uv, sb };
    unsigned id = 0;
#   if FMT == 0
        tg::json_group(GRP, r, id);
#   elif FMT == 1
        tg::cbor_group(GRP, r, id);
#   else
        tg::cxcf(r, id);
#   endif
}
int main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "--thorough") mc::g().thorough = 1;
    bool T = mc::thorough();
    inp::add(run, (KINDS ? 2 : 3) + (FMT != 1 && (!KINDS || GRP == 4)) + T, T);
    return mc::main(argc, argv);
}
