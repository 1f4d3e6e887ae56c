// C11: failed reads are reported (no exception, error of the format, end inside the input), contained and recoverable (the target can be
// printed, assigned and read into again with the result of a fresh one), and values back to back are read one after another.
#include "targets.hxx"
#include <sstream>
#include <unordered_set>
#ifndef FMT
#   define FMT 0
#endif
#ifndef GRP
#   define GRP 0
#endif
#if FMT == 0
    using X = cxon::JSON<>;
#elif FMT == 1
    using X = cxon::CBOR<>;
#else
    using X = cxon::CXCF<>;
#endif
#include "inputs.hxx"
using tg::Tag; using tg::Box;
template <typename T> struct Raw { enum { value = 0 }; static void f(T&) {} };
template <typename T> struct Raw<T*> { enum { value = 1 }; static void f(T*& p) { p = nullptr; } };
template <typename T> struct is_node : std::false_type {};
template <typename T> struct is_node<cxon::json::basic_node<T>> : std::true_type {};
template <typename T> struct is_node<cxon::cbor::basic_node<T>> : std::true_type {};
template <typename T, typename I> static auto rd_(T& t, I b, I e, std::true_type) -> decltype(cxon::from_bytes<X>(t, b, e)) { return cxon::from_bytes<X>(t, b, e); }
template <typename T, typename I> static auto rd_(T& t, I b, I e, std::false_type) -> decltype(cxon::from_bytes<X>(t, b, e)) { return cxon::from_bytes<X>(t, b, e, cxon::node::recursion_guard::set(0)); }
#define RD(t, b, e) rd_(t, b, e, is_node<typename std::decay<decltype(t)>::type>())
// back to a fresh value, by assignment and by clear()
template <typename T> static void fresh(T& t) { t = T(); }
template <typename T, size_t N> static void fresh(T (&t)[N]) { for (auto& x : t) fresh(x); }
#if __cplusplus >= 202002L
    template <typename T, size_t N> static void fresh(std::span<T, N>& t) { for (auto& x : t) x = T(); }
#endif
template <typename T> static auto clear_(T& t, int) -> decltype(t.clear(), true) { t.clear(); return true; }
template <typename T> static auto clear_(T& t, int) -> decltype(t.is_array(), t.reset(), true) { t.reset(); return true; }
template <typename T> static bool clear_(T& t, ...) { fresh(t); return false; }
// types that hold a single value: a read replaces it
template <typename T> struct one : std::integral_constant<bool, std::is_arithmetic<T>::value || std::is_enum<T>::value || std::is_same<T, std::nullptr_t>::value> {};
template <typename T> struct one<std::complex<T>> : std::true_type {};
template <typename R, typename P> struct one<std::chrono::duration<R, P>> : std::true_type {};
template <size_t N> struct one<std::bitset<N>> : std::true_type {};
template <typename T, typename A> struct one<boost::dynamic_bitset<T, A>> : std::true_type {};
template <typename T> struct one<std::valarray<T>> : one<T> {};

struct Run {
    const std::string& s; const char* g;
    template <typename T> struct Good { std::vector<std::string> d, v; }; // documents a target reads, and what it then holds
    template <typename T> static const Good<T>& good() {
        static Good<T> x; static bool done = false; if (done) return x; done = true; std::unordered_set<std::string> seen;
        inp::Strs all = inp::corpus(); for (auto& t : inp::tokens()) { all.push_back(t); for (auto& u : inp::tokens()) if (FMT == 1) all.push_back(t + u); }
#       if FMT != 1
            for (auto z : { "null", "true", "false", "\"\"", "\"0\"", "\"abc\"", "[]", "{}", "[[]]", "1.5", "-7", "\"000000000\"", "\"1\"", "\"0000000000000000\"", "\"10101010\"", "\"\\ud83d\\ude00\"", "[0,\"x\"]", "[1]", "[2,1,2]" }) all.push_back(z);
#       else
            for (auto z : { S_("\x80"), S_("\xA0"), S_("\x60"), S_("\x40"), S_("\x82\x00\xF7"), S_("\x82\x01\x05"), S_("\x82\x00\x05"), S_("\x42\x00\x01"), S_("\x43\x00\x01\x02"), S_("\x43\x07\x01\x80") }) all.push_back(z);
#       endif
        for (auto& d : all) {
            if (FMT == 0 && !ref::json_valid(d.data(), d.data() + d.size())) continue;
            std::string h = d; Box<T> t; auto r = RD(*t, h.data(), h.data() + h.size());
            if (r && r.end == h.data() + h.size()) { if (seen.insert(t.show()).second) { x.d.push_back(d); x.v.push_back(t.show()); } }
            if (!r) Raw<T>::f(*t);
        }
        if (x.d.size() > 6) { std::vector<size_t> keep = { 0, 1, x.d.size() / 2, x.d.size() - 2, x.d.size() - 1 }; Good<T> y; for (size_t i : keep) { y.d.push_back(x.d[i]); y.v.push_back(x.v[i]); } x = y; }
        return x;
    }
    static bool category(const std::error_condition& e) {
        std::string n = e.category().name();
        return n == (FMT == 1 ? "cxon/cbor/read" : "cxon/json/read") || (GRP == 4 || FMT == 2) && n == "cxon/node";
    }
    template <typename T> static void again(const char* name, const char* how, Box<T>& t, size_t i, const std::string& s) {
        auto& G = good<T>(); auto& d = G.d[i]; mc::trace(); mc::transition();
        auto r = RD(*t, d.data(), d.data() + d.size());
        if (!r || r.end != d.data() + d.size() || t.show() != G.v[i]) mc::fail("%s: after the failed read of %s and %s, %s reads as %s, not %s", name, mc::esc(s.substr(0, 100)).c_str(), how, mc::esc(d).c_str(), r ? t.show().substr(0, 100).c_str() : r.ec.message().c_str(), G.v[i].substr(0, 100).c_str());
        if (!r) Raw<T>::f(*t);
    }
    template <typename T> void operator ()(Tag<T>, const char* name, unsigned id) const {
        auto& G = good<T>(); mc::transition();
        if (G.d.empty() && !strstr(name, ", 0>") && !strstr(name, "span")) mc::fail("%s: none of the documents is readable", name);
        bool ok = false; std::string bad;
        // fail, and again with what is there; then a good one
        for (int how = 0; how < 3; ++how) {
            Box<T> t;
            for (int rep = 0; rep < (how == 0 ? 1 : 2); ++rep) {
                mc::trace();
                try {
                    auto r = RD(*t, g, g + s.size());
                    ok = bool(r); if (ok == bool(r.ec)) mc::fail("%s: the result is %d, its error %d", name, int(ok), r.ec.value());
                    if (r.end < g || r.end > g + s.size()) mc::fail("%s: a read of %zu bytes ends at %ld: %s", name, s.size(), long(r.end - g), mc::esc(s.substr(0, 100)).c_str());
                    if (!ok && !category(r.ec)) mc::fail("%s: an error of '%s': %s", name, r.ec.category().name(), mc::esc(s.substr(0, 100)).c_str());
                    if (!ok && r.ec.message().empty()) mc::fail("%s: an error without a message", name);
                    if (!ok) Raw<T>::f(*t);
                } catch (std::exception& e) { Raw<T>::f(*t); mc::fail("%s: exception '%s' for %s", name, e.what(), mc::esc(s.substr(0, 100)).c_str()); return; } catch (...) { Raw<T>::f(*t); mc::fail("%s: exception for %s", name, mc::esc(s.substr(0, 100)).c_str()); return; }
                if (ok) break;
                auto sh = t.show(); if (how == 0) bad = sh; // usable
                if (how == 0) { mc::outcome(mc::mix(id, mc::hash(sh.substr(0, 6)))); if (mc::g().slot->evals % 60013 == 5 && id % 5 == 2) mc::sample(std::string(name) + ": " + mc::esc(s.substr(0, 60)) + " leaves " + sh.substr(0, 60)); }
            }
            if (ok || G.d.empty()) return;
            size_t i = (mc::hash(s) + how) % G.d.size();
            if (how == 0) { if (one<T>::value) again(name, "nothing", t, i, s); else { bool c = clear_(*t, 0); again(name, c ? "clear()" : "assignment", t, i, s); } }
            else if (how == 1) { fresh(*t); again(name, "assignment", t, i, s); }
            else { if (!one<T>::value) fresh(*t); again(name, "a second failure", t, i, s); }
        }
    }
};
static void run(const char* label, const std::string& s) {
    if (s.size() > 1500) return;
    if (!mc::at(label, s)) return;
    mc::state(mc::hash(s));
    const char* g = mc::guard().put(s); Run r = { s, g }; unsigned id = 0;
#   if FMT == 0
        tg::json_group(GRP, r, id);
#   elif FMT == 1
        tg::cbor_group(GRP, r, id);
#   else
        tg::cxcf(r, id);
#   endif
}
// ---- values back to back
struct Seq {
    // words and numbers need something between them
    static bool open(char a, char b) { auto w = [](char c) { return isalnum((unsigned char)c) || strchr("+-._", c); }; return FMT != 1 && w(a) && w(b); }
    template <typename T, typename I> static void walk(const char* name, const char* kind, I b, I e, const std::vector<size_t>& ix, const std::string& s) {
        auto& G = Run::good<T>(); mc::trace();
        for (size_t k = 0; k < ix.size(); ++k) {
            Box<T> t; auto r = RD(*t, b, e); mc::transition();
            if (!r) { Raw<T>::f(*t); mc::fail("%s: value %zu of %s through %s is refused (%s)", name, k, mc::esc(s.substr(0, 150)).c_str(), kind, r.ec.message().c_str()); return; }
            if (t.show() != G.v[ix[k]]) { mc::fail("%s: value %zu of %s through %s is %s, alone %s", name, k, mc::esc(s.substr(0, 150)).c_str(), kind, t.show().substr(0, 80).c_str(), G.v[ix[k]].substr(0, 80).c_str()); return; }
            b = r.end;
        }
    }
    template <typename T> void operator ()(Tag<T>, const char* name, unsigned id) const {
        auto& G = Run::good<T>(); size_t n = G.d.size();
        static const inp::Strs seps = FMT == 1 ? inp::Strs{ "" } : inp::Strs{ "", " ", "\n", " \t\r\n   ", std::string(40, ' ') };
        auto go = [&](const std::vector<size_t>& ix, const std::string& sep) {
            std::string s; for (size_t k = 0; k < ix.size(); ++k) { if (k) { if (sep.empty() && open(s.back(), G.d[ix[k]][0])) return; s += sep; } s += G.d[ix[k]]; }
            if (FMT == 2 && (strstr(name, "Cfg"))) return; // a bare root goes to the end of the input
            if (!mc::at("sequence", s)) return;
            mc::state(mc::mix(mc::hash(s), id)); const char* g = mc::guard().put(s);
            walk<T>(name, "pointers", g, g + s.size(), ix, s);
            walk<T>(name, "the iterators of a string", s.begin(), s.end(), ix, s);
            std::list<char> l(s.begin(), s.end()); walk<T>(name, "a list", l.begin(), l.end(), ix, s);
            std::stringbuf sb(s); walk<T>(name, "a stream", std::istreambuf_iterator<char>(&sb), std::istreambuf_iterator<char>(), ix, s);
        };
        for (auto& sep : seps) for (size_t i = 0; i < n; ++i) { go({ i }, sep); for (size_t j = 0; j < n; ++j) { go({ i, j }, sep); for (size_t k = 0; k < n; ++k) { go({ i, j, k }, sep); if (mc::thorough()) for (size_t l = 0; l < n; ++l) go({ i, j, k, l }, sep); } } }
    }
};
int main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "--thorough") mc::g().thorough = 1;
    bool T = mc::thorough();
    inp::add(run, 3 + T, T);
    mc::add("sequences", [] {
        unsigned id = 0; Seq q;
#       if FMT == 0
            tg::json_group(GRP, q, id);
#       elif FMT == 1
            tg::cbor_group(GRP, q, id);
#       else
            tg::cxcf(q, id);
#       endif
    });
    return mc::main(argc, argv);
}
