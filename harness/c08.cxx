// C08: no byte string makes a reader leave the input or the target, or run on: every input is read into every target,
// through pointers with inaccessible pages on both sides (or exact heap blocks under sanitizers) and through iterators that check every step.
#include "targets.hxx"
#ifndef FMT
#   define FMT 0
#endif
#ifndef GRP
#   define GRP 0
#endif
#if FMT == 0
    using X = cxon::JSON<>;
#elif FMT == 1
    using X = cxon::CBOR<>;
#else
    using X = cxon::CXCF<>;
#endif
#include "inputs.hxx"
using tg::Tag; using tg::Box; using tg::Chk; using tg::Bounds;
template <typename T> struct Drop { static void f(T&) {} };
template <typename T> struct Drop<T*> { static void f(T*& p) { p = nullptr; } }; // raw pointers are not defined after a failure

template <typename T> struct is_node : std::false_type {};
template <typename T> struct is_node<cxon::json::basic_node<T>> : std::true_type {};
template <typename T> struct is_node<cxon::cbor::basic_node<T>> : std::true_type {};
template <typename T, typename I> static auto rd_(T& t, I b, I e, std::true_type) -> decltype(cxon::from_bytes<X>(t, b, e)) { return cxon::from_bytes<X>(t, b, e); }
template <typename T, typename I> static auto rd_(T& t, I b, I e, std::false_type) -> decltype(cxon::from_bytes<X>(t, b, e)) { return cxon::from_bytes<X>(t, b, e, cxon::node::recursion_guard::set(0)); } // as documented for nodes that are parts of other types
template <typename T, typename I> static bool rd(Box<T>& t, I b, I e, I& end) { auto r = rd_(*t, b, e, is_node<T>()); end = r.end; if (!r) Drop<T>::f(*t); return bool(r); }
struct Run {
    const std::string& s; const char *g, *h;
    template <typename T, typename C> void chk(const char* name, const char* kind, bool ok) {
        Bounds bs = { g, g + s.size(), false }; Chk<C> b(g, &bs), e(g + s.size(), &bs), z(g, &bs); Box<T> t;
        bool r = rd<T>(t, b, e, z); mc::trace();
        if (bs.bad) mc::fail("%s: a %s iterator was dereferenced or moved outside the input: %s", name, kind, mc::esc(s.substr(0, 200)).c_str());
        if (z.p < bs.b || z.p > bs.e) mc::fail("%s: end outside the input (%s): %s", name, kind, mc::esc(s.substr(0, 200)).c_str());
        (void)r; (void)ok;
    }
    template <typename T> void operator ()(Tag<T>, const char* name, unsigned id) {
        bool r;
        { Box<T> t; const char* z; r = rd<T>(t, g, g + s.size(), z); mc::trace(); mc::outcome(mc::mix(id, r));
          if (z < g || z > g + s.size()) mc::fail("%s: end outside the input: %s", name, mc::esc(s.substr(0, 200)).c_str());
          if (mc::g().slot->evals % 50021 == 7 && id % 7 == 3) mc::sample(std::string(name) + ": " + mc::esc(s.substr(0, 60)) + (r ? " -> " + t.show().substr(0, 100) : std::string(" refused"))); }
#       ifndef SAN
            { Box<T> t; const char* z; bool q = rd<T>(t, h, h + s.size(), z); mc::trace(); if (z < h || z > h + s.size()) mc::fail("%s: end outside the input: %s", name, mc::esc(s.substr(0, 200)).c_str());
              if (q != r) mc::fail("%s: what follows the input matters (%d, %d): %s", name, r, q, mc::esc(s.substr(0, 200)).c_str()); }
            if (s.size() <= 5000) chk<T, std::random_access_iterator_tag>(name, "random access", r); if (s.size() <= 5000) chk<T, std::forward_iterator_tag>(name, "forward", r); if (s.size() <= 5000) chk<T, std::input_iterator_tag>(name, "input", r);
#       endif
    }
};
// a block preceded by an inaccessible page
static char* front() {
    static char* p = nullptr; size_t ps = size_t(sysconf(_SC_PAGESIZE)), n = 1 << 20;
    if (!p) { char* b = (char*)mmap(nullptr, n + ps, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (b == MAP_FAILED) _exit(99); mprotect(b, ps, PROT_NONE); p = b + ps; }
    return p;
}
static void run(const char* label, const std::string& s) {
    if (!mc::at(label, s)) return;
    mc::state(mc::hash(s)); mc::transition();
    unsigned id = 0;
#   ifdef SAN
        std::unique_ptr<char[]> m(new char[s.size()]); std::copy(s.begin(), s.end(), m.get()); const char* g = m.get(); const char* h = g;
#   else
        const char* g = mc::guard().put(s); char* h = front();
        std::copy(s.begin(), s.end(), h); static const char after[] = "\"}],:0123456789eE.\\ntrue\x80\xBF"; memcpy(h + s.size(), after, sizeof after);
#   endif
    Run r = { s, g, h };
#   if FMT == 0
        tg::json_group(GRP, r, id);
#   elif FMT == 1
        tg::cbor_group(GRP, r, id);
#   else
        tg::cxcf(r, id);
#   endif
}
int main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "--thorough") mc::g().thorough = 1;
    bool T = mc::thorough();
#   ifdef SAN
        int D = T ? 4 : 3;
#   else
        int D = FMT == 2 || GRP == 3 || GRP == 4 ? (T ? 5 : 4) : (T ? 4 : 3); // the scalars and the like refuse early
#   endif
    inp::add(run, D, T);
    return mc::main(argc, argv);
}
