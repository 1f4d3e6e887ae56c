// C15: nodes are values. FMT 0: JSON, 1: CBOR; GRP selects the kinds of node
#ifndef FMT
#   define FMT 0
#endif
#ifndef GRP
#   define GRP 0
#endif
#if FMT == 1
#   include "cxon/cbor.hxx"
#else
#   include "cxon/json.hxx"
#endif
#include "cxon/lib/std/deque.hxx"
#include "cxon/lib/std/unordered_map.hxx"
#include "cxon/lib/node.hxx"
#include "cxon/lib/node.ordered.hxx"
#include "nodeops.hxx"
template <typename N> static bool check(St<N>& s, const std::string& last, const std::string& how) {
    for (int i = 0; i < 2; ++i) {
        std::string w = s.m[i].dump(Ordered<N>::value), e, g = W<N>::snap(s[i], e).dump(Ordered<N>::value); if (!e.empty()) s.e = e;
        if (w != g) { mc::fail("%s: n%d is %s, expected %s", how.c_str(), i, mc::esc(g).substr(0, 300).c_str(), mc::esc(w).substr(0, 300).c_str()); return false; }
    }
    if (!s.e.empty() || !mem::bad.empty()) { mc::fail("%s: %s (%s)", how.c_str(), (s.e.empty() ? mem::bad : s.e).c_str(), last.c_str()); return false; }
    return true;
}
static std::string names(const std::vector<std::string>& v) { std::string o; for (auto& x : v) o += (o.empty() ? "" : "; ") + x; return o; }
#if defined(__SANITIZE_ADDRESS__)
    static bool const asan = true;
#else
    static bool const asan = false;
#endif
// run a sequence; every prefix has been checked before, so the state is compared after the last operation and at the end
template <typename N> static int play(Ops<N>& ops, const std::vector<int>& h, std::string* key = nullptr) { // 1: ran, 0: does not apply, -1: violation
    static uint64_t cnt = 0; int r = 1; mem::reset(); std::string how;
    {   St<N> s;
        for (size_t i = 0; i < h.size(); ++i) { if (!ops.v[size_t(h[i])].run(s)) { r = 0; break; } if (i + 1 < h.size() && s.m[0].size() + s.m[1].size() > 24) { r = 0; break; } }
        if (r == 1) {
            for (int i : h) how += (how.empty() ? "" : "; ") + ops.v[size_t(i)].name;
            if (!check<N>(s, ops.v[size_t(h.back())].name, how)) r = -1;
            mc::transition(); if (key) *key = s.m[0].dump(Ordered<N>::value) + "|" + s.m[1].dump(Ordered<N>::value);
            if (key && (s.m[0].size() + s.m[1].size() > 9 || std::max(s.m[0].depth(), s.m[1].depth()) > 4)) r = r < 0 ? r : 2;
            if (r == 1) mc::state(mc::hash(s.m[0].dump(true) + "|" + s.m[1].dump(true))); if (++cnt % 50000 == 1) mc::sample(how + " -> " + s.m[0].dump(true).substr(0, 60) + " | " + s.m[1].dump(true).substr(0, 60));
        }
    }
    if (r > 0 && !mem::bad.empty()) { mc::fail("%s: at the end %s", how.c_str(), mem::bad.c_str()); r = -1; }
    if (r > 0 && (!mem::blocks.empty() || !mem::live.empty())) { mc::fail("%s: %zu blocks and %zu objects are left", how.c_str(), mem::blocks.size(), mem::live.size()); r = -1; }
    return r;
}
static std::string enc(const std::vector<int>& h) { std::string s; for (int i : h) s += char(i); return s; }
template <typename N> static void add(const char* label) {
    static Ops<N> full(true), lean(false); static std::string const L = label;
    auto desc = [](Ops<N>& o, const std::vector<int>& h) { std::vector<std::string> v; for (int i : h) v.push_back(o.v[size_t(i)].name); mc::describe(names(v)); };
    // every sequence of 1, 2 and (from the leaner list) 3 operations
    int const parts = 8;
    for (int p = 0; p < parts; ++p) mc::add(L + mc::fmt(": sequences %d", p), [=]() {
        int const nf = int(full.v.size()), nl = int(lean.v.size()); std::vector<int> h;
        for (int a = p; a < nf; a += parts) {
            h = {a}; if (mc::at(L.c_str(), "f" + enc(h))) { desc(full, h); play(full, h); }
            for (int b = 0; b < nf; ++b) { h = {a, b}; if (mc::at(L.c_str(), "f" + enc(h))) { desc(full, h); play(full, h); } }
        }
        for (int a = p; a < (asan && !mc::thorough() ? 0 : nl); a += parts) for (int b = 0; b < nl; ++b) for (int c = 0; c < nl; ++c) {
            h = {a, b, c}; if (mc::at(L.c_str(), "l" + enc(h))) { desc(lean, h); play(lean, h); }
        }
    });
    // breadth first over the states of the model, every operation from each; from each state also every pair
    mc::add(L + ": states", [=]() {
        size_t const depth = mc::thorough() ? 6 : 5, cap = mc::thorough() ? 200000 :
#           if defined(__SANITIZE_ADDRESS__)
                1200;
#           else
                8000;
#           endif
        std::set<std::string> seen; std::vector<std::vector<int>> cur(1), nxt; size_t total = 0;
        for (size_t d = 0; d < depth && !cur.empty(); ++d) {
            nxt.clear();
            for (auto& h0 : cur) for (int a = 0; a < int(lean.v.size()); ++a) {
                auto h = h0; h.push_back(a); std::string key; int r;
                if (mc::at(L.c_str(), "l" + enc(h))) { desc(lean, h); } // the state is needed even where the case is skipped
                r = play(lean, h, &key);
                if (r == 1 && total < cap && seen.insert(key).second) { nxt.push_back(h); ++total; }
            }
            mc::beat(); cur.swap(nxt);
        }
    });
}
int main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) mc::g().thorough = 1;
#   if GRP == 0
        add<fm::node>("node"); add<fm::ordered_node>("ordered_node"); add<fm::basic_node<TrStr>>("audited strings");
#   elif GRP == 1
        add<fm::basic_node<TrInPlace>>("in place"); add<fm::basic_node<TrAllDyn>>("all dynamic"); add<fm::basic_node<TrStrDyn>>("audited dynamic strings"); add<fm::basic_node<TrHash>>("deque and unordered_map");
#   elif GRP == 2
        add<fm::basic_node<fm::node_traits<Al<char, 0>>>>("allocator, not propagated"); add<fm::basic_node<fm::node_traits<Al<char, 7>>>>("allocator, propagated"); add<fm::basic_node<TrDynAl<Al<char, 1>>>>("all dynamic, propagated on copy");
#   else
        add<fm::basic_node<TrDynAl<Al<char, 6>>>>("all dynamic, propagated on move and swap"); add<fm::basic_node<fm::node_traits<Pm<char>>>>("polymorphic allocator"); add<fm::basic_node<fm::ordered_node_traits<Al<char, 2>>>>("ordered, propagated on move");
#   endif
    return mc::main(argc, argv);
}
