// nodes as explicit models: kind, scalar, children. FMT 0: JSON, 1: CBOR
#pragma once
#include "mc.hxx"
#include <algorithm>
#include <string>
#include <vector>
#if FMT == 1
    namespace fm = cxon::cbor;
#else
    namespace fm = cxon::json;
#endif
using NK = fm::node_kind;
// ---- model
struct M {
    char k; std::string s; std::vector<M> a; // k: n d b i u r s y t a o g
    M(char kind = FMT == 1 ? 'd' : 'n', const std::string& str = "") : k(kind), s(str) {}
    std::string dump(bool ord) const {
        std::string o(1, k); o += s; if (k != 'a' && k != 'o' && k != 'g') return o;
        if (k == 'o') { std::vector<std::string> p; for (size_t i = 0; i + 1 < a.size(); i += 2) p.push_back(a[i].dump(ord) + ":" + a[i + 1].dump(ord)); if (!ord) std::sort(p.begin(), p.end()); o += "{"; for (auto& x : p) o += x + ","; return o + "}"; }
        o += "["; for (auto& x : a) o += x.dump(ord) + ","; return o + "]";
    }
    size_t size() const { size_t n = 1; for (auto& x : a) n += x.size(); return n; }
    size_t depth() const { size_t n = 0; for (auto& x : a) n = std::max(n, x.depth()); return n + 1; }
    bool operator ==(const M& o) const { return k == o.k && s == o.s && a == o.a; }
};
template <typename N> struct W {
#   if FMT == 1
        using O = typename N::map; using S = typename N::text;
#   else
        using O = typename N::object; using S = typename N::string;
#   endif
    using A = typename N::array;
    static std::string str(const S& s) { return std::string(s.begin(), s.end()); }
    static std::string num(double d) { return mc::fmt("%.17g", d); }
    template <typename T> static void one(const N& n, NK k, std::string& e) {
        bool const is = n.kind() == k; N& m = const_cast<N&>(n);
        if (n.template is<T>() != is || (n.template get_if<T>() != nullptr) != is || (m.template get_if<T>() != nullptr) != is) e = "is<T>/get_if<T> disagree with kind()";
        else if (is && (&n.template get<T>() != n.template get_if<T>() || &m.template get<T>() != m.template get_if<T>())) e = "get and get_if disagree";
    }
    static M snap(const N& n, std::string& e) {
        one<O>(n, FMT == 1 ? NK(0) : NK(0), e); one<A>(n, NK::array, e); one<typename N::real>(n, NK::real, e); one<typename N::sint>(n, NK::sint, e); one<typename N::uint>(n, NK::uint, e); one<typename N::boolean>(n, NK::boolean, e); one<typename N::null>(n, NK::null, e);
#       if FMT == 1
            one<typename N::text>(n, NK::text, e); one<typename N::bytes>(n, NK::bytes, e); one<typename N::tag>(n, NK::tag, e); one<typename N::simple>(n, NK::simple, e); one<typename N::undefined>(n, NK::undefined, e);
#       else
            one<typename N::string>(n, NK::string, e);
#       endif
        M m;
        if (n.template is<O>()) { m.k = 'o'; for (auto& x : n.template get<O>()) { m.a.push_back(snap(x.first, e)); m.a.push_back(snap(x.second, e)); } return m; }
        if (n.template is<S>()) return M('t', str(n.template get<S>()));
        switch (n.kind()) {
            case NK::array: m.k = 'a'; for (auto& x : n.template get<A>()) m.a.push_back(snap(x, e)); return m;
            case NK::real: return M('r', num(n.template get<typename N::real>()));
            case NK::sint: return M('i', std::to_string(n.template get<typename N::sint>()));
            case NK::uint: return M('u', std::to_string(n.template get<typename N::uint>()));
            case NK::boolean: return M('b', n.template get<typename N::boolean>() ? "1" : "0");
            case NK::null: return M('n');
#           if FMT == 1
                case NK::bytes: { auto& y = n.template get<typename N::bytes>(); return M('y', std::string(y.begin(), y.end())); }
                case NK::tag: { auto& g = n.template get<typename N::tag>(); m = M('g', std::to_string(g.tag)); m.a.push_back(snap(g.value, e)); return m; }
                case NK::simple: return M('s', std::to_string(n.template get<typename N::simple>()));
                case NK::undefined: return M('d');
#           endif
            default: e = "no such kind"; return m;
        }
    }
};
