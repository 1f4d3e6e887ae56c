// node <-> reference value, through the public node interface only
#pragma once
#include "ref.hxx"

#ifdef CXON_JSON_DEFINED
namespace nv {
    template <typename N> inline ref::Val from_json(const N& n) {
        using K = cxon::json::node_kind; using ref::Val;
        switch (n.kind()) {
            case K::object: { Val v = Val::M(); for (auto& e : n.template get<typename N::object>()) { v.a.push_back(from_json(e.first)); v.a.push_back(from_json(e.second)); } return v; }
            case K::array: { Val v = Val::A(); for (auto& e : n.template get<typename N::array>()) v.a.push_back(from_json(e)); return v; }
            case K::string: { auto& s = n.template get<typename N::string>(); return Val::T(std::string(s.begin(), s.end())); }
            case K::real: return Val::R(double(n.template get<typename N::real>()));
            case K::sint: { auto x = n.template get<typename N::sint>(); return x < 0 ? Val::I(uint64_t(-1 - x)) : Val::U(uint64_t(x)); }
            case K::uint: return Val::U(n.template get<typename N::uint>());
            case K::boolean: return Val::B(n.template get<typename N::boolean>());
            case K::null: return Val::N();
        }
        return Val();
    }
    template <typename N> inline N to_json(const ref::Val& v) {
        using ref::Val;
        switch (v.k) {
            case Val::nul: return N(nullptr);
            case Val::boo: return N(v.u != 0);
            case Val::uin: return N((typename N::uint)v.u);
            case Val::neg: return N((typename N::sint)(-1 - (typename N::sint)v.u));
            case Val::rea: return N((typename N::real)v.d);
            case Val::txt: return N(typename N::string(v.s.begin(), v.s.end()));
            case Val::arr: { N n; auto& a = n.template imbue<typename N::array>(); for (auto& x : v.a) a.push_back(to_json<N>(x)); return n; }
            case Val::map: { N n; auto& o = n.template imbue<typename N::object>(); for (size_t i = 0; i + 1 < v.a.size(); i += 2) cxon::cnt::append(o, { to_json<N>(v.a[i]), to_json<N>(v.a[i + 1]) }); return n; }
            default: return N();
        }
    }
}
#endif
#ifdef CXON_CBOR_DEFINED
namespace nv {
    template <typename N> inline ref::Val from_cbor(const N& n) {
        using K = cxon::cbor::node_kind; using ref::Val;
        switch (n.kind()) {
            case K::sint: { auto x = n.template get<typename N::sint>(); return x < 0 ? Val::I(uint64_t(-1 - x)) : Val::U(uint64_t(x)); }
            case K::uint: return Val::U(n.template get<typename N::uint>());
            case K::bytes: { auto& s = n.template get<typename N::bytes>(); return Val::Y(std::string(s.begin(), s.end())); }
            case K::text: { auto& s = n.template get<typename N::text>(); return Val::T(std::string(s.begin(), s.end())); }
            case K::array: { Val v = Val::A(); for (auto& e : n.template get<typename N::array>()) v.a.push_back(from_cbor(e)); return v; }
            case K::map: { Val v = Val::M(); for (auto& e : n.template get<typename N::map>()) { v.a.push_back(from_cbor(e.first)); v.a.push_back(from_cbor(e.second)); } return v; }
            case K::tag: { auto& t = n.template get<typename N::tag>(); return Val::G(t.tag, from_cbor(N(t.value))); }
            case K::boolean: return Val::B(n.template get<typename N::boolean>());
            case K::null: return Val::N();
            case K::undefined: return Val::D();
            case K::real: return Val::R(double(n.template get<typename N::real>()));
            case K::simple: return Val::S(uint64_t(n.template get<typename N::simple>()));
        }
        return Val();
    }
    template <typename N> inline N to_cbor(const ref::Val& v) {
        using ref::Val;
        switch (v.k) {
            case Val::nul: return N(nullptr);
            case Val::und: return N();
            case Val::boo: return N(v.u != 0);
            case Val::uin: return N((typename N::uint)v.u);
            case Val::neg: return N((typename N::sint)(-1 - (typename N::sint)v.u));
            case Val::rea: return N((typename N::real)v.d);
            case Val::txt: return N(typename N::text(v.s.begin(), v.s.end()));
            case Val::byt: return N(typename N::bytes(v.s.begin(), v.s.end()));
            case Val::sim: return N(typename N::simple((unsigned char)v.u));
            case Val::tag: return N(typename N::tag((typename N::uint)v.u, to_cbor<N>(v.a[0])));
            case Val::arr: { N n; auto& a = n.template imbue<typename N::array>(); for (auto& x : v.a) a.push_back(to_cbor<N>(x)); return n; }
            case Val::map: { N n; auto& o = n.template imbue<typename N::map>(); for (size_t i = 0; i + 1 < v.a.size(); i += 2) cxon::cnt::append(o, { to_cbor<N>(v.a[i]), to_cbor<N>(v.a[i + 1]) }); return n; }
            default: return N();
        }
    }
}
#endif
