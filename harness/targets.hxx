// Target types of JSON, CBOR and CXCF reads, how to print, fill and free them.  Builds as C++11, 17 and 20.
#pragma once
#include "cxon/json.hxx"
#include "cxon/cbor.hxx"
#include "cxon/cxcf.hxx"
#include "cxon/lib/std/array.hxx"
#include "cxon/lib/std/bitset.hxx"
#include "cxon/lib/std/chrono.hxx"
#include "cxon/lib/std/complex.hxx"
#include "cxon/lib/std/deque.hxx"
#include "cxon/lib/std/forward_list.hxx"
#include "cxon/lib/std/list.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/memory.hxx"
#include "cxon/lib/std/queue.hxx"
#include "cxon/lib/std/set.hxx"
#include "cxon/lib/std/stack.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/tuple.hxx"
#include "cxon/lib/std/unordered_map.hxx"
#include "cxon/lib/std/unordered_set.hxx"
#include "cxon/lib/std/utility.hxx"
#include "cxon/lib/std/valarray.hxx"
#include "cxon/lib/std/vector.hxx"
#if __cplusplus >= 201703L
#   include "cxon/lib/std/optional.hxx"
#   include "cxon/lib/std/variant.hxx"
#   include "cxon/lib/std/string_view.hxx"
#endif
#include "cxon/lib/boost/dynamic_bitset.hxx"
#include "cxon/lib/boost/container/deque.hxx"
#include "cxon/lib/boost/container/flat_map.hxx"
#include "cxon/lib/boost/container/flat_set.hxx"
#include "cxon/lib/boost/container/list.hxx"
#include "cxon/lib/boost/container/map.hxx"
#include "cxon/lib/boost/container/set.hxx"
#include "cxon/lib/boost/container/slist.hxx"
#include "cxon/lib/boost/container/small_vector.hxx"
#include "cxon/lib/boost/container/stable_vector.hxx"
#include "cxon/lib/boost/container/static_vector.hxx"
#include "cxon/lib/boost/container/string.hxx"
#if __cplusplus >= 202002L
#   include "cxon/lib/std/span.hxx"
#endif
#include "cxon/lib/node.hxx"
#include "cxon/lib/node.ordered.hxx"
#include "cxon/lib/boost/variant.hxx"
#include "cxon/lib/boost/variant2.hxx" // after the nodes: its namespaces hide the ones they use
#include "ref.hxx"

struct Inner { std::string k; std::vector<int> v; };
struct Cls { int a; std::string b; std::vector<int> c; double d; Inner e; bool f; };
struct Cfg { int prop1; std::vector<std::string> arr; std::map<std::string, std::vector<int>> obj; };
enum class En { one = 1, two = 2, three = 300 };
CXON_JSON_CLS(Inner, CXON_JSON_CLS_FIELD_ASIS(k), CXON_JSON_CLS_FIELD_ASIS(v))
CXON_CBOR_CLS(Inner, CXON_CBOR_CLS_FIELD_ASIS(k), CXON_CBOR_CLS_FIELD_ASIS(v))
CXON_JSON_CLS(Cls, CXON_JSON_CLS_FIELD_ASIS(a), CXON_JSON_CLS_FIELD_NAME("bb", b), CXON_JSON_CLS_FIELD_ASIS(c), CXON_JSON_CLS_FIELD_ASIS(d), CXON_JSON_CLS_FIELD_ASIS(e), CXON_JSON_CLS_FIELD_SKIP("s"), CXON_JSON_CLS_FIELD_ASIS(f))
CXON_CBOR_CLS(Cls, CXON_CBOR_CLS_FIELD_ASIS(a), CXON_CBOR_CLS_FIELD_NAME("bb", b), CXON_CBOR_CLS_FIELD_ASIS(c), CXON_CBOR_CLS_FIELD_ASIS(d), CXON_CBOR_CLS_FIELD_ASIS(e), CXON_CBOR_CLS_FIELD_SKIP("s"), CXON_CBOR_CLS_FIELD_ASIS(f))
CXON_JSON_CLS(Cfg, CXON_JSON_CLS_FIELD_ASIS(prop1), CXON_JSON_CLS_FIELD_NAME("a.r", arr), CXON_JSON_CLS_FIELD_ASIS(obj))
CXON_JSON_CLS_BARE(Cfg)
CXON_JSON_ENM(En, CXON_JSON_ENM_VALUE_ASIS(one), CXON_JSON_ENM_VALUE_NAME("Two", two), CXON_JSON_ENM_VALUE_ASIS(three))
CXON_CBOR_ENM(En, CXON_CBOR_ENM_VALUE_NAME(1, one), CXON_CBOR_ENM_VALUE_NAME(2, two), CXON_CBOR_ENM_VALUE_NAME(300, three))

namespace tg {
    template <typename T> struct Tag { using type = T; };
    struct CStr { const char* p; }; // markers of targets that are raw pointers

    // ---- printing
    template <typename T, typename = void> struct Sh;
    template <typename T> inline std::string sh(const T& t) { return Sh<T>::f(t); }
    template <typename T> struct Sh<T, typename std::enable_if<std::is_integral<T>::value>::type> { static std::string f(T t) { return std::is_signed<T>::value ? std::to_string((long long)t) : std::to_string((unsigned long long)t); } };
    template <> struct Sh<bool> { static std::string f(bool t) { return t ? "true" : "false"; } };
    template <> struct Sh<std::nullptr_t> { static std::string f(std::nullptr_t) { return "null"; } };
    template <typename T> struct Sh<T, typename std::enable_if<std::is_floating_point<T>::value>::type> { static std::string f(T t) { if (t != t) return "nan"; char b[64]; snprintf(b, sizeof b, "%La", (long double)t); return b; } };
    template <typename I> inline std::string seq(I b, I e) { std::string s = "["; for (; b != e; ++b) { s += sh<typename std::decay<decltype(*b)>::type>(*b); s += ','; } return s + "]"; }
    template <typename I> inline std::string bag(I b, I e) { std::vector<std::string> v; for (; b != e; ++b) v.push_back(sh(*b)); std::sort(v.begin(), v.end()); std::string s = "{"; for (auto& x : v) s += x + ","; return s + "}"; }
#   define SEQ_(T_, S_) template <T_> struct Sh<S_> { static std::string f(const S_& t) { return seq(t.begin(), t.end()); } };
#   define BAG_(T_, S_) template <T_> struct Sh<S_> { static std::string f(const S_& t) { return bag(t.begin(), t.end()); } };
#   define C_ ,
    template <typename T, typename A> struct Sh<std::vector<T, A>> { static std::string f(const std::vector<T, A>& t) { return seq(t.begin(), t.end()); } };
    template <typename A> struct Sh<std::vector<bool, A>> { static std::string f(const std::vector<bool, A>& t) { std::string s = "["; for (bool b : t) s += b ? "true," : "false,"; return s + "]"; } };
    SEQ_(typename T, std::basic_string<T>) SEQ_(typename T, std::deque<T>) SEQ_(typename T, std::list<T>) SEQ_(typename T, std::forward_list<T>) SEQ_(typename T C_ size_t N, std::array<T C_ N>)
    SEQ_(typename T, std::set<T>) SEQ_(typename T, std::multiset<T>) SEQ_(typename K C_ typename V, std::map<K C_ V>) SEQ_(typename K C_ typename V, std::multimap<K C_ V>)
    BAG_(typename T, std::unordered_set<T>) BAG_(typename T, std::unordered_multiset<T>) BAG_(typename K C_ typename V, std::unordered_map<K C_ V>) BAG_(typename K C_ typename V, std::unordered_multimap<K C_ V>)
    template <typename T, size_t N> struct Sh<T[N]> { static std::string f(const T (&t)[N]) { return seq(t, t + N); } };
    template <typename T> struct Sh<std::valarray<T>> { static std::string f(const std::valarray<T>& t) { return t.size() ? seq(&t[0], &t[0] + t.size()) : std::string("[]"); } };
    template <typename A, typename B> struct Sh<std::pair<A, B>> { static std::string f(const std::pair<A, B>& t) { return "(" + sh(t.first) + "," + sh(t.second) + ")"; } };
    template <typename T, size_t I, size_t N> struct Tup { static std::string f(const T& t) { return sh(std::get<I>(t)) + "," + Tup<T, I + 1, N>::f(t); } };
    template <typename T, size_t N> struct Tup<T, N, N> { static std::string f(const T&) { return ")"; } };
    template <typename ...T> struct Sh<std::tuple<T...>> { static std::string f(const std::tuple<T...>& t) { return "(" + Tup<std::tuple<T...>, 0, sizeof...(T)>::f(t); } };
    template <typename T> struct Sh<std::complex<T>> { static std::string f(const std::complex<T>& t) { return "(" + sh(t.real()) + "," + sh(t.imag()) + ")"; } };
    template <typename R, typename P> struct Sh<std::chrono::duration<R, P>> { static std::string f(const std::chrono::duration<R, P>& t) { return sh(t.count()); } };
    template <typename C, typename D> struct Sh<std::chrono::time_point<C, D>> { static std::string f(const std::chrono::time_point<C, D>& t) { return sh(t.time_since_epoch()); } };
    template <size_t N> struct Sh<std::bitset<N>> { static std::string f(const std::bitset<N>& t) { return t.to_string(); } };
    template <typename B, typename A> struct Sh<boost::dynamic_bitset<B, A>> { static std::string f(const boost::dynamic_bitset<B, A>& t) { std::string s; for (size_t i = t.size(); i-- > 0; ) s += t[i] ? '1' : '0'; return "b" + s; } };
    template <typename T> struct Sh<std::stack<T>> { static std::string f(std::stack<T> t) { std::string s = "<"; while (!t.empty()) { s += sh(t.top()) + ","; t.pop(); } return s; } };
    template <typename T> struct Sh<std::queue<T>> { static std::string f(std::queue<T> t) { std::string s = "<"; while (!t.empty()) { s += sh(t.front()) + ","; t.pop(); } return s; } };
    template <typename T> struct Sh<std::priority_queue<T>> { static std::string f(std::priority_queue<T> t) { std::string s = "<"; while (!t.empty()) { s += sh(t.top()) + ","; t.pop(); } return s; } };
    template <typename T> struct Sh<std::unique_ptr<T>> { static std::string f(const std::unique_ptr<T>& t) { return t ? "&" + sh(*t) : "null"; } };
    template <typename T> struct Sh<std::shared_ptr<T>> { static std::string f(const std::shared_ptr<T>& t) { return t ? "&" + sh(*t) : "null"; } };
    template <typename T> struct Sh<T*> { static std::string f(T* t) { return t ? "&" + sh(typename std::remove_const<T>::type(*t)) : "null"; } };
    template <> struct Sh<char*> { static std::string f(char* t) { return t ? "&" + std::string(t) : "null"; } };
    template <> struct Sh<const char*> { static std::string f(const char* t) { return t ? "&" + std::string(t) : "null"; } };
#   if __cplusplus >= 201703L
        template <typename T> struct Sh<std::optional<T>> { static std::string f(const std::optional<T>& t) { return t ? "?" + sh(*t) : "none"; } };
        template <> struct Sh<std::monostate> { static std::string f(std::monostate) { return "mono"; } };
        template <typename ...T> struct Sh<std::variant<T...>> { static std::string f(const std::variant<T...>& t) { return t.valueless_by_exception() ? std::string("valueless") : std::to_string(t.index()) + "=" + std::visit([](auto& x) { return sh(x); }, t); } };
#   endif
    template <> struct Sh<Inner> { static std::string f(const Inner& t) { return "I(" + sh(t.k) + sh(t.v) + ")"; } };
    template <> struct Sh<Cls> { static std::string f(const Cls& t) { return "C(" + sh(t.a) + "," + sh(t.b) + sh(t.c) + sh(t.d) + sh(t.e) + sh(t.f) + ")"; } };
    template <> struct Sh<Cfg> { static std::string f(const Cfg& t) { return "G(" + sh(t.prop1) + sh(t.arr) + sh(t.obj) + ")"; } };
    template <> struct Sh<En> { static std::string f(En t) { return "E" + std::to_string(int(t)); } };
    template <typename N> inline std::string jn(const N& n) {
        using K = cxon::json::node_kind; std::string s;
        switch (n.kind()) {
            case K::object: s = "{"; for (auto& e : n.template get<typename N::object>()) s += jn(e.first) + ":" + jn(e.second) + ","; return s + "}";
            case K::array: s = "["; for (auto& e : n.template get<typename N::array>()) s += jn(e) + ","; return s + "]";
            case K::string: { auto& t = n.template get<typename N::string>(); return "\"" + mc::esc(t.data(), t.size()) + "\""; }
            case K::real: return "r" + sh(double(n.template get<typename N::real>()));
            case K::sint: return "s" + sh((long long)n.template get<typename N::sint>());
            case K::uint: return "u" + sh((unsigned long long)n.template get<typename N::uint>());
            case K::boolean: return n.template get<typename N::boolean>() ? "true" : "false";
            case K::null: return "null";
        }
        return "?";
    }
    template <typename N> inline std::string cn(const N& n) {
        using K = cxon::cbor::node_kind; std::string s;
        switch (n.kind()) {
            case K::sint: return "s" + sh((long long)n.template get<typename N::sint>());
            case K::uint: return "u" + sh((unsigned long long)n.template get<typename N::uint>());
            case K::bytes: { auto& t = n.template get<typename N::bytes>(); return "h" + mc::hex(t.data(), t.size()); }
            case K::text: { auto& t = n.template get<typename N::text>(); return "\"" + mc::esc(t.data(), t.size()) + "\""; }
            case K::array: s = "["; for (auto& e : n.template get<typename N::array>()) s += cn(e) + ","; return s + "]";
            case K::map: s = "{"; for (auto& e : n.template get<typename N::map>()) s += cn(e.first) + ":" + cn(e.second) + ","; return s + "}";
            case K::tag: { auto& t = n.template get<typename N::tag>(); return "#" + sh((unsigned long long)t.tag) + "(" + cn(t.value) + ")"; }
            case K::boolean: return n.template get<typename N::boolean>() ? "true" : "false";
            case K::null: return "null";
            case K::undefined: return "undefined";
            case K::real: return "r" + sh(double(n.template get<typename N::real>()));
            case K::simple: return "y" + sh((unsigned long long)n.template get<typename N::simple>());
        }
        return "?";
    }
    template <> struct Sh<cxon::json::node> { static std::string f(const cxon::json::node& n) { return jn(n); } };
    template <> struct Sh<cxon::json::ordered_node> { static std::string f(const cxon::json::ordered_node& n) { return jn(n); } };
    template <> struct Sh<cxon::cbor::node> { static std::string f(const cxon::cbor::node& n) { return cn(n); } };
    template <> struct Sh<cxon::cbor::ordered_node> { static std::string f(const cxon::cbor::ordered_node& n) { return cn(n); } };
    namespace bc = boost::container;
    SEQ_(typename T, bc::deque<T>) SEQ_(typename T, bc::list<T>) SEQ_(typename T, bc::slist<T>) SEQ_(typename T C_ size_t N, bc::small_vector<T C_ N>) SEQ_(typename T, bc::stable_vector<T>) SEQ_(typename T C_ size_t N, bc::static_vector<T C_ N>)
    SEQ_(typename T, bc::basic_string<T>) SEQ_(typename T, bc::set<T>) SEQ_(typename T, bc::multiset<T>) SEQ_(typename T, bc::flat_set<T>) SEQ_(typename T, bc::flat_multiset<T>)
    SEQ_(typename K C_ typename V, bc::map<K C_ V>) SEQ_(typename K C_ typename V, bc::multimap<K C_ V>) SEQ_(typename K C_ typename V, bc::flat_map<K C_ V>) SEQ_(typename K C_ typename V, bc::flat_multimap<K C_ V>)
    struct ShV { using result_type = std::string; template <typename T> std::string operator ()(const T& x) const { return sh(x); } };
    template <> struct Sh<boost::variant2::monostate> { static std::string f(boost::variant2::monostate) { return "mono"; } };
    template <typename ...T> struct Sh<boost::variant<T...>> { static std::string f(const boost::variant<T...>& t) { return std::to_string(t.which()) + "=" + boost::apply_visitor(ShV(), t); } };
    template <typename ...T> struct Sh<boost::variant2::variant<T...>> { static std::string f(const boost::variant2::variant<T...>& t) { return std::to_string(t.index()) + "=" + boost::variant2::visit(ShV(), t); } };
#   if __cplusplus >= 202002L
        template <typename T, size_t N> struct Sh<std::span<T, N>> { static std::string f(const std::span<T, N>& t) { return seq(t.begin(), t.end()); } };
#   endif
#   undef SEQ_
#   undef BAG_

    // ---- a target on the heap, its raw pointers released when it goes
    template <typename T> struct Fin { static void f(T&) {} };
    template <typename T> struct Fin<T*> { static void f(T*& p) { ::operator delete((void*)p); p = nullptr; } };
    template <typename T> struct Box {
        struct In { T v; };
        In* x;
        Box() : x(new In()) {}
        ~Box() { Fin<T>::f(x->v); delete x; }
        T& operator *() { return x->v; }
        std::string show() const { return sh<T>(x->v); }
        Box(const Box&) = delete; Box& operator =(const Box&) = delete;
    };

#   if __cplusplus >= 202002L
        template <typename T, size_t N> struct Box<std::span<T, N>> { // over a block of its own
            T* m; std::span<T, N> s;
            static constexpr size_t size() { return N == std::dynamic_extent ? 4 : N; }
            Box() : m(new T[size()]()), s(m, size()) {}
            ~Box() { delete[] m; }
            std::span<T, N>& operator *() { return s; }
            std::string show() const { return sh(s); }
            Box(const Box&) = delete; Box& operator =(const Box&) = delete;
        };
#   endif

    // ---- the targets: f(Tag<T>(), name, id)
#   define T_(...) f(Tag<__VA_ARGS__>(), #__VA_ARGS__, id++)
    template <typename F> inline void scalars(F&& f, unsigned& id) {
        T_(bool); T_(std::nullptr_t); T_(char); T_(signed char); T_(unsigned char); T_(char16_t); T_(char32_t); T_(wchar_t);
        T_(short); T_(unsigned short); T_(int); T_(unsigned); T_(long long); T_(unsigned long long); T_(float); T_(double);
#       if __cplusplus >= 202002L
            T_(char8_t);
#       endif
        T_(std::chrono::seconds); T_(int*); T_(const char*); T_(double*);
    }
    template <typename F> inline void strings(F&& f, unsigned& id) {
        T_(std::string); T_(std::u16string); T_(std::u32string); T_(std::wstring); T_(char[1]); T_(char[4]); T_(char16_t[3]); T_(std::vector<char>);
        T_(std::vector<unsigned char>); T_(std::array<char, 3>); T_(unsigned char[5]); T_(std::bitset<1>); T_(std::bitset<9>); T_(std::bitset<16>); T_(boost::dynamic_bitset<>); T_(boost::dynamic_bitset<unsigned char>); T_(En);
        T_(std::unique_ptr<std::string>);
#       if __cplusplus >= 202002L
            T_(std::u8string);
#       endif
    }
    template <typename F> inline void lists(F&& f, unsigned& id) {
        T_(std::vector<int>); T_(std::vector<bool>); T_(std::vector<std::vector<int>>); T_(std::list<double>); T_(std::deque<short>); T_(std::forward_list<int>); T_(std::forward_list<unsigned char>);
        T_(std::set<int>); T_(std::multiset<int>); T_(std::unordered_set<int>); T_(std::unordered_multiset<unsigned>); T_(std::valarray<int>); T_(std::stack<int>); T_(std::queue<int>); T_(std::priority_queue<int>);
        T_(int[3]); T_(std::array<int, 2>); T_(std::array<std::vector<int>, 2>); T_(std::array<int, 0>);
    }
    template <typename F> inline void records(F&& f, unsigned& id) {
        T_(std::map<std::string, int>); T_(std::map<int, std::vector<int>>); T_(std::multimap<std::string, int>); T_(std::unordered_map<int, double>); T_(std::unordered_multimap<int, int>);
        T_(std::pair<int, std::string>); T_(std::tuple<>); T_(std::tuple<int, std::string, bool>); T_(std::complex<double>); T_(std::shared_ptr<int>); T_(std::vector<std::unique_ptr<int>>); T_(std::list<std::pair<std::string, float>>);
#       if __cplusplus >= 201703L
            T_(std::optional<int>); T_(std::optional<std::string>); T_(std::variant<std::monostate, int, std::string>); T_(std::vector<std::optional<int>>);
#       endif
        T_(Inner); T_(Cls); T_(std::vector<Inner>); T_(std::map<std::string, Inner>);
    }
    template <typename F> inline void others(F&& f, unsigned& id) {
        T_(bc::string); T_(bc::basic_string<char16_t>); T_(bc::deque<int>); T_(bc::list<double>); T_(bc::slist<int>); T_(bc::small_vector<int, 2>); T_(bc::stable_vector<std::string>); T_(bc::static_vector<int, 2>); T_(bc::static_vector<int, 0>);
        T_(bc::static_vector<char, 3>); T_(bc::small_vector<unsigned char, 4>); T_(bc::set<int>); T_(bc::multiset<int>); T_(bc::flat_set<int>); T_(bc::flat_multiset<int>); T_(bc::map<int, int>); T_(bc::multimap<int, int>); T_(bc::flat_map<int, std::string>); T_(bc::flat_multimap<int, int>);
        T_(boost::variant<int, std::string>); T_(boost::variant2::variant<boost::variant2::monostate, int, std::string>);
#       if __cplusplus >= 202002L
            T_(std::span<int, 2>); T_(std::span<int>); T_(std::span<int, 0>); T_(std::span<unsigned char, 3>);
#       endif
    }
    template <typename F> inline void nodes(F&& f, unsigned& id) {
        T_(cxon::json::node); T_(cxon::json::ordered_node); T_(std::vector<cxon::json::node>); T_(std::map<std::string, cxon::json::node>); T_(cxon::cbor::node);
    }
    template <typename F> inline void cbor_nodes(F&& f, unsigned& id) {
        T_(cxon::cbor::node); T_(cxon::cbor::ordered_node); T_(std::vector<cxon::cbor::node>); T_(std::map<std::string, cxon::cbor::node>); T_(cxon::json::node); T_(cxon::json::ordered_node);
    }
    template <typename F> inline void cxcf(F&& f, unsigned& id) {
        T_(Cfg); T_(Cls); T_(std::map<std::string, int>); T_(std::map<std::string, std::vector<std::string>>); T_(std::vector<int>); T_(std::string); T_(double); T_(cxon::json::node); T_(cxon::json::ordered_node);
        T_(std::map<int, std::string>); T_(std::pair<int, std::string>); T_(char[4]);
    }
#   undef T_
    template <typename F> inline void json_group(int g, F&& f, unsigned& id) { g == 0 ? scalars(f, id) : g == 1 ? strings(f, id) : g == 2 ? lists(f, id) : g == 3 ? records(f, id) : g == 4 ? nodes(f, id) : others(f, id); }
    template <typename F> inline void cbor_group(int g, F&& f, unsigned& id) { g == 0 ? scalars(f, id) : g == 1 ? strings(f, id) : g == 2 ? lists(f, id) : g == 3 ? records(f, id) : g == 4 ? cbor_nodes(f, id) : others(f, id); }

    // ---- iterators that know the ends of the input
    struct Bounds { const char *b, *e; bool bad; };
    template <typename Cat> struct Chk {
        using iterator_category = Cat; using value_type = char; using difference_type = std::ptrdiff_t; using pointer = const char*; using reference = const char&;
        const char* p; Bounds* g;
        Chk(const char* p_ = nullptr, Bounds* g_ = nullptr) : p(p_), g(g_) {}
        reference operator *() const { static const char z = 0; if (p < g->b || p >= g->e) { g->bad = true; return z; } return *p; }
        Chk& operator ++() { if (p >= g->e) g->bad = true; else ++p; return *this; }
        Chk operator ++(int) { Chk c = *this; ++*this; return c; }
        bool operator ==(const Chk& o) const { return p == o.p; } bool operator !=(const Chk& o) const { return p != o.p; }
        // bidirectional, random access
        Chk& operator --() { if (p <= g->b) g->bad = true; else --p; return *this; }
        Chk operator --(int) { Chk c = *this; --*this; return c; }
        Chk& operator +=(std::ptrdiff_t n) { if (n > g->e - p || n < g->b - p) { g->bad = true; p = n > 0 ? g->e : g->b; } else p += n; return *this; }
        Chk& operator -=(std::ptrdiff_t n) { return *this += -n; }
        Chk operator +(std::ptrdiff_t n) const { Chk c = *this; return c += n; } friend Chk operator +(std::ptrdiff_t n, const Chk& c) { return c + n; }
        Chk operator -(std::ptrdiff_t n) const { Chk c = *this; return c -= n; }
        std::ptrdiff_t operator -(const Chk& o) const { return p - o.p; }
        reference operator [](std::ptrdiff_t n) const { return *(*this + n); }
        bool operator <(const Chk& o) const { return p < o.p; } bool operator >(const Chk& o) const { return p > o.p; } bool operator <=(const Chk& o) const { return p <= o.p; } bool operator >=(const Chk& o) const { return p >= o.p; }
    };
}
