// C13: every value of the supported library types, written and read into a fresh object, in JSON (FMT 0) and CBOR (FMT 1).
#include "targets.hxx"
#include <list>
#ifndef FMT
#   define FMT 0
#endif
#ifndef GRP
#   define GRP 0
#endif
#if FMT == 1
    using X = cxon::CBOR<>;
#else
    using X = cxon::JSON<>;
#endif
namespace bc = boost::container;
enum Eb : unsigned char { eb0, eb1, eb2 = 0xFF }; CXON_JSON_ENM(Eb, CXON_JSON_ENM_VALUE_ASIS(eb0), CXON_JSON_ENM_VALUE_ASIS(eb1), CXON_JSON_ENM_VALUE_ASIS(eb2)) CXON_CBOR_ENM(Eb, CXON_CBOR_ENM_VALUE_ASIS(eb0), CXON_CBOR_ENM_VALUE_ASIS(eb1), CXON_CBOR_ENM_VALUE_ASIS(eb2))
struct Pb { signed char v; Pb(): v(0) {} explicit Pb(int i): v(i) {} CXON_JSON_CLS_MEMBER(Pb, CXON_JSON_CLS_FIELD_ASIS(v)) CXON_CBOR_CLS_MEMBER(Pb, CXON_CBOR_CLS_FIELD_ASIS(v)) };
namespace tg {
    template <> struct Sh<Eb> { static std::string f(Eb t) { return "E" + std::to_string(int(t)); } };
    template <> struct Sh<Pb> { static std::string f(const Pb& t) { return "P" + std::to_string(int(t.v)); } }; // adapters over other containers, more printing
    template <typename T, typename C> struct Sh<std::stack<T, C>> { static std::string f(std::stack<T, C> t) { std::string s = "<"; while (!t.empty()) { s += sh(t.top()) + ","; t.pop(); } return s; } };
    template <typename T, typename C> struct Sh<std::queue<T, C>> { static std::string f(std::queue<T, C> t) { std::string s = "<"; while (!t.empty()) { s += sh(t.front()) + ","; t.pop(); } return s; } };
    template <typename T, typename C, typename L> struct Sh<std::priority_queue<T, C, L>> { static std::string f(std::priority_queue<T, C, L> t) { std::string s = "<"; while (!t.empty()) { s += sh(t.top()) + ","; t.pop(); } return s; } };
    template <typename T, typename L> struct Sh<std::set<T, L>> { static std::string f(const std::set<T, L>& t) { return seq(t.begin(), t.end()); } };
    template <typename K, typename V, typename L> struct Sh<std::map<K, V, L>> { static std::string f(const std::map<K, V, L>& t) { return seq(t.begin(), t.end()); } };
}
static bool T_all = false;
// ---- all small values of a type; level 0: the type itself, 1: in a container, 2: deeper
template <typename T> using Mk = std::vector<std::function<T()>>;
template <typename T, typename = void> struct G;
template <typename T> static Mk<T> of(std::initializer_list<T> l) { Mk<T> m; for (auto& x : l) { T y = x; m.push_back([y] { return y; }); } return m; }
template <typename T> static Mk<T> cut(Mk<T> m, size_t n) { if (m.size() > n) m.resize(n); return m; }
template <typename T> static Mk<T> mk(int level) { auto m = G<T>::mk(level); return level == 0 ? m : cut(m, level == 1 ? 5 : level == 2 ? 3 : 2); }
template <typename T> struct G<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> { static Mk<T> mk(int level) {
    using L = std::numeric_limits<T>;
    constexpr bool ch = std::is_same<T, char>::value || std::is_same<T, wchar_t>::value || std::is_same<T, char16_t>::value || std::is_same<T, char32_t>::value
#       if defined(__cpp_char8_t)
            || std::is_same<T, char8_t>::value
#       endif
    ;
    if (ch && FMT == 0) { auto m = of<T>({ T('a'), T('"'), T('z'), T('\\'), T('\n'), T(1), T(0x7F), T('0'), T('['), T('/'), T('{') }); if (sizeof(T) > 1) for (auto c : { 0xE9, 0x20AC, 0xFFFD }) m.push_back([c] { return T(c); }); if (sizeof(T) > 2) m.push_back([] { return T(0x1F600); }); return m; }
    auto m = of<T>({ T(5), T(0), L::max(), L::min(), T(23), T(24), T(1), T(10), T(99), T(100) });
    if (!level) { if (sizeof(T) == 1) { for (int i = L::min(); i <= int(L::max()); ++i) m.push_back([i] { return T(i); }); } else for (int k = 0; k < int(sizeof(T)) * 8 - 1; ++k) for (int d = -1; d <= 1; ++d) { T v = T((T(1) << k) + T(d)); m.push_back([v] { return v; }); if (L::is_signed) { T w = T(-(v / 2) - 1); m.push_back([w] { return w; }); } } }
    return m; } };
template <> struct G<bool> { static Mk<bool> mk(int) { return of<bool>({ true, false }); } };
template <> struct G<std::nullptr_t> { static Mk<std::nullptr_t> mk(int) { return of<std::nullptr_t>({ nullptr }); } };
template <typename T> struct G<T, typename std::enable_if<std::is_floating_point<T>::value>::type> { static Mk<T> mk(int) { using L = std::numeric_limits<T>; return of<T>({ T(1.5), T(-0.1), T(0), L::max(), L::denorm_min(), L::min(), L::lowest(), T(1) / T(3), L::infinity(), -L::infinity(), T(1e10), T(123456.789), L::epsilon(), T(16777217) }); } };
template <> struct G<Inner> { static Mk<Inner> mk(int l); };
template <> struct G<Eb> { static Mk<Eb> mk(int) { return of<Eb>({ eb1, eb0, eb2 }); } };
template <> struct G<Pb> { static Mk<Pb> mk(int) { return of<Pb>({ Pb(3), Pb(-1), Pb(0) }); } };
template <> struct G<En> { static Mk<En> mk(int) { return of<En>({ En::two, En::one, En::three }); } };
static std::string rep_(size_t n, const char* a) { std::string s; while (s.size() < n) s += a; s.resize(n); return s; }
static const std::vector<std::string>& texts() { static const std::vector<std::string> v = { "ab", "", "\"\\\n\x01", "\xC3\xA9\xE2\x82\xAC\xF0\x9F\x98\x80", "0123456789abcdef0123456789ABCDEF", "a", "{}[],:", std::string("x\0y", 3), "23", "null", " " }; return v; }
template <typename C> static std::basic_string<C> conv(const std::string& s) { std::basic_string<C> r; for (uint32_t c : ref::utf8_decode(s)) if (sizeof(C) == 1) for (char x : ref::utf8(c)) r += C(x); else if (sizeof(C) == 2 && c > 0xFFFF) { r += C(0xD800 + ((c - 0x10000) >> 10)); r += C(0xDC00 + ((c - 0x10000) & 0x3FF)); } else r += C(c); return r; }
template <typename S> static Mk<S> strs(int level) { using C = typename S::value_type; Mk<S> m; auto put = [&](const std::string& s) { auto w = conv<C>(s); m.push_back([w] { return S(w.begin(), w.end()); }); };
    for (auto& s : texts()) put(s);
    if (!level) for (size_t n = 3; n < 300; ++n) { put(rep_(n, "abcdefghijk")); if (n < 70) put(rep_(n - 1, "xyz") + "\""); } if (!level) for (size_t n : { 4095, 4096, 65535, 65536, 70000 }) put(rep_(n, "abc"));
    return m; }
template <typename C, typename A> struct G<std::basic_string<C, std::char_traits<C>, A>> { static Mk<std::basic_string<C, std::char_traits<C>, A>> mk(int l) { return strs<std::basic_string<C, std::char_traits<C>, A>>(l); } };
template <typename C> struct G<bc::basic_string<C>> { static Mk<bc::basic_string<C>> mk(int l) { return strs<bc::basic_string<C>>(l); } };
// ---- sequences: every sequence of <= 3 (1: 2, 2: 1) elements of the first few values, and sizes
template <typename C> struct E_ { using type = typename C::value_type; };
template <typename K, typename V> struct Pr { using type = std::pair<K, V>; };
template <typename C, typename E, typename B> static Mk<C> seqs(int level, B build, size_t max = 1000) {
    auto es = std::make_shared<Mk<E>>(mk<E>(level + 1)); size_t k = std::min<size_t>(es->size(), level == 0 ? (T_all ? 7 : 5) : 2), L = std::min<size_t>(max, level == 0 ? (T_all ? 5 : 4) : level == 1 ? 2 : 1);
    Mk<C> m; std::vector<std::vector<size_t>> w = { {} };
    if (level) { std::vector<size_t> one(1, 0); w.push_back(one); std::swap(w[0], w[1]); } // not empty first
    size_t b = level ? 1 : 0; // index of the empty word
    std::vector<std::vector<size_t>> cur = { {} };
    for (size_t n = 1; n <= L; ++n) { std::vector<std::vector<size_t>> nx; for (auto& x : cur) for (size_t i = 0; i < k; ++i) { auto y = x; y.push_back(i); nx.push_back(y); if (!(level && y.size() == 1 && i == 0)) w.push_back(y); } cur = nx; }
    (void)b;
    if (!level) for (size_t n : { 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 22, 23, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 254, 255, 256, 257, 300, 1000 }) if (n <= max) { std::vector<size_t> y; for (size_t i = 0; i < n; ++i) y.push_back((i * 7 + i / 3) % es->size()); w.push_back(y); }
    for (auto& x : w) if (x.size() <= max) m.push_back([=] { std::vector<E> v; for (size_t i : x) v.push_back((*es)[i]()); return build(std::move(v)); });
    return m; }
struct MoveIn { template <typename C, typename E> static void back(C& c, std::vector<E>& v) { for (size_t i = 0; i < v.size(); ++i) c.push_back(std::move(v[i])); } template <typename C> static void back(C& c, std::vector<bool>& v) { for (bool b : v) c.push_back(b); } };
#define SEQ_BACK(TP, ...) template <TP> struct G<__VA_ARGS__> { using C = __VA_ARGS__; using E = typename C::value_type; static Mk<C> mk(int l) { return seqs<C, E>(l, [](std::vector<E> v) { C c; MoveIn::back(c, v); return c; }); } };
#define SEQ_FRONT(TP, ...) template <TP> struct G<__VA_ARGS__> { using C = __VA_ARGS__; using E = typename C::value_type; static Mk<C> mk(int l) { return seqs<C, E>(l, [](std::vector<E> v) { C c; for (size_t i = v.size(); i-- > 0; ) c.push_front(std::move(v[i])); return c; }); } };
#define SEQ_INS(TP, ...) template <TP> struct G<__VA_ARGS__> { using C = __VA_ARGS__; using E = typename C::value_type; static Mk<C> mk(int l) { return seqs<C, E>(l, [](std::vector<E> v) { C c; for (size_t i = 0; i < v.size(); ++i) c.insert(std::move(v[i])); return c; }); } };
#define SEQ_PUSH(TP, ...) template <TP> struct G<__VA_ARGS__> { using C = __VA_ARGS__; using E = typename C::value_type; static Mk<C> mk(int l) { return seqs<C, E>(l, [](std::vector<E> v) { C c; for (size_t i = 0; i < v.size(); ++i) c.push(std::move(v[i])); return c; }); } };
#define MAP_(TP, ...) template <TP> struct G<__VA_ARGS__> { using C = __VA_ARGS__; using E = std::pair<typename C::key_type, typename C::mapped_type>; static Mk<C> mk(int l) { return seqs<C, E>(l, [](std::vector<E> v) { C c; for (size_t i = 0; i < v.size(); ++i) c.emplace(std::move(v[i].first), std::move(v[i].second)); return c; }); } };
#define C_ ,
SEQ_BACK(typename T C_ typename A, std::vector<T, A>) SEQ_BACK(typename T, std::list<T>) SEQ_BACK(typename T, std::deque<T>) SEQ_FRONT(typename T, std::forward_list<T>)
SEQ_BACK(typename T, bc::list<T>) SEQ_BACK(typename T, bc::deque<T>) SEQ_FRONT(typename T, bc::slist<T>) SEQ_BACK(typename T, bc::stable_vector<T>) SEQ_BACK(typename T C_ size_t N, bc::small_vector<T C_ N>)
SEQ_INS(typename T C_ typename L, std::set<T C_ L>) SEQ_INS(typename T, std::multiset<T>) SEQ_INS(typename T, std::unordered_set<T>) SEQ_INS(typename T, std::unordered_multiset<T>)
SEQ_INS(typename T, bc::set<T>) SEQ_INS(typename T, bc::multiset<T>) SEQ_INS(typename T, bc::flat_set<T>) SEQ_INS(typename T, bc::flat_multiset<T>)
SEQ_PUSH(typename T C_ typename D, std::stack<T C_ D>) SEQ_PUSH(typename T C_ typename D, std::queue<T C_ D>) SEQ_PUSH(typename T C_ typename D C_ typename L, std::priority_queue<T C_ D C_ L>)
MAP_(typename K C_ typename V C_ typename L, std::map<K C_ V C_ L>) MAP_(typename K C_ typename V, std::multimap<K C_ V>) MAP_(typename K C_ typename V, std::unordered_map<K C_ V>) MAP_(typename K C_ typename V, std::unordered_multimap<K C_ V>)
MAP_(typename K C_ typename V, bc::map<K C_ V>) MAP_(typename K C_ typename V, bc::multimap<K C_ V>) MAP_(typename K C_ typename V, bc::flat_map<K C_ V>) MAP_(typename K C_ typename V, bc::flat_multimap<K C_ V>)
template <typename T, size_t N> struct G<bc::static_vector<T, N>> { using C = bc::static_vector<T, N>; static Mk<C> mk(int l) { return seqs<C, T>(l, [](std::vector<T> v) { C c; MoveIn::back(c, v); return c; }, N); } };
template <typename T> struct G<std::valarray<T>> { using C = std::valarray<T>; static Mk<C> mk(int l) { return seqs<C, T>(l, [](std::vector<T> v) { C c(v.size()); for (size_t i = 0; i < v.size(); ++i) c[i] = v[i]; return c; }); } };
template <typename T, size_t N> struct G<std::array<T, N>> { using C = std::array<T, N>; static Mk<C> mk(int l) {
    Mk<C> m; auto es = std::make_shared<Mk<T>>(::mk<T>(l + 1)); size_t k = std::min<size_t>(es->size(), l ? 2 : N <= 3 ? 4 : 2), tot = 1; for (size_t i = 0; i < N && tot < 2000; ++i) tot *= k;
    for (size_t x = 0; x < tot; ++x) m.push_back([=] { C c; size_t y = x; for (size_t i = 0; i < N; ++i, y /= k) c[i] = (*es)[(y + (N > 8 ? i * 7 : 0)) % k](); return c; });
    return m; } };
// ---- products
template <typename A, typename B> struct G<std::pair<A, B>> { using C = std::pair<A, B>; static Mk<C> mk(int l) { Mk<C> m; auto a = ::mk<A>(l + 1); auto b = ::mk<B>(l + 1);
    if (l == 0) { for (auto& x : a) for (auto& y : b) m.push_back([=] { return C(x(), y()); }); }
    else for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) { auto x = a[i % a.size()]; auto y = b[i % b.size()]; m.push_back([=] { return C(x(), y()); }); }
    if (l) { auto x = a[0]; auto y = b.back(); m.push_back([=] { return C(x(), y()); }); }
    return m; } };
template <typename ...T> struct G<std::tuple<T...>> { using C = std::tuple<T...>;
    template <size_t ...I> struct Ix {}; template <size_t N, size_t ...I> struct Mi : Mi<N - 1, N - 1, I...> {}; template <size_t ...I> struct Mi<0, I...> { using type = Ix<I...>; };
    template <typename V> static const V& at(const Mk<V>& m, size_t k) { static V v; v = m[k % m.size()](); return v; }
    template <size_t ...I> static Mk<C> mk_(int l, Ix<I...>) {
        Mk<C> m; auto t = std::make_shared<std::tuple<Mk<T>...>>(::mk<T>(l + 1)...); size_t b = l ? 2 : 4, tot = 1; for (size_t i = 0; i < sizeof...(T); ++i) tot *= b;
        for (size_t x = 0; x < tot; ++x) m.push_back([=] { size_t d[sizeof...(I) + 1]; size_t y = x; for (size_t i = 0; i < sizeof...(I); ++i, y /= b) d[i] = y % b; (void)d; return C(std::get<I>(*t)[d[I] % std::get<I>(*t).size()]()...); });
        return m; }
    static Mk<C> mk(int l) { return mk_(l, typename Mi<sizeof...(T)>::type()); } };
template <typename T> struct G<std::complex<T>> { using C = std::complex<T>; static Mk<C> mk(int l) { Mk<C> m; auto a = ::mk<T>(l); for (auto& x : a) for (auto& y : a) m.push_back([=] { return C(x(), y()); }); return m; } };
template <typename R, typename P> struct G<std::chrono::duration<R, P>> { using C = std::chrono::duration<R, P>; static Mk<C> mk(int l) { Mk<C> m; for (auto& x : ::mk<R>(l)) m.push_back([=] { return C(x()); }); return m; } };
template <typename K, typename D> struct G<std::chrono::time_point<K, D>> { using C = std::chrono::time_point<K, D>; static Mk<C> mk(int l) { Mk<C> m; for (auto& x : ::mk<D>(l)) m.push_back([=] { return C(x()); }); return m; } };
template <typename T> struct G<std::unique_ptr<T>> { using C = std::unique_ptr<T>; static Mk<C> mk(int l) { Mk<C> m; for (auto& x : ::mk<T>(l)) { m.push_back([=] { return C(new T(x())); }); if (m.size() == 1) m.push_back([] { return C(); }); } return m; } };
template <typename T> struct G<std::shared_ptr<T>> { using C = std::shared_ptr<T>; static Mk<C> mk(int l) { Mk<C> m; for (auto& x : ::mk<T>(l)) { m.push_back([=] { return C(new T(x())); }); if (m.size() == 1) m.push_back([] { return C(); }); } return m; } };
template <size_t N> struct G<std::bitset<N>> { using C = std::bitset<N>; static Mk<C> mk(int l) { Mk<C> m; if (N <= 10) for (unsigned x = 0; x < (1u << N); ++x) m.push_back([=] { return C(x); });
    for (size_t i = 0; i < N; ++i) for (size_t j = i; j < N; ++j) m.push_back([=] { C c; c.set(i); c.set(j); return c; }); for (int k = 0; k < 4; ++k) m.push_back([=] { C c; for (size_t i = 0; i < N; ++i) c[i] = k == 0 || (i * k) % 3 == 0; return k == 3 ? ~c : c; });
    if (l) std::swap(m[0], m.back()); return m; } };
template <typename B> struct G<boost::dynamic_bitset<B>> { using C = boost::dynamic_bitset<B>; static Mk<C> mk(int l) { Mk<C> m; for (size_t n = l ? 3 : 0; n < (l ? 6u : 140u); ++n) { if (n <= 9) for (unsigned x = 0; x < (1u << n); ++x) m.push_back([=] { return C(n, x); });
    else for (size_t i = 0; i <= n; ++i) m.push_back([=] { C c(n); if (i < n) { c.set(i); c.set(n - 1 - i / 2); } else c.set(); return c; }); } return m; } };
template <typename ...T> struct Alt;
template <typename V, typename A, typename ...T> static void alts(Mk<V>& m, int l) { for (auto& x : ::mk<A>(l + 1)) m.push_back([=] { return V(x()); }); }
#if __cplusplus >= 201703L
    template <> struct G<std::monostate> { static Mk<std::monostate> mk(int) { return of<std::monostate>({ std::monostate() }); } };
    template <typename T> struct G<std::optional<T>> { using C = std::optional<T>; static Mk<C> mk(int l) { Mk<C> m; for (auto& x : ::mk<T>(l)) { m.push_back([=] { return C(x()); }); if (m.size() == 1) m.push_back([] { return C(); }); } return m; } };
    template <typename ...T> struct G<std::variant<T...>> { using C = std::variant<T...>;
        template <size_t I> static void put(Mk<C>& m, int l) { using A = std::variant_alternative_t<I, C>; for (auto& x : ::mk<A>(l)) { m.push_back([=] { return C(std::in_place_index<I>, x()); }); if (l && m.size() > 2 * (I + 1)) break; } }
        template <size_t ...I> static Mk<C> all(int l, std::index_sequence<I...>) { Mk<C> m; (put<I>(m, l), ...); return m; }
        static Mk<C> mk(int l) { auto m = all(l, std::make_index_sequence<sizeof...(T)>()); if (l) std::reverse(m.begin(), m.end()); return m; } };
#endif
template <> struct G<boost::variant2::monostate> { static Mk<boost::variant2::monostate> mk(int) { return of<boost::variant2::monostate>({ boost::variant2::monostate() }); } };
template <typename V, typename ...T> struct Put { static void f(Mk<V>&, int) {} };
template <typename V, typename A, typename ...T> struct Put<V, A, T...> { static void f(Mk<V>& m, int l) { alts<V, A>(m, l); Put<V, T...>::f(m, l); } };
template <typename ...T> struct G<boost::variant<T...>> { using C = boost::variant<T...>; static Mk<C> mk(int l) { Mk<C> m; Put<C, T...>::f(m, l); if (l) std::reverse(m.begin(), m.end()); return m; } };
template <typename ...T> struct G<boost::variant2::variant<T...>> { using C = boost::variant2::variant<T...>; static Mk<C> mk(int l) { Mk<C> m; Put<C, T...>::f(m, l); if (l) std::reverse(m.begin(), m.end()); return m; } };
inline Mk<Inner> G<Inner>::mk(int l) { Mk<Inner> m; for (auto& x : ::mk<std::string>(l + 1)) for (auto& y : ::mk<std::vector<int>>(l + 1)) m.push_back([=] { Inner i; i.k = x(); i.v = y(); return i; }); return m; }
// arrays are values of a struct here
template <typename T, size_t N> struct Arr { T v[N]; };
namespace tg { template <typename T, size_t N> struct Sh<Arr<T, N>> { static std::string f(const Arr<T, N>& t) { return seq(t.v, t.v + N); } }; }
template <typename T, size_t N> struct G<Arr<T, N>> { using C = Arr<T, N>; static Mk<C> mk(int l) { Mk<C> m; for (auto& x : G<std::array<T, N>>::mk(l)) m.push_back([=] { C c; auto a = x(); for (size_t i = 0; i < N; ++i) c.v[i] = std::move(a[i]); return c; }); return m; } };
template <typename T> static T& val(T& t) { return t; } template <typename T> static const T& val(const T& t) { return t; }
template <typename T, size_t N> static T (&val(Arr<T, N>& t))[N] { return t.v; } template <typename T, size_t N> static const T (&val(const Arr<T, N>& t))[N] { return t.v; }

static std::string cut_(const std::string& o) { return FMT == 1 ? mc::hex(o.substr(0, 150)) : mc::esc(o.substr(0, 300)); }
using tg::Box;
template <typename T> static bool read_back(const std::string& want, const std::string& o, const char* b, const char* e, const char* kind) {
    Box<T> t; auto r = cxon::from_bytes<X>(val(*t), b, e); (void)kind;
    if (!r) { mc::fail("cannot be read back (%s): %s", r.ec.message().c_str(), cut_(o).c_str()); return false; }
    if (r.end != e) { mc::fail("reading back stops at %td of %zu: %s", r.end - b, o.size(), cut_(o).c_str()); return false; }
    std::string g = t.show(); if (g != want) { mc::fail("reads back as %s instead of %s: %s", g.substr(0, 300).c_str(), want.substr(0, 300).c_str(), cut_(o).c_str()); return false; }
    return true;
}
using tg::Box;
template <typename T> static void one(const char* name, const T& t) {
    std::string want = tg::sh(t);
    if (!mc::at(name, want)) return;
    mc::state(mc::hash(want, mc::hash(name))); mc::transition(); mc::trace();
    std::string o; auto w = cxon::to_bytes<X>(o, val(t));
    if (!w) { mc::fail("write failed (%s): %s", w.ec.message().c_str(), want.substr(0, 300).c_str()); return; }
#   if FMT == 0
        if (!ref::json_valid(o.data(), o.data() + o.size())) { mc::fail("output is not JSON: %s", cut_(o).c_str()); return; }
#   else
        { const unsigned char* b = (const unsigned char*)o.data(); ref::Dec d{ b, b + o.size() }; ref::Val v; if (d.item(v) != ref::ok || d.b != b + o.size()) { mc::fail("output is not one item: %s", cut_(o).c_str()); return; } }
#   endif
    mc::outcome(mc::hash(o.substr(0, 8)));
    if (mc::g().slot->evals % 20000 == 3) mc::sample(want.substr(0, 150) + " -> " + cut_(o).substr(0, 200));
    const char* p = mc::guard().put(o);
    if (!read_back<T>(want, o, p, p + o.size(), "pointers")) return;
    // through a list and into another output
    { std::list<char> l(o.begin(), o.end()); Box<T> u; auto r = cxon::from_bytes<X>(val(*u), l.cbegin(), l.cend()); if (!r || r.end != l.cend() || u.show() != want) mc::fail("reads back from a list as %s (%s): %s", r ? u.show().substr(0, 300).c_str() : "nothing", r.ec.message().c_str(), cut_(o).c_str()); }
    { std::vector<char> v; auto r = cxon::to_bytes<X>(std::back_inserter(v), val(t)); if (!r || std::string(v.begin(), v.end()) != o) mc::fail("another output through an iterator: %s", cut_(o).c_str()); }
    if (o.size() < 60000) { char* q = mc::guard().tail(o.size()); auto r = cxon::to_bytes<X>(q, q + o.size(), val(t)); if (!r || r.end != q + o.size() || std::string(q, o.size()) != o) mc::fail("another output in a range: %s", cut_(o).c_str()); }
}
template <typename T> static void type(const char* name, size_t parts = 1) { for (size_t p = 0; p < parts; ++p) mc::add(std::string(name) + mc::fmt("/%zu", p), [=] { auto m = mk<T>(0); for (size_t i = p; i < m.size(); i += parts) { const T t = m[i](); one<T>(name, t); } }); }
#if __cplusplus >= 202002L
    template <typename T, size_t N> static void spans(const char* name) { mc::add(name, [=] {
        constexpr size_t M = N == std::dynamic_extent ? 3 : N;
        for (auto& x : G<std::array<T, M>>::mk(0)) for (size_t n = N == std::dynamic_extent ? 0 : M; n <= M; ++n) {
            auto a = x(); T q[M + 1]; for (size_t i = 0; i < M; ++i) q[i] = a[i]; std::span<T, N> s(q, n); std::string want = tg::sh(s);
            if (!mc::at(name, want)) continue;
            mc::state(mc::hash(want, mc::hash(name))); mc::transition(); mc::trace(); std::string o; if (!cxon::to_bytes<X>(o, s)) { mc::fail("write failed: %s", want.c_str()); continue; }
            T z[M + 1] = {}; std::span<T, N> u(z, n); const char* p = mc::guard().put(o); auto r = cxon::from_bytes<X>(u, p, p + o.size());
            if (!r || r.end != p + o.size() || tg::sh(u) != want) mc::fail("reads back as %s instead of %s (%s): %s", tg::sh(u).c_str(), want.c_str(), r.ec.message().c_str(), cut_(o).c_str());
            std::span<const T, N> cs(q, n); std::string o2; if (!cxon::to_bytes<X>(o2, cs) || o2 != o) mc::fail("a span of constants is written differently: %s", cut_(o2).c_str());
        } }); }
#endif
#define T_(...) type<__VA_ARGS__>(#__VA_ARGS__)
#if FMT == 0 // stacks are written from the top and read from the bottom (a known finding): twice is the identity
#   define K_(...) stacks<__VA_ARGS__>(#__VA_ARGS__)
    template <typename T> static void stacks(const char* name) { mc::add(name, [=] { for (auto& x : mk<T>(0)) { const T t = x(); std::string want = tg::sh(t); if (!mc::at(name, want)) continue;
        mc::state(mc::hash(want, mc::hash(name))); mc::transition(); mc::trace(); Box<T> u, v; std::string o, p; auto w = cxon::to_bytes<X>(o, t); const char* q = mc::guard().put(o); auto r = cxon::from_bytes<X>(*u, q, q + o.size());
        if (!w || !r || r.end != q + o.size() || !ref::json_valid(o.data(), o.data() + o.size()) || u.show().size() != want.size()) { mc::fail("cannot be read back (%s): %s", r.ec.message().c_str(), cut_(o).c_str()); continue; }
        cxon::to_bytes<X>(p, *u); auto z = cxon::from_bytes<X>(*v, p); if (!z || v.show() != want) mc::fail("twice written and read is %s instead of %s: %s", v.show().c_str(), want.c_str(), cut_(p).c_str()); } }); }
#else
#   define K_ T_
#endif
#if FMT == 0
#   define J_(...) T_(__VA_ARGS__) // does not compile as CBOR
#else
#   define J_(...) (void)0
#endif
using S = std::string; template <typename T> using V = std::vector<T>;
int main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) T_all = T_all || !strcmp(argv[i], "--thorough");
#   if GRP == 0 // single values, strings, fixed sizes
        T_(bool); T_(char); T_(signed char); T_(unsigned char); T_(short); T_(unsigned short); T_(int); T_(unsigned); T_(long); T_(unsigned long); T_(long long); T_(unsigned long long); T_(char16_t); T_(char32_t); T_(wchar_t); T_(float); T_(double); T_(std::nullptr_t); T_(En);
        T_(S); T_(std::u16string); T_(std::u32string); T_(std::wstring); T_(bc::string); T_(bc::basic_string<char16_t>); T_(bc::basic_string<char32_t>);
        T_(std::bitset<0>); T_(std::bitset<1>); T_(std::bitset<2>); T_(std::bitset<7>); T_(std::bitset<8>); T_(std::bitset<9>); T_(std::bitset<10>); T_(std::bitset<15>); T_(std::bitset<16>); T_(std::bitset<17>); T_(std::bitset<31>); T_(std::bitset<32>); T_(std::bitset<33>); T_(std::bitset<63>); T_(std::bitset<64>); T_(std::bitset<65>); T_(std::bitset<128>); T_(std::bitset<200>); T_(V<std::bitset<9>>); T_(std::pair<std::bitset<3> C_ std::bitset<12>>);
        T_(boost::dynamic_bitset<>); T_(boost::dynamic_bitset<unsigned char>); T_(boost::dynamic_bitset<unsigned short>); T_(boost::dynamic_bitset<unsigned>); T_(V<boost::dynamic_bitset<>>);
        T_(std::complex<float>); T_(std::complex<double>); T_(V<std::complex<double>>);
        T_(std::chrono::nanoseconds); T_(std::chrono::seconds); T_(std::chrono::hours); T_(std::chrono::duration<double>); T_(std::chrono::duration<int C_ std::ratio<1 C_ 3>>); T_(V<std::chrono::milliseconds>); T_(std::chrono::system_clock::time_point); T_(std::chrono::time_point<std::chrono::steady_clock C_ std::chrono::seconds>); 
        T_(std::valarray<int>); T_(std::valarray<double>); T_(std::valarray<bool>); T_(V<std::valarray<int>>); T_(std::valarray<unsigned char>); T_(std::valarray<S>);
        T_(std::array<int C_ 0>); T_(std::array<int C_ 1>); T_(std::array<int C_ 3>); J_(std::array<S C_ 2>); T_(std::array<std::array<int C_ 2> C_ 2>); T_(std::array<V<int> C_ 2>); T_(std::array<unsigned char C_ 4>); T_(std::array<char C_ 3>); T_(std::array<bool C_ 5>); T_(std::array<int C_ 24>); T_(std::array<short C_ 300>);
        T_(Arr<int C_ 1>); T_(Arr<int C_ 3>); J_(Arr<S C_ 2>); T_(Arr<V<int> C_ 3>); T_(Arr<double C_ 2>); T_(Arr<unsigned char C_ 5>); T_(Arr<short C_ 24>); T_(Arr<std::unique_ptr<int> C_ 2>);
#       if __cplusplus >= 202002L
            spans<int, 3>("span3"); spans<int, 1>("span1"); spans<unsigned char, 3>("span of bytes"); spans<int, std::dynamic_extent>("span"); spans<double, std::dynamic_extent>("span of doubles"); T_(char8_t); T_(std::u8string);
#       endif
#   elif GRP == 1 // sequences
        T_(V<int>); T_(V<bool>); T_(V<S>); T_(V<double>); T_(V<char>); T_(V<signed char>); T_(V<unsigned char>); T_(V<long long>); T_(V<V<int>>); T_(V<V<V<short>>>); T_(V<V<S>>); T_(V<std::u16string>); T_(V<En>); T_(Eb); T_(V<Eb>); T_(std::array<Eb C_ 3>); T_(std::list<Eb>); T_(V<Pb>); T_(V<float>); T_(V<std::array<int C_ 2>>); T_(V<V<bool>>); T_(V<V<unsigned char>>);
        T_(std::list<int>); T_(std::list<S>); T_(std::list<V<int>>); T_(std::list<unsigned char>); T_(std::list<char>); T_(std::deque<int>); T_(std::deque<S>); T_(std::deque<bool>); T_(std::deque<unsigned char>); T_(std::deque<std::list<int>>); T_(std::forward_list<int>); T_(std::forward_list<S>); T_(std::forward_list<V<int>>); T_(std::forward_list<unsigned char>); T_(std::forward_list<std::forward_list<int>>); T_(V<std::forward_list<int>>);
        K_(std::stack<int>); K_(std::stack<S>); K_(std::stack<int C_ V<int>>); K_(std::stack<int C_ std::list<int>>); K_(std::stack<unsigned char>); T_(std::queue<int>); T_(std::queue<S>); T_(std::queue<int C_ std::list<int>>); T_(std::queue<V<int>>); T_(std::queue<unsigned char>);
        T_(std::priority_queue<int>); T_(std::priority_queue<S>); T_(std::priority_queue<int C_ std::deque<int>>); T_(std::priority_queue<int C_ V<int> C_ std::greater<int>>); T_(std::priority_queue<std::pair<int C_ S>>); T_(std::priority_queue<unsigned char>); K_(V<std::stack<int>>); T_(V<std::queue<int>>); T_(V<std::priority_queue<int>>); K_(std::stack<std::stack<int>>);
        T_(bc::list<int>); T_(bc::list<S>); T_(bc::list<unsigned char>); T_(bc::deque<int>); T_(bc::deque<S>); T_(bc::deque<unsigned char>); T_(bc::slist<int>); T_(bc::slist<S>); T_(bc::slist<unsigned char>); T_(bc::stable_vector<int>); T_(bc::stable_vector<S>); T_(bc::stable_vector<unsigned char>); T_(bc::small_vector<int C_ 2>); T_(bc::small_vector<S C_ 1>); T_(bc::small_vector<unsigned char C_ 4>); T_(V<bc::slist<int>>); T_(bc::list<bc::slist<int>>);
        T_(bc::static_vector<int C_ 0>); T_(bc::static_vector<int C_ 1>); T_(bc::static_vector<int C_ 3>); T_(bc::static_vector<S C_ 2>); T_(bc::static_vector<unsigned char C_ 4>); T_(bc::static_vector<char C_ 3>); T_(bc::static_vector<int C_ 300>); T_(V<bc::static_vector<int C_ 2>>); T_(bc::static_vector<bc::static_vector<int C_ 2> C_ 2>);
#       if FMT == 0
            mc::add("the order of a stack", [] { if (!mc::at("std::stack<int>", std::string("[3,2,1]"))) return; std::stack<int> t, u; for (int i = 1; i < 4; ++i) t.push(i); std::string o; cxon::to_bytes<X>(o, t); cxon::from_bytes<X>(u, o); mc::state(1); if (!(t == u)) mc::fail("a stack comes back upside down: %s", o.c_str()); });
#       endif
#   elif GRP == 2 // sets and maps
        T_(std::set<int>); T_(std::set<S>); T_(std::set<int C_ std::greater<int>>); T_(std::set<V<int>>); T_(std::set<unsigned char>); T_(std::set<Eb>); T_(std::set<char>); T_(std::set<signed char>); T_(std::multiset<char>); T_(std::unordered_set<char>); T_(std::set<double>); T_(std::set<std::pair<int C_ S>>); T_(std::multiset<int>); T_(std::multiset<S>); T_(std::multiset<unsigned char>); T_(std::unordered_set<int>); T_(std::unordered_set<S>); T_(std::unordered_set<unsigned char>); T_(std::unordered_multiset<int>); T_(std::unordered_multiset<S>); T_(V<std::set<int>>); T_(std::set<std::set<int>>);
        T_(std::map<S C_ int>); T_(std::map<int C_ int>); T_(std::map<int C_ S>); T_(std::map<S C_ S>); T_(std::map<S C_ V<int>>); T_(std::map<S C_ std::map<S C_ int>>); T_(std::map<int C_ std::map<int C_ S>>); T_(std::map<unsigned char C_ short>); T_(std::map<signed char C_ short>); T_(std::map<long long C_ double>); T_(std::map<unsigned long long C_ bool>); T_(std::map<double C_ int>); T_(std::map<float C_ S>); T_(std::map<bool C_ int>); T_(std::map<char C_ int>); T_(std::map<En C_ int>); T_(std::map<S C_ En>); T_(std::map<int C_ int C_ std::greater<int>>); T_(std::map<std::u16string C_ std::u16string>); T_(std::map<std::wstring C_ int>); T_(std::map<char16_t C_ int>);
        T_(std::multimap<S C_ int>); T_(std::multimap<int C_ S>); T_(std::multimap<int C_ V<int>>); T_(std::unordered_map<S C_ int>); T_(std::unordered_map<int C_ int>); T_(std::unordered_map<int C_ V<S>>); T_(std::unordered_map<unsigned char C_ int>); T_(std::unordered_multimap<S C_ int>); T_(std::unordered_multimap<int C_ int>); T_(V<std::map<int C_ int>>); T_(V<std::multimap<S C_ int>>); T_(std::map<S C_ std::set<int>>);  T_(std::map<S C_ bool>); T_(std::map<S C_ double>); T_(std::map<S C_ std::nullptr_t>);
        T_(std::map<S C_ std::unique_ptr<int>>); T_(std::map<int C_ std::shared_ptr<S>>); T_(std::map<std::chrono::seconds C_ int>); T_(std::map<S C_ std::array<int C_ 2>>); T_(std::map<S C_ std::tuple<int C_ S>>); T_(std::map<S C_ std::bitset<9>>);
#       if FMT == 1
            T_(std::map<V<int> C_ int>); T_(std::map<std::pair<int C_ S> C_ int>); T_(std::map<std::tuple<int C_ bool> C_ S>); T_(std::map<std::map<int C_ int> C_ int>); T_(std::map<std::set<S> C_ int>);
#       endif
        T_(bc::set<int>); J_(bc::set<S>); T_(bc::multiset<int>); J_(bc::multiset<S>); T_(bc::flat_set<int>); J_(bc::flat_set<S>); T_(bc::flat_multiset<int>); J_(bc::flat_multiset<S>); T_(bc::flat_set<unsigned char>);
        T_(bc::map<int C_ int>); T_(bc::map<S C_ int>); T_(bc::map<S C_ V<int>>); T_(bc::multimap<int C_ int>); T_(bc::multimap<S C_ S>); T_(bc::flat_map<int C_ int>); T_(bc::flat_map<S C_ int>); T_(bc::flat_map<int C_ S>); T_(bc::flat_multimap<int C_ int>); T_(bc::flat_multimap<S C_ int>); T_(V<bc::flat_map<int C_ int>>); T_(bc::map<S C_ bc::flat_map<int C_ int>>);
#   else // products and sums
        T_(std::pair<int C_ int>); T_(std::pair<int C_ S>); T_(std::pair<S C_ V<int>>); T_(std::pair<bool C_ double>); T_(std::pair<std::pair<int C_ S> C_ std::pair<bool C_ V<int>>>); T_(V<std::pair<int C_ S>>); T_(std::pair<unsigned char C_ char>); T_(std::pair<V<unsigned char> C_ std::map<int C_ int>>); T_(std::list<std::pair<S C_ float>>);
        T_(std::tuple<>); T_(std::tuple<int>); T_(std::tuple<S>); T_(std::tuple<int C_ S>); T_(std::tuple<int C_ S C_ bool>); T_(std::tuple<V<int> C_ std::map<S C_ int> C_ double C_ S>); T_(std::tuple<std::tuple<int> C_ std::tuple<> C_ std::tuple<S C_ bool>>); T_(V<std::tuple<int C_ S>>); T_(std::tuple<int C_ int C_ int C_ int C_ int>); J_(V<std::tuple<>>); T_(std::tuple<std::pair<int C_ int> C_ std::array<int C_ 2>>);
        T_(std::unique_ptr<int>); T_(std::unique_ptr<S>); T_(std::unique_ptr<V<int>>); T_(std::unique_ptr<std::map<S C_ int>>); T_(std::unique_ptr<double>); T_(std::unique_ptr<std::pair<int C_ S>>); T_(std::shared_ptr<int>); T_(std::shared_ptr<S>); T_(std::shared_ptr<V<S>>); T_(V<std::unique_ptr<int>>); T_(V<std::shared_ptr<int>>); T_(std::list<std::unique_ptr<S>>); T_(std::pair<std::unique_ptr<int> C_ std::shared_ptr<int>>); T_(std::unique_ptr<bool>); T_(std::unique_ptr<char>); T_(std::shared_ptr<char>); T_(std::unique_ptr<char16_t>); T_(V<std::unique_ptr<char>>); T_(std::deque<std::unique_ptr<V<int>>>); T_(std::unique_ptr<std::tuple<int C_ S>>); T_(std::unique_ptr<unsigned char>); T_(std::unique_ptr<V<unsigned char>>);
        T_(Inner); T_(V<Inner>); T_(std::map<S C_ Inner>); T_(std::unique_ptr<Inner>); T_(std::pair<Inner C_ int>);
        T_(boost::variant<int C_ S>); T_(boost::variant<bool C_ double C_ V<int>>);  T_(boost::variant<S C_ std::map<S C_ int> C_ int>);  T_(boost::variant<int>);
        T_(boost::variant2::variant<int C_ S>); T_(boost::variant2::variant<boost::variant2::monostate C_ int C_ S>); T_(boost::variant2::variant<bool C_ double C_ V<int>>); T_(V<boost::variant2::variant<int C_ S>>); T_(std::pair<boost::variant2::variant<int C_ S> C_ int>); T_(boost::variant2::variant<int>);
#       if __cplusplus >= 201703L
            T_(std::optional<int>); T_(std::optional<S>); T_(std::optional<bool>); T_(std::optional<double>); T_(std::optional<V<int>>); T_(V<std::optional<int>>); T_(std::map<S C_ std::optional<int>>); T_(std::pair<std::optional<int> C_ std::optional<S>>); T_(std::tuple<std::optional<int> C_ int>); T_(std::optional<std::pair<int C_ S>>); T_(std::optional<std::tuple<int C_ bool>>); T_(std::optional<Inner>); T_(std::optional<std::map<S C_ int>>); T_(std::optional<unsigned char>); T_(std::optional<char>); T_(std::optional<V<unsigned char>>);
            T_(std::variant<int>); T_(std::variant<int C_ S>); T_(std::variant<std::monostate C_ int C_ S>); T_(std::variant<bool C_ int C_ double C_ S C_ V<int>>); T_(std::variant<int C_ int>); T_(std::variant<S C_ S C_ S>); T_(V<std::variant<int C_ S>>); T_(std::map<S C_ std::variant<int C_ S>>); T_(std::variant<std::variant<int C_ S> C_ V<std::variant<int C_ S>>>); T_(std::variant<std::pair<int C_ S> C_ std::tuple<int C_ S>>); T_(std::variant<Inner C_ int>); T_(std::tuple<std::variant<int C_ S> C_ int>); T_(std::variant<std::map<S C_ int> C_ std::map<int C_ S>>);
            T_(std::variant<std::optional<int> C_ std::monostate>); T_(std::optional<std::variant<int C_ S>>); T_(std::variant<int C_ int C_ int C_ int C_ int C_ int C_ int C_ int C_ int C_ int C_ int C_ bool>);
#       endif
#   endif
    return mc::main(argc, argv);
}
