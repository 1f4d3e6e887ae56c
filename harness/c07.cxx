// C07: what typed C++ targets accept from CBOR, what they hold and what is consumed, for every pair of target type and input.
#include "cxon/cbor.hxx"
#include "cxon/lib/std/array.hxx"
#include "cxon/lib/std/bitset.hxx"
#include "cxon/lib/std/chrono.hxx"
#include "cxon/lib/std/complex.hxx"
#include "cxon/lib/std/deque.hxx"
#include "cxon/lib/std/forward_list.hxx"
#include "cxon/lib/std/list.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/memory.hxx"
#include "cxon/lib/std/optional.hxx"
#include "cxon/lib/std/queue.hxx"
#include "cxon/lib/std/set.hxx"
#include "cxon/lib/std/stack.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/tuple.hxx"
#include "cxon/lib/std/unordered_map.hxx"
#include "cxon/lib/std/unordered_set.hxx"
#include "cxon/lib/std/utility.hxx"
#include "cxon/lib/std/valarray.hxx"
#include "cxon/lib/std/variant.hxx"
#include "cxon/lib/std/vector.hxx"
#include "ref.hxx"
using ref::Val; using ref::Dec;
#ifndef PART
#   define PART 0
#endif

// ---- oracle: refuse (0), must be read as `c` (1), may be read, as `c` (2), may be read, value not judged (3)
enum { no = 0, must = 1, may = 2, any = 3 };
static int both(int a, int b) { if (!a || !b) return no; return a == any || b == any ? any : a == may || b == may ? may : must; }
static bool indef; // the item has an indefinite-length part
static const Val& strip(const Val& v, int& tags) { const Val* p = &v; tags = 0; while (p->k == Val::tag) { ++tags; p = &p->a[0]; } return *p; }
static int tagged(int r, int tags, int limit = 1) { return r == must && tags > limit ? may : r; }

template <typename T, typename = void> struct Tx;
template <typename T> static std::string num(T x) { return std::to_string((long long)x); }
static std::string num(unsigned long long x) { return std::to_string(x); }
static std::string fp(double d) { if (std::isnan(d)) return "nan"; uint64_t w; memcpy(&w, &d, 8); return "r" + std::to_string(w); }

template <typename T> struct Tx<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>> {
    using U = std::make_unsigned_t<T>;
    static std::string canon(const T& t) { return std::is_signed<T>::value ? std::to_string((long long)t) : std::to_string((unsigned long long)t); }
    static int want(const Val& x, std::string& c) {
        int tags; const Val& v = strip(x, tags);
        bool quantum = sizeof(T) == 1 || std::is_same<T, wchar_t>::value;
        if (v.k == Val::uin) { uint64_t m = quantum ? uint64_t(std::numeric_limits<U>::max()) : uint64_t(std::numeric_limits<T>::max()); if (v.u > m) return no; c = canon(T(v.u)); return tagged(must, tags); }
        if (v.k == Val::neg) { if (!std::is_signed<T>::value || v.u > uint64_t(std::numeric_limits<T>::max())) return no; c = canon(T(-1 - (long long)v.u)); return tagged(must, tags); }
        return no;
    }
    static T byte(unsigned char b) { return T(b); }
};
template <> struct Tx<bool> {
    static std::string canon(bool t) { return t ? "true" : "false"; }
    static int want(const Val& x, std::string& c) { int tags; const Val& v = strip(x, tags); if (v.k != Val::boo) return no; c = canon(v.u != 0); return tagged(must, tags, 0); }
};
template <> struct Tx<std::nullptr_t> {
    static std::string canon(std::nullptr_t) { return "null"; }
    static int want(const Val& x, std::string& c) { int tags; const Val& v = strip(x, tags); if (v.k != Val::nul) return no; c = "null"; return tagged(must, tags, 0); }
};
template <typename T> struct Tx<T, std::enable_if_t<std::is_floating_point<T>::value>> {
    static std::string canon(const T& t) { return fp(double(t)); }
    static int want(const Val& x, std::string& c) {
        int tags; const Val& v = strip(x, tags);
        if (v.k == Val::rea) { if (std::isfinite(v.d) && std::fabs(v.d) > double(std::numeric_limits<T>::max())) return any; c = canon(T(v.d)); return tagged(must, tags); }
        if (v.k == Val::uin) { c = canon(T(v.u)); return tagged(must, tags); }
        if (v.k == Val::neg) { if (v.u > 0x7FFFFFFFFFFFFFFFull) { c = canon(T(-1.0L - (long double)v.u)); return may; } c = canon(T(-1 - (long long)v.u)); return tagged(must, tags); }
        return no;
    }
};
// sequences
enum { seq, sorted, sorted_unique, reversed, unjudged };
template <typename C> static std::string seq_canon(const C& c) { using E = typename C::value_type; std::string s = "["; for (auto&& x : c) { s += Tx<E>::canon(x); s += ','; } return s + "]"; }
template <typename E> static std::string join(std::vector<std::string> v, int mode) {
    if (mode == sorted || mode == sorted_unique) std::sort(v.begin(), v.end());
    if (mode == sorted_unique) v.erase(std::unique(v.begin(), v.end()), v.end());
    std::string s = "["; for (auto& x : v) { s += x; s += ','; } return s + "]";
}
template <typename E> static int elements(const Val& v, std::vector<std::string>& o) { // of an item taken as a sequence of E
    if (v.k == Val::arr) { int r = must; for (auto& x : v.a) { std::string c; int q = Tx<E>::want(x, c); if (!q) return no; r = both(r, q); o.push_back(c); } return r; }
    if constexpr (std::is_arithmetic<E>::value) if (v.k == Val::byt || v.k == Val::txt) {
        if (std::is_same<E, bool>::value) { for (unsigned char b : v.s) o.push_back(Tx<E>::canon(E(b))); return any; }
        for (unsigned char b : v.s) o.push_back(Tx<E>::canon(E(b)));
        return sizeof(E) == 1 ? must : may;
    }
    if constexpr (!std::is_arithmetic<E>::value && std::is_assignable<E&, char>::value) if (v.k == Val::byt || v.k == Val::txt) { for (unsigned char b : v.s) { E x; x = b; o.push_back(Tx<E>::canon(x)); } return may; }
    return no;
}
template <typename C, int mode> struct Seq {
    using E = typename C::value_type;
    static std::string canon(const C& c) { std::vector<std::string> v; for (auto&& x : c) v.push_back(Tx<E>::canon(x)); return join<E>(v, mode); }
    static int want(const Val& x, std::string& c) {
        int tags; const Val& v = strip(x, tags); std::vector<std::string> o; int r = elements<E>(v, o); if (!r) return no;
        c = join<E>(o, mode); if ((mode == sorted || mode == sorted_unique) && v.k != Val::arr && r == must) r = may; return tagged(mode == unjudged ? both(r, any) : r, tags);
    }
};
template <typename T, typename A> struct Tx<std::vector<T, A>> : Seq<std::vector<T, A>, seq> {};
template <typename T> struct Tx<std::deque<T>> : Seq<std::deque<T>, seq> {};
template <typename T> struct Tx<std::list<T>> : Seq<std::list<T>, seq> {};
template <typename T> struct Tx<std::forward_list<T>> : Seq<std::forward_list<T>, seq> {};
template <typename T> struct Tx<std::basic_string<T>> : Seq<std::basic_string<T>, seq> {};
template <typename T> struct Tx<std::set<T>> : Seq<std::set<T>, sorted_unique> {};
template <typename T> struct Tx<std::multiset<T>> : Seq<std::multiset<T>, sorted> {};
template <typename T> struct Tx<std::unordered_set<T>> : Seq<std::unordered_set<T>, sorted_unique> {};
template <typename T> struct Tx<std::unordered_multiset<T>> : Seq<std::unordered_multiset<T>, sorted> {};
template <typename T> struct VA { using value_type = T; const std::valarray<T>& a; const T* begin() const { return a.size() ? &a[0] : nullptr; } const T* end() const { return a.size() ? &a[0] + a.size() : nullptr; } };
template <typename T> struct Tx<std::valarray<T>> { static std::string canon(const std::valarray<T>& a) { return Seq<VA<T>, seq>::canon(VA<T>{a}); } static int want(const Val& x, std::string& c) { return Seq<VA<T>, seq>::want(x, c); } };
template <typename T> struct Tx<std::stack<T>> { static std::string canon(std::stack<T> a) { std::deque<T> d; while (!a.empty()) { d.push_front(a.top()); a.pop(); } return Seq<std::deque<T>, seq>::canon(d); } static int want(const Val& x, std::string& c) { return Seq<std::deque<T>, seq>::want(x, c); } };
template <typename T> struct Tx<std::queue<T>> { static std::string canon(std::queue<T> a) { std::deque<T> d; while (!a.empty()) { d.push_back(a.front()); a.pop(); } return Seq<std::deque<T>, seq>::canon(d); } static int want(const Val& x, std::string& c) { return Seq<std::deque<T>, seq>::want(x, c); } };
// fixed sequences: what is not mentioned keeps its value (42)
template <typename T> static std::string kept();
template <typename T, size_t N, typename R> struct Fix {
    static std::string canon(const R& a) { std::vector<std::string> v; for (size_t i = 0; i < N; ++i) v.push_back(Tx<T>::canon(a[i])); return join<T>(v, seq); }
    static int want(const Val& x, std::string& c) {
        int tags; const Val& v = strip(x, tags); std::vector<std::string> o; int r = elements<T>(v, o); if (!r || o.size() > N) return no;
        while (o.size() < N) o.push_back(kept<T>()); c = join<T>(o, seq); return tagged(r, tags);
    }
};
template <typename T, size_t N> struct Tx<T[N]> : Fix<T, N, T[N]> {};
template <typename T, size_t N> struct Tx<std::array<T, N>> : Fix<T, N, std::array<T, N>> {};
// maps
template <typename M, int mode> struct Map {
    using K = typename M::key_type; using V = typename M::mapped_type;
    static std::string canon(const M& m) { std::vector<std::string> v; for (auto& p : m) v.push_back(Tx<K>::canon(p.first) + ":" + Tx<V>::canon(p.second)); return join<int>(v, sorted); }
    static int want(const Val& x, std::string& c) {
        int tags; const Val& v = strip(x, tags); if (v.k != Val::map) return no;
        std::vector<std::string> o, ks; int r = must;
        for (size_t i = 0; i < v.a.size(); i += 2) { std::string a, b; int q = both(Tx<K>::want(v.a[i], a), Tx<V>::want(v.a[i + 1], b)); if (!q) return no; r = both(r, q); ks.push_back(a); o.push_back(a + ":" + b); }
        c = join<int>(o, sorted); std::sort(ks.begin(), ks.end());
        if (mode == sorted_unique && std::unique(ks.begin(), ks.end()) != ks.end()) r = any;
        return tagged(r, tags);
    }
};
template <typename K, typename V> struct Tx<std::map<K, V>> : Map<std::map<K, V>, sorted_unique> {};
template <typename K, typename V> struct Tx<std::multimap<K, V>> : Map<std::multimap<K, V>, sorted> {};
template <typename K, typename V> struct Tx<std::unordered_map<K, V>> : Map<std::unordered_map<K, V>, sorted_unique> {};
template <typename K, typename V> struct Tx<std::unordered_multimap<K, V>> : Map<std::unordered_multimap<K, V>, sorted> {};
// records
template <typename ...T> struct Rec {
    template <size_t ...I> static int go(const Val& v, std::string& c, std::index_sequence<I...>) { std::string s[sizeof...(T) + 1]; int r = must; int d[] = { must, (r = both(r, Tx<T>::want(v.a[I], s[I])))... }; (void)d; if (!r) return no; c = "("; for (size_t i = 0; i < sizeof...(T); ++i) c += s[i] + ","; c += ")"; return r; }
    static int want(const Val& x, std::string& c) { int tags; const Val& v = strip(x, tags); if (v.k != Val::arr || v.a.size() != sizeof...(T)) return no; int r = go(v, c, std::index_sequence_for<T...>()); return tagged(r == must && indef ? may : r, tags); }
};
template <typename A, typename B> struct Tx<std::pair<A, B>> : Rec<A, B> { static std::string canon(const std::pair<A, B>& p) { return "(" + Tx<A>::canon(p.first) + "," + Tx<B>::canon(p.second) + ",)"; } };
template <typename ...T> struct Tx<std::tuple<T...>> : Rec<T...> {
    template <size_t ...I> static std::string cn(const std::tuple<T...>& t, std::index_sequence<I...>) { std::string c = "("; int d[] = { 0, (c += Tx<T>::canon(std::get<I>(t)) + ",", 0)... }; (void)d; (void)t; return c + ")"; }
    static std::string canon(const std::tuple<T...>& t) { return cn(t, std::index_sequence_for<T...>()); }
};
template <typename T> struct Tx<std::complex<T>> : Rec<T, T> { static std::string canon(const std::complex<T>& p) { return "(" + Tx<T>::canon(p.real()) + "," + Tx<T>::canon(p.imag()) + ",)"; } };
template <typename R, typename P> struct Tx<std::chrono::duration<R, P>> { static std::string canon(const std::chrono::duration<R, P>& d) { return Tx<R>::canon(d.count()); } static int want(const Val& x, std::string& c) { return Tx<R>::want(x, c); } };
template <typename C, typename D> struct Tx<std::chrono::time_point<C, D>> { static std::string canon(const std::chrono::time_point<C, D>& d) { return Tx<D>::canon(d.time_since_epoch()); } static int want(const Val& x, std::string& c) { return Tx<D>::want(x, c); } };
template <typename T> struct Tx<std::optional<T>> {
    static std::string canon(const std::optional<T>& t) { return t ? Tx<T>::canon(*t) : "none"; }
    static int want(const Val& x, std::string& c) { int tags; const Val& v = strip(x, tags); if (v.k == Val::und) { c = "none"; return tagged(must, tags); } return Tx<T>::want(x, c); }
};
template <> struct Tx<std::monostate> { static std::string canon(std::monostate) { return "mono"; } static int want(const Val& x, std::string& c) { int tags; const Val& v = strip(x, tags); if (v.k != Val::und) return no; c = "mono"; return tagged(must, tags); } };
template <typename ...T> struct Tx<std::variant<T...>> {
    static std::string canon(const std::variant<T...>& t) { return std::to_string(t.index()) + "=" + std::visit([](auto& x) { return Tx<std::decay_t<decltype(x)>>::canon(x); }, t); }
    template <size_t ...I> static int go(uint64_t n, const Val& v, std::string& c, std::index_sequence<I...>) { int r = no; int d[] = { (n == I ? (r = Tx<T>::want(v, c)) : 0)... }; (void)d; return r; }
    static int want(const Val& x, std::string& c) {
        int tags, t2; const Val& v = strip(x, tags); if (v.k != Val::arr || v.a.size() != 2) return no;
        const Val& n = strip(v.a[0], t2); if (n.k != Val::uin || n.u >= sizeof...(T)) return no;
        std::string s; int r = go(n.u, v.a[1], s, std::index_sequence_for<T...>()); if (!r) return no; c = std::to_string(n.u) + "=" + s; return tagged(tagged(r == must && indef ? may : r, t2), tags);
    }
};
template <size_t N> struct Tx<std::bitset<N>> {
    static std::string canon(const std::bitset<N>& b) { return b.to_string(); }
    static int want(const Val& x, std::string& c) {
        int tags; const Val& v = strip(x, tags); const size_t M = (N + 7) / 8;
        if (v.k != Val::byt || v.s.size() != M + 1 || (unsigned char)v.s[0] != M * 8 - N) return no;
        c.clear(); for (size_t i = 1; i <= M; ++i) for (int k = 7; k >= 0; --k) c += (v.s[i] >> k & 1) ? '1' : '0';
        size_t pad = M * 8 - N; for (size_t i = 0; i < pad; ++i) if (c[i] == '1') return any;
        c.erase(0, pad); return tagged(indef ? may : must, tags);
    }
};
// pointers: null, one value, or (arithmetic ones) a sequence, which is terminated by a zero
template <typename P> struct Ptr1 {
    using T = typename P::element_type;
    static std::string canon(const P& p) { return p ? Tx<T>::canon(*p) : "null"; }
    static int want(const Val& x, std::string& c) { int tags; const Val& v = strip(x, tags); if (v.k == Val::nul) { c = "null"; return tags ? may : must; } return Tx<T>::want(x, c); }
};
template <typename T> struct Tx<std::unique_ptr<T>> : Ptr1<std::unique_ptr<T>> {};
template <typename T> struct Tx<std::shared_ptr<T>> : Ptr1<std::shared_ptr<T>> {};

// ---- one input, all types
struct In { const char *b, *e; Val v; ref::St st; size_t size; bool skip, dup; std::string s; };
template <typename T, typename = void> struct Init { static void f(T&) {} };
template <typename T> struct Init<T, std::enable_if_t<std::is_arithmetic<T>::value>> { static void f(T& t) { t = T(42); } };
template <typename T, size_t N> struct Init<T[N]> { static void f(T (&a)[N]) { for (auto& x : a) Init<T>::f(x); } };
template <typename T, size_t N> struct Init<std::array<T, N>> { static void f(std::array<T, N>& a) { for (auto& x : a) Init<T>::f(x); } };
template <typename T> static std::string kept() { T t{}; Init<T>::f(t); return Tx<T>::canon(t); }

static void verdict(const In& in, const char* name, bool ok, const std::error_condition& ec, const char* end, int w, const std::string& want, const std::string& got) {
    mc::trace();
    if (end < in.b || end > in.e) { mc::fail("%s: end is outside the input: %s", name, in.s.c_str()); return; }
    if (!ok && !(ec && !strcmp(ec.category().name(), "cxon/cbor/read"))) mc::fail("%s: refused without a CBOR error code: %s", name, in.s.c_str());
    if (in.skip) return;
    if (in.st != ref::ok) { if (ok) mc::fail("%s: accepted %s item %s (consumed %zu) as %s", name, in.st == ref::bad ? "a malformed" : "a truncated", in.s.c_str(), size_t(end - in.b), got.substr(0, 200).c_str()); return; }
    if (!w) { if (ok) mc::fail("%s: accepted %s as %s, although the item is of another kind or out of range", name, in.s.c_str(), got.substr(0, 200).c_str()); return; }
    if (!ok) { if (w == must) mc::fail("%s: refused %s (%s), expected %s", name, in.s.c_str(), ec.message().c_str(), want.substr(0, 200).c_str()); return; }
    if (size_t(end - in.b) != in.size) { mc::fail("%s: consumed %zu bytes of %s instead of %zu", name, size_t(end - in.b), in.s.c_str(), in.size); return; }
    if (mc::g().slot->evals % 20011 == 7) mc::sample(std::string(name) + ": " + in.s + " -> " + got.substr(0, 150));
    if (w != any && got != want) mc::fail("%s: read %s as %s instead of %s", name, in.s.c_str(), got.substr(0, 300).c_str(), want.substr(0, 300).c_str());
}
template <typename T> static void one(const In& in, const char* name, unsigned id) {
    std::string c; int w = in.st == ref::ok ? Tx<T>::want(in.v, c) : no;
    if constexpr (std::is_array<T>::value) { T t; Init<T>::f(t); auto r = cxon::from_bytes<cxon::CBOR<>>(t, in.b, in.e); mc::outcome(mc::mix(id, bool(r))); verdict(in, name, bool(r), r.ec, r.end, w, c, bool(r) ? Tx<T>::canon(t) : ""); }
    else { T t{}; Init<T>::f(t); auto r = cxon::from_bytes<cxon::CBOR<>>(t, in.b, in.e); mc::outcome(mc::mix(id, bool(r) ? w + 1 : 0)); verdict(in, name, bool(r), r.ec, r.end, w, c, bool(r) ? Tx<T>::canon(t) : ""); }
}
// raw pointers
template <typename E, typename P> static void ptr(const In& in, const char* name) {
    P p = nullptr; auto r = cxon::from_bytes<cxon::CBOR<>>(p, in.b, in.e);
    int w = no; std::vector<std::string> o; std::string c = "?", g = "?";
    if (in.st == ref::ok) {
        int tags; const Val& v = strip(in.v, tags);
        if (v.k == Val::nul) { w = tagged(must, tags); c = "null"; if (bool(r)) g = p ? "not null" : "null"; }
        else if (v.k == Val::arr || v.k == Val::byt || v.k == Val::txt) { w = tagged(elements<E>(v, o), tags); if (w) { o.push_back(Tx<E>::canon(E(0))); c = join<E>(o, seq); if (bool(r)) { std::vector<std::string> q; if (p) for (size_t i = 0; i < o.size(); ++i) q.push_back(Tx<E>::canon(p[i])); g = join<E>(q, seq); } } }
        else { w = tagged(Tx<E>::want(v, c), tags); if (bool(r)) g = p ? Tx<E>::canon(*p) : "null"; }
    }
    verdict(in, name, bool(r), r.ec, r.end, w, c, g);
    if (bool(r)) ::operator delete((void*)p);
}

static void all(const In& in) {
    unsigned id = 0;
#   define T_(...) one<__VA_ARGS__>(in, #__VA_ARGS__, ++id)
#   if PART == 0
        T_(bool); T_(std::nullptr_t); T_(char); T_(signed char); T_(unsigned char); T_(char8_t); T_(char16_t); T_(char32_t); T_(wchar_t);
        T_(short); T_(unsigned short); T_(int); T_(unsigned); T_(long); T_(unsigned long); T_(long long); T_(unsigned long long); T_(float); T_(double);
        T_(std::chrono::duration<int>); T_(std::chrono::nanoseconds); T_(std::chrono::system_clock::time_point); T_(std::optional<int>); T_(std::optional<bool>); T_(std::monostate);
        ptr<int, int*>(in, "int*"); ptr<char, const char*>(in, "const char*"); ptr<double, double*>(in, "double*"); ptr<unsigned char, unsigned char*>(in, "unsigned char*");
#   elif PART == 1
        T_(std::string); T_(std::u8string); T_(std::u16string); T_(std::u32string); T_(std::wstring); T_(std::vector<unsigned char>); T_(std::vector<signed char>); T_(std::vector<char>);
        T_(std::vector<int>); T_(std::vector<bool>); T_(std::vector<float>); T_(std::vector<unsigned short>); T_(std::deque<int>); T_(std::list<unsigned char>); T_(std::list<int>); T_(std::forward_list<int>); T_(std::forward_list<unsigned char>);
        T_(std::set<int>); T_(std::multiset<unsigned char>); T_(std::unordered_set<int>); T_(std::unordered_multiset<int>); T_(std::valarray<int>); T_(std::valarray<unsigned char>); T_(std::stack<int>); T_(std::queue<unsigned char>);
        T_(std::unique_ptr<int>); T_(std::shared_ptr<double>);
#   else
        T_(int[3]); T_(unsigned char[3]); T_(char[2]); T_(bool[2]); T_(std::array<int, 2>); T_(std::array<unsigned char, 4>); T_(std::array<double, 1>);
        T_(std::map<int, int>); T_(std::map<unsigned char, unsigned char>); T_(std::map<std::string, int>); T_(std::multimap<int, int>); T_(std::unordered_map<int, bool>); T_(std::unordered_multimap<int, int>);
        T_(std::pair<int, int>); T_(std::pair<unsigned char, std::string>); T_(std::tuple<>); T_(std::tuple<int>); T_(std::tuple<int, bool, std::string>); T_(std::complex<double>); T_(std::complex<float>);
        T_(std::variant<int, bool>); T_(std::variant<std::monostate, std::string, double>); T_(std::bitset<1>); T_(std::bitset<7>); T_(std::bitset<8>); T_(std::bitset<9>); T_(std::bitset<16>);
        T_(std::vector<std::vector<int>>); T_(std::vector<std::pair<int, int>>); T_(std::optional<std::vector<unsigned char>>); T_(std::map<int, std::map<int, int>>); T_(std::vector<std::optional<int>>); T_(std::array<std::array<int, 2>, 2>);
#   endif
#   undef T_
}
static void judge(const char* b, size_t n) {
    In in; in.b = b; in.e = b + n; Dec d{(const unsigned char*)b, (const unsigned char*)in.e}; d.count = true;
    in.st = d.item(in.v); in.size = size_t((const char*)d.b - b); in.skip = d.simple2;
    in.s = n > 48 ? mc::hex(std::string(b, 48)) + "..." : mc::hex(std::string(b, n));
    indef = false; if (in.st == ref::ok) for (size_t i = 0; i < in.size; ++i) if ((unsigned char)b[i] == 0xFF || (b[i] & 31) == 31) { bool s = true; ref::cbor_shortest((const unsigned char*)b, (const unsigned char*)d.b, s) == nullptr ? indef = true : false; break; }
    all(in);
}
static void run(const char* label, const std::string& s) { if (mc::at(label, s)) judge(mc::guard().put(s), s.size()); }

static std::string B(std::initializer_list<int> l) { std::string s; for (int x : l) s += char(x); return s; }
static std::string wide(unsigned mt, unsigned w, uint64_t v) { std::string s(1, char(mt << 5 | (24 + w))); for (int i = (1 << w) - 1; i >= 0; --i) s += char(v >> (8 * i)); return s; }
static std::vector<std::string> heads(unsigned mt, uint64_t v) { std::vector<std::string> r; if (v < 24) r.push_back(std::string(1, char(mt << 5 | v))); for (unsigned w = 0; w < 4; ++w) if (w == 3 || v < (uint64_t(1) << (8 << w))) r.push_back(wide(mt, w, v)); return r; }
static std::vector<uint64_t> bounds() {
    std::vector<uint64_t> r; for (uint64_t i = 0; i <= 260; ++i) r.push_back(i);
    for (int k = 8; k < 64; ++k) for (int d = -3; d <= 3; ++d) r.push_back((uint64_t(1) << k) + uint64_t(int64_t(d)));
    for (int d = 0; d < 4; ++d) r.push_back(~uint64_t(0) - unsigned(d));
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r;
}
static const std::vector<std::string>& tokens() {
    static const std::vector<std::string> a = { B({0x00}), B({0x01}), B({0x18,0xC8}), B({0x19,1,0}), B({0x20}), B({0x38,0x7F}), B({0x38,0x80}), B({0x41,0xFF}), B({0x42,0x00,0x81}), B({0x61,'y'}), B({0x60}), B({0x80}), B({0x81}), B({0x82}), B({0x83}), B({0xA0}), B({0xA1}), B({0xA2}), B({0xC1}), B({0xD8,0x80}), B({0x9F}), B({0xBF}), B({0x5F}), B({0x7F}), B({0xFF}), B({0xF5}), B({0xF6}), B({0xF7}), B({0xF9,0x3E,0}), B({0xE3}) };
    return a;
}
static void dfs(std::string& s, int left) {
    run("tokens", s); if (!left) return;
    Dec d{(const unsigned char*)s.data(), (const unsigned char*)s.data() + s.size()}; Val v; auto st = d.item(v); if (st != ref::shrt && !s.empty()) return;
    for (auto& t : tokens()) { size_t z = s.size(); s += t; dfs(s, left - 1); s.resize(z); }
}
static std::vector<std::string> corpus() {
    std::vector<std::string> r;
    for (uint64_t v : { 0ull, 23ull, 24ull, 127ull, 128ull, 255ull, 256ull, 32767ull, 32768ull, 65535ull, 65536ull, 2147483647ull, 2147483648ull, 4294967295ull, 4294967296ull, 9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull })
        for (unsigned mt : {0u, 1u}) for (auto& h : heads(mt, v)) { r.push_back(h); r.push_back(B({0x82}) + h + h); r.push_back(B({0xA1, 1}) + h); }
    for (size_t n : {0, 1, 2, 3, 4, 24}) for (unsigned mt : {2u, 3u}) for (auto& h : heads(mt, n)) r.push_back(h + std::string(n, 'a'));
    for (auto& s : { B({0x5F,0x41,1,0x41,2,0xFF}), B({0x7F,0x61,'a',0x60,0x78,1,'b',0xFF}), B({0x5F,0xFF}), B({0x9F,0xFF}), B({0xBF,0xFF}), B({0x83,1,2,3}), B({0x9F,1,2,3,0xFF}), B({0x84,1,2,3,4}), B({0xA2,1,2,3,4}), B({0xBF,1,2,3,4,0xFF}), B({0xA1,0x61,'k',7}), B({0x82,0x18,0xFF,0x61,'s'}), B({0x83,1,0xF5,0x63,'a','b','c'}),
        B({0x82,0xF9,0x3C,0,0xFB,0x40,9,0x21,0xFB,0x54,0x44,0x2D,0x18}), B({0x82,0,7}), B({0x82,1,0xF4}), B({0x82,0,0xF7}), B({0x82,1,0x62,'h','i'}), B({0x82,2,0xFA,0x3F,0x80,0,0}), B({0x42,7,1}), B({0x42,1,0x55}), B({0x42,0,0xAA}), B({0x43,7,1,0xFE}), B({0x43,0,1,2}), B({0xC1,0x18,0x64}), B({0xD9,1,0,0x82,1,2}), B({0xC1,0xC2,1}), B({0x82,0xC1,1,0xC2,2}), B({0x82,0x82,1,2,0x82,3,4}), B({0xA1,1,0xA1,2,3}), B({0x83,0xF7,1,0xF6}), B({0x82,0xF5,0xF4}), B({0xF4}), B({0xF6}), B({0xF7}), B({0xFA,0x7F,0x7F,0xFF,0xFF}), B({0xFB,0x47,0xEF,0xFF,0xFF,0xF0,0,0,0}), B({0xF9,0xFC,0}), B({0xF9,0x7E,0}) }) r.push_back(s);
    return r;
}

int main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "--thorough") mc::g().thorough = 1;
    bool T = mc::thorough();
    mc::add("bytes<=2", [] { run("bytes", ""); for (int a = 0; a < 256; ++a) { run("bytes", B({a})); for (int b = 0; b < 256; ++b) run("bytes", B({a, b})); } });
    static const std::vector<int> third = { 0x00, 0x01, 0x07, 0x17, 0x18, 0x20, 0x37, 0x38, 0x40, 0x41, 0x60, 0x61, 0x7F, 0x80, 0x81, 0x82, 0x9F, 0xA0, 0xA1, 0xBF, 0xC1, 0xD8, 0xE0, 0xF4, 0xF5, 0xF6, 0xF7, 0xF8, 0xF9, 0xFB, 0xFE, 0xFF };
    for (int a = 0; a < 256; ++a) mc::add(mc::fmt("bytes3/%02x", a), [=] { std::string s(3, char(a)); for (int b = 0; b < 256; ++b) { s[1] = char(b); if (T || PART == 0) { for (int c = 0; c < 256; ++c) { s[2] = char(c); run("bytes", s); } } else for (int c : third) { s[2] = char(c); run("bytes", s); } } });
    for (int b : third) mc::add(mc::fmt("bytes4/%02x", b), [=] { for (int a : { 0x41, 0x42, 0x43, 0x5F, 0x61, 0x62, 0x7F, 0x81, 0x82, 0x83, 0x9F, 0xA1, 0xA2, 0xBF, 0xC1, 0xD8, 0x18, 0x19, 0x39, 0xF9 }) { std::string s(4, char(a)); s[1] = char(b); for (int c : third) { s[2] = char(c); for (int d : third) { s[3] = char(d); run("bytes4", s); } } } });
    auto& tk = tokens(); int D = T ? 5 : 4;
    for (size_t i = 0; i < tk.size(); ++i) for (size_t j = 0; j < tk.size(); ++j) mc::add(mc::fmt("tokens/%zu.%zu", i, j), [=, &tk] {
        std::string s = tk[i]; Dec d{(const unsigned char*)s.data(), (const unsigned char*)s.data() + s.size()}; Val v; if (d.item(v) != ref::shrt) { if (j == 0) run("tokens", s); run("tokens", s + tk[j]); return; }
        s += tk[j]; dfs(s, D - 2); });
    for (int q = 0; q < 8; ++q) mc::add(mc::fmt("integers/%d", q), [=] { auto bs = bounds(); for (size_t i = size_t(q); i < bs.size(); i += 8) for (unsigned mt : {0u, 1u}) for (auto& h : heads(mt, bs[i])) {
        run("integer", h); run("integer-tagged", B({0xC1}) + h); run("integer-in", B({0x81}) + h); run("integer-in", B({0x82, 0}) + h); run("integer-in", B({0x82}) + h + h); run("integer-in", B({0xA1}) + h + B({1})); run("integer-in", B({0xA1, 1}) + h); run("integer-in", B({0x9F}) + h + B({0xFF})); run("integer-in", B({0x81, 0x82}) + h + h);
        for (size_t k = 1; k < h.size(); ++k) run("integer-cut", h.substr(0, k)); } });
    mc::add("tags", [] { for (uint64_t v : bounds()) for (auto& h : heads(6, v)) for (auto& x : { B({1}), B({0x41, 9}), B({0x82, 1, 2}), B({0xA1, 1, 2}), B({0xF7}), B({0xF6}), B({0xF5}), B({}), B({0x82, 0, 0xC1}), B({0xF9, 0x3C, 0}) }) run("tag", h + x); });
    for (int q = 0; q < 8; ++q) mc::add(mc::fmt("half/%d", q), [=] { for (int v = q; v < 65536; v += 8) { run("half", B({0xF9, v >> 8, v})); if (v % 16 == q) { run("half-in", B({0x82, 0xF9, v >> 8, v, 0xF9, v >> 8, v})); run("half-cut", B({0xF9, v >> 8})); } } });
    mc::add("single", [] { for (uint32_t x = 0; x < 512; ++x) for (uint32_t m : {0u, 1u, 2u, 0x3FFFFFu, 0x400000u, 0x400001u, 0x7FFFFEu, 0x7FFFFFu, 0x555555u, 0x123456u}) { uint32_t v = x << 23 | m; std::string s(1, '\xFA'); for (int i = 3; i >= 0; --i) s += char(v >> (8 * i)); run("single", s); run("single-in", B({0x82}) + s + s); for (size_t k = 1; k < 5; ++k) run("single-cut", s.substr(0, k)); } });
    for (int q = 0; q < 4; ++q) mc::add(mc::fmt("double/%d", q), [=] { for (uint64_t x = uint64_t(q); x < 4096; x += 4) for (uint64_t m : {0ull, 1ull, 0x8000000000000ull, 0x8000000000001ull, 0xFFFFFFFFFFFFFull, 0x5555555555555ull, 0x123456789ABCDull, 0xFFFFFE0000000ull, 0xFFFFFF0000000ull, 0x10000000ull, 0x10000001ull}) { uint64_t v = x << 52 | m; std::string s(1, '\xFB'); for (int i = 7; i >= 0; --i) s += char(v >> (8 * i)); run("double", s); if (m < 2) run("double-in", B({0x82}) + s + s); } for (size_t k = 1; k < 9; ++k) run("double-cut", std::string(k, '\xFB')); });
    for (unsigned mt = 2; mt < 6; ++mt) mc::add(mc::fmt("sizes/%u", mt), [=] {
        for (size_t n = 0; n <= 70; ++n) for (auto& h : heads(mt, n)) { std::string t; for (size_t i = 0; i < n * (mt == 5 ? 2 : 1); ++i) t += mt < 4 ? std::string(1, char('a' + i)) : ref::cbor_head(0, i % 24); run("size", h + t); run("size-cut", h + t.substr(0, t.empty() ? 0 : t.size() - 1)); run("size-in", B({0x81}) + h + t); run("size-in", B({0x82, 1}) + h + t); run("size-in", B({0xA1, 1}) + h + t); run("size-var", B({int(mt << 5 | 31)}) + (mt < 4 ? h + t : t) + B({0xFF})); run("size-var-cut", B({int(mt << 5 | 31)}) + (mt < 4 ? h + t : t)); if (mt == 2) { std::string u = h + t; for (int p = 0; p < 10; ++p) { if (n) u[h.size()] = char(p); if (n > 1) u[h.size() + 1] = char(1 << p % 8); run("size-bits", u); } } }
        for (uint64_t v : bounds()) if (v) for (auto& h : heads(mt, v)) { run("claim", h); run("claim", h + B({1})); run("claim", h + B({1, 1})); run("claim", B({0x81}) + h + B({1, 2})); }
    });
    mc::add("chunks", [] {
        std::vector<std::string> c; for (size_t n : {0, 1, 2, 3, 24}) for (unsigned mt : {2u, 3u}) c.push_back(ref::cbor_head(mt, n) + std::string(n, 'c'));
        c.push_back(wide(2, 0, 1) + "w"); c.push_back(B({0x5F, 0xFF})); c.push_back(B({0x00})); c.push_back(B({0x80})); c.push_back(B({0xF6})); c.push_back(B({0x5C})); c.push_back(B({0xC1, 0x41, 1}));
        std::function<void(std::string, int)> rec = [&](std::string s, int left) { run("chunks", s); run("chunks", s + B({0xFF})); run("chunks", B({0x82, 1}) + s + B({0xFF})); if (left) for (auto& x : c) rec(s + x, left - 1); };
        rec(B({0x5F}), 3); rec(B({0x7F}), 3);
    });
    for (int q = 0; q < 8; ++q) mc::add(mc::fmt("mutations/%d", q), [=] { auto c = corpus(); for (size_t i = size_t(q); i < c.size(); i += 8) { auto& s = c[i]; run("corpus", s); for (size_t k = 0; k < s.size(); ++k) { run("prefix", s.substr(0, k)); run("remove", s.substr(0, k) + s.substr(k + 1)); run("double", s.substr(0, k + 1) + s.substr(k)); for (int x = 0; x < 256; ++x) { std::string t = s; t[k] = char(x); run("replace", t); } } run("tagged", B({0xC1}) + s); run("tagged", B({0xD9, 1, 2}) + s); run("wrapped", B({0x81}) + s); run("wrapped", B({0x82, 0}) + s); run("wrapped", B({0x82, 1}) + s); run("wrapped", B({0x82, 2}) + s); run("wrapped", B({0x9F}) + s + B({0xFF})); run("wrapped", s + s); } });
    return mc::main(argc, argv);
}
