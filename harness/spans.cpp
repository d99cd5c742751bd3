// Comparing the spans that parsing returns with everything they can be compared with (C22).
#include "h.h"
#include <functional>
constexpr int K = TIER ? 5 : 3;
template <class V> constexpr bool chars = std::same_as<V, char> || std::same_as<V, signed char> || std::same_as<V, unsigned char> || std::same_as<V, wchar_t> || std::same_as<V, char8_t> || std::same_as<V, char16_t> || std::same_as<V, char32_t>;
#define BOTH(a, b, want, what) do { bool w_ = (want); bool e_ = ((a) == (b)), f_ = ((b) == (a)), g_ = ((a) != (b)), h_ = ((b) != (a)); sx_observe(e_); sx_assert(e_ == w_, "comparing a span with " what); sx_assert(f_ == w_, "comparing " what " with a span"); sx_assert(g_ == !w_, "a span != " what); sx_assert(h_ == !w_, what " != a span"); } while (0)
// the result of a parse that takes everything, and what remains after one that takes nothing
template <class V> auto whole(const V* d, u64 n) { return *(*(any_of<V('a')> | none_of<V('a')>) % join).parse(std::span<const V>(d, n)); }
template <class V> auto rest(const V* d, u64 n) { return any_of<V('a')>.parse(std::span<const V>(d, n)).remaining(); } // all or all but the first
template <class T, class U> bool equalTo(const T* p, u64 n, const U* q, u64 m) { if (n != m) return false; bool ok = true; for (u64 i = 0; i < n; ++i) ok = ok & bool(p[i] == q[i]); return ok; }
template <class V> struct Data { const V* p; u64 n; };
template <class V> Data<V> data(const char* name) { u64 n = sx_fork(sx_range(name, 0, K)); return { static_cast<const V*>(sx_buf(name, n, K, sizeof(V))), n }; }
template <class V, int part> void compare() {
    auto x = data<V>("x"), y = data<V>("y"); auto s = whole(x.p, x.n); bool eq = equalTo(x.p, x.n, y.p, y.n); if (eq && x.n) sx_cover("*equal"); if (!eq && x.n == y.n) sx_cover("*different");
    if constexpr (part == 0) { auto t = whole(y.p, y.n); BOTH(s, t, eq, "a span"); const auto& ct = t; BOTH(s, ct, eq, "a span"); sx_assert(std::equal_to<>()(s, t) == eq, "equal_to of spans"); auto u = whole(y.p, 1 <= y.n ? y.n - 1 : 0); BOTH(u, t, y.n == 0, "a prefix of itself"); BOTH(t, t, true, "itself"); }
    if constexpr (part == 1) { auto r = rest(y.p, y.n); u64 k = y.n - r.size(); bool er = equalTo(x.p, x.n, y.p + k, r.size()); BOTH(s, r, er, "remaining()"); auto q = rest(x.p, x.n); u64 j = x.n - q.size(); BOTH(q, r, equalTo(x.p + j, q.size(), y.p + k, r.size()), "remaining()"); }
    if constexpr (part == 2) { std::vector<V> v(y.p, y.p + y.n); const auto& cv = v; BOTH(s, v, eq, "a vector"); BOTH(s, cv, eq, "a vector"); BOTH(s, std::vector<V>(y.p, y.p + y.n), eq, "a vector"); auto r = rest(x.p, x.n); BOTH(r, v, equalTo(r.data(), r.size(), y.p, y.n), "a vector"); }
    if constexpr (part == 3) { std::span<const V> c(y.p, y.n); BOTH(s, c, eq, "a std::span"); std::vector<V> v(y.p, y.p + y.n); std::span<V> m(v); BOTH(s, m, eq, "a std::span"); auto r = rest(x.p, x.n); BOTH(r, c, equalTo(r.data(), r.size(), y.p, y.n), "a std::span"); }
    if constexpr (part == 4 && chars<V>) { std::basic_string<V> v(y.p, y.p + y.n); const auto& cv = v; BOTH(s, v, eq, "a string"); BOTH(s, cv, eq, "a string"); BOTH(s, std::basic_string<V>(y.p, y.p + y.n), eq, "a string"); auto r = rest(x.p, x.n); BOTH(r, v, equalTo(r.data(), r.size(), y.p, y.n), "a string"); }
    if constexpr (part == 5 && chars<V>) { std::basic_string_view<V> v(y.p, y.n); const auto& cv = v; BOTH(s, v, eq, "a string_view"); BOTH(s, cv, eq, "a string_view"); BOTH(s, std::basic_string_view<V>(y.p, y.n), eq, "a string_view"); auto r = rest(x.p, x.n); BOTH(r, v, equalTo(r.data(), r.size(), y.p, y.n), "a string_view"); std::basic_string_view<V> conv = s; sx_assert((conv.data() == x.p) & (conv.size() == x.n), "a span converted to string_view"); }
}
// arrays of N elements, all of them; a literal of N - 1
template <class V, std::size_t N> void arrays() {
    auto x = data<V>("x"); auto y = static_cast<const V*>(sx_buf("y", N, N, sizeof(V))); V own[N]; std::array<V, N> sa; for (std::size_t i = 0; i < N; ++i) own[i] = sa[i] = y[i]; auto s = whole(x.p, x.n); auto r = rest(x.p, x.n);
    bool eq = equalTo(x.p, x.n, y, N), er = equalTo(r.data(), r.size(), y, N); const auto& csa = sa; if (eq) sx_cover("*equal"); else sx_cover("*different");
    BOTH(s, sa, eq, "an array"); BOTH(s, csa, eq, "an array"); BOTH(r, sa, er, "an array"); BOTH(s, own, eq, "an array"); BOTH(r, own, er, "an array"); std::span<V, N> fs(own); BOTH(s, fs, eq, "a std::span of fixed size");
    using Lit = const V[N]; const Lit& l = *reinterpret_cast<const Lit*>(y); u64 m = chars<V> ? N - 1 : N; BOTH(s, l, equalTo(x.p, x.n, y, m), "a literal"); BOTH(r, l, equalTo(r.data(), r.size(), y, m), "a literal"); }
template <class V> void pointers() {
    auto x = data<V>("x"); auto y = static_cast<const V*>(sx_buf("y", K, K, sizeof(V))); V z[K + 1]; for (int i = 0; i < K; ++i) z[i] = y[i]; z[K] = V(0); u64 n = 0; while (n < K && sx_fork(z[n] != V(0))) ++n; auto s = whole(x.p, x.n); auto r = rest(x.p, x.n);
    const V* c = z; V* m = z; bool eq = equalTo(x.p, x.n, c, n); if (eq && n) sx_cover("*equal"); else sx_cover("*different"); const V* const cc = z;
    BOTH(s, c, eq, "a pointer"); BOTH(s, cc, eq, "a pointer"); BOTH(s, m, eq, "a pointer"); BOTH(r, c, equalTo(r.data(), r.size(), c, n), "a pointer"); }
// spans over other element types
template <class T, class U> void mixed() { auto x = data<T>("x"); auto y = data<U>("y"); auto s = whole(x.p, x.n); auto t = whole(y.p, y.n); bool eq = equalTo(x.p, x.n, y.p, y.n); if (eq && x.n) sx_cover("*equal"); if (!eq && x.n == y.n) sx_cover("*different"); BOTH(s, t, eq, "a span of another element type"); BOTH(s, rest(y.p, y.n), equalTo(x.p, x.n, rest(y.p, y.n).data(), rest(y.p, y.n).size()), "remaining() of another element type"); }
// longer ones
template <class V, int part> void longer() {
    auto data = [](const char* name) { u64 n = 15 + sx_fork(sx_range(name, 0, 3)); return Data<V>{ static_cast<const V*>(sx_buf(name, n, 18, sizeof(V))), n }; };
    auto x = data("x"), y = data("y"); auto s = whole(x.p, x.n); bool eq = equalTo(x.p, x.n, y.p, y.n); if (eq) sx_cover("*equal"); else sx_cover("*different");
    if constexpr (part == 0) { auto t = whole(y.p, y.n); BOTH(s, t, eq, "a span"); auto r = rest(y.p, y.n); BOTH(s, r, equalTo(x.p, x.n, r.data(), r.size()), "remaining()"); }
    if constexpr (part == 1) { std::vector<V> v(y.p, y.p + y.n); BOTH(s, v, eq, "a vector"); std::span<const V> c(y.p, y.n); BOTH(s, c, eq, "a std::span"); }
    if constexpr (part == 2) { std::basic_string_view<V> v(y.p, y.n); BOTH(s, v, eq, "a string_view"); std::basic_string<V> st(y.p, y.p + y.n); BOTH(s, st, eq, "a string"); }
    if constexpr (part == 3) { V z[19]; for (u64 i = 0; i < y.n; ++i) { sx_assume(y.p[i] != V(0)); z[i] = y.p[i]; } z[y.n] = V(0); const V* c = z; BOTH(s, c, eq, "a pointer"); } }
#define SEQ(id, V) ENTRY(span_##id) { compare<V, 0>(); } ENTRY(rest_##id) { compare<V, 1>(); } ENTRY(vector_##id) { compare<V, 2>(); } ENTRY(stdspan_##id) { compare<V, 3>(); } ENTRY(array1_##id) { arrays<V, 1>(); } ENTRY(array2_##id) { arrays<V, 2>(); } ENTRY(array3_##id) { arrays<V, 3>(); }
#define TEXT(id, V) SEQ(id, V) ENTRY(string_##id) { compare<V, 4>(); } ENTRY(view_##id) { compare<V, 5>(); } ENTRY(pointer_##id) { pointers<V>(); }
enum class E : unsigned char {};
// an element whose equality looks at a part of it, one with padding, one whose equality is not reflexive in the bits
struct Own { std::uint16_t k; std::uint16_t note; constexpr Own() = default; constexpr explicit Own(char c) : k(c), note(0) {} constexpr bool operator==(const Own& o) const { return k == o.k; } constexpr auto operator<=>(const Own& o) const { return k <=> o.k; } bool operator==(char c) const { return k == u64(c); } };
struct Pad { char a; int b; constexpr Pad() = default; constexpr explicit Pad(char c) : a(c), b(0) {} constexpr auto operator<=>(const Pad&) const = default; };
struct Mod { std::uint8_t v; constexpr Mod() = default; constexpr explicit Mod(char c) : v(c) {} constexpr bool operator==(const Mod& o) const { return v % 16 == o.v % 16; } constexpr auto operator<=>(const Mod& o) const { return v % 16 <=> o.v % 16; } };
#if PART == 0
TEXT(char, char)
TEXT(wchar, wchar_t)
SEQ(int, int)
ENTRY(long_char) { longer<char, 0>(); } ENTRY(long_range_char) { longer<char, 1>(); } ENTRY(long_text_char) { longer<char, 2>(); } ENTRY(long_pointer_char) { longer<char, 3>(); } ENTRY(long_int) { longer<int, 0>(); }
SEQ(enum_, E)
#else
TEXT(char8, char8_t)
TEXT(char16, char16_t)
SEQ(uchar, unsigned char)
SEQ(own, Own)
ENTRY(long_own) { longer<Own, 0>(); } ENTRY(long_range_own) { longer<Own, 1>(); } ENTRY(long_char16) { longer<char16_t, 2>(); } ENTRY(long_pointer_char16) { longer<char16_t, 3>(); }
SEQ(pad, Pad)
SEQ(mod, Mod)
ENTRY(mixed_own_char) { mixed<Own, char>(); }
ENTRY(mixed_char_int) { mixed<char, int>(); } ENTRY(mixed_char_wchar) { mixed<char, wchar_t>(); } ENTRY(mixed_short_int) { mixed<short, int>(); } ENTRY(mixed_schar_uchar) { mixed<signed char, unsigned char>(); } ENTRY(mixed_int_unsigned) { mixed<int, unsigned>(); } ENTRY(mixed_char_u64) { mixed<char, u64>(); } ENTRY(mixed_char_long) { mixed<long, char>(); } ENTRY(mixed_char32) { mixed<char32_t, char>(); }
ENTRY(literals) { auto s = whole("ab\0c", 4); BOTH(s, "ab\0c", true, "a literal"); BOTH(s, "ab", false, "a literal"); BOTH(s, "ab\0", false, "a literal"); BOTH(s, "ab\0c\0", false, "a literal"); BOTH(s, "", false, "a literal"); auto e = whole("", 0); BOTH(e, "", true, "a literal"); BOTH(e, "\0", false, "a literal"); const char* p = "ab\0c"; BOTH(s, p, false, "a pointer"); BOTH(whole("ab", 2), p, true, "a pointer"); auto w = whole(L"ab", 2); BOTH(w, L"ab", true, "a literal"); BOTH(w, L"abc", false, "a literal"); BOTH(whole(U"\U0001F600x", 2), U"\U0001F600x", true, "a literal"); }
#endif
