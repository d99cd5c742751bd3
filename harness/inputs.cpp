// Every form in which the same elements can be passed parses alike (C19).
#include "h.h"
#include <memory>
constexpr int K = TIER ? 5 : 3;
template <class V> constexpr bool chars = std::same_as<V, char> || std::same_as<V, signed char> || std::same_as<V, unsigned char> || std::same_as<V, wchar_t> || std::same_as<V, char8_t> || std::same_as<V, char16_t> || std::same_as<V, char32_t>;
template <class V> constexpr V a_ = V('a'); template <class V> constexpr V b_ = V('b');
// a contiguous range of the user's own, and one that is only a pair of pointers
template <class V> struct Text { const V* d; u64 n; const V* begin() const { return d; } const V* end() const { return d + n; } };
template <class V> struct Shelf { V own[K + 1]; u64 n; V* begin() { return own; } V* end() { return own + n; } const V* begin() const { return own; } const V* end() const { return own + n; } u64 size() const { return n; } V* data() { return own; } const V* data() const { return own; } };
// what a parser does on the elements [p, p + n): the plain span is the reference
struct Ref { bool ok; u64 used; };
template <class P, class X> void via(P p, X&& x, u64 n, Ref w) {
    { auto r = p.parse(std::forward<X>(x)); sx_observe((bool)r); sx_observe(r.remaining().size()); sx_assert((bool)r == w.ok, "acceptance depends on the form of the input"); sx_assert(r.remaining().size() == n - w.used, "the remaining length depends on the form of the input"); }
    { auto l = p.lookahead(std::forward<X>(x)); sx_assert((bool)l == w.ok, "lookahead depends on the form of the input"); sx_assert(l.remaining().size() == n - w.used, "lookahead's remaining length depends on the form of the input"); } }
// also where it starts, for forms that outlive the call
template <class P, class X, class V> void at_(P p, X&& x, const V* d, u64 n, Ref w) { auto r = p.parse(std::forward<X>(x)); sx_assert((r.remaining().data() == d + w.used) & (r.remaining().size() == n - w.used), "the remaining input is not the rest of the elements passed"); via(p, std::forward<X>(x), n, w); }
template <class P, class V> Ref ref_(P p, const V* d, u64 n) { auto r = p.parse(std::span<const V>(d, n)); sx_assert(r.remaining().size() <= n, "more remains than there was"); sx_assert((r.remaining().data() == d + (n - r.remaining().size())), "the remaining input is not a suffix"); if (r) sx_cover("*accept"); return { (bool)r, n - r.remaining().size() }; }
template <class V, class F> void parsers(F f) {
    auto A = any_of<a_<V>, b_<V>>; auto lit = all_of<a_<V>, b_<V>>; auto other = none_of<a_<V>>;
    f(A); f(lit); f(complete(*(A | other))); f(delimit(A, other)); f(exactly<2>(A | other) % join); if constexpr (!std::same_as<V, char> && TIER == 0) return; else { f(other); f(*A); f(complete(*A)); f(join(+other)); f(A >> other); f(lit | *other); f(ignore(~lit >> A)); f(map<[](auto s) { return s.size(); }>(*other % join)); f(complete(eps.template of<V>)); } }
// containers and views, of n elements
template <class V, int part> void forms() {
    constexpr bool chr = chars<V>; u64 n = sx_fork(sx_range("n", 0, K)); auto d = static_cast<const V*>(sx_buf("in", n, K, sizeof(V)));
    parsers<V>([&](auto p) { Ref w = ref_(p, d, n);
        if constexpr (part == 0) { std::vector<V> v(d, d + n); const auto& cv = v; at_(p, v, v.data(), n, w); at_(p, cv, v.data(), n, w); via(p, std::vector<V>(d, d + n), n, w); via(p, std::move(v), n, w); via(p, std::move(cv), n, w); }
        if constexpr (part == 1) { std::span<const V> s(d, n); const auto cs = s; at_(p, s, d, n, w); at_(p, cs, d, n, w); at_(p, std::span<const V>(d, n), d, n, w); at_(p, std::move(s), d, n, w); std::vector<V> v(d, d + n); std::span<V> m(v); at_(p, m, v.data(), n, w); at_(p, std::span<V>(v), v.data(), n, w);
            tk::input_span<V> is{ std::span<const V>(d, n) }; at_(p, is, d, n, w); at_(p, std::as_const(is), d, n, w); at_(p, std::move(is), d, n, w); auto all = (*(any_of<a_<V>> | none_of<a_<V>>) % join).parse(std::span<const V>(d, n)); at_(p, *all, d, n, w); auto rem = any_of<a_<V>>.parse(std::span<const V>(d, n)); if (!rem) at_(p, rem.remaining(), d, n, w); else at_(p, rem.remaining(), d + 1, n - 1, ref_(p, d + 1, n - 1)); }
        if constexpr (part == 6) { std::ranges::subrange<const V*> sr(d, d + n); at_(p, sr, d, n, w); at_(p, std::ranges::subrange<const V*>(d, d + n), d, n, w); Text<V> t{ d, n }; const Text<V> ct = t; at_(p, t, d, n, w); at_(p, ct, d, n, w); at_(p, Text<V>{ d, n }, d, n, w); Shelf<V> sh{ {}, n }; for (u64 i = 0; i < n; ++i) sh.own[i] = d[i]; const auto& csh = sh; at_(p, sh, sh.own, n, w); at_(p, csh, sh.own, n, w); via(p, Shelf<V>(sh), n, w); std::vector<V> v(d, d + n); auto tk_ = v | std::views::take(n); at_(p, tk_, v.data(), n, w); auto co = std::views::counted(d, std::ptrdiff_t(n)); at_(p, co, d, n, w); }
        if constexpr (chr && part == 2) { std::basic_string<V> s(d, d + n); const auto& cs = s; at_(p, s, s.data(), n, w); at_(p, cs, s.data(), n, w); via(p, std::basic_string<V>(d, d + n), n, w); via(p, std::move(s), n, w); via(p, std::move(cs), n, w); }
        if constexpr (chr && part == 3) { std::basic_string_view<V> s(d, n); const auto cs = s; at_(p, s, d, n, w); at_(p, cs, d, n, w); at_(p, std::basic_string_view<V>(d, n), d, n, w); at_(p, std::move(s), d, n, w); } }); }
// arrays: N elements, or N - 1 and a terminator for a literal
template <class V, std::size_t N> void arrays() {
    auto d = static_cast<const V*>(sx_buf("in", N, N, sizeof(V))); V own[N]; std::array<V, N> sa; for (std::size_t i = 0; i < N; ++i) own[i] = sa[i] = d[i];
    parsers<V>([&](auto p) {
        Ref w = ref_(p, d, N); at_(p, own, own, N, w); const auto& csa = sa; at_(p, sa, sa.data(), N, w); at_(p, csa, sa.data(), N, w); via(p, std::move(sa), N, w); via(p, std::array<V, N>(sa), N, w);
        std::span<const V, N> fs(d, N); at_(p, fs, d, N, w); at_(p, std::span<V, N>(own), own, N, w);
        using Lit = const V[N]; const Lit& l = *reinterpret_cast<const Lit*>(d);
        if constexpr (chars<V>) { Ref t = ref_(p, d, N - 1); at_(p, l, d, N - 1, t); } else at_(p, l, d, N, w); }); }
// a pointer: up to the first NUL
template <class V> void pointers() {
    auto d = static_cast<const V*>(sx_buf("in", K, K, sizeof(V))); V z[K + 1]; for (int i = 0; i < K; ++i) z[i] = d[i]; z[K] = V(0); u64 n = 0; while (n < K && sx_fork(z[n] != V(0))) ++n; if (n < K - 1) sx_cover("*early NUL"); if (n == K) sx_cover("*no NUL");
    parsers<V>([&](auto p) { Ref w = ref_(p, static_cast<const V*>(z), n); const V* q = z; const V* const cq = z; at_(p, q, z, n, w); at_(p, cq, z, n, w); at_(p, std::move(q), z, n, w); at_(p, static_cast<const V*>(z), z, n, w); }); }
#define FORMS(id, V) ENTRY(vector_##id) { forms<V, 0>(); } ENTRY(span_##id) { forms<V, 1>(); } ENTRY(range_##id) { forms<V, 6>(); } ENTRY(array1_##id) { arrays<V, 1>(); } ENTRY(array2_##id) { arrays<V, 2>(); } ENTRY(array3_##id) { arrays<V, 3>(); }
#define CHARS(id, V) FORMS(id, V) TEXT(id, V)
#define TEXT(id, V) ENTRY(string_##id) { forms<V, 2>(); } ENTRY(view_##id) { forms<V, 3>(); } ENTRY(pointer_##id) { pointers<V>(); }
enum class E : unsigned char {}; struct Pt { int x; constexpr Pt(int v) : x(v) {} bool operator==(const Pt&) const = default; auto operator<=>(const Pt&) const = default; };
#if PART == 0
FORMS(char, char)
#elif PART == 1
TEXT(char, char)
#elif PART == 2
CHARS(wchar, wchar_t)
CHARS(char8, char8_t)
#elif PART == 3
CHARS(char16, char16_t)
CHARS(char32, char32_t)
#elif PART == 4
FORMS(int, int)
FORMS(enum_, E)
FORMS(uchar, unsigned char) ENTRY(pointer_uchar) { pointers<unsigned char>(); }
FORMS(schar, signed char) ENTRY(pointer_schar) { pointers<signed char>(); }
#else
// nothing is read past the end of any form, and a long pointer's text is read once, up to its NUL
ENTRY(empty) { auto f = [](auto p, bool ok) { via(p, "", 0, Ref{ ok, 0 }); const char* q = ""; via(p, q, 0, Ref{ ok, 0 }); via(p, std::string(), 0, Ref{ ok, 0 }); via(p, std::string_view(), 0, Ref{ ok, 0 }); via(p, std::vector<char>(), 0, Ref{ ok, 0 }); via(p, std::span<const char>(), 0, Ref{ ok, 0 }); };
    f(any<"ab">, false); f(none<"ab">, false); f(all<"ab">, false); f(all<"">, true); f(*any<"ab">, true); f(complete(*any<"ab">), true); f(join(*any<"ab">), true); f(eps.of<char>, true); }
ENTRY(literals) { via(complete(all<"ab">), "ab", 2, Ref{ true, 2 }); via(complete(all<"a\0b">), "a\0b", 3, Ref{ true, 3 }); via(all<"a\0">, "a\0b", 3, Ref{ true, 2 }); via(complete(all<"ab\0">), "ab\0", 3, Ref{ true, 3 }); via(complete(all<"ab">), "ab\0", 3, Ref{ false, 0 }); via(complete(all<L"a\0b">), L"a\0b", 3, Ref{ true, 3 }); via(complete(all<u"ab">), u"ab", 2, Ref{ true, 2 }); via(complete(all<U"ab">), U"ab", 2, Ref{ true, 2 }); via(complete(all<u8"ab">), u8"ab", 2, Ref{ true, 2 });
    constexpr char arr[] = "ab"; via(complete(all<"ab">), arr, 2, Ref{ true, 2 }); char own[] = { 'a', 'b', 0 }; via(complete(all<"ab\0">), own, 3, Ref{ true, 3 }); }
#endif
