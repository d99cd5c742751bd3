// Parsers written in one element type applied to input of another comparable one (C27): every value of the element, any length.
#include "h.h"
enum Old : int { o1 = -5, o2 = 0, o3 = 1 << 20 };
struct Word { int kind; int extra; bool operator==(char c) const { return kind == c && extra >= 0; } bool operator==(int k) const { return kind == k; } bool operator==(const Word&) const = default; };
struct Id { std::int16_t x; constexpr auto operator<=>(const Id&) const = default; friend bool operator==(const Id& a, long b) { return a.x == b; } };
template <class A, std::size_t N> constexpr tk::static_array<A, N> arr(const std::array<A, N>& a) { tk::static_array<A, N> s; for (std::size_t i = 0; i < N; ++i) s[i] = a[i]; return s; }
namespace sxh { inline int seen; }
// LIT: elements of the parser; V: element type of the input
template <class V, auto A> void foreign() {
    using T = typename decltype(A)::value_type; constexpr u64 N = A.size();
    auto in = input<V>(1ull << 36); auto eq = [&](u64 i, const T& t) -> bool { if constexpr (requires { in.p[i] == t; }) return in.p[i] == t; else return t == in.p[i]; };
    auto isIn = [&](u64 i) { bool m = false; for (const T& t : A) m = m | eq(i, t); return m; };
    bool first = false; if (in.n) first = isIn(0);
    bool lit = in.n >= N; if (lit) for (u64 i = 0; i < N; ++i) lit = lit & eq(i, A[i]);
    if (sx_fork(lit)) sx_cover("*literal"); else if (in.n && first) sx_cover("*member"); else if (in.n) sx_cover("*not a member"); else sx_cover("empty");
    auto check = [&](auto p, bool ok, u64 len, const char* what) {
        if constexpr (LAWS) { laws(p, in, Out{ ok, len }); return; }
        auto r = p.parse(in.span()); observe(r); sx_assert((bool)r == ok, what); sx_assert(restIs(r.remaining(), ok ? len : 0), "remaining input");
        using Got = typename std::remove_cvref_t<decltype(r)>::value_type;
        if constexpr (std::same_as<Got, tk::output_span<V>>) { if (r) sx_assert(spanIs(*r, 0, len), "a span does not refer to the matched elements of the input"); }
        else sx_assert(std::is_void_v<Got>, "a span does not have the input's element type");
        auto l = p.lookahead(in.span()); sx_assert((bool)l == ok, "lookahead"); sx_assert(restIs(l.remaining(), ok ? len : 0), "lookahead: remaining input"); };
    check(any<A>, in.n && first, 1, "a class matches an element equal to none of its members, or misses one"); check(none<A>, in.n && !first, 1, "a negated class matches a member, or misses another element");
    check(all<A>, lit, N, "a literal matches something else than its elements"); check(ign<A>, lit, N, "an ignored literal matches something else than its elements");
    check(tk::anything_parser<T>{}, in.n != 0, 1, "anything"); check(!any<A>, in.n && !first, 1, "complement");
    check(any<A> | none<A>, in.n != 0, 1, "union");
}
// the combinators over it, on short inputs
template <class V, auto A> void combined() {
    using T = typename decltype(A)::value_type; constexpr u64 N = A.size(); auto in = input<V>(TIER ? 4 : 3);
    auto eq = [&](u64 i, const T& t) -> bool { if constexpr (requires { in.p[i] == t; }) return in.p[i] == t; else return t == in.p[i]; };
    bool mem[8]; u64 n = sx_fork(in.n); for (u64 i = 0; i < n; ++i) { bool m = false; for (const T& t : A) m = m | eq(i, t); mem[i] = sx_fork(m); }
    u64 run = 0; while (run < n && mem[run]) ++run;
    constexpr auto c = any<A>; constexpr auto d = none<A>;
    auto split = [&](const auto& r, bool ok, u64 end) { observe(r); sx_assert((bool)r == ok, "acceptance"); sx_assert(restIs(r.remaining(), ok ? end : 0), "remaining input"); };
    if constexpr (LAWS) { bool two = n > 1 && mem[0] && !mem[1]; vectors = true; laws(*c, in, Out{ true, run }); vectors = false; laws(join(+c), in, Out{ run > 0, run }); laws(join(exactly<2>(c)), in, Out{ run > 1, 2 }); laws(join(c >> d), in, Out{ two, 2 }); laws(c >> d >> ~c, in, Out{ two, u64(2) + (n > 2 && mem[2]) }); if (run > 1) sx_cover("*two"); if (run == 0) sx_cover("*none"); return; }
    { auto r = (*c).parse(in.span()); split(r, true, run); sx_assert((*r).size() == run, "number of matches"); for (u64 i = 0; i < run; ++i) sx_assert(spanIs((*r)[i], i, i + 1), "span of a match"); }
    { auto r = join(+c).parse(in.span()); split(r, run > 0, run); if (r) sx_assert(spanIs(*r, 0, run), "joined span"); }
    { auto r = join(*c).parse(in.span()); split(r, true, run); if (r) sx_assert(spanIs(*r, 0, run), "joined span"); }
    { auto r = join(~c).parse(in.span()); split(r, true, run > 0); if (r) sx_assert(spanIs(*r, 0, run > 0), "joined span"); }
    { auto r = join(exactly<2>(c)).parse(in.span()); split(r, run > 1, 2); if (r) sx_assert(spanIs(*r, 0, 2), "joined span"); }
    { auto r = join(c >> d).parse(in.span()); split(r, n > 1 && mem[0] && !mem[1], 2); if (r) sx_assert(spanIs(*r, 0, 2), "joined span"); }
    { auto r = (c >> d >> ~c).parse(in.span()); bool ok = n > 1 && mem[0] && !mem[1]; bool more = n > 2 && mem[2]; split(r, ok, 2 + more); if (r) { auto [x, y, z] = *r; sx_assert(spanIs(x, 0, 1), "span of part 1"); sx_assert(spanIs(y, 1, 2), "span of part 2"); sx_assert((bool)z == more && (!more || spanIs(*z, 2, 3)), "span of part 3"); } }
    { auto r = complete(+c | ign<A>).parse(in.span()); split(r, run == n && n > 0, n); }
    { auto r = delimit(c, d).parse(in.span()); bool ok = run > 0; u64 e = ok; while (ok && e + 1 < n && !mem[e] && mem[e + 1]) e += 2; split(r, ok, e); }
    { seen = 0; auto r = (c % map<[](auto s) { ++seen; return s.size(); }>).parse(in.span()); split(r, run > 0, 1); sx_assert(seen == (run > 0), "calls"); }
    if (run > 1) sx_cover("*two"); if (run == 0) sx_cover("*none");
}
#define F(id, V, ...) ENTRY(id) { foreign<V, arr(std::array{ __VA_ARGS__ })>(); } ENTRY(c_##id) { combined<V, arr(std::array{ __VA_ARGS__ })>(); }
F(char_wchar, wchar_t, 'z', 'a', '\0', '\x80', '\xff') F(wchar_char, char, L'z', L'a', L'\0', wchar_t(-1), wchar_t(-128), wchar_t(0x161)) F(char_int, int, 'q', '\xff', '\0') F(int_char, char, 3, -1, 128, 255, -128)
F(char_u8, char8_t, 'z', '\0', '\x7f') F(u8_char, char, u8'z', u8'\0', char8_t(0xff)) F(char_u16, char16_t, 'z', '\xff', '\0') F(char_u32, char32_t, 'a', '\xff') F(u32_char, char, U'a', char32_t(-1), char32_t(0xff), char32_t(0xffffff80))
F(u16_wchar, wchar_t, u'a', char16_t(0xffff), char16_t(0x8000)) F(wchar_u16, char16_t, L'a', wchar_t(0x1ffff), wchar_t(0xffff)) F(char_uchar, unsigned char, 'a', '\xff', '\x80') F(uchar_schar, signed char, (unsigned char)200, (unsigned char)1, (unsigned char)255)
F(schar_char, char, (signed char)-3, (signed char)100) F(int_unsigned, unsigned, -1, 5, -2147483647 - 1) F(unsigned_int, int, 4294967295u, 7u, 2147483648u) F(int_ll, long long, -1, 5, 2147483647) F(ll_int, int, 1ll << 32, -1ll, 4294967295ll) F(ull_int, int, ~0ull, 3ull, 4294967295ull)
F(short_ushort, unsigned short, short(-1), short(9)) F(char_word, Word, 'a', '\0', '\xfe') F(int_word, Word, 77, -77) F(old_int, int, o1, o3, o2) F(int_old, Old, -5, 1, 1 << 20)
F(long_id, Id, -1l, 32767l, 40000l) F(id_long, long, Id{ -3 }, Id{ 100 })
F(int_double, double, 3, -1, 0) F(int_float, float, 16777217, 0, -5) F(char_ci, Ci, 'a', 'Q') F(ci_ci, Ci, Ci('x'), Ci('3'))
// classes with a shape of their own: runs, steps, single bits, over the ends of either type
template <class T, class V> void shaped() { oneOf([] { foreign<V, shape<T, 4, 97>()>(); }, [] { foreign<V, shape<T, 10, 48>()>(); }, [] { foreign<V, shape<T, 4, -2>()>(); }, [] { foreign<V, shape<T, 4, 126>()>(); }, [] { foreign<V, shape<T, 4, 254>()>(); }, [] { foreign<V, shape<T, 3, 97, 2>()>(); }, [] { foreign<V, shape<T, 6, 97, 1, 3, 65>()>(); }, [] { foreign<V, powers<T, 8>()>(); }, [] { foreign<V, rotated<T, 7>(shape<T, 7, -3>(), 2)>(); }); }
#define SH(id, T, V) ENTRY(shaped_##id) { shaped<T, V>(); }
SH(char_int, char, int) SH(int_char, int, char) SH(char_wchar, char, wchar_t) SH(wchar_char, wchar_t, char) SH(char_u8, char, char8_t) SH(u8_char, char8_t, char) SH(u32_char, char32_t, char) SH(char_u32, char, char32_t) SH(char_uchar, char, unsigned char) SH(uchar_schar, unsigned char, signed char) SH(int_unsigned, int, unsigned) SH(unsigned_int, unsigned, int) SH(int_ll, int, long long) SH(ll_int, long long, int) SH(short_ushort, short, unsigned short) SH(u16_wchar, char16_t, wchar_t) SH(wchar_u16, wchar_t, char16_t) SH(int_double, int, double) SH(char_word, char, Word) SH(ci_ci, Ci, Ci)
