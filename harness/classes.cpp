// Character classes over a fully symbolic element: membership (C03), algebra (C05).
#include "h.h"
#ifndef PART
#define PART 0
#endif
enum class Color : unsigned char { red, green = 7, blue = 200 };
enum Old : int { o1 = -5, o2 = 0, o3 = 1 << 20 };
struct Pt { std::int16_t x; std::uint8_t y, pad = 0; constexpr auto operator<=>(const Pt& o) const { return x != o.x ? x <=> o.x : y <=> o.y; } constexpr bool operator==(const Pt& o) const { return x == o.x && y == o.y; } };
// N elements from a range of 2 * M values around 0 and the ends of the type, in no order, with repetitions
constexpr std::uint32_t next(std::uint32_t& s) { s = s * 1664525u + 1013904223u; return s >> 9; }
template <class V> constexpr V pick(std::uint32_t r, int M) { const int k = int(r / 4) % M; using L_ = std::conditional_t<std::is_enum_v<V> || std::is_same_v<V, Ci>, unsigned char, V>; using U_ = std::make_unsigned_t<L_>; const U_ u = r % 4 == 0 ? U_(k) : r % 4 == 1 ? U_(0 - U_(k) - 1) : r % 4 == 2 ? U_('a' + k) : U_((U_(1) << (8 * sizeof(V) - 1)) + k - M / 2); return V(L_(u)); }
template <class V, int N> constexpr tk::static_array<V, N> some(std::uint32_t seed, int M = 12) { tk::static_array<V, N> s; std::uint32_t x = seed * 7919u + N; for (int i = 0; i < N; ++i) s[i] = pick<V>(next(x), M); return s; }
// what a class must do on the rest of length n, element e first (n > 0)
template <class P, class In> void classIs(P p, const In& in, bool member, int) {
    bool ok = (in.n != 0) & member;
    if constexpr (LAWS) { laws(p, in, Out{ ok, 1 }); return; }
    auto r = p.parse(in.span()); sx_assert((bool)r == ok, "a class matches an element it should not, or misses one");
    sx_assert(restIs(r.remaining(), ok ? 1 : 0), "a class consumes something else than one element");
    if (r) sx_assert(spanIs(*r, 0, 1), "the span of a class match is not that element");
    auto l = p.lookahead(in.span()); sx_assert((bool)l == ok, "lookahead of a class"); sx_assert(restIs(l.remaining(), ok ? 1 : 0), "lookahead of a class: remaining");
    sx_observe(ok);
}
#if PROP != 5 && !PART
// the listed elements, as written
template <auto... E, class V = std::common_type_t<decltype(E)...>> void members() {
    auto in = input<V>(1ull << 36); bool member = false; if (in.n) member = (... | (in.p[0] == E));
    classIs(any_of<E...>, in, member, 0); classIs(none_of<E...>, in, !member, 0);
    if (in.n == 0) sx_cover("*empty"); else if (member) sx_cover("*member"); else sx_cover("*not a member");
}
template <tk::static_array S, class V = typename decltype(S)::value_type> void text() {
    auto in = input<V>(1ull << 36); bool member = false; if (in.n) for (V c : S) member = member | (in.p[0] == c);
    classIs(any<S>, in, member, 0); classIs(none<S>, in, !member, 0);
    if (in.n == 0) sx_cover("*empty"); else if (member) sx_cover("*member"); else sx_cover("*not a member");
}
// every size, with members of every kind: low, high, negative, the extremes
template <class V, int N> void sized() { text<some<V, N>(1)>(); text<some<V, N>(2, 100)>(); }
#define Z1(N) ENTRY(char_##N) { sized<char, N>(); } ENTRY(wchar_##N) { sized<wchar_t, N>(); } ENTRY(int_##N) { sized<int, N>(); } ENTRY(uchar_##N) { sized<unsigned char, N>(); }
Z1(1) Z1(2) Z1(3) Z1(4) Z1(5) Z1(6) Z1(7) Z1(8) Z1(9) Z1(10) Z1(11) Z1(12) Z1(13) Z1(15) Z1(16) Z1(17) Z1(18) Z1(20) Z1(33)
#if TIER
#define Z2(N) ENTRY(char_##N) { sized<char, N>(); } ENTRY(long_##N) { sized<long, N>(); } ENTRY(c16_##N) { sized<char16_t, N>(); } ENTRY(short_##N) { sized<short, N>(); }
Z2(31) Z2(32) Z2(34) Z2(63) Z2(64) Z2(65) Z2(96) Z2(127) Z2(128) Z2(129)
#endif
// sets with a shape a faster test could be built on: runs (anywhere, over the ends of the type too), steps, pairs of cases, single bits, one long or several short runs, (nearly) every value there is
template <class V> constexpr long long top = (long long)(std::numeric_limits<V>::max());
template <class V> void runs() { oneOf([] { text<shape<V, 2, 97>()>(); }, [] { text<shape<V, 3, 97>()>(); }, [] { text<shape<V, 4, 97>()>(); }, [] { text<shape<V, 8, 48>()>(); }, [] { text<shape<V, 10, 48>()>(); }, [] { text<shape<V, 4, 0>()>(); }, [] { text<shape<V, 4, -2>()>(); }, [] { text<shape<V, 5, -128>()>(); }, [] { text<shape<V, 6, 125>()>(); }, [] { text<shape<V, 6, 253>()>(); }, [] { text<shape<V, 4, top<V> - 1>()>(); }, [] { text<shape<V, 3, top<V> - 2>()>(); }, [] { text<shape<V, 3, -5>()>(); }); }
template <class V> void steps() { oneOf([] { text<shape<V, 4, 97, 2>()>(); }, [] { text<shape<V, 3, 64, 32>()>(); }, [] { text<shape<V, 3, 0, 64>()>(); }, [] { text<shape<V, 5, -6, 3>()>(); }, [] { text<shape<V, 2, 65, 32>()>(); }, [] { text<shape<V, 3, -128, 127>()>(); }, [] { text<powers<V, 7>()>(); }, [] { text<powers<V, 8>()>(); }, [] { text<powers<V, 8 * sizeof(V) - 1>()>(); }, [] { text<powers<V, 8 * sizeof(V)>()>(); }); }
template <class V> void several() { oneOf([] { text<shape<V, 6, 97, 1, 3, 120>()>(); }, [] { text<shape<V, 6, 97, 1, 3, 65>()>(); }, [] { text<shape<V, 16, 48, 1, 10, 97>()>(); }, [] { text<shape<V, 4, 0, 1, 2, -2>()>(); }, [] { text<shape<V, 5, 97, 1, 4, 102>()>(); }, [] { text<rotated<V, 10>(shape<V, 10, 48>(), 3)>(); }, [] { text<rotated<V, 7>(shape<V, 7, -3>(), 2)>(); }, [] { text<shape<V, 7, 97, 1, 4, 97>()>(); }, [] { text<shape<V, 8, 97, 1, 4, 99>()>(); }); }
ENTRY(runs_char) { runs<char>(); } ENTRY(runs_uchar) { runs<unsigned char>(); } ENTRY(runs_wchar) { runs<wchar_t>(); } ENTRY(runs_int) { runs<int>(); } ENTRY(runs_long) { runs<long>(); } ENTRY(runs_unsigned) { runs<unsigned>(); } ENTRY(runs_short) { runs<short>(); } ENTRY(runs_u8) { runs<char8_t>(); } ENTRY(runs_u16) { runs<char16_t>(); } ENTRY(runs_u32) { runs<char32_t>(); }
ENTRY(steps_char) { steps<char>(); } ENTRY(steps_uchar) { steps<unsigned char>(); } ENTRY(steps_wchar) { steps<wchar_t>(); } ENTRY(steps_int) { steps<int>(); } ENTRY(steps_long) { steps<long>(); } ENTRY(steps_u16) { steps<char16_t>(); }
ENTRY(several_char) { several<char>(); } ENTRY(several_uchar) { several<unsigned char>(); } ENTRY(several_wchar) { several<wchar_t>(); } ENTRY(several_int) { several<int>(); } ENTRY(several_ci) { several<Ci>(); }
ENTRY(spaces) { text<" \t\n\v\f\r">(); } ENTRY(alnum) { text<"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz">(); } ENTRY(hex) { text<"0123456789abcdefABCDEF">(); } ENTRY(cases) { text<"aA">(); } ENTRY(run_enum) { members<Old(-1), Old(0), Old(1), Old(2)>(); } ENTRY(run_enumc) { members<Color(6), Color(7), Color(8), Color(9)>(); }
ENTRY(half_char) { text<shape<char, 128, 0>()>(); } ENTRY(upper_char) { text<shape<char, 128, 128>()>(); } ENTRY(most_char) { text<shape<char, 255, 1>()>(); } ENTRY(every_char) { text<shape<char, 256, 0>()>(); } ENTRY(every_uchar) { text<shape<unsigned char, 256, 3>()>(); } ENTRY(long_wchar) { text<shape<wchar_t, 200, 100>()>(); }
ENTRY(one) { text<"q">(); } ENTRY(two) { text<"az">(); } ENTRY(reversed) { text<"dcba">(); } ENTRY(dups) { text<"abcabcaab">(); } ENTRY(nul) { text<"\0">(); } ENTRY(nuls) { text<"a\0\0b\0">(); }
ENTRY(high) { text<"\x80\xff\x7f\x01">(); } ENTRY(mixed) { text<"\xff" "a\x80" "a">(); } ENTRY(many) { text<"the quick brown fox jumps over the lazy dog 0123456789 THE END">(); }
ENTRY(w) { text<L"z\x10ffff\x100" L"a">(); } ENTRY(u8) { text<u8"za\x7f">(); } ENTRY(u16) { text<u"\xffff\x8000" u"a">(); } ENTRY(u32) { text<U"\xffffffff" U"a\x80000000" U"b">(); }
ENTRY(list) { members<'c', 'a', 'b', 'a'>(); } ENTRY(ints) { members<3, -1, 2147483647, -2147483647 - 1, 0, 3>(); } ENTRY(uints) { members<3u, 0u, 4294967295u, 2147483648u>(); }
ENTRY(longs) { members<1l, -1l, 1l << 62, (1l << 32) + 1>(); } ENTRY(ulls) { members<0ull, ~0ull, 1ull << 63>(); } ENTRY(shorts) { members<short(-7), short(32767), short(-32768)>(); }
ENTRY(schar) { members<(signed char)(-1), (signed char)127, (signed char)(-128)>(); } ENTRY(uchar) { members<(unsigned char)255, (unsigned char)0, (unsigned char)128>(); }
ENTRY(enumc) { members<Color::blue, Color::red, Color::green, Color::red>(); } ENTRY(enumo) { members<o3, o1, o2>(); } ENTRY(bools) { auto b = input<unsigned char>(1ull << 36); if (b.n) sx_assume(b.p[0] <= 1); Input<bool> in{ reinterpret_cast<const bool*>(b.p), b.n }; bool m = b.n && (b.p[0] == 1); classIs(any_of<true>, in, m, 0); classIs(none_of<true>, in, !m, 0); classIs(any_of<true, false>, in, true, 0); if (m) sx_cover("*member"); }
ENTRY(structs) { members<Pt{ 3, 4 }, Pt{ -1, 255 }, Pt{ 3, 3 }, Pt{ 3, 4 }>(); }
ENTRY(doubles) { members<1.5, -0.0, 1e300, 1.5>(); } ENTRY(floats) { members<0.0f, -2.25f, 3e-45f>(); }
ENTRY(ci) { members<Ci('a'), Ci('Z'), Ci('0'), Ci('A'), Ci('@')>(); } ENTRY(ci_1) { members<Ci('K')>(); } ENTRY(keyed) { members<Keyed{ 7, 1 }, Keyed{ -7, 2 }, Keyed{ 7, 9 }, Keyed{ 0, 0 }>(); } ENTRY(padded) { members<Padded{ 1, 2 }, Padded{ -1, 2 }, Padded{ 1, -2 }>(); } ENTRY(ci_array) { text<tk::static_array<Ci, 5>{ Ci('x'), Ci('Q'), Ci('q'), Ci('!'), Ci('X') }>(); }
ENTRY(ci_17) { text<some<Ci, 17>(3, 40)>(); } ENTRY(ci_9) { text<some<Ci, 9>(4, 40)>(); }
ENTRY(conv) { auto in = input(1ull << 36); bool m = in.n && ((in.p[0] == 'a') | (in.p[0] == 'b')); classIs(any_of<'a', 98>, in, m, 0); classIs(none_of<'b', 97>, in, !m, 0); if (m) sx_cover("*member"); else sx_cover("*not"); }
ENTRY(anything_) { auto in = input(1ull << 36); classIs(tk::anything_parser<char>{}, in, true, 0); classIs(none<"">, in, true, 0); if (in.n) sx_cover("*one"); else sx_cover("*empty"); }
ENTRY(anything_int) { auto in = input<int>(1ull << 36); classIs(tk::anything_parser<int>{}, in, true, 0); if (in.n) sx_cover("*one"); }
ENTRY(nothing) { auto in = input(1ull << 36); classIs(any<"">, in, false, 0); }
ENTRY(udl) { auto in = input(1ull << 36); bool m = in.n && ((in.p[0] == 'x') | (in.p[0] == '\0') | (in.p[0] == 'a'));
    classIs("x\0a"_any, in, m, 0); classIs("ax\0x"_none, in, !m, 0); if (m) sx_cover("*member"); else sx_cover("*not"); }
#endif

#if PROP == 0 || PROP == 5 || (LAWPROP && PART)
// A | B and !A over every pair of classes on a universe of U elements (and everything else)
constexpr int U = TIER ? 4 : 3;
template <class V> constexpr V elem(int i) { constexpr int k[] = { 'b', -3, 'y', 0 }; if constexpr (std::is_enum_v<V>) return V(k[i] & 0xff); else return V(k[i]); }
template <class V, int Set, bool None> constexpr auto cls() { // sorted, as the library keeps them
    constexpr int n = [] { int c = 0; for (int i = 0; i < U; ++i) c += (Set >> i) & 1; return c; }();
    constexpr auto arr = [] { std::array<V, U> a{}; int c = 0; for (int i = 0; i < U; ++i) if ((Set >> i) & 1) a[c++] = elem<V>(i); std::sort(a.begin(), a.begin() + c); tk::static_array<V, n> s; for (int i = 0; i < n; ++i) s[i] = a[i]; return s; }();
    if constexpr (None) return none<arr>; else return any<arr>; }
template <class V, int Code> void row() {
    auto in = input<V>(1ull << 36); bool is[U]; for (int i = 0; i < U; ++i) is[i] = in.n && in.p[0] == elem<V>(i);
    auto mem = [&](int code) { bool m = false; for (int i = 0; i < U; ++i) if ((code >> 1 >> i) & 1) m = m | is[i]; return (code & 1) ? !m : m; };
    constexpr auto a = cls<V, (Code >> 1), (Code & 1)>(); bool ma = mem(Code);
    classIs(!a, in, !ma, 0); classIs(!!a, in, ma, 0);
    [&]<std::size_t... J>(std::index_sequence<J...>) { ([&] { constexpr int D = int(J); constexpr auto b = cls<V, (D >> 1), (D & 1)>(); bool mb = mem(D), ok = (in.n != 0) & (ma | mb);
        if constexpr (LAWS) { laws(a | b, in, Out{ ok, 1 }); laws(!(a | b), in, Out{ in.n != 0 && !(ma | mb), 1 }); return; }
        auto r = (a | b).parse(in.span()); sx_assert((bool)r == ok, "A | B is not the union of A and B"); sx_assert(restIs(r.remaining(), ok ? 1 : 0), "A | B consumes something else than one element"); if (r) sx_assert(spanIs(*r, 0, 1), "span of A | B");
        auto s = (!(a | b)).parse(in.span()); sx_assert((bool)s == ((in.n != 0) & !(ma | mb)), "!(A | B) is not the complement of the union");
        auto t = (!(!a | !b)).parse(in.span()); sx_assert((bool)t == ((in.n != 0) & (ma & mb)), "!(!A | !B) is not the intersection");
    }(), ...); }(std::make_index_sequence<(2 << U)>{});
    if (in.n) sx_cover("*element"); else sx_cover("*empty");
}
#define W8(V, T, b) ENTRY(pairs_##T##_##b##0) { row<V, b + 0>(); } ENTRY(pairs_##T##_##b##1) { row<V, b + 1>(); } ENTRY(pairs_##T##_##b##2) { row<V, b + 2>(); } ENTRY(pairs_##T##_##b##3) { row<V, b + 3>(); } ENTRY(pairs_##T##_##b##4) { row<V, b + 4>(); } ENTRY(pairs_##T##_##b##5) { row<V, b + 5>(); } ENTRY(pairs_##T##_##b##6) { row<V, b + 6>(); } ENTRY(pairs_##T##_##b##7) { row<V, b + 7>(); }
W8(char, char, 0) W8(char, char, 8)
#if TIER
W8(char, char, 16) W8(char, char, 24) W8(wchar_t, wchar, 0) W8(wchar_t, wchar, 8) W8(Color, enumc, 0) W8(Color, enumc, 8)
#else
ENTRY(pairs_wchar_6) { row<wchar_t, 6>(); } ENTRY(pairs_wchar_9) { row<wchar_t, 9>(); } ENTRY(pairs_wchar_10) { row<wchar_t, 10>(); } ENTRY(pairs_wchar_13) { row<wchar_t, 13>(); } ENTRY(pairs_enum_7) { row<Color, 7>(); } ENTRY(pairs_enum_12) { row<Color, 12>(); } ENTRY(pairs_int_11) { row<int, 11>(); } ENTRY(pairs_int_6) { row<int, 6>(); }
#endif
// larger, overlapping in every way
template <class V, int NA, int NB, int Seed> void large() { constexpr auto sa = some<V, NA>(Seed, 6); constexpr auto sb = some<V, NB>(Seed + 100, 6); constexpr auto a = any<sa>; constexpr auto b = any<sb>;
    auto in = input<V>(1ull << 36); bool ma = false, mb = false; if (in.n) { for (V c : sa) ma = ma | (in.p[0] == c); for (V c : sb) mb = mb | (in.p[0] == c); }
    classIs(a | b, in, ma | mb, 0); classIs(!a | b, in, !ma | mb, 0); classIs(a | !b, in, ma | !mb, 0); classIs(!a | !b, in, !ma | !mb, 0); classIs(!(a | b), in, !(ma | mb), 0); classIs(!(!a | b), in, ma & !mb, 0); classIs(!(!a | !b), in, ma & mb, 0); if (in.n) sx_cover("*element"); }
#define LG(V, T) ENTRY(large_##T##_4_4) { large<V, 4, 4, 1>(); } ENTRY(large_##T##_5_9) { large<V, 5, 9, 2>(); } ENTRY(large_##T##_8_3) { large<V, 8, 3, 3>(); } ENTRY(large_##T##_12_12) { large<V, 12, 12, 4>(); } ENTRY(large_##T##_1_7) { large<V, 1, 7, 5>(); } ENTRY(large_##T##_6_6) { large<V, 6, 6, 6>(); }
LG(char, char) LG(wchar_t, wchar) LG(int, int) LG(unsigned char, uchar)
// classes with a shape of their own
template <auto sa, auto sb> void shaped() { using V = typename decltype(sa)::value_type; constexpr auto a = any<sa>; constexpr auto b = any<sb>;
    auto in = input<V>(1ull << 36); bool ma = false, mb = false; if (in.n) { for (V c : sa) ma = ma | (in.p[0] == c); for (V c : sb) mb = mb | (in.p[0] == c); }
    classIs(a | b, in, ma | mb, 0); classIs(!a | b, in, !ma | mb, 0); classIs(a | !b, in, ma | !mb, 0); classIs(!a | !b, in, !ma | !mb, 0); classIs(!(a | b), in, !(ma | mb), 0); classIs(!(!a | b), in, ma & !mb, 0); classIs(!(!a | !b), in, ma & mb, 0); if (in.n) sx_cover("*element"); }
template <class V> void shapedAll() { oneOf([] { shaped<shape<V, 4, 97>(), shape<V, 4, 101>()>(); }, [] { shaped<shape<V, 4, 97>(), shape<V, 4, 99>()>(); }, [] { shaped<shape<V, 3, 126>(), shape<V, 3, -2>()>(); }, [] { shaped<shape<V, 10, 48>(), shape<V, 3, 50>()>(); }, [] { shaped<shape<V, 10, 48>(), shape<V, 10, 48>()>(); }, [] { shaped<shape<V, 4, 97, 2>(), shape<V, 4, 98, 2>()>(); }, [] { shaped<powers<V, 7>(), shape<V, 4, 0>()>(); }, [] { shaped<shape<V, 6, 97, 1, 3, 65>(), shape<V, 6, 65, 1, 3, 97>()>(); }, [] { shaped<shape<V, 3, 97>(), tk::static_array<V, 1>{ V(100) }>(); }, [] { shaped<tk::static_array<V, 1>{ V(96) }, shape<V, 3, 97>()>(); }); }
ENTRY(shaped_char) { shapedAll<char>(); } ENTRY(shaped_int) { shapedAll<int>(); } ENTRY(shaped_uchar) { shapedAll<unsigned char>(); } ENTRY(shaped_wchar) { shapedAll<wchar_t>(); } ENTRY(shaped_half) { shaped<shape<char, 128, 0>(), shape<char, 128, 128>()>(); }
ENTRY(large_ci_9_12) { large<Ci, 9, 12, 11>(); } ENTRY(large_ci_4_5) { large<Ci, 4, 5, 12>(); }
#if TIER
LG(short, short) LG(long, long) LG(char16_t, c16) LG(char32_t, c32) LG(signed char, schar)
#define LH(V, T) ENTRY(larger_##T##_20_31) { large<V, 20, 31, 7>(); } ENTRY(larger_##T##_33_2) { large<V, 33, 2, 8>(); } ENTRY(larger_##T##_7_8) { large<V, 7, 8, 9>(); } ENTRY(larger_##T##_16_17) { large<V, 16, 17, 10>(); }
LH(char, char) LH(wchar_t, wchar) LH(int, int) LH(unsigned char, uchar)
#endif
// larger and nested
#define IN(x) (in.n && (x))
ENTRY(nested1) { auto in = input(1ull << 36); char c = in.n ? in.p[0] : 0; bool lo = (c >= 'a') & (c <= 'z'), dg = (c >= '0') & (c <= '9'), us = c == '_';
    constexpr auto lower = any<"zyxwvutsrqponmlkjihgfedcba">; constexpr auto digit = any<"0123456789">; constexpr auto under = any<"_">;
    classIs(lower | digit, in, lo | dg, 0); classIs(lower | digit | under, in, lo | dg | us, 0); classIs(!(lower | digit) | under, in, !(lo | dg) | us, 0); classIs(!(!lower | digit), in, lo & !dg, 0);
    classIs(lower | !lower, in, true, 0); classIs(!lower | lower, in, true, 0); classIs(!(lower | !lower), in, false, 0); classIs(!(!lower | !digit), in, false, 0); classIs((!lower | under) | !(digit | under), in, !lo | us | !(dg | us), 0);
    if (in.n) sx_cover("*element"); }
ENTRY(nested2) { auto in = input<wchar_t>(1ull << 36); wchar_t c = in.n ? in.p[0] : 0; bool a = (c == L'a') | (c == 0x10ffff) | (c == -1), b = (c == L'b') | (c == 0x10ffff);
    constexpr auto pa = any<L"a\x10ffff\xffffffff">; constexpr auto pb = any<L"\x10ffff" L"b">;
    classIs(pa | pb, in, a | b, 0); classIs(!pa | pb, in, !a | b, 0); classIs(pa | !pb, in, a | !b, 0); classIs(!pa | !pb, in, !a | !b, 0); classIs(!(!pa | !pb), in, a & b, 0); if (in.n) sx_cover("*element"); }
ENTRY(nested3) { auto in = input<int>(1ull << 36); int c = in.n ? in.p[0] : 0; bool a = (c == 1) | (c == -1) | (c == 2147483647), b = (c == -1) | (c == (-2147483647 - 1));
    constexpr auto pa = any_of<1, -1, 2147483647>; constexpr auto pb = none_of<-1, -2147483647 - 1>;
    classIs(pa | pb, in, a | !b, 0); classIs(pb | pa, in, a | !b, 0); classIs(!pa | pb, in, !a | !b, 0); classIs(pa | !pb, in, a | b, 0); classIs(!(pa | pb), in, !(a | !b), 0); if (in.n) sx_cover("*element"); }
#endif
