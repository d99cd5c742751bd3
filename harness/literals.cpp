// Literal parsers (C04) over fully symbolic input of any length.
#include "h.h"
template <class V, std::size_t N> constexpr tk::static_array<V, N> textOf(int seed) { // deterministic, with NULs, repeats, extreme elements
    tk::static_array<V, N> a; unsigned x = 12345u + seed * 7919u; for (std::size_t i = 0; i < N; ++i) { x = x * 1664525u + 1013904223u; unsigned y = x >> 8;
        if constexpr (std::is_same_v<V, bool>) a[i] = y & 1; else a[i] = (y % 7 == 0) ? V(0) : (y % 11 == 0) ? V(-1) : sizeof(V) > 1 && (y % 5 == 0) ? V(y * 2654435761u) : V(i > 2 && y % 3 == 0 ? 'a' : y); } return a; }
template <class V, class Arr, class P, class Q> void literal(const Arr& lit, u64 len, P p, Q q) { // p: the literal, q: its ignored form
    auto in = input<V>(1ull << 36); bool ok = in.n >= len; 
    if (ok) for (u64 i = 0; i < len; ++i) ok = ok & (in.p[i] == lit[i]);
    if (sx_fork(ok)) sx_cover("*match"); else if (in.n < len) sx_cover("short"); else sx_cover("differs");
    u64 end = ok ? len : 0;
    if constexpr (LAWS) { laws(p, in, Out{ ok, end }); laws(q, in, Out{ ok, end }); return; }
    auto r = p.parse(in.span()); observe(r); sx_assert((bool)r == ok, "a literal matches something else than its text"); sx_assert(restIs(r.remaining(), end), "a literal consumes something else than its text");
    if (r) sx_assert(spanIs(*r, 0, len), "the span of a literal match is not the matched text");
    auto l = p.lookahead(in.span()); sx_assert((bool)l == ok, "lookahead of a literal"); sx_assert(restIs(l.remaining(), end), "lookahead of a literal: remaining");
    auto g = q.parse(in.span()); sx_assert((bool)g == ok, "an ignored literal matches something else than its text"); sx_assert(restIs(g.remaining(), end), "an ignored literal consumes something else than its text");
    sx_assert((std::same_as<typename std::remove_cvref_t<decltype(g)>::value_type, void>), "an ignored literal has a result");
    auto h = q.lookahead(in.span()); sx_assert((bool)h == ok, "lookahead of an ignored literal"); sx_assert(restIs(h.remaining(), end), "lookahead of an ignored literal: remaining");
}
template <class V, std::size_t N, int Seed = 0> void len() { constexpr auto a = textOf<V, N>(Seed + int(N)); literal<V>(a, N, all<a>, ign<a>); }
template <tk::static_array A> void text() { using V = typename decltype(A)::value_type; literal<V>(A, A.size(), all<A>, ign<A>); }
#define N1(n) ENTRY(len_##n) { len<char, n>(); }
N1(0) N1(1) N1(2) N1(3) N1(4) N1(5) N1(6) N1(7) N1(8) N1(9) N1(12) N1(15) N1(16) N1(17) N1(24) N1(31) N1(32) N1(33) N1(48) N1(63) N1(64)
#if TIER
N1(10) N1(11) N1(13) N1(14) N1(18) N1(19) N1(20) N1(21) N1(22) N1(23) N1(25) N1(26) N1(27) N1(28) N1(29) N1(30) N1(47) N1(65) N1(96) N1(127) N1(128) N1(129) N1(200) N1(255) N1(256) N1(257)
#endif
#define NT(T, id) ENTRY(id##_0) { len<T, 0>(); } ENTRY(id##_1) { len<T, 1>(); } ENTRY(id##_2) { len<T, 2>(); } ENTRY(id##_4) { len<T, 4>(); } ENTRY(id##_9) { len<T, 9>(); } ENTRY(id##_33) { len<T, 33>(); }
NT(wchar_t, wchar) NT(char8_t, u8) NT(char16_t, u16) NT(char32_t, u32) NT(int, i32) NT(unsigned char, uchar) NT(signed char, schar) NT(long long, i64) NT(unsigned short, u16i)
ENTRY(nul1) { text<"\0">(); } ENTRY(nul2) { text<"a\0b">(); } ENTRY(nul3) { text<"\0\0\0">(); } ENTRY(same) { text<"aaaaaaaa">(); } ENTRY(high) { text<"\xff\x80\x7f">(); } ENTRY(prefix) { text<"ababac">(); } ENTRY(wide) { text<L"a\x10ffff\0z">(); }
ENTRY(list) { constexpr std::array<char, 5> a{ 'x', 'a', 'b', 'a', '\0' }; literal<char>(a, 5, all_of<'x', 'a', 98, 97l, '\0'>, ignore(all_of<'x', 'a', 98, 97l, '\0'>)); }
ENTRY(ints) { constexpr std::array<int, 4> a{ 3, -1, 2147483647, 3 }; literal<int>(a, 4, all_of<3, -1, 2147483647, 3>, ignore(all_of<3, -1, 2147483647, 3>)); }
ENTRY(udl) { literal<char>("ab\0a", 4, "ab\0a"_all, "ab\0a"_ign); }
ENTRY(udlw) { literal<wchar_t>(L"zz\0", 3, L"zz\0"_all, L"zz\0"_ign); }
ENTRY(doubles) { text<tk::static_array<double, 3>{ 0.5, -0.0, 1e-320 }>(); } ENTRY(floats) { text<tk::static_array<float, 2>{ 0.f, -1.f }>(); }
ENTRY(ci) { text<tk::static_array<Ci, 4>{ Ci('a'), Ci('B'), Ci('@'), Ci('z') }>(); } ENTRY(ci1) { text<tk::static_array<Ci, 1>{ Ci('q') }>(); } ENTRY(keyed) { text<tk::static_array<Keyed, 3>{ Keyed{ 1, 2 }, Keyed{ -1, 0 }, Keyed{ 1, 3 } }>(); } ENTRY(padded) { text<tk::static_array<Padded, 3>{ Padded{ 1, 2 }, Padded{ 1, -2 }, Padded{ 0, 0 } }>(); }
ENTRY(fused) { literal<char>("ab\0acb\0d", 8, "ab\0a"_all >> "cb\0d"_all, "ab\0a"_ign >> "cb\0d"_ign); }
