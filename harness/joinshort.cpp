// join of a repetition of a class or literal: the hand-written shortcut against the generic join and a reference (C12; C01, C02, C21 reuse it).
#include "h.h"
constexpr int K = TIER ? 9 : 6;
// matches of `unit` elements from position 0 on, at most max
template <class P, class V, int N = K, int N0 = 0, class F> void shortcut(P p, F unitAt, u64 unit, u64 lo, u64 hi) {
    // lo..hi matches; hi = ~0: unbounded
    auto in = input<V>(N); sx_assume(in.n >= N0); u64 n = sx_fork(in.n), hits = 0; while (hits < hi && (hits + 1) * unit <= n && sx_fork(unitAt(in.p, hits * unit))) ++hits;
    bool ok = hits >= lo; u64 end = ok ? hits * unit : 0;
    if (ok) sx_cover(hits ? "*match" : "nothing"); else sx_cover("reject"); if constexpr (N0 > 0) if (hits * unit >= N0) sx_cover("*long match"); if (in.n > end) sx_cover("rest left");
    if constexpr (LAWS) { laws(join(p), in, Out{ ok, end }); laws(p, in, Out{ ok, end }); }
    else {
        auto r = join(p).parse(in.span()); observe(r); SPLIT(r, (Out{ ok, end }));
        if (r) sx_assert(spanIs(*r, 0, end), "the span of the join shortcut is not what was matched");
        auto g = join(name<"n">(p)).parse(in.span()); // the general join: the repetition is hidden behind a name
        sx_assert((bool)g == (bool)r, "shortcut and general join accept different inputs"); sx_assert((g.remaining().data() == r.remaining().data()) & (g.remaining().size() == r.remaining().size()), "shortcut and general join leave different inputs");
        if (r && g) sx_assert(((*g).data() == (*r).data()) & ((*g).size() == (*r).size()), "shortcut and general join return different spans");
        auto c = p.parse(in.span()); sx_assert((bool)c == ok, "the repetition itself accepts something else");
        auto l = join(p).lookahead(in.span()); sx_observe((bool)l); sx_assert((bool)l == ok, "lookahead of a join shortcut answers otherwise than parse"); sx_assert(restIs(l.remaining(), end), "lookahead of a join shortcut leaves something else than parse"); }
}
template <class V, class P, class F> void all4(P p, F f, u64 unit, int k) {
    if (k == 0) shortcut<decltype(~p), V>(~p, f, unit, 0, 1); else if (k == 1) shortcut<decltype(*p), V>(*p, f, unit, 0, ~0ull); else if (k == 2) shortcut<decltype(+p), V>(+p, f, unit, 1, ~0ull);
    else if (k == 3) shortcut<decltype(exactly<1>(p)), V>(exactly<1>(p), f, unit, 1, 1); else if (k == 4) shortcut<decltype(exactly<2>(p)), V>(exactly<2>(p), f, unit, 2, 2); else if (k == 5) shortcut<decltype(exactly<3>(p)), V>(exactly<3>(p), f, unit, 3, 3); }
#define B(id, V, P, unit, ...) ENTRY(maybe_##id) { all4<V>(P, [](const V* p, u64 i) -> bool { __VA_ARGS__ }, unit, 0); } ENTRY(star_##id) { all4<V>(P, [](const V* p, u64 i) -> bool { __VA_ARGS__ }, unit, 1); } ENTRY(plus_##id) { all4<V>(P, [](const V* p, u64 i) -> bool { __VA_ARGS__ }, unit, 2); } \
  ENTRY(exactly1_##id) { all4<V>(P, [](const V* p, u64 i) -> bool { __VA_ARGS__ }, unit, 3); } ENTRY(exactly2_##id) { all4<V>(P, [](const V* p, u64 i) -> bool { __VA_ARGS__ }, unit, 4); }
#define B3(id, V, P, unit, ...) B(id, V, P, unit, __VA_ARGS__) ENTRY(exactly3_##id) { all4<V>(P, [](const V* p, u64 i) -> bool { __VA_ARGS__ }, unit, 5); }
B3(any, char, any<"cab">, 1, return (p[i] == 'a') | (p[i] == 'b') | (p[i] == 'c');)
B3(none, char, none<"\0a\xff">, 1, return (p[i] != 'a') & (p[i] != 0) & (p[i] != '\xff');)
B3(all1, char, all<"x">, 1, return p[i] == 'x';)
B3(all2, char, all<"ab">, 2, return (p[i] == 'a') & (p[i + 1] == 'b');)
B(all3, char, all<"a\0b">, 3, return (p[i] == 'a') & (p[i + 1] == 0) & (p[i + 2] == 'b');)
B3(all2same, char, all<"aa">, 2, return (p[i] == 'a') & (p[i + 1] == 'a');)
B3(wany, wchar_t, any<L"z\x100">, 1, return (p[i] == L'z') | (p[i] == 0x100);)
B(wall, wchar_t, all<L"\x100z">, 2, return (p[i] == 0x100) & (p[i + 1] == L'z');)
B3(ints, int, (none_of<-1, 5>), 1, return (p[i] != -1) & (p[i] != 5);)
B(intall, int, (all_of<7, -7>), 2, return (p[i] == 7) & (p[i + 1] == -7);)
B3(anything, char, none<"">, 1, return true;)
// an empty literal matches anywhere
ENTRY(maybe_empty) { all4<char>(all<"">, [](const char*, u64) { return true; }, 0, 0); } ENTRY(exactly1_empty) { all4<char>(all<"">, [](const char*, u64) { return true; }, 0, 3); } ENTRY(exactly3_empty) { all4<char>(all<"">, [](const char*, u64) { return true; }, 0, 5); }
// the class that never matches
template <int k> void never() { all4<char>(any<"">, [](const char*, u64) { return false; }, 1, k); }
ENTRY(never_maybe) { never<0>(); } ENTRY(never_star) { never<1>(); } 
// no more than the first N matches are looked at, whatever follows
ENTRY(exactly_long) { auto in = input(1ull << 36); bool ok = in.n >= 4; if (ok) for (int i = 0; i < 4; ++i) ok = ok & (in.p[i] == 'a'); auto p = join(exactly<4>(any<"a">)); Out o{ ok, 4 }; if constexpr (LAWS) laws(p, in, o); else { auto r = p.parse(in.span()); SPLIT(r, o); if (r) sx_assert(spanIs(*r, 0, 4), "span"); } if (ok) sx_cover("*match"); else sx_cover("*no match"); }
// longer inputs than any block a loop over them would be cut into
constexpr int L0 = TIER ? 30 : 15, L1 = TIER ? 37 : 20;
#define L(id, V, P, unit, ...) ENTRY(long_star_##id) { auto p = *P; shortcut<decltype(p), V, L1, L0>(p, [](const V* p, u64 i) -> bool { __VA_ARGS__ }, unit, 0, ~0ull); } ENTRY(long_plus_##id) { auto p = +P; shortcut<decltype(p), V, L1, L0>(p, [](const V* p, u64 i) -> bool { __VA_ARGS__ }, unit, 1, ~0ull); } \
  ENTRY(long_exactly_##id) { auto p = exactly<L0 / unit + 1>(P); shortcut<decltype(p), V, L1, L0>(p, [](const V* p, u64 i) -> bool { __VA_ARGS__ }, unit, L0 / unit + 1, L0 / unit + 1); }
L(any, char, any<"cab">, 1, return (p[i] == 'a') | (p[i] == 'b') | (p[i] == 'c');)
L(none, char, none<"\0a\xff">, 1, return (p[i] != 'a') & (p[i] != 0) & (p[i] != '\xff');)
L(all1, char, all<"x">, 1, return p[i] == 'x';)
L(all2, char, all<"ab">, 2, return (p[i] == 'a') & (p[i + 1] == 'b');)
L(all3, char, all<"a\0b">, 3, return (p[i] == 'a') & (p[i + 1] == 0) & (p[i + 2] == 'b');)
L(wany, wchar_t, any<L"z\x100">, 1, return (p[i] == L'z') | (p[i] == 0x100);)
L(ints, int, (none_of<-1, 5>), 1, return (p[i] != -1) & (p[i] != 5);)
