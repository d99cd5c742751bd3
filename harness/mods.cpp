// Modifiers: prefix and infix forms agree, and chains group any way (C18).
#include "agree.h"
using A = Tok<100>; using B = Tok<101>; using Sp = tk::output_span<char>; using Y = Tok<50>; using Z = Tok<51>;
constexpr u64 BIG = 1ull << 36;
constexpr S<0, A> a; constexpr S<1, B> b; constexpr S<2, B> d; constexpr S<3, Sp> e;
template <int k> constexpr auto fn = [](auto&&... v) { used(k); u64 h = k; auto mix = [&](const auto& x) { if constexpr (requires { x.pos; }) h = h * 7 + x.pos * 3 + x.len; else if constexpr (std::integral<std::remove_cvref_t<decltype(x)>>) h = h * 7 + x; else if constexpr (requires { x.size(); }) h = h * 7 + x.size(); else h = h * 7 + 1; }; (mix(v), ...); return Y(k, h, sizeof...(v)); };
template <int k> constexpr auto pred = [](const auto&... v) { used(k); u64 h = k; auto mix = [&](const auto& x) { if constexpr (requires { x.pos; }) h += x.pos + x.len; else h += 1; }; (mix(v), ...); return (h & 1) != 0; };
struct Wrap { u64 n = 0; Wrap() = default; template <class... T> requires (!(... && std::same_as<std::remove_cvref_t<T>, Wrap>)) explicit Wrap(T&&... v) { auto mix = [&](const auto& x) { if constexpr (requires { x.len; }) n = n * 3 + x.len + x.pos; else n = n * 3 + 1; }; (mix(v), ...); used(3); } bool operator==(const Wrap&) const = default; };
// modifiers that fit any parser
template <int k> constexpr auto mod() {
    if constexpr (k == 0) return map<fn<0>>; else if constexpr (k == 1) return map<fn<1>>; else if constexpr (k == 2) return exactly<2>; else if constexpr (k == 3) return filter<pred<2>>; else if constexpr (k == 4) return complete; else if constexpr (k == 5) return ignore;
    else if constexpr (k == 6) return name<"n">; else if constexpr (k == 7) return sub(name<"n"> = map<fn<2>>); else if constexpr (k == 8) return constant<6>; else if constexpr (k == 9) return into<Wrap>; else if constexpr (k == 10) return defaulted<u64>; else if constexpr (k == 11) return delimit(d); else if constexpr (k == 12) return delimit_keep(d);
    else if constexpr (k == 13) return sub(name<"n"> = ignore, name<"m"> = complete); else if constexpr (k == 14) return name<"m">; else return exactly<1>; }
constexpr int N = 16;
template <class P, class M> void one(P p, M m, const Input<char>& in) { agreeOn(m(p), p % m, in); }
template <int I, class P> void prefixInfix(P p) { auto in = input(BIG); one(p, mod<I>(), in); }
template <class P, class M1, class M2> void two(P p, M1 m1, M2 m2, const Input<char>& in) { auto r = m2(m1(p)); agreeOn(p % m1 % m2, r, in); agreeOn(p % (m1 % m2), r, in); agreeOn((m1 % m2)(p), r, in); }
template <class P, class M1, class M2, class M3> void three(P p, M1 m1, M2 m2, M3 m3, const Input<char>& in) { auto r = m3(m2(m1(p))); agreeOn(p % m1 % m2 % m3, r, in); agreeOn(p % (m1 % m2 % m3), r, in); agreeOn(p % (m1 % (m2 % m3)), r, in); agreeOn(p % m1 % (m2 % m3), r, in); agreeOn((m1 % (m2 % m3))(p), r, in); agreeOn(p % (m1 % m2) % m3, r, in); }
template <class P, class M1, class M2, class M3, class M4> void four(P p, M1 m1, M2 m2, M3 m3, M4 m4, const Input<char>& in) { auto r = m4(m3(m2(m1(p)))); agreeOn(p % m1 % m2 % m3 % m4, r, in); agreeOn(p % (m1 % m2 % m3 % m4), r, in); agreeOn(p % ((m1 % m2) % (m3 % m4)), r, in); agreeOn(p % (m1 % ((m2 % m3) % m4)), r, in); agreeOn(p % (m1 % (m2 % (m3 % m4))), r, in); agreeOn(p % (m1 % m2) % (m3 % m4), r, in); agreeOn(p % ((m1 % (m2 % m3)) % m4), r, in); agreeOn(p % m1 % (m2 % m3 % m4), r, in); }
template <class F, int... I> void each(F f, std::integer_sequence<int, I...>) { (f(std::integral_constant<int, I>()), ...); }
template <class F> void every(F f) { each(f, std::make_integer_sequence<int, N>()); }
inline void bounds() { minLen = 1; maxLen = 1; stopAt = 5; }
// every modifier alone, every pair; on a part, a sequence with a named part
constexpr auto grp = name<"n">(a) >> name<"m">(b);
ENTRY(alone) { bounds(); auto in = input(BIG); every([&](auto i) { one(a, mod<i>(), in); one(stub<4, void>, mod<i>(), in); }); }
ENTRY(alone_group) { bounds(); auto in = input(BIG); every([&](auto i) { one(grp, mod<i>(), in); }); }
template <int i> void pairs() { bounds(); auto in = input(BIG); every([&](auto j) { two(a, mod<i>(), mod<j>(), in); }); }
template <int i> void pairsGroup() { bounds(); auto in = input(BIG); every([&](auto j) { if constexpr (i != j || i > 2) two(grp, mod<i>(), mod<j>(), in); }); }
#define E16(n, f) ENTRY(n##0) { f<0>(); } ENTRY(n##1) { f<1>(); } ENTRY(n##2) { f<2>(); } ENTRY(n##3) { f<3>(); } ENTRY(n##4) { f<4>(); } ENTRY(n##5) { f<5>(); } ENTRY(n##6) { f<6>(); } ENTRY(n##7) { f<7>(); } ENTRY(n##8) { f<8>(); } ENTRY(n##9) { f<9>(); } ENTRY(n##10) { f<10>(); } ENTRY(n##11) { f<11>(); } ENTRY(n##12) { f<12>(); } ENTRY(n##13) { f<13>(); } ENTRY(n##14) { f<14>(); } ENTRY(n##15) { f<15>(); }
#if PART == 0
E16(pair, pairs)
#elif PART == 1
E16(pairg, pairsGroup)
#else
// every triple of an order-sensitive selection; four at once
constexpr int T3 = TIER ? 9 : 5; 
template <int i> void triples() { if constexpr (i < T3) { bounds(); auto in = input(BIG); constexpr int pick[] = { 0, 2, 3, 6, 7, 4, 5, 12, 9 }; each([&](auto j) { each([&](auto k) { three(grp, mod<pick[i]>(), mod<pick[j]>(), mod<pick[k]>(), in); }, std::make_integer_sequence<int, T3>()); }, std::make_integer_sequence<int, T3>()); } else sx_cover("*accept"); }
E16(triple, triples)
template <class P, class M1, class M2, class M3, class M4, class M5, class M6> void six(P p, M1 m1, M2 m2, M3 m3, M4 m4, M5 m5, M6 m6, const Input<char>& in) { auto q = m5(m4(m3(m2(m1(p))))); agreeOn(p % m1 % m2 % m3 % m4 % m5, q, in); agreeOn(p % (m1 % m2 % m3 % m4 % m5), q, in); agreeOn(p % (m1 % (m2 % (m3 % (m4 % m5)))), q, in); agreeOn(p % ((m1 % m2) % (m3 % m4 % m5)), q, in); agreeOn((m1 % m2 % m3 % (m4 % m5))(p), q, in);
    auto r = m6(q); agreeOn(p % m1 % m2 % m3 % m4 % m5 % m6, r, in); agreeOn(p % (m1 % m2 % m3 % m4 % m5 % m6), r, in); agreeOn(p % ((m1 % m2 % m3) % (m4 % m5 % m6)), r, in); agreeOn(p % (m1 % (m2 % (m3 % (m4 % (m5 % m6))))), r, in); agreeOn(((m1 % m2) % (m3 % m4) % (m5 % m6))(p), r, in); }
ENTRY(sixes) { bounds(); auto in = input(BIG); six(a, map<fn<0>>, exactly<2>, filter<pred<2>>, map<fn<1>>, name<"n">, map<fn<3>>, in); six(grp, sub(name<"n"> = ignore), map<fn<0>>, name<"n">, sub(name<"n"> = exactly<2>), filter<pred<3>>, into<Wrap>, in); six(a, name<"n">, complete, sub(name<"n"> = map<fn<2>>), map<fn<0>>, name<"m">, sub(name<"m"> = ignore), in); }
ENTRY(quads) { bounds(); auto in = input(BIG); four(a, map<fn<0>>, exactly<2>, filter<pred<2>>, map<fn<1>>, in); four(grp, sub(name<"n"> = ignore), map<fn<0>>, name<"n">, sub(name<"n"> = exactly<2>), in); four(a, name<"n">, sub(name<"n"> = map<fn<2>>), complete, ignore, in); four(a, exactly<2>, apply<fn<0>>, delimit(d), filter<pred<1>>, in); four(a, delimit_keep(d), apply<fn<1>>, exactly<1>, complete % ignore, in); }
// the forms that need a tuple or spans
ENTRY(tuples) { bounds(); auto in = input(BIG); one(grp, apply<fn<0>>, in); one(grp, apply_into<Wrap>, in); one(grp, apply_filter<pred<1>>, in); two(grp, apply_filter<pred<1>>, apply<fn<0>>, in); two(a, exactly<2>, apply<fn<0>>, in); two(a, exactly<2>, apply_into<Wrap>, in); three(a, exactly<2>, apply_filter<pred<1>>, apply<fn<0>>, in); three(grp, apply_filter<pred<1>>, apply_filter<pred<2>>, apply_into<Wrap>, in); two(a, delimit_keep(d), apply<fn<0>>, in); }
ENTRY(joins) { minLen = 0; maxLen = 2; stopAt = 4; auto in = input(BIG); auto p = e >> a % ignore >> e; one(p, join, in); two(p, join, name<"n">, in); two(p, complete, join, in); two(p, join, join, in); three(p, join, exactly<2>, join, in); three(p, name<"n">, join, map<fn<0>>, in); two(p, join, ignore, in); }
ENTRY(classes) { auto in = input(4); auto p = any<"ab">; auto l = all<"ab">; two(p, exactly<2>, join, in); two(l, exactly<2>, join, in); two(p, name<"n">, sub(name<"n"> = ignore), in); three(*p, join, complete, name<"x">, in); two(l, delimit(p), join, in); two(l, delimit_keep(p), apply<fn<0>>, in); }
// substitutions written at once or one after another, inside chains
ENTRY(subs) { bounds(); auto in = input(BIG); two(grp, sub(name<"n"> = map<fn<0>>), sub(name<"m"> = ignore), in); agreeOn(grp % sub(name<"n"> = map<fn<0>>, name<"m"> = ignore), grp % (sub(name<"n"> = map<fn<0>>) % sub(name<"m"> = ignore)), in); agreeOn(sub(grp, name<"n"> = map<fn<0>>, name<"m"> = ignore), grp % sub(name<"n"> = map<fn<0>>, name<"m"> = ignore), in); agreeOn(delimit(a, d), a % delimit(d), in); agreeOn(delimit_keep(a, d), a % delimit_keep(d), in); agreeOn(delimit(grp, d) % sub(name<"n"> = map<fn<0>>), grp % (delimit(d) % sub(name<"n"> = map<fn<0>>)), in); agreeOn(grp % sub(name<"n"> = map<fn<0>> % filter<pred<1>>), (a % map<fn<0>> % filter<pred<1>>) >> b, in); agreeOn(grp % sub(name<"n"> = filter<pred<1>> % map<fn<0>>), (a % filter<pred<1>> % map<fn<0>>) >> b, in); }
#endif
