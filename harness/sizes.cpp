// No hidden size limits (C25). PART 0: sub-parsers that consume any number of elements, up to 2^36, at symbolic places.
// PART 1: repetitions, delimited lists and joins with numbers of matches around 2^8 and 2^16. PART 2: long literals, classes and arrays.
#include "h.h"
using Sp = tk::output_span<char>;
#ifndef PART
#define PART 0
#endif
#if PART == 0
constexpr u64 BIG = 1ull << 36;
namespace sxh {
struct Far { u64 pos = 0, len = 0; bool ok = false; };
inline Far far[IDS][8]; inline int fars[IDS]; inline u64 least = 0; inline int most = 3; // matches consume at least, there are at most
inline const Far& farAt(int id, u64 pos) {
    for (int k = 0; k < fars[id]; ++k) if (sx_fork(far[id][k].pos == pos)) return far[id][k];
    MUST(fars[id] < 8, "harness: places"); Far& f = far[id][fars[id]++]; f.pos = pos; int hits = 0; for (int k = 0; k + 1 < fars[id]; ++k) hits += far[id][k].ok;
    if (hits < most) { u64 len = sx_range("len", least, BIG); f.ok = sx_fork(sx_sym("ok", 1) & (len <= total - pos)); f.len = len; } return f; }
inline Out farRef(int id, u64 pos) { const Far& f = farAt(id, pos); return { f.ok, f.ok ? pos + f.len : pos }; }
template <int ID, class Res, class V = char> struct Big : tk::custom_parser<Big<ID, Res, V>, V> {
    template <class V2> using result_for = Res;
    static const Far& where(const auto& in) { u64 off = reinterpret_cast<std::uintptr_t>(in.data()) - reinterpret_cast<std::uintptr_t>(base); u64 pos = off / sizeof(V); MUST((off == pos * sizeof(V)) & (pos <= total) & (in.size() == total - pos), "a sub-parser is run on something other than the rest of the input"); return farAt(ID, pos); }
    template <class R> static tk::result<Res, V> parse(R&& r) { tk::input_span<V> in{ std::forward<R>(r) }; const Far& f = where(in); if (!f.ok) return { tk::failure_tag, in }; tk::input_span<V> rest{ std::span<const V>(in.data() + f.len, in.size() - f.len) };
        if constexpr (std::is_void_v<Res>) return { tk::success_tag, rest }; else if constexpr (is_tok<Res>::value) return { tk::success_tag, Res(ID, f.pos, f.len), rest }; else return { tk::success_tag, Res(std::span<const V>(in.data(), f.len)), rest }; }
    template <class R> static tk::result<void, V> lookahead(R&& r) { tk::input_span<V> in{ std::forward<R>(r) }; const Far& f = where(in); if (!f.ok) return { tk::failure_tag, in }; return { tk::success_tag, { std::span<const V>(in.data() + f.len, in.size() - f.len) } }; } };
}
template <class P, class V> void agree(P p, const Input<V>& in, Out o) {
    auto r = p.parse(in.span()); sx_assert((bool)r == o.ok, "acceptance is wrong"); sx_assert(restIs(r.remaining(), o.ok ? o.end : 0), "the remaining input is wrong");
    auto l = p.lookahead(in.span()); sx_assert((bool)l == o.ok, "lookahead is wrong"); sx_assert(restIs(l.remaining(), o.ok ? o.end : 0), "lookahead's remaining input is wrong");
    if (r) sx_cover("*accept"); else sx_cover("reject"); sx_observe((bool)r); sx_observe(r.remaining().size()); if (r && o.end >> 32) sx_cover("far"); }
template <class P, class V> void joined(P p, const Input<V>& in, Out o, u64 from, u64 to) { // a join of neighbours is one span from their start to their end
    auto r = p.parse(in.span()); sx_assert((bool)r == o.ok, "acceptance of a join is wrong"); sx_assert(restIs(r.remaining(), o.ok ? o.end : 0), "the remaining input of a join is wrong"); if (r) { sx_assert((*r).size() == to - from, "the length of a joined span is wrong"); sx_assert(from == to || spanIs(*r, from, to), "a joined span is elsewhere"); } sx_observe((bool)r); }
template <class V> void combinators() {
    using W = tk::output_span<V>; using A = Tok<100>; auto in = input<V>(BIG); constexpr Big<0, W, V> w; constexpr Big<1, W, V> w1; constexpr Big<0, A, V> a; constexpr Big<1, A, V> b; constexpr Big<1, void, V> v;
    Out x = farRef(0, 0), y = x.ok ? farRef(1, x.end) : x, z = farRef(1, 0);
    agree(a >> b, in, y); agree(w >> v, in, y); agree(a >> ignore(b), in, y); agree(a | b, in, x.ok ? x : z); agree(a | v, in, x.ok ? x : z); agree(~a, in, Out{ true, x.end }); agree(~a >> b, in, x.ok ? y : z); agree(complete(a), in, Out{ x.ok && x.end == in.n, x.end }); agree(complete(a >> b), in, Out{ y.ok && y.end == in.n, y.end }); agree(name<"n">(a) >> b, in, y); agree((a >> b) % map<[](const auto&) { return 1; }>, in, y); agree(w % filter<[](const auto&) { return true; }>, in, x); agree((a >> b) | a, in, y.ok ? y : x);
    joined(join(w >> w1), in, y, 0, y.end); joined(join(~w), in, Out{ true, x.end }, 0, x.end); joined(join(w), in, x, 0, x.end); joined(join(~(w >> w1)), in, Out{ true, y.ok ? y.end : 0 }, 0, y.ok ? y.end : 0); }
ENTRY(far_char) { combinators<char>(); } ENTRY(far_char32) { combinators<char32_t>(); } ENTRY(far_int) { combinators<unsigned short>(); } ENTRY(far_word) { combinators<u64>(); }
template <class F> void repeated(F f) { least = 1; auto in = input(BIG); int n = 0; u64 e = 0; for (;;) { Out o = farRef(0, e); if (!o.ok) break; ++n; e = o.end; } if (n > 1) sx_cover("*several"); f(in, n, e); }
ENTRY(far_star) { repeated([](const auto& in, int n, u64 e) { constexpr Big<0, Tok<100>> a; constexpr Big<0, void> v; agree(*a, in, Out{ true, e }); agree(+a, in, Out{ n > 0, e }); agree(*v, in, Out{ true, e }); agree(+v, in, Out{ n > 0, e }); }); }
ENTRY(far_join) { repeated([](const auto& in, int n, u64 e) { constexpr Big<0, Sp> w; joined(join(*w), in, Out{ true, e }, 0, e); joined(join(+w), in, Out{ n > 0, e }, 0, e); }); }
ENTRY(far_exactly) { most = 4; least = 0; auto in = input(BIG); Out x = farRef(0, 0), y = x.ok ? farRef(0, x.end) : x; constexpr Big<0, Tok<100>> a; constexpr Big<0, Sp> w; agree(exactly<2>(a), in, y); agree(exactly<1>(a), in, x); joined(join(exactly<2>(w)), in, y, 0, y.end); }
ENTRY(far_delimit) { least = 1; most = 2; auto in = input(BIG); Out o = farRef(0, 0); while (o.ok) { Out d = farRef(1, o.end); if (!d.ok) break; Out n = farRef(0, d.end); if (!n.ok) break; o.end = n.end; } constexpr Big<0, Tok<100>> a; constexpr Big<1, Tok<101>> b; constexpr Big<0, void> v; constexpr Big<1, void> u; agree(delimit(a, b), in, o); agree(delimit_keep(a, b), in, o); agree(delimit_keep(v, b), in, o); agree(delimit(v, u), in, o); }
// classes and literals far into the input
template <class V, class F> void after(F f) { auto in = input<V>(BIG); Out x = farRef(0, 0); f(in, x, Big<0, void, V>{}, [&](u64 k, auto c) { return k < in.n && in.p[k] == V(c); }); }
ENTRY(far_any) { after<char>([](const auto& in, Out x, auto v, auto is) { bool m = x.ok && (is(x.end, 'a') || is(x.end, 'b')), o = x.ok && x.end < in.n && !m; agree(v >> any<"ab">, in, Out{ m, x.end + 1 }); agree(v >> none<"ab">, in, Out{ o, x.end + 1 }); agree(v >> ~any<"ab">, in, Out{ x.ok, x.end + m }); }); }
ENTRY(far_all) { after<char>([](const auto& in, Out x, auto v, auto is) { bool m = x.ok && is(x.end, 'a') && is(x.end + 1, 'b') && is(x.end + 2, 'c'); agree(v >> all<"abc">, in, Out{ m, x.end + 3 }); agree(v >> ign<"abc">, in, Out{ m, x.end + 3 }); agree(v >> (all<"abc"> | eps), in, Out{ x.ok, x.end + 3 * m }); }); }
ENTRY(far_wide) { after<char32_t>([](const auto& in, Out x, auto v, auto is) { bool m = x.ok && is(x.end, 'a') && is(x.end + 1, 'b'), d = x.ok && (is(x.end, 'x') || is(x.end, 'y')); agree(v >> all<U"ab">, in, Out{ m, x.end + 2 }); agree(v >> any<U"xy">, in, Out{ d, x.end + 1 }); }); }
ENTRY(far_join_class) { auto in = input(BIG); Out x = farRef(0, 0); constexpr Big<0, Sp> w; bool m = x.ok && x.end < in.n && in.p[x.end] == 'a', m2 = m && x.end + 1 < in.n && in.p[x.end + 1] == 'b'; joined(join(w >> any<"a">), in, Out{ m, x.end + 1 }, 0, x.end + 1); joined(join(w >> all<"ab">), in, Out{ m2, x.end + 2 }, 0, x.end + 2); joined(join(w >> ~any<"a">), in, Out{ x.ok, x.end + m }, 0, x.end + m); }
// a gap of any size between the pieces, left by a part without a result
template <class V> void gap() { using W = tk::output_span<V>; auto in = input<V>(BIG); constexpr Big<0, W, V> w; constexpr Big<1, void, V> v; constexpr Big<2, W, V> u; Out x = farRef(0, 0), g = x.ok ? farRef(1, x.end) : x, y = g.ok ? farRef(2, g.end) : g;
    bool e0 = y.ok && sx_fork(x.end == 0), e1 = y.ok && sx_fork(y.end == g.end), touch = y.ok && (e0 | e1 || sx_fork(g.end == x.end)); u64 from = e0 ? (e1 ? 0 : g.end) : 0, to = e1 ? (e0 ? 0 : x.end) : y.end; Out o{ touch, y.end };
    joined(join(w >> v >> u), in, o, from, to); joined(join(w >> ~v >> u), in, [&] { if (g.ok || !x.ok) return o; Out z = farRef(2, x.end); return Out{ z.ok, z.end }; }(), g.ok || !x.ok ? from : 0, g.ok || !x.ok ? to : farRef(2, x.end).end);
    if (y.ok && !touch) sx_cover("*gap"); if (touch && !e0 && !e1) sx_cover("*together"); }
ENTRY(far_gap) { gap<char>(); } ENTRY(far_gap_wide) { gap<char32_t>(); } ENTRY(far_gap_word) { gap<u64>(); }
// the plain parsers at the start of an input of any size
ENTRY(plain) { auto in = input(BIG); bool a = in.n > 0 && in.p[0] == 'a', ab = a && in.n > 1 && in.p[1] == 'b'; agree(any<"a">, in, Out{ a, 1 }); agree(none<"a">, in, Out{ in.n > 0 && !a, 1 }); agree(all<"ab">, in, Out{ ab, 2 }); agree(exactly<2>(any<"ab">), in, Out{ in.n > 1 && (in.p[0] == 'a' || in.p[0] == 'b') && (in.p[1] == 'a' || in.p[1] == 'b'), 2 }); agree(join(exactly<2>(any<"a">)), in, Out{ a && in.n > 1 && in.p[1] == 'a', 2 }); agree(complete(all<"ab">), in, Out{ ab && in.n == 2, 2 }); agree(eps.of<char>, in, Out{ true, 0 }); agree(ign<"ab"> | eps, in, Out{ true, ab ? 2u : 0u }); }
#elif PART == 1
// ---- many matches. The number is symbolic: any from LO-3 to LO+4 around each size
#ifndef AROUND
#define AROUND 256
#endif
constexpr u64 LO = AROUND - 4, HI = AROUND + 4;
namespace sxh { inline u64 limit; inline bool hit(u64 pos) { return pos < LO ? true : pos > HI ? false : sx_fork(pos < limit); }
// one element while before the limit; delimiters at odd positions
template <int ID, class Res> struct Cnt : tk::custom_parser<Cnt<ID, Res>> {
    template <class V2> using result_for = Res;
    static u64 where(const auto& in) { u64 pos = reinterpret_cast<std::uintptr_t>(in.data()) - reinterpret_cast<std::uintptr_t>(base); sx_assert(in.size() == total - pos, "a sub-parser is run on something other than the rest of the input"); return pos; }
    template <class R> static tk::result<Res, char> parse(R&& r) { tk::input_span<char> in{ std::forward<R>(r) }; u64 pos = where(in); if (!hit(pos) || (ID == 1 && !(pos & 1)) || (ID == 2 && (pos & 1))) return { tk::failure_tag, in }; tk::input_span<char> rest{ std::span<const char>(in.data() + 1, in.size() - 1) };
        if constexpr (std::is_void_v<Res>) return { tk::success_tag, rest }; else if constexpr (std::same_as<Res, Sp>) return { tk::success_tag, Res(std::span<const char>(in.data(), 1)), rest }; else return { tk::success_tag, Res(pos), rest }; }
    template <class R> static tk::result<void, char> lookahead(R&& r) { tk::input_span<char> in{ std::forward<R>(r) }; u64 pos = where(in); if (!hit(pos) || (ID == 1 && !(pos & 1)) || (ID == 2 && (pos & 1))) return { tk::failure_tag, in }; return { tk::success_tag, { std::span<const char>(in.data() + 1, in.size() - 1) } }; } };
}
inline Input<char> start() { u64 n = sx_range("n", HI + 4, 1ull << 36); base = sx_buf("in", n, 1ull << 36, 1); total = n; limit = sx_range("limit", LO + 1, HI); return { static_cast<const char*>(base), n }; }
template <class P, class F> void counted(P p, F f) { auto in = start(); auto r = p.parse(in.span()); u64 end = f(r, sx_fork(limit)); sx_assert((bool)r == (end != ~0ull), "acceptance is wrong"); sx_assert(restIs(r.remaining(), r ? end : 0), "the remaining input is wrong"); sx_observe((bool)r); sx_observe(r.remaining().size()); sx_cover("*done"); }
template <class P, class F> void looked(P p, F f) { auto in = start(); auto r = p.lookahead(in.span()); u64 end = f(sx_fork(limit)); sx_assert((bool)r == (end != ~0ull), "acceptance of lookahead is wrong"); sx_assert(restIs(r.remaining(), r ? end : 0), "lookahead's remaining input is wrong"); sx_cover("*done"); }
template <class V> void ints(const V& v, u64 n, u64 step = 1, u64 from = 0) { sx_assert(v.size() == n, "the number of results is wrong"); bool ok = true; for (u64 k : { u64(0), u64(1), u64(254), u64(255), u64(256), u64(257), u64(65534), u64(65535), u64(65536), n - 2, n - 1 }) if (k < n) ok = ok & (v[k] == from + k * step); sx_assert(ok, "a result of a long repetition is wrong"); }
constexpr Cnt<0, u64> c; constexpr Cnt<0, void> cv; constexpr Cnt<0, Sp> cs; constexpr Cnt<1, u64> d; constexpr Cnt<1, void> dv; constexpr Cnt<2, u64> e; constexpr Cnt<2, void> ev_; constexpr Cnt<2, Sp> es; constexpr Cnt<1, Sp> ds;
auto list = [](const auto& r, u64 n) { if (r) ints(*r, n); return n; }; auto none_ = [](const auto&, u64 n) { return n; }; auto whole = [](const auto& r, u64 n) { if (r) { sx_assert((*r).size() == n, "the length of a joined span is wrong"); sx_assert(spanIs(*r, 0, n), "a joined span is elsewhere"); } return n; };
inline u64 odd(u64 n) { return n & 1 ? n : n - 1; } // e (d e)*
ENTRY(star) { counted(*c, list); } ENTRY(plus) { counted(+c, list); } ENTRY(star_void) { counted(*cv, none_); } ENTRY(plus_void) { counted(+cv, none_); } ENTRY(star_look) { looked(*c, [](u64 n) { return n; }); } ENTRY(plus_look) { looked(+c, [](u64 n) { return n; }); } ENTRY(star_ignore) { counted(ignore(*c), none_); }
ENTRY(join_star) { counted(join(*cs), whole); } ENTRY(join_plus) { counted(join(+cs), whole); } ENTRY(join_pair) { counted(join(*(es >> ds)), [](const auto& r, u64 n) { return whole(r, n & ~1ull); }); } ENTRY(join_delimit) { counted(join(delimit(cs, ign<"">)), [](const auto& r, u64 n) { return whole(r, n); }); }
ENTRY(delim) { counted(delimit(e, d), [](const auto& r, u64 n) { n = odd(n); if (r) ints(*r, (n + 1) / 2, 2); return n; }); } ENTRY(keep) { counted(delimit_keep(e, d), [](const auto& r, u64 n) { n = odd(n); if (r) { ints((*r).first, (n + 1) / 2, 2); ints((*r).second, n / 2, 2, 1); } return n; }); } ENTRY(delim_void) { counted(delimit(ev_, dv), [](const auto&, u64 n) { return odd(n); }); } ENTRY(keep_void) { counted(delimit_keep(ev_, d), [](const auto& r, u64 n) { n = odd(n); if (r) ints(*r, n / 2, 2, 1); return n; }); } ENTRY(delim_look) { looked(delimit(e, d), odd); }
ENTRY(exact) { counted(exactly<AROUND>(c), [](const auto& r, u64 n) { if (n < AROUND) return ~u64(0); if (r) ints(*r, AROUND); return u64(AROUND); }); } ENTRY(exact_void) { counted(exactly<AROUND + 1>(cv), [](const auto&, u64 n) { return n < AROUND + 1 ? ~u64(0) : u64(AROUND + 1); }); } ENTRY(exact_look) { looked(exactly<AROUND>(c), [](u64 n) { return n < AROUND ? ~u64(0) : u64(AROUND); }); }
ENTRY(join_exact) { counted(join(exactly<AROUND>(cs)), [](const auto& r, u64 n) { if (n < AROUND) return ~u64(0); return whole(r, AROUND); }); }
// real classes and literals, over a text of that length
struct Text { std::vector<char> t; u64 n; Text(u64 extra, char x, char y = 0) : n(sx_fork(sx_range("n", LO, HI))) { t.resize(n + extra, '.'); for (u64 i = 0; i < n; ++i) t[i] = y && (i & 1) ? y : x; base = t.data(); total = t.size(); } };
template <class P> void text(P p, char x, char y, u64 step, u64 extra) { Text t(extra, x, y); u64 n = t.n / step * step; for (int k = 0; k < 2; ++k) { tk::input_span<char> in{ std::span<const char>(t.t) }; auto ck = [&](const auto& r) { sx_assert((bool)r, "acceptance is wrong"); sx_assert(restIs(r.remaining(), n), "the remaining input is wrong"); }; if (k) ck(p.lookahead(in)); else { auto r = p.parse(in); ck(r); if constexpr (requires { (*r).size(); }) { if constexpr (is_vector<std::remove_cvref_t<decltype(*r)>>::value) { sx_assert((*r).size() == n / step, "the number of results is wrong"); if (n) sx_assert(spanIs((*r)[n / step - 1], n - step, n), "the last result is wrong"); } else whole(r, n); } } } sx_cover("*done"); }
ENTRY(text_join_star) { text(join(*any<"ab">), 'a', 'b', 1, 3); } ENTRY(text_join_plus) { text(join(+any<"ab">), 'a', 'b', 1, 0); } ENTRY(text_join_none) { text(join(*none<".">), 'a', 'b', 1, 1); } ENTRY(text_join_all) { text(join(*all<"ab">), 'a', 'b', 2, 2); } ENTRY(text_join_all_plus) { text(join(+all<"ab">), 'a', 'b', 2, 0); } ENTRY(text_star) { text(*any<"ab">, 'b', 0, 1, 2); } ENTRY(text_ign) { text(*ign<"ab">, 'a', 'b', 2, 2); } ENTRY(text_vec) { text(*all<"aaa">, 'a', 0, 3, 2); }
template <u64 N, class P> void textExact(P p) { Text t(2, 'a'); bool ok = t.n >= N; tk::input_span<char> in{ std::span<const char>(t.t) }; auto r = p.parse(in); sx_assert((bool)r == ok, "acceptance is wrong"); sx_assert(restIs(r.remaining(), ok ? N : 0), "the remaining input is wrong"); auto l = p.lookahead(in); sx_assert((bool)l == ok, "acceptance of lookahead is wrong"); sx_assert(restIs(l.remaining(), ok ? N : 0), "lookahead's remaining input is wrong"); using Got = typename decltype(r)::value_type; if constexpr (std::same_as<Got, Sp>) if (r) whole(r, N); sx_cover("*done"); }
ENTRY(text_exact) { textExact<AROUND>(join(exactly<AROUND>(any<"a">))); } ENTRY(text_exact2) { textExact<AROUND>(exactly<AROUND>(any<"a">)); } ENTRY(text_exact3) { textExact<AROUND>(join(exactly<AROUND / 2>(all<"aa">))); }
#else
// ---- long literals, large classes: every content
template <class V, u64 N> constexpr tk::static_array<V, N> text = [] { tk::static_array<V, N> a; for (u64 i = 0; i < N; ++i) a[i] = V(i * 7 + i / 256 + 1); return a; }();
template <class V, u64 N> void literal() { auto in = input<V>(1ull << 36); bool ok = in.n >= N; if (ok) for (u64 k = 0; k < N; ++k) ok = ok & (in.p[k] == text<V, N>[k]);
    auto go = [&](auto p) { auto r = p.parse(in.span()); sx_assert((bool)r == ok, "acceptance of a long literal is wrong"); sx_assert(restIs(r.remaining(), ok ? N : 0), "the remaining input is wrong"); auto l = p.lookahead(in.span()); sx_assert((bool)l == ok, "acceptance of lookahead is wrong"); sx_assert(restIs(l.remaining(), ok ? N : 0), "lookahead's remaining input is wrong"); if (r) sx_cover("*accept"); else sx_cover("*reject"); };
    go(all<text<V, N>>); go(ign<text<V, N>>); }
template <class V, u64 N> constexpr tk::static_array<V, N> set_ = [] { tk::static_array<V, N> a; for (u64 i = 0; i < N; ++i) a[i] = V((i * 37) % N * 3); return a; }(); // 0, 3, ... in another order
template <class V, u64 N> void classes() { auto in = input<V>(1ull << 36); u64 x = in.n ? u64(in.p[0]) : 0; bool m = in.n && x % 3 == 0 && x / 3 < N, o = in.n && !m; auto go = [&](auto p, bool ok) { auto r = p.parse(in.span()); sx_assert((bool)r == ok, "acceptance of a large class is wrong"); sx_assert(restIs(r.remaining(), ok), "the remaining input is wrong"); auto l = p.lookahead(in.span()); sx_assert((bool)l == ok, "acceptance of lookahead is wrong"); if (r) sx_cover("*accept"); else sx_cover("*reject"); };
    go(any<set_<V, N>>, m); go(none<set_<V, N>>, o); }
#define LI(n) ENTRY(literal_##n) { literal<char, n>(); } ENTRY(wide_##n) { literal<char16_t, n>(); }
LI(255) LI(256) LI(257) LI(300)
ENTRY(class_256) { classes<char16_t, 256>(); } ENTRY(class_257) { classes<char16_t, 257>(); } ENTRY(class_300) { classes<int, 300>(); }
#if TIER
LI(512) LI(600) ENTRY(class_520) { classes<char32_t, 520>(); }
#endif
#endif
