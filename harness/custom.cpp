// Custom parsers are transparent; grammars that refer to themselves accept what their rules say (C24).
#include "agree.h"
using A = Tok<100>; using B = Tok<101>; using M = Tok<102, MOVEONLY>; using C_ = Tok<103, COPYONLY>; using Sp = tk::output_span<char>; using Y = Tok<50>;
constexpr u64 BIG = 1ull << 36;
template <class P> struct Cu : tk::custom_parser<Cu<P>, typename P::value_type> { static constexpr auto get_parser() { return P{}; } };
template <class P> constexpr auto cu(P) { return Cu<P>{}; }
template <class P, class Q> void alike(P p, Q q, const Input<char>& in) { agreeLoose = ~0u; agreeOn(p, q, in); }
template <class T> void plain() { minLen = 0; maxLen = 2; auto in = input(BIG); constexpr S<0, T> s; constexpr S<1, T> t; alike(cu(s), s, in); alike(cu(cu(cu(s))), s, in); alike(cu(s) >> t, s >> t, in); alike(s >> cu(t), s >> t, in); alike(cu(s >> t), s >> t, in); alike(cu(s) | t, s | t, in); alike(s | cu(t), s | t, in); alike(cu(s | t), s | t, in); alike(~cu(s), ~s, in); alike(cu(~s), ~s, in); alike(exactly<2>(cu(s)), exactly<2>(s), in); alike(complete(cu(s)), complete(s), in); alike(cu(complete(s)), complete(s), in); alike(cu(ignore(s)), ignore(s), in); alike(ignore(cu(s)), ignore(s), in); alike(name<"n">(cu(s)), s, in); }
#define PL(n, T) ENTRY(plain_##n) { plain<T>(); }
PL(tok, A) PL(void, void) PL(move, M) PL(copy, C_) PL(span, Sp) PL(bool, bool) PL(opt, std::optional<A>) PL(vec, std::vector<A>)
ENTRY(repeats) { minLen = 1; maxLen = 1; stopAt = 4; auto in = input(BIG); constexpr S<0, A> s; constexpr S<1, B> t; alike(*cu(s), *s, in); alike(+cu(s), +s, in); alike(cu(*s), *s, in); alike(cu(+s) >> t, +s >> t, in); alike(delimit(cu(s), cu(t)), delimit(s, t), in); alike(delimit_keep(cu(s), cu(t)), delimit_keep(s, t), in); alike(cu(delimit_keep(s, t)), delimit_keep(s, t), in); alike(*cu(s >> cu(t)), *(s >> t), in); }
ENTRY(functions) { minLen = 0; maxLen = 2; auto in = input(BIG); constexpr S<0, A> s; constexpr auto f = map<[](const auto& v) { used(0); return Y(v.pos, v.len, 1); }>; constexpr auto g = filter<[](const auto& v) { used(1); return v.len != 1; }>; alike(cu(f(s)), f(s), in); alike(f(cu(s)), f(s), in); alike(cu(cu(s) % f) % name<"x">, f(s), in); { filtersInside = true; alike(cu(g(s)), g(s), in); alike(g(cu(s)), g(s), in); alike(cu(g(s)) | cu(stub<1, A>), g(s) | stub<1, A>, in); } }
ENTRY(joins) { minLen = 0; maxLen = 2; auto in = input(BIG); constexpr S<0, Sp> s; constexpr S<1, Sp> t; { filtersInside = true; alike(join(cu(s) >> cu(t)), join(s >> t), in); alike(cu(join(s >> t)), join(s >> t), in); alike(join(cu(s >> t)), join(s >> t), in); } }
ENTRY(classes) { auto in = input(4); alike(cu(any<"ab">), any<"ab">, in); alike(*cu(any<"ab">), *any<"ab">, in); alike(cu(all<"ab">) >> cu(all<"a">), all<"ab"> >> any<"a">, in); alike(cu(any<"a">) | cu(none<"b">), any<"a"> | none<"b">, in); filtersInside = true; alike(join(+cu(any<"ab">)), join(+any<"ab">), in); }
// ---- grammars that refer to themselves, over text
static const char* sxhP; static u64 sxhN; static bool is(u64 i, char c) { return i < sxhN && sxhP[i] == c; }
template <class G, class F> void grammar(G g, u64 max, F rule) { auto in = input(max); sxhP = in.p; sxhN = in.n; Out o = rule(u64(0)); if constexpr (LAWS) { vectors = true; laws(g, in, o); } else { auto r = g.parse(in.span()); observe(r); SPLIT(r, o); auto l = g.lookahead(in.span()); sx_assert((bool)l == o.ok, "lookahead differs from the grammar"); sx_assert(restIs(l.remaining(), o.ok ? o.end : 0), "lookahead's remaining input differs from the grammar"); } if (o.ok && o.end > 1) sx_cover("*accept"); }
// balanced = ( '(' balanced ')' balanced )?
struct Balanced : tk::custom_parser<Balanced> { using result_type = void; static consteval auto get_parser(); }; consteval auto Balanced::get_parser() { return (ign<"("> >> Balanced{} >> ign<")"> >> Balanced{}) | eps; }
static Out balancedR(u64 i) { if (!is(i, '(')) return { true, i }; Out a = balancedR(i + 1); if (!is(a.end, ')')) return { true, i }; return balancedR(a.end + 1); }
ENTRY(balanced) { grammar(Balanced{}, TIER ? 9 : 7, balancedR); }
// even = 'a' odd / eps; odd = 'a' even / 'b'
struct Odd; struct Even : tk::custom_parser<Even> { using result_type = void; static consteval auto get_parser(); }; struct Odd : tk::custom_parser<Odd> { using result_type = void; static consteval auto get_parser(); }; consteval auto Even::get_parser() { return (ign<"a"> >> Odd{}) | eps; } consteval auto Odd::get_parser() { return (ign<"a"> >> Even{}) | ign<"b">; }
static Out oddR(u64 i); static Out evenR(u64 i) { if (is(i, 'a')) { Out o = oddR(i + 1); if (o.ok) return o; } return { true, i }; } static Out oddR(u64 i) { if (is(i, 'a')) return evenR(i + 1); if (is(i, 'b')) return { true, i + 1 }; return { false, i }; }
ENTRY(mutual) { grammar(Even{}, TIER ? 8 : 6, evenR); } ENTRY(mutual2) { grammar(Odd{}, TIER ? 8 : 6, oddR); }
// palindromes as ordered choice sees them: s = 'a' s 'a' / 'b' s 'b' / 'a' / 'b'
struct Pal : tk::custom_parser<Pal> { using result_type = void; static consteval auto get_parser(); }; consteval auto Pal::get_parser() { return (ign<"a"> >> Pal{} >> ign<"a">) | (ign<"b"> >> Pal{} >> ign<"b">) | ign<"a"> | ign<"b">; }
static Out palR(u64 i) { for (char c : { 'a', 'b' }) if (is(i, c)) { Out o = palR(i + 1); if (o.ok && is(o.end, c)) return { true, o.end + 1 }; } if (is(i, 'a') || is(i, 'b')) return { true, i + 1 }; return { false, i }; }
ENTRY(palindrome) { grammar(Pal{}, TIER ? 7 : 6, palR); }
// nested lists with values: list = '(' (item (',' item)*)? ')'; item = 'x' / list: the number of leaves
struct Item : tk::custom_parser<Item> { using result_type = int; static consteval auto get_parser(); }; struct List : tk::custom_parser<List> { using result_type = int; static consteval auto get_parser(); };
constexpr auto sum = [](const std::vector<int>& v) { int s = 0; for (int x : v) s += x; return s; }; consteval auto List::get_parser() { return ign<"("> >> (delimit(Item{}, all<",">) % map<sum> | all<""> % constant<0>) >> ign<")">; } consteval auto Item::get_parser() { return all<"x"> % constant<1> | List{}; }
static Out listR(u64 i, int& n); static Out itemR(u64 i, int& n) { if (is(i, 'x')) { n = 1; return { true, i + 1 }; } return listR(i, n); } static Out listR(u64 i, int& n) { n = 0; if (!is(i, '(')) return { false, i }; int k; Out o = itemR(i + 1, k); u64 e = i + 1; if (o.ok) { n = k; e = o.end; while (is(e, ',')) { Out q = itemR(e + 1, k); if (!q.ok) break; n += k; e = q.end; } } if (!is(e, ')')) return { false, i }; return { true, e + 1 }; }
ENTRY(lists) { int n = 0; grammar(List{}, TIER ? 9 : 7, [&](u64 i) { return listR(i, n); }); auto r = List::parse(std::span<const char>(sxhP, sxhN)); sx_assert(!r || *r == n, "the value of a recursive grammar"); }
// right recursion over arbitrary parts: l = p (d l)?
struct Right : tk::custom_parser<Right> { using result_type = void; static consteval auto get_parser(); }; consteval auto Right::get_parser() { return ignore(stub<0, A>) >> ((ignore(stub<1, B>) >> Right{}) | eps); }
static Out rightR(u64 i) { Out o = ref(0, i); if (!o.ok) return o; Out d = ref(1, o.end); if (!d.ok) return o; Out t = rightR(d.end); return t.ok ? t : o; }
ENTRY(right) { loose = 0; minLen = 1; maxLen = 1; stopAt = TIER ? 9 : 6; auto in = input(BIG); Out o = rightR(0); if constexpr (LAWS) laws(Right{}, in, o); auto r = Right::parse(in.span()); observe(r); SPLIT(r, o); if (o.ok && o.end > 2) sx_cover("*accept"); auto d = delimit(stub<0, A>, stub<1, B>).parse(in.span()); sx_assert((bool)d == o.ok && (!d || d.remaining().data() == r.remaining().data()), "right recursion and delimit differ"); }
// other element types
struct WBal : tk::custom_parser<WBal, wchar_t> { using result_type = void; static consteval auto get_parser(); }; consteval auto WBal::get_parser() { return (ign<L"("> >> WBal{} >> ign<L")">) | eps; }
ENTRY(wide) { auto in = input<wchar_t>(5); u64 k = 0; while (k < in.n && in.p[k] == L'(') ++k; Out o{ true, 0 }; struct F { static u64 go(const wchar_t* p, u64 n, u64 i) { if (i < n && p[i] == L'(') { u64 e = go(p, n, i + 1); if (e < n && p[e] == L')') return e + 1; } return i; } }; o.end = F::go(in.p, in.n, 0); if constexpr (LAWS) laws(WBal{}, in, o); else { auto r = WBal::parse(in.span()); observe(r); SPLIT(r, o); } if (o.end) sx_cover("*accept"); }
