// complete, ignore, name (C16; C01 and C02 reuse it)
#include "agree.h"
using A = Tok<100>; using B = Tok<101>; using M = Tok<102, MOVEONLY>; using C_ = Tok<103, COPYONLY>; using ND = Tok<104, NODEFAULT>; using Sp = tk::output_span<char>; using Y = Tok<50, MOVEONLY>;
constexpr u64 BIG = 1ull << 36;
namespace sxh { inline bool strict; } // ignores are inside
template <class Res, class R> void valueCheck(const R& r) { // the wrapped stub's own result
    using Got = typename R::value_type; if constexpr (!LAWS) { sx_assert((std::same_as<Got, Res>), "the type of the result changes"); if constexpr (std::same_as<Got, Res> && !std::is_void_v<Res>) if (r) sx_assert(valueIs<Res>(*r, 0, 0), "the result changes"); } }
template <class P, class In, class F> void run(P p, const In& in, Out o, F check) {
    if constexpr (LAWS) laws(p, in, o); else { loose = strict ? 0 : ~0u; auto r = p.parse(in.span()); observe(r); loose = 0; SPLIT(r, o); check(r); if (r) sx_cover("*accept"); else sx_cover("*reject"); } }
constexpr auto none_ = [](const auto&) {};
template <class P, class Q> void alike(P p, Q q, const Input<char>& in) { agreeLoose = ~0u; agreeOn(p, q, in); }
template <class Res> void basics() {
    minLen = 0; maxLen = 2; auto in = input(BIG); constexpr S<0, Res> s; Out o = ref(0, 0); Out c{ o.ok && o.end == in.n, o.end }; if (o.ok && !c.ok) sx_cover("*something left");
    auto same = [](const auto& r) { valueCheck<Res>(r); }; auto empty = [](const auto& r) { if constexpr (!LAWS) sx_assert(std::is_void_v<typename std::remove_cvref_t<decltype(r)>::value_type>, "ignore leaves a result"); };
    run(complete(s), in, c, same); run(s % complete, in, c, same); run(complete(complete(s)), in, c, same); run(s % complete % complete % complete, in, c, same); run(complete(name<"c">(complete(s))), in, c, same);
    strict = true; run(ignore(s), in, o, empty); run(s % ignore, in, o, empty); run(ignore(ignore(s)), in, o, empty); run(s % ignore % ignore % ignore, in, o, empty); run(ignore(name<"c">(ignore(s))), in, o, empty);
    strict = false; run(name<"x">(s), in, o, same); run(s % name<"x">, in, o, same); run(s % name<"x"> % name<"y">, in, o, same); run(name<"">(s), in, o, same); run(name<L"wide">(s), in, o, same);
    strict = true; run(ignore(complete(s)), in, c, empty); run(complete(ignore(s)), in, c, empty); run(name<"q">(complete(ignore(name<"p">(s)))), in, c, empty); }
#define T8(n, T) ENTRY(n##_tok) { T<A>(); } ENTRY(n##_void) { T<void>(); } ENTRY(n##_move) { T<M>(); } ENTRY(n##_copy) { T<C_>(); } ENTRY(n##_nodef) { T<ND>(); } ENTRY(n##_span) { T<Sp>(); } ENTRY(n##_bool) { T<bool>(); } ENTRY(n##_opt) { T<std::optional<A>>(); } ENTRY(n##_vec) { T<std::vector<A>>(); }
T8(basic, basics)
// complete of a combinator: the whole of it must reach the end; nothing is tried again to get there
ENTRY(complete_choice) { minLen = 0; maxLen = 2; auto in = input(BIG); Out a = ref(0, 0), b = ref(1, 0), o = a.ok ? a : b; auto cm = [&](Out x) { return Out{ x.ok && x.end == in.n, x.end }; }; if (a.ok && a.end != in.n && cm(b).ok) sx_cover("*only a later alternative would reach the end");
    run(complete(stub<0, A> | stub<1, B>), in, cm(o), none_); Out ca = cm(a), cb = cm(b); run(complete(stub<0, A>) | complete(stub<1, B>), in, ca.ok ? ca : cb, none_); run(complete(stub<0, void> | stub<1, void>), in, cm(o), none_); }
ENTRY(complete_seq) { minLen = 0; maxLen = 2; auto in = input(BIG); Out a = ref(0, 0), o = a.ok ? ref(1, a.end) : a; Out c{ o.ok && o.end == in.n, o.end }; run(complete(stub<0, A> >> stub<1, B>), in, c, none_); run(stub<0, A> >> complete(stub<1, B>), in, c, none_);
    Out ca{ a.ok && a.end == in.n, a.end }, ob = ca.ok ? ref(1, ca.end) : ca; run(complete(stub<0, A>) >> stub<1, A>, in, ob, none_); }
ENTRY(complete_repeat) { minLen = 1; maxLen = 2; stopAt = TIER ? 8 : 5; auto in = input(BIG); int n = 0; u64 e = 0; for (;;) { Out o = ref(0, e); if (!o.ok) break; ++n; e = o.end; } Out st{ e == in.n, e }, pl{ n && e == in.n, e }; Out one = ref(0, 0); Out mb{ one.ok ? one.end == in.n : in.n == 0, one.ok ? one.end : 0 };
    run(complete(*stub<0, A>), in, st, none_); run(complete(+stub<0, A>), in, pl, none_); run(complete(~stub<0, A>), in, mb, none_); run(complete(*stub<0, void>), in, st, none_);
    int k = 0; u64 f = 0; for (;;) { Out o = ref(0, f); if (!o.ok || o.end != in.n) break; ++k; f = o.end; if (k > 1) break; } run(*complete(stub<0, A>), in, Out{ true, f }, none_); run(+complete(stub<0, A>), in, Out{ k > 0, f }, none_); }
ENTRY(complete_classes) { auto in = input(BIG); bool m = in.n >= 1 && (in.p[0] == 'a' || in.p[0] == 'b'); run(complete(any<"ab">), in, Out{ m && in.n == 1, 1 }, none_); bool l = in.n == 2 && in.p[0] == 'a' && in.p[1] == 'b'; run(complete(all<"ab">), in, Out{ l, 2 }, none_); run(complete(ign<"ab">), in, Out{ l, 2 }, none_); run(complete(all<"">), in, Out{ in.n == 0, 0 }, none_); run(complete(none<"ab">), in, Out{ in.n == 1 && !m, 1 }, none_); run(complete(~all<"ab">), in, Out{ l || in.n == 0, l ? 2u : 0u }, none_); run(complete(any<"ab"> | eps), in, Out{ (m && in.n == 1) || in.n == 0, in.n }, none_); }
// ignore of every combinator: the language of its lookahead, no result, no slot in a sequence
ENTRY(ignore_combinators) { strict = true; minLen = 1; maxLen = 1; stopAt = 4; auto in = input(BIG); Out a = ref(0, 0), ab = a.ok ? ref(1, a.end) : a, b = ref(1, 0); int n = 0; u64 e = 0; for (;;) { Out o = ref(0, e); if (!o.ok) break; ++n; e = o.end; }
    run(ignore(stub<0, A> >> stub<1, B>), in, ab, none_); run(ignore(stub<0, A> | stub<1, B>), in, a.ok ? a : b, none_); run(ignore(*stub<0, A>), in, Out{ true, e }, none_); run(ignore(+stub<0, M>), in, Out{ n > 0, e }, none_); run(ignore(~stub<0, A>), in, Out{ true, a.ok ? a.end : 0 }, none_); run(ignore(exactly<2>(stub<0, A>)), in, Out{ n > 1, 2 }, none_);
    run(ignore(map<[](auto&&) { used(0); return 1; }>(stub<0, A>)), in, a, none_); run(ignore(name<"k">(stub<0, A>)), in, a, none_); run(ignore(join(*stub<0, Sp>)), in, Out{ true, e }, none_);
    filtersInside = true; run(ignore(filter<[](auto&&) { used(1); return false; }>(stub<0, A>)), in, a, none_); CHKN(L({16}), uses[0] == 0 && uses[1] == 0, "ignore runs a function"); sx_cover("*accept"); sx_cover("*reject"); }
ENTRY(ignore_slot) { strict = true; minLen = 0; maxLen = 2; auto in = input(BIG); Out a = ref(0, 0), b = a.ok ? ref(1, a.end) : a, c = b.ok ? ref(2, b.end) : b; u64 pa = 0, pc = b.end; Out o{ c.ok, c.end };
    run(stub<0, A> >> ignore(stub<1, B>) >> stub<2, B>, in, o, [&](const auto& r) { if constexpr (!LAWS) if (r) { using Got = typename std::remove_cvref_t<decltype(r)>::value_type; sx_assert((std::same_as<Got, std::tuple<A, B>>), "an ignored part has a slot"); sx_assert(valueIs<A>(std::get<0>(*r), 0, pa) && valueIs<B>(std::get<1>(*r), 2, pc), "values around an ignored part"); } });
    run(stub<0, A> >> ignore(stub<1, B>), in, b, [&](const auto& r) { valueCheck<A>(r); }); run(ignore(stub<0, A>) >> ignore(stub<1, B>), in, b, none_); }
// a name changes nothing, wherever it is
template <class F> void named(F g) { auto in = input(BIG); alike(g(name<"a">(stub<0, A>), name<"b">(stub<1, B>)), g(stub<0, A>, stub<1, B>), in); alike(g(name<"a">(stub<0, A>), stub<1, B>), g(stub<0, A>, stub<1, B>), in); alike(g(stub<0, A>, name<"x">(name<"y">(stub<1, B>))), g(stub<0, A>, stub<1, B>), in); alike(name<"z">(g(stub<0, A>, stub<1, B>)), g(stub<0, A>, stub<1, B>), in); }
#define NAMED(n, lo, hi, stop, expr) ENTRY(name_##n) { minLen = lo; maxLen = hi; stopAt = stop; named([](auto x, auto y) { return expr; }); }
NAMED(seq, 0, 2, POS, x >> y >> x) NAMED(choice, 0, 2, POS, x >> y | y | x) NAMED(star, 1, 1, 4, *(x >> y)) NAMED(star1, 1, 1, 4, *x >> y) NAMED(plus, 1, 1, 4, +(x | y)) NAMED(maybe, 0, 2, POS, ~x >> y) NAMED(exactly, 0, 1, POS, exactly<2>(x) >> exactly<1>(y))
NAMED(delimit, 1, 1, 5, delimit(x, y)) NAMED(delimit2, 1, 1, 5, delimit_keep(x, y)) NAMED(complete, 0, 2, POS, complete(x >> y)) NAMED(ignore, 0, 2, POS, ignore(x) >> y) NAMED(map, 0, 2, POS, map<[](auto v) { used(0); return v; }>(x) >> map<[](auto) { used(1); }>(y))
NAMED(filter, 0, 2, POS, (filtersInside = true, filter<[](const auto& v) { used(0); return v.len != 1; }>(x) | y))
ENTRY(name_join) { filtersInside = true; minLen = 0; maxLen = 2; auto in = input(BIG); alike(join(name<"a">(stub<0, Sp>) >> name<"b">(stub<1, Sp>)), join(stub<0, Sp> >> stub<1, Sp>), in); alike(join(name<"n">(stub<0, Sp> >> stub<1, Sp>)), join(stub<0, Sp> >> stub<1, Sp>), in); alike(name<"n">(join(stub<0, Sp> >> stub<1, Sp>)), join(stub<0, Sp> >> stub<1, Sp>), in); }
ENTRY(name_class) { auto in = input(4); constexpr auto d = any<"ab">; constexpr auto l = all<"ab">; alike(name<"d">(d), d, in); alike(name<"l">(l), l, in); alike(*name<"d">(d), *d, in); alike(join(*name<"d">(d)), join(*d), in); alike(join(+name<"l">(l)), join(+l), in); alike(join(exactly<2>(name<"d">(d))), join(exactly<2>(d)), in); alike(join(~name<"d">(d)), join(~d), in); alike(name<"i">(ign<"ab">), ign<"ab">, in); alike(name<"e">(eps.of<char>), eps.of<char>, in); }
