// Every combinator around every other one: what it does may depend on what the inner parser does, not on what it is. Each is compared with
// the same combinator around the inner parser behind a custom parser, which no rewrite or shortcut can look through
// (C06-C16, C23, C24, each for its own combinators; C13 for the operators; C01, C02, C20, C21, C28 for all).
#include "agree.h"
using Sp = tk::output_span<char>; using B = Tok<101>;
template <class P> struct Hidden : tk::custom_parser<Hidden<P>, char> {
    template <class V> using result_for = typename P::template result_for<V>;
    template <class R> static auto parse(R&& r) { return P::parse(std::forward<R>(r)); }
    template <class R> static auto lookahead(R&& r) { return P::lookahead(std::forward<R>(r)); } };
template <class P> struct Cu : tk::custom_parser<Cu<P>, char> { template <class V> using result_for = typename P::template result_for<V>; static constexpr auto get_parser() { return P{}; } };
// ---- the values in a result, whatever they are nested in
struct Bag { u64 v[64]; int n = 0; void add(u64 x) { MUST(n < 64, "harness: values"); v[n++] = x; } };
template <class T> void collect(Bag& b, const T& t) {
    if constexpr (is_tok<T>::value) { b.add(u64(t.use())); b.add(t.id); b.add(t.pos); b.add(t.len); }
    else if constexpr (std::same_as<T, Sp>) { b.add(reinterpret_cast<std::uintptr_t>(t.data()) - reinterpret_cast<std::uintptr_t>(base)); b.add(t.size()); }
    else if constexpr (is_optional<T>::value) { b.add(t.has_value()); if (t) collect(b, *t); }
    else if constexpr (is_vector<T>::value) { b.add(t.size()); for (const auto& e : t) collect(b, e); }
    else if constexpr (is_variant<T>::value) std::visit([&](const auto& e) { collect(b, e); }, t);
    else if constexpr (Several<T>) [&]<std::size_t... I>(std::index_sequence<I...>) { (collect(b, std::get<I>(t)), ...); }(std::make_index_sequence<std::tuple_size_v<T>>());
    else b.add(u64(t)); }
// lookahead of filters and joins answers for the wrapped parser (C02), so of what contains them it may differ from parse
template <class P> constexpr bool looser = false;
template <template <class...> class T, class... A> constexpr bool looser<T<A...>> = (... || looser<A>);
template <class A, class F> constexpr bool looser<tk::filter_parser<A, F>> = true;
template <class A> constexpr bool looser<tk::join_parser<A>> = true;
template <class A, tk::static_array n> constexpr bool looser<tk::named_parser<A, n>> = looser<A>;
enum { TYPES = 1, VALUES = 2, CALLS = 4 };
template <int What, class P, class Q> void alike(P p, Q q, const Input<char>& in) {
    if constexpr (LAWS) { if constexpr (!(PROP == 2 && looser<P>)) agreeOn(p, q, in); return; } else {
    loose = ~0u; resetUses(); auto r = p.parse(in.span()); u64 t = trace; observe(r); resetUses(); auto s = q.parse(in.span());
    sx_assert((bool)r == (bool)s, "acceptance depends on what the inner parser is"); sx_assert((r.remaining().data() == s.remaining().data()) & (r.remaining().size() == s.remaining().size()), "what is left depends on what the inner parser is");
    if constexpr (What & CALLS) sx_assert(t == trace, "user functions are called at other times, depending on what the inner parser is");
    using T = typename decltype(r)::value_type; using U = typename decltype(s)::value_type; if constexpr (What & TYPES) sx_assert((std::same_as<T, U>), "the type of the result depends on what the inner parser is");
    if constexpr (What & VALUES) { if constexpr (std::is_void_v<T> || std::is_void_v<U>) sx_assert(std::is_void_v<T> == std::is_void_v<U>, "there is a result or not, depending on what the inner parser is");
        else if (r && s) { Bag a, b; collect(a, *r); collect(b, *s); bool same = a.n == b.n; for (int i = 0; i < a.n && i < b.n; ++i) same = same & (a.v[i] == b.v[i]); sx_assert(same, "the value depends on what the inner parser is"); } }
    if (r) sx_cover("*accept"); else sx_cover("reject");
    auto l = p.lookahead(in.span()); auto m = q.lookahead(in.span()); sx_assert((bool)l == (bool)m, "lookahead depends on what the inner parser is"); sx_assert((l.remaining().data() == m.remaining().data()) & (l.remaining().size() == m.remaining().size()), "what lookahead leaves depends on what the inner parser is"); } }
// ---- the inner parsers, over sub-parsers with result Res. MAYBE: may match nothing, SEQ, CHOICE: flattened, REP: stacked, ODD: a choice with and without a result, whose value is then unspecified
enum { MAYBE = 1, SEQ = 2, CHOICE = 4, REP = 8, ODD = 16 };
struct Fn { template <class... T> constexpr u64 operator()(const T&... t) const { used(1); Bag b; (collect(b, t), ...); u64 h = 7; for (int i = 0; i < b.n; ++i) h = h * 31 + b.v[i]; return h; } };
struct Pr { template <class... T> constexpr bool operator()(const T&... t) const { used(2); Bag b; (collect(b, t), ...); u64 h = 0; for (int i = 0; i < b.n; ++i) h += b.v[i] & 1; return sx_fork(h & 1) != 0; } };
struct Fn2 : Fn { template <class... T> constexpr u64 operator()(const T&... t) const { used(3); return Fn::operator()(t...) * 3 + 1; } };
struct Pr2 { template <class... T> constexpr bool operator()(const T&... t) const { used(0); Bag b; (collect(b, t), ...); u64 h = 0; for (int i = 0; i < b.n; ++i) h += b.v[i] >> 1 & 1; return sx_fork(h & 1) != 0; } };
template <class Res> struct Inner {
    using S0 = S<0, Res>; using S1 = S<1, Res>; using S2 = S<2, std::conditional_t<std::is_same_v<Res, Sp>, Sp, B>>; using Vo = S<3, void>;
    template <class F> static void each(F f) { constexpr S0 s; constexpr S1 t; constexpr S2 o; constexpr Vo v;
        auto k = [&]<int Flags, class P>(std::integral_constant<int, Flags>, P) { return [f] { f.template operator()<P, Flags>(); }; };
#define I(flags, ...) k(std::integral_constant<int, flags>{}, __VA_ARGS__)
        oneOf(I(MAYBE | REP, ~s), I(MAYBE | REP, *s), I(REP, +s), I(0, exactly<1>(s)), I(0, exactly<2>(s)), I(0, delimit(s, o)), I(0, delimit(s, v)), I(0, delimit_keep(s, v)),
            I(0, ignore(s)), I(0, complete(s)), I(0, name<"n">(s)), I(SEQ, s >> t), I(SEQ, s >> v), I(SEQ, v >> s), I(SEQ, v >> s >> o), I(CHOICE, s | t), I(0, s % map<Fn{}>), I(0, s % filter<Pr{}>), I(0, s % constant<5>), I(0, s % defaulted<int>), I(0, Cu<S0>{}),
            I(SEQ, exactly<2>(s) >> t), I(SEQ, (s | t) >> o), I(SEQ, ~s >> t), I(CHOICE, (s >> t) | (t >> s)), I(0, name<"n">(s >> t)), I(0, ignore(s >> o)), I(0, exactly<2>(s >> v)), I(0, complete(s | t)), I(0, ignore(*s >> t)), I(REP, +(s >> v)), I(REP, +(s | t)), I(MAYBE | REP, *(s >> t)), I(MAYBE | REP, ~(s >> o)));
    } };
// results that choices hold in a variant, tuples in between
template <class Res> struct Mixed { template <class F> static void each(F f) { constexpr S<0, Res> s; constexpr S<2, B> o; constexpr S<3, void> v; auto k = [&]<int Flags, class P>(std::integral_constant<int, Flags>, P) { return [f] { f.template operator()<P, Flags>(); }; };
        oneOf(I(0, delimit_keep(s, o)), I(CHOICE, s | o), I(CHOICE, o | s), I(CHOICE, (s >> v) | o), I(0, exactly<2>(s | o)), I(SEQ, (s | o) >> s), I(0, name<"m">(s | o)), I(0, complete(s | o)), I(MAYBE | REP, ~(s | o)), I(0, (s | o) % filter<Pr{}>), I(0, delimit(s | o, v)), I(CHOICE, (s >> o) | o), I(0, Cu<decltype(s | o)>{})); } };
// the classes and literals, and joins of them
struct Basic { template <class F> static void each(F f) { constexpr S<0, Sp> s; auto k = [&]<int Flags, class P>(std::integral_constant<int, Flags>, P) { return [f] { f.template operator()<P, Flags>(); }; };
        oneOf(I(0, any<"ab">), I(0, none<"ab">), I(0, all<"ab">), I(0, all<"a">), I(0, ign<"ab">), I(0, any<"a"> | any<"b">), I(0, !any<"a">), I(0, none<"">), I(0, any<"">), I(0, tk::anything_parser<char>{}), I(MAYBE, eps.of<char>), I(MAYBE, all<"">), I(MAYBE | REP, ~all<"ab">), I(MAYBE | REP, *any<"ab">), I(REP, +any<"ab">), I(REP, +all<"ab">), I(0, exactly<2>(any<"ab">)), I(0, exactly<2>(all<"ab">)), I(0, exactly<1>(all<"ab">)), I(0, name<"c">(any<"ab">)), I(0, name<"c">(all<"ab">)), I(0, complete(all<"ab">)), I(0, ignore(any<"ab">)),
            I(MAYBE, join(*any<"ab">)), I(0, join(+any<"ab">)), I(0, join(+all<"ab">)), I(0, join(exactly<2>(any<"ab">))), I(MAYBE, join(~any<"ab">)), I(MAYBE, join(~all<"ab">)), I(0, join(any<"a"> >> any<"b">)), I(0, join(s >> any<"b">)), I(SEQ, any<"a"> >> any<"b">), I(SEQ, all<"a"> >> any<"b">), I(SEQ, ign<"a"> >> any<"b">), I(SEQ, ign<"a"> >> ign<"b">), I(CHOICE, all<"ab"> | any<"ab">), I(CHOICE, all<"ab"> | all<"a">), I(CHOICE | ODD, ign<"ab"> | all<"a">), I(MAYBE | CHOICE | ODD, all<"ab"> | eps), I(0, delimit(any<"ab">, any<",">)), I(0, delimit(any<"ab">, ign<",">)), I(0, delimit_keep(any<"ab">, ign<",">))); } };
// ---- the outer ones: applied to the parser itself, or to it behind a custom parser
template <class P> constexpr bool hasPair = false; template <class A_, class B_> constexpr bool hasPair<std::pair<A_, B_>> = true; template <class... T> constexpr bool hasPair<std::variant<T...>> = true;
template <class T> constexpr bool spansOnly = std::is_same_v<T, Sp>; template <class T> constexpr bool spansOnly<std::vector<T>> = spansOnly<T>; template <class T> constexpr bool spansOnly<std::optional<T>> = spansOnly<T>; template <class T, std::size_t N> constexpr bool spansOnly<std::array<T, N>> = spansOnly<T>; template <class... T> constexpr bool spansOnly<std::tuple<T...>> = (spansOnly<T> && ...);
inline Input<char> begin(bool real = false) { minLen = 1; maxLen = TIER ? 2 : 1; stopAt = TIER ? 4 : 3; return real ? input(TIER ? 6 : 5) : input(1ull << 36); }
template <class Set, class F> void with(F f) { Set::each([f]<class P, int Flags>() { f.template operator()<P, Flags>(begin(std::is_same_v<Set, Basic>)); }); }
#define O(id, what, skip, ...) template <class Set> void id() { with<Set>([]<class P, int Flags>(const Input<char>& in) { using Res = typename P::template result_for<char>; constexpr bool isVoid = std::is_void_v<Res>; (void)isVoid; constexpr S<6, Sp> u; constexpr S<7, B> w; constexpr S<5, void> z; (void)u; (void)w; (void)z; if constexpr (!(skip)) { \
    auto make = [&](auto x) { return __VA_ARGS__; }; alike<(what)>(make(P{}), make(Hidden<P>{}), in); } }); }
O(maybe, Flags & REP ? 0 : TYPES | VALUES, false, ~x) O(star, Flags & REP ? 0 : TYPES | VALUES, Flags & MAYBE, *x) O(plus, Flags & REP ? 0 : TYPES | VALUES, Flags & MAYBE, +x)
O(exactly1, TYPES | VALUES, false, exactly<1>(x)) O(exactly2, TYPES | VALUES, false, exactly<2>(x)) O(exactly3, TYPES | VALUES, false, exactly<3>(x))
O(element, TYPES | VALUES, false, delimit(x, u)) O(delimiter, TYPES | VALUES, false, delimit(w, x)) O(keep_element, TYPES | VALUES, false, delimit_keep(x, w)) O(keep_delimiter, TYPES | VALUES, false, delimit_keep(w, x)) O(same_delimiter, TYPES | VALUES, Flags & MAYBE, delimit(x, x)) O(infix_delimiter, TYPES | VALUES, false, w % delimit(x)) O(keep_void, TYPES | VALUES, false, delimit_keep(x, z))
O(joined, TYPES | VALUES, !spansOnly<Res>, join(x)) O(join_star, TYPES | VALUES, !spansOnly<Res> || (Flags & MAYBE), join(*x)) O(join_plus, TYPES | VALUES, !spansOnly<Res> || (Flags & MAYBE), join(+x)) O(join_maybe, TYPES | VALUES, !spansOnly<Res>, join(~x)) O(join_exactly, TYPES | VALUES, !spansOnly<Res>, join(exactly<2>(x))) O(join_seq, TYPES | VALUES, !spansOnly<Res>, join(u >> x)) O(join_gap, TYPES | VALUES, !spansOnly<Res>, join(u >> ignore(x) >> u))
O(seq_left, VALUES, false, x >> w) O(seq_right, VALUES, false, w >> x) O(seq_void, VALUES, false, z >> x >> z) O(seq_both, VALUES, false, x >> u >> x) O(seq_ignored, VALUES, false, ignore(x) >> w)
O(choice_left, Flags & ODD ? 0 : VALUES, false, x | w) O(choice_right, Flags & ODD ? 0 : VALUES, false, w | x) O(choice_void, Flags & ODD ? 0 : VALUES, isVoid == false, z | x) O(choice_eps, Flags & ODD ? 0 : VALUES, isVoid == false, x | eps) O(choice_mid, Flags & ODD ? 0 : VALUES, false, u | x | w) O(choice_same, Flags & ODD ? 0 : VALUES, false, x | u | x) O(choice_ignored, Flags & ODD ? 0 : VALUES, false, ignore(x) | z)
O(mapped, TYPES | VALUES | CALLS, false, x % map<Fn2{}>) O(constant_, TYPES | VALUES | CALLS, false, x % constant<6>) O(defaulted_, TYPES | VALUES | CALLS, false, x % defaulted<int>) O(filtered, TYPES | VALUES | CALLS, false, x % filter<Pr2{}>)
O(completed, TYPES | VALUES | CALLS, false, complete(x)) O(ignored, TYPES | VALUES | CALLS, false, ignore(x)) O(named, TYPES | VALUES | CALLS, false, name<"o">(x)) O(custom, TYPES | VALUES | CALLS, false, Cu<decltype(x)>{})

#ifndef PART
#define PART 0
#endif
#define LAWPART(k) (LAWPROP && PART == (k))
#define HALF(p, k) (PROP == p && PART == (k))
#define ONE(id, n, ...) ENTRY(id##_##n) { id<__VA_ARGS__>(); }
#if PROP == 23
#define ALL(id) ONE(id, move, Inner<Tok<102, MOVEONLY>>)
#elif PROP == 13
#define ALL(id) ONE(id, tok, Inner<B>) ONE(id, mixed, Mixed<Tok<100>>) ONE(id, basic, Basic)
#elif LAWPROP
#define ALL(id) ONE(id, tok, Inner<B>) ONE(id, basic, Basic)
#else
#define ALL(id) ONE(id, tok, Inner<B>) ONE(id, move, Inner<Tok<102, MOVEONLY>>) ONE(id, void, Inner<void>) ONE(id, span, Inner<Sp>) ONE(id, mixed, Mixed<Tok<100>>) ONE(id, basic, Basic)
#endif
#define JOINS(id) ONE(id, span, Inner<Sp>) ONE(id, basic, Basic)
#define VOIDS(id) ONE(id, void, Inner<void>) ONE(id, basic, Basic)
#if PROP == 0 || PROP == 23 || LAWPART(0) || PROP == 8 || HALF(13, 0)
ALL(maybe) ALL(star) ALL(plus)
#endif
#if PROP == 0 || PROP == 23 || LAWPART(0) || PROP == 9
ALL(exactly1) ALL(exactly2) ALL(exactly3)
#endif
#if PROP == 0 || PROP == 23 || LAWPART(1) || HALF(10, 0)
ALL(element) ALL(delimiter) ALL(keep_element)
#endif
#if PROP == 0 || PROP == 23 || LAWPART(1) || HALF(10, 1)
ALL(keep_delimiter) ALL(same_delimiter) ALL(infix_delimiter) ALL(keep_void)
#endif
#if PROP == 0 || LAWPART(2) || PROP == 11 || PROP == 12
JOINS(joined) JOINS(join_seq) JOINS(join_gap) JOINS(join_maybe) JOINS(join_star) JOINS(join_plus) JOINS(join_exactly)
#endif
#if PROP == 0 || PROP == 23 || LAWPART(2) || PROP == 6 || HALF(13, 0)
ALL(seq_left) ALL(seq_right) ALL(seq_void) ALL(seq_both) ALL(seq_ignored)
#endif
#if PROP == 0 || PROP == 23 || LAWPART(3) || HALF(7, 0) || HALF(13, 1)
ALL(choice_left) ALL(choice_right)
#if PROP != 23
VOIDS(choice_void) VOIDS(choice_eps)
#endif
#endif
#if PROP == 0 || PROP == 23 || LAWPART(3) || HALF(7, 1) || HALF(13, 1)
ALL(choice_mid) ALL(choice_same) ALL(choice_ignored)
#endif
#if PROP == 0 || PROP == 23 || LAWPART(3) || PROP == 14
ALL(mapped) ALL(constant_) ALL(defaulted_)
#endif
#if PROP == 0 || PROP == 23 || LAWPART(0) || PROP == 15
ALL(filtered)
#endif
#if PROP == 0 || PROP == 23 || LAWPART(1) || PROP == 16
ALL(completed) ALL(ignored) ALL(named)
#endif
#if PROP == 0 || PROP == 23 || LAWPART(1) || PROP == 24
ALL(custom)
#endif
