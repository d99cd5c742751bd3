// Choices of arbitrary alternatives: acceptance, consumption, which value and where it is stored (C07), lookahead (C02).
#include "h.h"
#include "lists.h"
using A = Tok<100>; using B = Tok<101>; using C_ = Tok<102>;
template <class... Res, std::size_t... I> auto build(std::index_sequence<I...>) { return (... | S<I, Res>{}); }
template <class List, class... T> struct distinct;
template <class... D> struct distinct<std::variant<D...>> { using type = std::variant<D...>; };
template <class... D, class H, class... T> struct distinct<std::variant<D...>, H, T...> : distinct<std::conditional_t<std::is_void_v<H> || (... || std::same_as<D, H>), std::variant<D...>, std::variant<D..., std::conditional_t<std::is_void_v<H>, int, H>>>, T...> {};
template <class T> struct unwrap { using type = T; };
template <> struct unwrap<std::variant<>> { using type = void; };
template <class T> struct unwrap<std::variant<T>> { using type = T; };
template <class T, class L> struct slot;
template <class T, class... D> struct slot<T, std::variant<D...>> { static constexpr std::size_t get() { std::size_t i = 0; bool f = false; ((f = f || std::same_as<T, D>, i += !f), ...); return i; } };

template <class... Res> void choice() { loose = ~0u;
    constexpr int k = sizeof...(Res); using Var = typename distinct<std::variant<>, Res...>::type; using Exp = typename unwrap<Var>::type;
    auto inp = input(1ull << 36); auto p = build<Res...>(std::make_index_sequence<k>{});
    Out o{ false, 0 }; int chosen = k;
    for (int i = 0; i < k && !o.ok; ++i) { Out q = ref(i, 0); if (q.ok) { o = q; chosen = i; } }
    if constexpr (LAWS) laws(p, inp, o);
    else {
        auto r = p.parse(inp.span()); observe(r); SPLIT(r, o);
        using Got = typename std::remove_cvref_t<decltype(r)>::value_type;
        CHK(7, (std::same_as<Got, Exp>), "result type of a choice");
        for (int i = 0; i < k; ++i) CHKN(L({7, 14, 15}), i > chosen ? parses[i] == 0 : hits[i] == (i == chosen), "the alternative that succeeds first is not parsed once, or a later one is run");
        if (r) { sx_cover("*accept");
            if constexpr (std::same_as<Got, Exp> && !std::is_void_v<Got>) {
                auto one = [&]<int I, class T>() { if constexpr (!std::is_void_v<T>) if (chosen == I) {
                    if constexpr (std::variant_size_v<Var> == 1) CHK(7, valueIs(*r, I, 0), "value of the chosen alternative");
                    else { constexpr std::size_t s = slot<T, Var>::get(); CHK(7, (*r).index() == s, "value stored in another type's variant alternative"); if ((*r).index() == s) CHK(7, valueIs(std::get<s>(*r), I, 0), "value of the chosen alternative"); } } };
                [&]<std::size_t... I>(std::index_sequence<I...>) { (one.template operator()<I, Res>(), ...); }(std::make_index_sequence<k>{});
            } }
        else sx_cover("*reject");
    }
}
#define Q(n, ...) ENTRY(choice_##n) { choice<__VA_ARGS__>(); }
LISTS2(Q) LISTS3(Q) LISTS4(Q)
// alternatives whose results are themselves compound, convertible into each other, or can only be moved
using Sp = tk::output_span<char>; using M = Tok<103, MOVEONLY>; template <class... T> using Tu = std::tuple<T...>; template <class... T> using Va = std::variant<T...>; template <class T> using Op = std::optional<T>; template <class T> using Ve = std::vector<T>; template <class T> using Ar = std::array<T, 2>; template <class... T> using Pr = std::pair<T...>;
#define QV(n, ...) ENTRY(choice_##n) { vectors = true; choice<__VA_ARGS__>(); }
QV(variant, Va<A, B>, Va<A, B>) QV(variant_a, Va<A, B>, A) QV(a_variant, A, Va<A, B>, B) QV(variants, Va<A, B>, V, Va<B, A>, Va<A, B>) QV(opt_a, Op<A>, A) QV(a_opt, A, Op<A>, A) QV(opts, Op<A>, Op<Op<A>>, V, Op<A>) QV(tuples, Tu<A, B>, Pr<A, B>, Tu<A>, A) QV(vecs, Ve<A>, V, A, Ve<A>) QV(bools, bool, Op<bool>, Sp, bool) QV(moves, M, V, A, M) QV(moved, M, M) QV(arrays, Ar<A>, Tu<A, A>, Ar<A>) QV(one_variant, Va<A, B>, V)
Q(aabbv, A, A, B, B, V) Q(avbvca, A, V, B, V, C_, A) Q(abcabc, A, B, C_, A, B, C_) Q(vvabba, V, V, A, B, B, A)
#if TIER
LISTS5(Q)
#endif
// the same parser several times, under every grouping; stubs 0 and 1 give A, 2 gives B, 3 nothing
template <int I> using Of = std::conditional_t<I < 2, A, std::conditional_t<I == 2, B, void>>;
template <class Var, int... Id, class P> void againIs(P p, const Input<char>& inp, Out o, int chosen) {
    using Exp = typename unwrap<Var>::type; if constexpr (LAWS) laws(p, inp, o); else {
        for (int& h : hits) h = 0; for (int& c : parses) c = 0; loose = ~0u; auto r = p.parse(inp.span()); loose = 0; observe(r); SPLIT(r, o); using Got = typename std::remove_cvref_t<decltype(r)>::value_type; CHK(7, (std::same_as<Got, Exp>), "result type of a choice");
        constexpr int ids[] = { Id... }; bool upTo[IDS] = {}; for (int i = 0; i < int(sizeof...(Id)) && i <= chosen; ++i) upTo[ids[i]] = true;
        for (int i = 0; i < IDS; ++i) CHKN(L({7}), !upTo[i] ? parses[i] == 0 : hits[i] == (chosen < int(sizeof...(Id)) && i == ids[chosen]), "the alternative that succeeds first is not parsed once, or a later one is run");
        if constexpr (std::same_as<Got, Exp> && !std::is_void_v<Got>) if (r && chosen < int(sizeof...(Id))) { int c = ids[chosen]; auto one = [&]<int I>() { if constexpr (!std::is_void_v<Of<I>>) if (c == I) { if constexpr (is_tok<Got>::value) CHK(7, valueIs(*r, I, 0), "value of the chosen alternative"); else { constexpr std::size_t s = slot<Of<I>, Var>::get(); CHK(7, (*r).index() == s, "value stored in another type's variant alternative"); if ((*r).index() == s) CHK(7, valueIs(std::get<s>(*r), I, 0), "value of the chosen alternative"); } } }; (one.template operator()<Id>(), ...); } } }
template <int... Id> void again() { auto inp = input(1ull << 36); constexpr int ids[] = { Id... }; constexpr int k = sizeof...(Id); using Var = typename distinct<std::variant<>, Of<Id>...>::type;
    Out o{ false, 0 }; int chosen = k; for (int i = 0; i < k && !o.ok; ++i) { Out q = ref(ids[i], 0); if (q.ok) { o = q; chosen = i; } } if (o.ok) sx_cover("*accept"); else sx_cover("*reject");
    againIs<Var, Id...>((... | S<Id, Of<Id>>{}), inp, o, chosen); againIs<Var, Id...>((S<Id, Of<Id>>{} | ...), inp, o, chosen);
    if constexpr (k == 4) [&]<int a, int b, int c, int d>(std::integer_sequence<int, a, b, c, d>) { constexpr S<a, Of<a>> A_; constexpr S<b, Of<b>> B_; constexpr S<c, Of<c>> C__; constexpr S<d, Of<d>> D_; againIs<Var, Id...>((A_ | B_) | (C__ | D_), inp, o, chosen); againIs<Var, Id...>(A_ | ((B_ | C__) | D_), inp, o, chosen); againIs<Var, Id...>((A_ | (B_ | C__)) | D_, inp, o, chosen); }(std::integer_sequence<int, Id...>()); }
#define AG(a, b, c) ENTRY(again_##a##b##c) { again<a, b, c>(); }
#define AH(a, b, c, d) ENTRY(again_##a##b##c##d) { again<a, b, c, d>(); }
AG(0, 0, 0) AG(0, 0, 1) AG(0, 1, 0) AG(0, 1, 1) AG(0, 0, 2) AG(0, 2, 0) AG(0, 2, 2) AG(0, 3, 0) AG(3, 0, 3) AG(0, 0, 3) AG(3, 3, 0) AG(3, 0, 0)
AH(0, 0, 1, 1) AH(0, 1, 0, 1) AH(0, 1, 1, 0) AH(0, 1, 2, 0) AH(0, 1, 2, 1) AH(0, 1, 2, 2) AH(0, 2, 0, 2) AH(0, 2, 1, 0) AH(0, 2, 2, 0) AH(3, 0, 2, 3) AH(0, 3, 0, 2) AH(0, 3, 2, 3) AH(0, 0, 2, 2) AH(0, 1, 0, 2) AH(2, 0, 1, 0) AH(0, 3, 3, 0)
// many
ENTRY(many_8) { again<0, 1, 2, 3, 4, 5, 6, 7>(); } ENTRY(many_11) { again<0, 1, 2, 3, 0, 2, 4, 1, 5, 0, 2>(); } ENTRY(many_late) { again<3, 4, 5, 6, 7, 3, 2, 4, 0, 6>(); } ENTRY(many_void) { again<3, 4, 5, 6, 7, 3, 4, 5, 6>(); } ENTRY(many_same) { again<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>(); }
template <int... I> void distinctTypes(std::integer_sequence<int, I...>) { choice<Tok<200 + I>...>(); } ENTRY(types_8) { distinctTypes(std::make_integer_sequence<int, 8>()); }
