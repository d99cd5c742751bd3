// Sequences of arbitrary parts: acceptance, consumption, results, order (C06), and lookahead (C02), calls (C14/C15 via parts).
#include "h.h"
using A = Tok<100>; using B = Tok<101>; using C_ = Tok<102>;
template <class... Res, std::size_t... I> auto build(std::index_sequence<I...>) { return (... >> S<I, Res>{}); }

template <class... Res> struct Want { // the result type
    template <class T> static auto one() { if constexpr (std::is_void_v<T>) return std::tuple<>{}; else return std::tuple<std::type_identity<T>>{}; }
    template <class... T> static auto wrap(std::tuple<T...>) { if constexpr (sizeof...(T) == 0) return std::type_identity<void>{}; else if constexpr (sizeof...(T) == 1) return std::get<0>(std::tuple<T...>{}); else return std::type_identity<std::tuple<typename T::type...>>{}; }
    using type = typename decltype(wrap(std::tuple_cat(one<Res>()...)))::type;
};
template <class... Res> void seq() { loose = ~0u;
    constexpr int k = sizeof...(Res); constexpr bool voids[] = { std::is_void_v<Res>... };
    auto in = input(1ull << 36); auto p = build<Res...>(std::make_index_sequence<k>{});
    u64 at[k + 1]; Out o{ true, 0 }; int failedAt = k;
    for (int i = 0; i < k; ++i) { at[i] = o.end; Out q = ref(i, o.end); if (!q.ok) { o.ok = false; failedAt = i; break; } o.end = q.end; }
    if constexpr (LAWS) laws(p, in, o);
    else {
        auto r = p.parse(in.span()); observe(r); SPLIT(r, o);
        using Got = typename std::remove_cvref_t<decltype(r)>::value_type; using Exp = typename Want<Res...>::type;
        CHK(6, (std::same_as<Got, Exp>), "result type of a sequence");
        for (int i = 0; i < k; ++i) CHKN(L({6, 14, 15}), o.ok ? hits[i] == 1 : hits[i] <= (i < failedAt), "a part is not parsed exactly once, or one after a failure is");
        if (r) { sx_cover("*accept");
            if constexpr (std::same_as<Got, Exp> && !std::is_void_v<Got>) {
                auto check = [&]<std::size_t J>(auto self, std::index_sequence<J>) { };
                (void)check; int i = 0; while (voids[i]) ++i;
                auto go = [&](const auto&... v) { auto one = [&](const auto& x) { CHK(6, valueIs(x, i, at[i]), "value of a part in a sequence's result"); ++i; while (i < k && voids[i]) ++i; }; (one(v), ...); };
                if constexpr (k - (0 + ... + int(std::is_void_v<Res>)) == 1) go(*r); else std::apply(go, *r);
            } }
        else sx_cover("*reject");
    }
}
#include "lists.h"
#define Q(n, ...) ENTRY(seq_##n) { seq<__VA_ARGS__>(); }
LISTS2(Q) LISTS3(Q) LISTS4(Q)
// parts whose results are themselves compound, or can only be moved
using Sp = tk::output_span<char>; using M = Tok<103, MOVEONLY>; template <class... T> using Tu = std::tuple<T...>; template <class... T> using Va = std::variant<T...>; template <class T> using Op = std::optional<T>; template <class T> using Ve = std::vector<T>; template <class T> using Ar = std::array<T, 2>; template <class... T> using Pr = std::pair<T...>;
#define QV(n, ...) ENTRY(seq_##n) { vectors = true; maxLen = 1; seq<__VA_ARGS__>(); }
QV(tuple, Tu<A, B>) QV(tuple_a, Tu<A, B>, A) QV(a_tuple, A, Tu<A, B>) QV(tuples, Tu<A, B>, V, Tu<A, B>) QV(tuple1, Tu<A>, Tu<A>) QV(void_tuple, V, Tu<A, A>, V) QV(variant_a, Va<A, B>, A) QV(opts, Op<A>, Op<A>, A) QV(vecs, Ve<A>, V, Ve<A>) QV(array_pair, Ar<A>, Pr<A, B>) QV(spans, Sp, Sp, V, Sp) QV(bools, bool, bool, V, Op<bool>) QV(moves, M, V, M, A) QV(nested, Tu<Tu<A>, Op<B>>, Va<Tu<A>, B>) QV(moved, V, M)
#if TIER
Q(vavbva, V, A, V, B, V, A) Q(aabbvv, A, A, B, B, V, V) Q(vvvvva, V, V, V, V, V, A) Q(avbvav, A, V, B, V, A, V)
LISTS5(Q)
#endif
// the same parser several times, under every grouping; stubs 0 and 1 give A, 2 gives B, 3 nothing
template <int I> using Of = std::conditional_t<I < 2, A, std::conditional_t<I == 2, B, void>>;
template <class Exp, int... Id, class P> void againIs(P p, const Input<char>& in, Out o, const u64* at) {
    if constexpr (LAWS) laws(p, in, o); else { constexpr int k = sizeof...(Id); constexpr int ids[] = { Id... }; constexpr bool voids[] = { std::is_void_v<Of<Id>>... };
        loose = ~0u; auto r = p.parse(in.span()); loose = 0; observe(r); SPLIT(r, o); using Got = typename decltype(r)::value_type; CHK(6, (std::same_as<Got, Exp>), "result type of a sequence");
        if constexpr (std::same_as<Got, Exp> && !std::is_void_v<Got>) if (r) { int i = 0; while (voids[i]) ++i; auto go = [&](const auto&... v) { auto one = [&](const auto& x) { CHK(6, valueIs(x, ids[i], at[i]), "value of a part in a sequence's result"); ++i; while (i < k && voids[i]) ++i; }; (one(v), ...); }; if constexpr (is_tok<Got>::value) go(*r); else std::apply(go, *r); } } }
template <int... Id> void again() { auto in = input(1ull << 36); constexpr int k = sizeof...(Id); constexpr int ids[] = { Id... }; using Exp = typename Want<Of<Id>...>::type; u64 at[k + 1]; Out o{ true, 0 };
    for (int i = 0; i < k; ++i) { at[i] = o.end; Out q = ref(ids[i], o.end); if (!q.ok) { o.ok = false; break; } o.end = q.end; } if (o.ok) sx_cover("*accept"); else sx_cover("*reject");
    againIs<Exp, Id...>((... >> S<Id, Of<Id>>{}), in, o, at); againIs<Exp, Id...>((S<Id, Of<Id>>{} >> ...), in, o, at);
    if constexpr (k == 4) [&]<int a, int b, int c, int d>(std::integer_sequence<int, a, b, c, d>) { constexpr S<a, Of<a>> A_; constexpr S<b, Of<b>> B_; constexpr S<c, Of<c>> C__; constexpr S<d, Of<d>> D_; againIs<Exp, Id...>((A_ >> B_) >> (C__ >> D_), in, o, at); againIs<Exp, Id...>(A_ >> ((B_ >> C__) >> D_), in, o, at); againIs<Exp, Id...>((A_ >> (B_ >> C__)) >> D_, in, o, at); }(std::integer_sequence<int, Id...>()); }
#define AG(a, b, c) ENTRY(again_##a##b##c) { again<a, b, c>(); }
#define AH(a, b, c, d) ENTRY(again_##a##b##c##d) { again<a, b, c, d>(); }
AG(0, 0, 0) AG(0, 0, 1) AG(0, 1, 0) AG(0, 1, 1) AG(0, 2, 0) AG(0, 3, 0) AG(3, 0, 3) AG(0, 0, 3) AG(3, 3, 0)
AH(0, 0, 1, 1) AH(0, 1, 0, 1) AH(0, 1, 1, 0) AH(0, 1, 2, 0) AH(0, 2, 0, 2) AH(3, 0, 2, 3) AH(0, 3, 0, 2) AH(0, 3, 3, 0)
// long ones
template <int... Id> void many() { minLen = maxLen = 1; again<Id...>(); }
ENTRY(many_8) { many<0, 1, 2, 3, 4, 5, 6, 7>(); } ENTRY(many_11) { many<0, 1, 2, 3, 0, 2, 4, 1, 5, 0, 2>(); } ENTRY(many_void) { many<3, 4, 5, 6, 7, 3, 4, 5, 6>(); } ENTRY(many_one) { many<3, 4, 5, 6, 7, 3, 2, 4, 5, 6>(); } ENTRY(many_same) { many<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>(); }
#if TIER
ENTRY(many_15) { many<1, 2, 0, 0, 3, 1, 1, 2, 4, 5, 2, 0, 1, 3, 2>(); }
#endif
