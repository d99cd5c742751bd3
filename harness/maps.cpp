// Value transformations (C14) and filters (C15) of arbitrary parsers. Acceptance and consumption also serve C01, lookahead C02.
#include "h.h"
using A = Tok<100>; using B = Tok<101>; using M = Tok<102, MOVEONLY>; using C_ = Tok<103, COPYONLY>; using ND = Tok<104, NODEFAULT>; using Sp = tk::output_span<char>; using Y = Tok<50, MOVEONLY>; using Z = Tok<51>;
namespace sxh { inline int fcalls, gcalls, ctors; inline u64 argPos[6]; inline bool argsOk; inline bool verdict; inline u64 order; inline bool verdicts[16]; inline unsigned looks = ~0u; }
// a value of stub i at argPos[i], as it arrives at a callable
template <class T> void arrives(const T& v, int i) { if (!valueIs<T>(v, i, argPos[i])) argsOk = false; }
inline void reset() { fcalls = gcalls = ctors = 0; argsOk = true; for (int& c : parses) c = 0; }
template <class P, class In> void lookNoCall(P p, const In& in, Out o) { if constexpr (PROP == 0 || PROP == 14 || PROP == 15) { reset(); auto l = p.lookahead(in.span()); (void)l; sx_assert(fcalls == 0 && gcalls == 0 && ctors == 0, "lookahead invokes a callable"); }
    if constexpr (PROP == 2) { reset(); lawsOf(p, in, Out{ false, 0 }, o, true, [] { return fcalls + gcalls + ctors; }); } }
// look: lookahead is that of o as well (no filter inside)
template <int Prop, class P, class In, class F> void run(P p, const In& in, Out o, int calls, F check, bool look = true) {
    if constexpr (LAWS) { reset(); if (look || PROP != 2) lawsOf(p, in, o, Out{ false, 0 }, false, [] { return fcalls + gcalls + ctors; }); }
    else { reset(); loose = looks; auto r = p.parse(in.span()); loose = 0; observe(r); SPLIT(r, o);
        CHK(Prop, fcalls == calls, "the callable is not invoked exactly once per success of the wrapped parser"); CHK(Prop, argsOk, "the callable gets something else than the wrapped parser's result");
        if (r) { sx_cover("*accept"); if constexpr (PROP == 0 || PROP == Prop) check(r); } else sx_cover("*reject");
        if (look) lookNoCall(p, in, o); } }
constexpr auto anyRes = [](const auto&) {};
#if PROP != 15
template <class Res> struct Built { Res v; Built(Res x) : v(std::move(x)) { ++fcalls; arrives(v, 0); } }; template <> struct Built<void> { Built() { ++fcalls; } };
struct Deflt { u64 k = 42; Deflt() { ++fcalls; } };
template <class Res> void maps() { vectors = is_vector<Res>::value;
    minLen = 0; maxLen = 2; auto in = input(1ull << 36); constexpr S<0, Res> s; Out o = ref(0, 0); int n = o.ok; argPos[0] = 0;
    if constexpr (std::is_void_v<Res>) {
        run<14>(map<[] { ++fcalls; return Y(9, 8, 7); }>(s), in, o, n, [](const auto& r) { sx_assert((*r).is(9, 8, 7), "the callable's return value is not the result"); });
        run<14>(s % map<[] { ++fcalls; }>, in, o, n, anyRes);
    } else {
        run<14>(map<[](Res v) { ++fcalls; arrives(v, 0); return Y(9, 8, 7); }>(s), in, o, n, [](const auto& r) { sx_assert((std::same_as<typename std::remove_cvref_t<decltype(r)>::value_type, Y>), "result type of map"); sx_assert((*r).is(9, 8, 7), "the callable's return value is not the result"); });
        run<14>(s % map<[](const Res& v) { ++fcalls; arrives(v, 0); }>, in, o, n, [](const auto& r) { sx_assert(std::is_void_v<typename std::remove_cvref_t<decltype(r)>::value_type>, "result type of map"); });
        run<14>(s % map<[](Res&& v) { ++fcalls; arrives(v, 0); return std::move(v); }>, in, o, n, [](const auto& r) { sx_assert(valueIs<Res>(*r, 0, 0), "a value passed through a callable changes"); });
        run<14>(s % map<[](auto&& v) { ++fcalls; arrives(v, 0); return std::optional<Z>(); }>, in, o, n, [](const auto& r) { sx_assert(!*r, "an empty optional returned by a callable changes"); });
        run<14>(s % map<[](auto v) { ++fcalls; arrives(v, 0); return false; }>, in, o, n, [](const auto& r) { sx_assert(!*r, "a false returned by a callable changes"); });
        run<14>(s % map<[](auto v) { ++fcalls; arrives(v, 0); return Z(1, 2, 3); }> % map<[](Z z) { ++gcalls; if (!z.is(1, 2, 3) || fcalls != 1) argsOk = false; return Y(4, 5, 6); }>, in, o, n, [](const auto& r) { sx_assert((*r).is(4, 5, 6) && gcalls == 1, "a chain of callables"); });
    }
    run<14>(into<Built<Res>>(s), in, o, n, [](const auto& r) { sx_assert((std::same_as<typename std::remove_cvref_t<decltype(r)>::value_type, Built<Res>>), "result type of into"); if constexpr (!std::is_void_v<Res>) sx_assert(valueIs<Res>((*r).v, 0, 0), "into"); });
    run<14>(constant<77>(s), in, o, 0, [](const auto& r) { sx_assert(*r == 77, "the result of constant is not its value"); sx_assert((std::same_as<typename std::remove_cvref_t<decltype(r)>::value_type, int>), "result type of constant"); });
    run<14>(constant<nullptr>(s), in, o, 0, [](const auto& r) { sx_assert(*r == nullptr, "the result of constant is not its value"); }); run<14>(s % constant<false>, in, o, 0, [](const auto& r) { sx_assert(*r == false, "the result of constant is not its value"); });
    run<14>(defaulted<Deflt>(s), in, o, n, [](const auto& r) { sx_assert((*r).k == 42, "the result of defaulted is not a default value"); });
    run<14>(defaulted<int>(s), in, o, 0, [](const auto& r) { sx_assert(*r == 0, "the result of defaulted is not value-initialised"); });
    run<14>(s % defaulted<std::optional<int>>, in, o, 0, [](const auto& r) { sx_assert(!*r, "the result of defaulted is not a default value"); });
}
#define P1(n, T) ENTRY(map_##n) { maps<T>(); }
P1(tok, A) P1(void, void) P1(move, M) P1(copy, C_) P1(span, Sp) P1(bool, bool) P1(opt, std::optional<A>) P1(vec, std::vector<A>) P1(nodef, ND)
// other kinds of callable
inline Y freeFn(A a) { ++fcalls; arrives(a, 0); return Y(3, 3, 3); }
struct Callee { int k; constexpr Callee(int k) : k(k) {} Y operator()(A a) const { ++fcalls; arrives(a, 0); return Y(k, 0, 0); } };
struct Holder { A a; Y take() const { ++fcalls; arrives(a, 0); return Y(5, 5, 5); } };
ENTRY(map_kinds) { minLen = 0; maxLen = 2; auto in = input(1ull << 36); constexpr S<0, A> s; Out o = ref(0, 0); int n = o.ok; argPos[0] = 0;
    run<14>(map<freeFn>(s), in, o, n, [](const auto& r) { sx_assert((*r).is(3, 3, 3), "map of a function"); }); run<14>(map<&freeFn>(s), in, o, n, [](const auto& r) { sx_assert((*r).is(3, 3, 3), "map of a function pointer"); });
    run<14>(map<Callee(6)>(s), in, o, n, [](const auto& r) { sx_assert((*r).is(6, 0, 0), "map of a function object"); }); run<14>(s % map<[](A a) { return Holder{ a }; }> % map<&Holder::take>, in, o, n, [](const auto& r) { sx_assert((*r).is(5, 5, 5), "map of a member function"); }); }
// the apply forms: the elements, in order
template <int... I> constexpr auto applyFn = [](auto&&... v) { ++fcalls; static_assert(sizeof...(v) == sizeof...(I)); (arrives(v, I), ...); return Y(sizeof...(v), 1, 1); };
template <int... I> constexpr auto applyVoid = [](auto&&... v) { ++fcalls; (arrives(v, I), ...); };
template <int... I> constexpr auto applyZero = [](auto... v) { ++fcalls; (arrives(v, I), ...); return 0; };
template <int... I> struct Taken { std::size_t k; template <class... T> Taken(T&&... v) requires (sizeof...(T) == sizeof...(I) && sizeof...(T) > 1) : k(sizeof...(v)) { ++fcalls; (arrives(v, I), ...); } Taken(Taken&& o) noexcept : k(o.k) {} };
template <int... I, class P> void applied(P p, const Input<char>& in, Out o) { int n = o.ok;
    run<14>(apply<applyFn<I...>>(p), in, o, n, [](const auto& r) { sx_assert((*r).is(sizeof...(I), 1, 1), "the callable's return value is not the result of apply"); });
    run<14>(p % apply<applyVoid<I...>>, in, o, n, anyRes);
    run<14>(p % apply<applyZero<I...>>, in, o, n, [](const auto& r) { sx_assert(*r == 0, "a zero returned by a callable changes"); });
    run<14>(apply_into<Taken<I...>>(p), in, o, n, [](const auto& r) { sx_assert((*r).k == sizeof...(I), "apply_into"); }); }
template <class... T> void applySeq() { minLen = 0; maxLen = 2; auto in = input(1ull << 36); Out o{ true, 0 };
    for (int i = 0; i < int(sizeof...(T)) && o.ok; ++i) { argPos[i] = o.end; Out q = ref(i, o.end); o = Out{ q.ok, q.end }; }
    [&]<std::size_t... I>(std::index_sequence<I...>) { applied<I...>((... >> S<I, T>{}), in, o); }(std::index_sequence_for<T...>()); }
ENTRY(apply2) { applySeq<A, B>(); } ENTRY(apply2same) { applySeq<A, A>(); } ENTRY(apply3) { applySeq<A, B, A>(); } ENTRY(apply4) { applySeq<A, A, B, Sp>(); } ENTRY(apply5) { applySeq<A, B, A, A, std::optional<B>>(); } ENTRY(apply_move) { minLen = 0; maxLen = 2; auto in = input(1ull << 36); Out a = ref(0, 0), o = a.ok ? ref(1, a.end) : a; argPos[0] = 0; argPos[1] = a.end;
    run<14>(apply<[](M a, M b) { ++fcalls; arrives(a, 0); arrives(b, 1); return b; }>(stub<0, M> >> stub<1, M>), in, o, o.ok, [](const auto& r) { sx_assert(valueIs<M>(*r, 1, argPos[1]), "apply"); }); }
ENTRY(apply_void) { minLen = 0; maxLen = 2; auto in = input(1ull << 36); Out o{ true, 0 }; for (int i = 0; i < 4 && o.ok; ++i) { argPos[i] = o.end; o = ref(i, o.end); }
    applied<1, 3>(stub<0, void> >> stub<1, A> >> stub<2, void> >> stub<3, B>, in, o); }
ENTRY(apply_array) { minLen = 0; maxLen = 2; auto in = input(1ull << 36); Out o{ true, 0 }; u64 p[4] = {}; for (int i = 0; i < 3 && o.ok; ++i) { p[i] = o.end; o = ref(0, o.end); } int n = o.ok; for (int i = 0; i < 3; ++i) argPos[i] = p[i];
    auto q = exactly<3>(stub<0, A>);
    run<14>(apply<[](A a, A b, A c) { ++fcalls; if (!valueIs<A>(a, 0, argPos[0]) || !valueIs<A>(b, 0, argPos[1]) || !valueIs<A>(c, 0, argPos[2])) argsOk = false; return Y(1, 0, 0); }>(q), in, o, n, [](const auto& r) { sx_assert((*r).is(1, 0, 0), "apply of an array"); });
    struct T3 { T3(A&& a, A&& b, A&& c) { ++fcalls; if (!valueIs<A>(a, 0, argPos[0]) || !valueIs<A>(b, 0, argPos[1]) || !valueIs<A>(c, 0, argPos[2])) argsOk = false; } }; run<14>(q % apply_into<T3>, in, o, n, anyRes); }
ENTRY(apply_pair) { vectors = true; minLen = 1; maxLen = 1; stopAt = 4; auto in = input(1ull << 36); Out o = ref(0, 0); int np = o.ok; u64 e = o.end; while (o.ok) { Out d = ref(1, e); if (!d.ok) break; Out b = ref(0, d.end); if (!b.ok) break; e = b.end; ++np; } o.end = e; argPos[0] = np;
    run<14>(apply<[](std::vector<A> v, std::vector<B> d) { ++fcalls; if (v.size() != argPos[0] || d.size() + 1 != v.size() || !valueIs<A>(v[0], 0, 0)) argsOk = false; return Y(2, 0, 0); }>(delimit_keep(stub<0, A>, stub<1, B>)), in, o, o.ok, [](const auto& r) { sx_assert((*r).is(2, 0, 0), "apply of a pair"); }); }
// inside combinators: once for every success of the wrapped parser, in order; nothing after a failure
constexpr auto tally = [](auto) { ++fcalls; order = order * 10 + 1; }; constexpr auto tallyV = [](auto v) { ++fcalls; order = order * 10 + 2; return v; };
ENTRY(in_sequence) { minLen = 0; maxLen = 1; auto in = input(1ull << 36); Out a = ref(0, 0), b = a.ok ? ref(1, a.end) : a, c = b.ok ? ref(2, b.end) : b; int n = a.ok + (a.ok && b.ok); Out o{ c.ok, c.end }; if (n == 2 && !o.ok) sx_cover("*fails last");
    run<14>(map<tally>(stub<0, A>) >> map<tallyV>(stub<1, B>) >> stub<2, void>, in, o, n, anyRes); run<14>((stub<0, A> % map<tally>) >> (stub<1, B> % map<tally>) >> stub<2, A>, in, o, n, anyRes);
    if constexpr (!LAWS) { reset(); order = 0; auto r = ((stub<0, A> % map<tally>) >> (stub<1, A> % map<tallyV>) >> stub<2, A>).parse(in.span()); sx_assert(order == (n == 2 ? 12 : n), "callables of a sequence run out of order"); sx_observe((bool)r); } }
ENTRY(in_choice) { minLen = 0; maxLen = 1; auto in = input(1ull << 36); Out a = ref(0, 0), b = ref(1, 0); Out o = a.ok ? a : b;
    run<14>(map<tally>(stub<0, A>) | map<[](auto) { ++gcalls; }>(stub<1, B>), in, o, a.ok, [&](const auto&) { sx_assert(gcalls == (!a.ok && b.ok), "the callable of an alternative not taken, or not that of the one taken, is invoked"); });
    run<14>(map<tallyV>(stub<0, A>) | map<[](auto v) { ++gcalls; return v; }>(stub<1, B>), in, o, a.ok, [&](const auto&) { sx_assert(gcalls == (!a.ok && b.ok), "the callable of an alternative not taken, or not that of the one taken, is invoked"); });
    Out c = ref(2, 0), aq = a.ok ? ref(1, a.end) : a; run<14>(map<tally>(stub<0, A>) >> stub<1, B> | map<[](auto) { ++gcalls; }>(stub<2, A>), in, aq.ok ? aq : c, a.ok, [&](const auto&) { sx_assert(gcalls == (!aq.ok && c.ok), "callables of a choice after a failed alternative"); }); }
ENTRY(in_repeat) { vectors = true; minLen = 1; maxLen = 2; stopAt = TIER ? 8 : 5; auto in = input(1ull << 36); int n = 0; u64 e = 0; for (;;) { Out o = ref(0, e); if (!o.ok) break; ++n; e = o.end; } if (n > 1) sx_cover("*many"); Out one = ref(0, 0); Out two = one.ok ? ref(0, one.end) : one;
    run<14>(*map<tally>(stub<0, A>), in, Out{ true, e }, n, anyRes); run<14>(+map<tally>(stub<0, A>), in, Out{ n > 0, e }, n, anyRes); run<14>(~map<tally>(stub<0, A>), in, Out{ true, one.ok ? one.end : 0 }, one.ok, anyRes); run<14>(exactly<2>(map<tally>(stub<0, A>)), in, two, one.ok + two.ok, anyRes);
    run<14>(*map<tallyV>(stub<0, A>), in, Out{ true, e }, n, anyRes); run<14>(+map<tallyV>(stub<0, A>), in, Out{ n > 0, e }, n, anyRes); run<14>(~map<tallyV>(stub<0, A>), in, Out{ true, one.ok ? one.end : 0 }, one.ok, anyRes); run<14>(exactly<2>(map<tallyV>(stub<0, A>)), in, two, one.ok + two.ok, anyRes);
    run<14>(complete(map<tallyV>(stub<0, A>)), in, Out{ one.ok && one.end == in.n, one.end }, one.ok, anyRes); run<14>(name<"x">(map<tally>(stub<0, A>)), in, one, one.ok, anyRes);
    sx_cover("*reject"); }
ENTRY(in_delimit) { looks = 1; vectors = true; minLen = 1; maxLen = 1; stopAt = 5; auto in = input(1ull << 36); Out o = ref(0, 0); int np = o.ok; u64 e = o.end; while (o.ok) { Out d = ref(1, e); if (!d.ok) break; Out b = ref(0, d.end); if (!b.ok) break; e = b.end; ++np; } o.end = e; if (np > 1) sx_cover("*many");
    run<14>(delimit(map<tallyV>(stub<0, A>), map<[](auto) { ++gcalls; return A(); }>(stub<1, B>)), in, o, np, [](const auto&) { sx_assert(gcalls == 0, "the delimiter of delimit is only looked ahead"); }); run<14>(delimit(map<tally>(stub<0, A>), stub<1, B>), in, o, np, anyRes); }
#endif
#if PROP == 0 || PROP == 15 || LAWPROP
// ---- filters: the predicate's verdict is arbitrary
template <class Res> void filters() { vectors = is_vector<Res>::value;
    minLen = 0; maxLen = 2; auto in = input(1ull << 36); constexpr S<0, Res> s; Out o = ref(0, 0); int n = o.ok; argPos[0] = 0; verdict = sx_fork(sx_sym("verdict", 1)); Out f{ o.ok && verdict, o.end };
    if (o.ok && !verdict) sx_cover("*filtered out");
    auto look = [&](auto p) { lookNoCall(p, in, o); };
    auto untouched = [](const auto& r) { using Got = typename std::remove_cvref_t<decltype(r)>::value_type; sx_assert((std::same_as<Got, Res>), "result type of filter"); if constexpr (!std::is_void_v<Res>) sx_assert(valueIs<Res>(*r, 0, 0), "filter changes the result"); };
    if constexpr (std::is_void_v<Res>) { auto p = filter<[] { ++fcalls; return verdict; }>(s); run<15>(p, in, f, n, untouched, false); look(p); }
    else {
        auto p = filter<[](const Res& v) { ++fcalls; arrives(v, 0); return verdict; }>(s); run<15>(p, in, f, n, untouched, false); look(p);
        auto q = s % filter<[](auto&& v) -> int { ++fcalls; arrives(v, 0); static_assert(std::is_const_v<std::remove_reference_t<decltype(v)>>); return verdict ? 256 : 0; }>; run<15>(q, in, f, n, untouched, false); look(q);
        auto t = s % filter<[](const auto& v) { ++fcalls; arrives(v, 0); return verdict; }> % filter<[](const auto& v) { ++gcalls; arrives(v, 0); return true; }>; run<15>(t, in, f, n, [](const auto&) { sx_assert(gcalls == 1, "a second filter is not asked exactly once"); }, false);
        if constexpr (!std::same_as<Res, M>) { auto u = s % filter<[](auto v) { ++fcalls; arrives(v, 0); return verdict; }>; run<15>(u, in, f, n, untouched, false); }
        // as a part: a rejected match is a failure like any other
        Out g = ref(1, 0); auto c = p | stub<1, Res>; run<15>(c, in, f.ok ? f : g, n, [&](const auto& r) { if constexpr (std::same_as<typename std::remove_cvref_t<decltype(r)>::value_type, Res>) sx_assert(valueIs<Res>(*r, f.ok ? 0 : 1, 0), "value of the alternative after a rejected one"); }, false);
        auto m = ~p; run<15>(m, in, Out{ true, f.ok ? f.end : 0 }, n, [&](const auto& r) { sx_assert((*r).has_value() == f.ok, "an optional of a rejected match"); }, false);
        Out sq = f.ok ? ref(1, f.end) : f; run<15>(p >> stub<1, A>, in, sq, n, anyRes, false); run<15>(complete(p), in, Out{ f.ok && f.end == in.n, f.end }, n, anyRes, false); }
    run<15>(stub<1, A> >> filter<[](auto&&...) { ++fcalls; return verdict; }>(s), in, [&] { Out x = ref(1, 0); if (!x.ok) return x; Out y = ref(0, x.end); return Out{ y.ok && verdict, y.end }; }(), [&] { Out x = ref(1, 0); return int(x.ok && ref(0, x.end).ok); }(), anyRes, false);
}
// arrives() looks at position 0 only; the last form above uses the predicate without it
#define F1(n, T) ENTRY(filter_##n) { filters<T>(); }
F1(tok, A) F1(void, void) F1(move, M) F1(copy, C_) F1(span, Sp) F1(bool, bool) F1(opt, std::optional<A>) F1(vec, std::vector<A>)
template <int... I, class P> void filtered(P p, const Input<char>& in, Out o) { int n = o.ok; Out f{ o.ok && verdict, o.end };
    run<15>(apply_filter<[](auto&&... v) { ++fcalls; (arrives(v, I), ...); static_assert((... && std::is_const_v<std::remove_reference_t<decltype(v)>>)); return verdict; }>(p), in, f, n, [](const auto& r) { int j[] = { I... }; int k = 0; std::apply([&](const auto&... v) { ((arrives(v, j[k]), ++k), ...); }, *r); sx_assert(argsOk, "apply_filter changes the result"); }, false);
    lookNoCall(p % apply_filter<[](auto&&...) { ++fcalls; return verdict; }>, in, o); }
template <class... T> void filterSeq() { minLen = 0; maxLen = 2; verdict = sx_fork(sx_sym("verdict", 1)); auto in = input(1ull << 36); Out o{ true, 0 }; for (int i = 0; i < int(sizeof...(T)) && o.ok; ++i) { argPos[i] = o.end; o = ref(i, o.end); }
    [&]<std::size_t... I>(std::index_sequence<I...>) { filtered<I...>((... >> S<I, T>{}), in, o); }(std::index_sequence_for<T...>()); }
ENTRY(apply_filter2) { filterSeq<A, B>(); } ENTRY(apply_filter3) { filterSeq<A, A, B>(); } ENTRY(apply_filter_move) { filterSeq<M, A>(); } ENTRY(apply_filter4) { filterSeq<A, Sp, std::optional<B>, A>(); }
// per match: the verdict depends on where the match is
ENTRY(filter_repeat) { vectors = true; minLen = 1; maxLen = 1; stopAt = TIER ? 8 : 5; auto in = input(1ull << 36); constexpr S<0, A> s; for (u64 i = 0; i < stopAt; ++i) verdicts[i] = sx_fork(sx_sym("verdict", 1));
    int n = 0, asked = 0; u64 e = 0; for (;;) { Out o = ref(0, e); if (!o.ok) break; ++asked; if (!verdicts[e]) break; ++n; e = o.end; } if (asked > n && n) sx_cover("*stopped by the filter");
    auto p = filter<[](const A& v) { ++fcalls; if (!v.is(1, v.pos, 1)) argsOk = false; return verdicts[v.pos]; }>(s);
    run<15>(*p, in, Out{ true, e }, asked, [&](const auto& r) { sx_assert((*r).size() == std::size_t(n), "a rejected match is in the result, or an accepted one is not"); }, false); run<15>(+p, in, Out{ n > 0, e }, asked, [&](const auto& r) { sx_assert((*r).size() == std::size_t(n), "a rejected match is in the result, or an accepted one is not"); }, false);
    run<15>(exactly<2>(p), in, Out{ n >= 2, 2 }, asked < 2 ? asked : 2, anyRes, false); sx_cover("*reject"); }
#endif
