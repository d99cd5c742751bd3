// Operators: the rewrites they do never change what is accepted and consumed (C13).
#include "h.h"
using A = Tok<100>; using B = Tok<101>; using Sp = tk::output_span<char>;
constexpr int K = TIER ? 8 : 5;
template <class P, class In> void lang(P p, const In& in, Out o) { // language only: the shape of results is the operators' own
    loose = ~0u; auto r = p.parse(in.span()); observe(r); loose = 0; sx_assert((bool)r == o.ok, "acceptance differs from the expression as written"); sx_assert(restIs(r.remaining(), o.ok ? o.end : 0), "consumption differs from the expression as written");
    auto l = p.lookahead(in.span()); sx_assert((bool)l == o.ok, "lookahead differs from the expression as written"); sx_assert(restIs(l.remaining(), o.ok ? o.end : 0), "lookahead's consumption differs from the expression as written"); }
// ---- stacks of ~ * +
template <char O, class P> constexpr auto op(P p) { if constexpr (O == '~') return ~p; else if constexpr (O == '*') return *p; else return +p; }
template <class Res, char... O> void stack(std::integer_sequence<char, O...>) { // outermost first
    minLen = 1; maxLen = 2; stopAt = K; auto in = input(1ull << 36); constexpr S<0, Res> s;
    constexpr char ops[] = { O... }; bool many = false, opt = false; for (char c : ops) { many = many | (c != '~'); opt = opt | (c != '+'); }
    int n = 0; u64 end = 0; while (many || n < 1) { Out o = ref(0, end); if (!o.ok) break; ++n; end = o.end; }
    if (n) sx_cover("*match"); else sx_cover("*none");
    auto build = [&]<std::size_t I>(auto self, std::integral_constant<std::size_t, I>) { if constexpr (I == sizeof...(O)) return s; else return op<ops[I]>(self(self, std::integral_constant<std::size_t, I + 1>())); };
    lang(build(build, std::integral_constant<std::size_t, 0>()), in, Out{ opt || n > 0, end }); }
template <class Res, char... O> void stacks() { stack<Res>(std::integer_sequence<char, O...>()); }
#define S2(n, a, b) ENTRY(stack_##n) { stacks<A, a, b>(); } ENTRY(stackv_##n) { stacks<void, a, b>(); }
S2(mm, '~', '~') S2(ms, '~', '*') S2(mp, '~', '+') S2(sm, '*', '~') S2(ss, '*', '*') S2(sp, '*', '+') S2(pm, '+', '~') S2(ps, '+', '*') S2(pp, '+', '+')
#define S3(n, a, b) ENTRY(stack3_m##n) { stacks<A, '~', a, b>(); } ENTRY(stack3_s##n) { stacks<A, '*', a, b>(); } ENTRY(stack3_p##n) { stacks<A, '+', a, b>(); }
S3(mm, '~', '~') S3(ms, '~', '*') S3(mp, '~', '+') S3(sm, '*', '~') S3(ss, '*', '*') S3(sp, '*', '+') S3(pm, '+', '~') S3(ps, '+', '*') S3(pp, '+', '+')
// ---- grouping: every way of bracketing 3 and 4 parts gives the same parser
template <class P, class In, class F> void same(P p, const In& in, Out o, F valueOk) {
    loose = ~0u; auto r = p.parse(in.span()); observe(r); loose = 0; sx_assert((bool)r == o.ok, "acceptance depends on grouping"); sx_assert(restIs(r.remaining(), o.ok ? o.end : 0), "consumption depends on grouping"); valueOk(r);
    auto l = p.lookahead(in.span()); sx_assert((bool)l == o.ok, "lookahead depends on grouping"); sx_assert(restIs(l.remaining(), o.ok ? o.end : 0), "lookahead's consumption depends on grouping"); }
template <class... T, class R> bool slots(const R& r, const u64* pos) { // the values of a sequence result, in order
    using Got = typename std::remove_cvref_t<R>::value_type; bool ok = true;
    constexpr int nv = (0 + ... + !std::is_void_v<T>);
    [&]<std::size_t... I>(std::index_sequence<I...>) { ([&] { if constexpr (!std::is_void_v<T>) { constexpr bool vs[] = { !std::is_void_v<T>... }; constexpr int slot = [] { int k = 0; for (std::size_t j = 0; j < I; ++j) k += vs[j]; return k; }();
        if constexpr (nv == 1) { static_assert(std::same_as<Got, T>); ok = ok & valueIs<T>(*r, I, pos[I]); } else { static_assert(std::same_as<std::tuple_element_t<slot, Got>, T>); ok = ok & valueIs<T>(std::get<slot>(*r), I, pos[I]); } } }(), ...); }(std::index_sequence_for<T...>());
    return ok; }
template <class T0, class T1, class T2, class T3> void seq4() {
    minLen = 0; maxLen = 2; auto in = input(1ull << 36); constexpr S<0, T0> a; constexpr S<1, T1> b; constexpr S<2, T2> c; constexpr S<3, T3> d;
    u64 pos[5] = {}; int n = 0; for (; n < 4; ++n) { Out o = ref(n, pos[n]); if (!o.ok) break; pos[n + 1] = o.end; } Out o4{ n == 4, pos[n] }, o3{ n >= 3, pos[n >= 3 ? 3 : 0] };
    if (n == 4) sx_cover("*all"); else sx_cover("*some");
    auto v4 = [&](const auto& r) { if (r) { if constexpr (!std::is_void_v<T0> || !std::is_void_v<T1> || !std::is_void_v<T2> || !std::is_void_v<T3>) sx_assert(slots<T0, T1, T2, T3>(r, pos), "a value depends on grouping"); } };
    auto v3 = [&](const auto& r) { if (r) { if constexpr (!std::is_void_v<T0> || !std::is_void_v<T1> || !std::is_void_v<T2>) sx_assert(slots<T0, T1, T2>(r, pos), "a value depends on grouping"); } };
    same((a >> b) >> c, in, o3, v3); same(a >> (b >> c), in, o3, v3);
    same(((a >> b) >> c) >> d, in, o4, v4); same((a >> (b >> c)) >> d, in, o4, v4); same((a >> b) >> (c >> d), in, o4, v4); same(a >> ((b >> c) >> d), in, o4, v4); same(a >> (b >> (c >> d)), in, o4, v4); }
template <class T, class L> struct holds : std::false_type {};
template <class T, class... D> struct holds<T, std::variant<D...>> : std::bool_constant<(... || std::same_as<T, D>)> {};
template <class T, class R> void chosenIs(const R& r, int w, int i) { using Got = typename R::value_type;
    if constexpr (!std::is_void_v<T> && !std::is_void_v<Got>) { if (w != i) return;
        if constexpr (std::same_as<Got, T>) sx_assert(valueIs<T>(*r, i, 0), "the value depends on grouping");
        else if constexpr (holds<T, Got>::value) { auto q = std::get_if<T>(&*r); sx_assert(q && valueIs<T>(*q, i, 0), "the value depends on grouping"); } } }
template <class T0, class T1, class T2, class T3> void cho4() {
    minLen = 0; maxLen = 2; auto in = input(1ull << 36); constexpr S<0, T0> a; constexpr S<1, T1> b; constexpr S<2, T2> c; constexpr S<3, T3> d;
    int w = 0; while (w < 4 && !ref(w, 0).ok) ++w; Out o4{ w < 4, 0 }, o3{ w < 3, 0 }; if (w < 4) o4.end = ref(w, 0).end; if (w < 3) o3.end = o4.end;
    if (w == 3) sx_cover("*last"); else if (w == 4) sx_cover("*none"); else sx_cover("*earlier");
    auto val = [&](const auto& r) { if (r) { chosenIs<T0>(r, w, 0); chosenIs<T1>(r, w, 1); chosenIs<T2>(r, w, 2); chosenIs<T3>(r, w, 3); } };
    same((a | b) | c, in, o3, val); same(a | (b | c), in, o3, val);
    same(((a | b) | c) | d, in, o4, val); same((a | (b | c)) | d, in, o4, val); same((a | b) | (c | d), in, o4, val); same(a | ((b | c) | d), in, o4, val); same(a | (b | (c | d)), in, o4, val); }
#define G(n, ...) ENTRY(seq_##n) { seq4<__VA_ARGS__>(); } ENTRY(cho_##n) { cho4<__VA_ARGS__>(); }
G(1, A, B, A, Sp) G(2, A, void, B, void) G(3, void, A, void, Sp) G(4, void, void, void, void) G(5, A, A, A, A) G(6, void, void, Sp, A) G(7, Sp, A, void, A) G(8, B, void, void, A) G(9, void, A, A, void)
// ---- repeated alternatives, eps, and operators mixed
ENTRY(dup) { minLen = 0; maxLen = 2; auto in = input(1ull << 36); constexpr S<0, A> a; constexpr S<1, B> b; Out oa = ref(0, 0), ob = ref(1, 0); if (oa.ok) sx_cover("*a"); else if (ob.ok) sx_cover("*b"); else sx_cover("*none");
    Out ab = oa.ok ? oa : ob, ba = ob.ok ? ob : oa; Out sq = oa.ok ? ref(1, oa.end) : Out{ false, 0 };
    lang(a | a, in, oa); lang(a | b | a, in, ab); lang(a | (b | a), in, ab); lang((a | b) | (a | b), in, ab); lang((a | b) | (b | a), in, ab); lang(b | (a | a), in, ba); lang((a | a) | b, in, ab);
    lang((a >> b) | (a >> b), in, sq); lang((a >> b) | a, in, sq.ok ? sq : oa); lang(a | (a >> b), in, oa); }
ENTRY(dup_rep) { minLen = 1; maxLen = 1; stopAt = 3; auto in = input(1ull << 36); constexpr S<0, A> a; u64 e = 0; for (;;) { Out o = ref(0, e); if (!o.ok) break; e = o.end; } Out st{ true, e }, pl{ e > 0, e }, one = ref(0, 0);
    if (e > 1) sx_cover("*many"); if (e == 0) sx_cover("*none");
    lang(*a | *a, in, st); lang(+a | +a, in, pl); lang(+a | *a, in, st); lang(~a | ~a, in, Out{ true, one.ok ? one.end : 0 }); lang(*(a | a), in, st); lang(+(+a | +a), in, pl); lang(~(*a | *a), in, st);
    auto rr = (*a >> ~a).parse(in.span()); sx_assert((bool)rr & restIs(rr.remaining(), e), "*a >> ~a"); auto r2 = (*a >> a).parse(in.span()); sx_assert(!r2 & restIs(r2.remaining(), 0), "*a leaves nothing for a further a"); }
ENTRY(eps) { minLen = 0; maxLen = 2; auto in = input(1ull << 36); constexpr S<0, A> a; constexpr S<1, B> b; constexpr S<2, void> v; Out oa = ref(0, 0), ob = ref(1, 0), ov = ref(2, 0), no{ true, 0 }; if (oa.ok) sx_cover("*a"); else if (ob.ok) sx_cover("*b"); else sx_cover("*none");
    lang(a | k3::tok3n::eps, in, oa.ok ? oa : no); lang(a | b | k3::tok3n::eps, in, oa.ok ? oa : ob.ok ? ob : no); lang((a | k3::tok3n::eps) | b, in, oa.ok ? oa : no); lang(v | k3::tok3n::eps, in, ov.ok ? ov : no); lang(k3::tok3n::eps.of<char>, in, no); lang((a | k3::tok3n::eps) | k3::tok3n::eps, in, oa.ok ? oa : no); lang(k3::tok3n::eps.of<char> | k3::tok3n::eps, in, no);
    Out aeb = ref(1, oa.ok ? oa.end : 0); lang((a | k3::tok3n::eps) >> b, in, aeb); lang(k3::tok3n::eps.of<char> >> b, in, ob); lang(b >> k3::tok3n::eps.of<char>, in, ob); }
ENTRY(mixed) { minLen = 0; maxLen = 1; auto in = input(1ull << 36); constexpr S<0, A> a; constexpr S<1, void> b; constexpr S<2, B> c; Out oa = ref(0, 0), ob = ref(1, 0); Out bc = ob.ok ? ref(2, ob.end) : Out{ false, 0 }; Out t = oa.ok ? oa : ob; Out abc = t.ok ? ref(2, t.end) : Out{ false, 0 };
    if (abc.ok) sx_cover("*yes"); else sx_cover("*no");
    lang(a | b >> c, in, oa.ok ? oa : bc); lang((a | b) >> c, in, abc); lang(~a >> c, in, ref(2, oa.ok ? oa.end : 0)); lang((a >> c) | b, in, [&] { Out q = oa.ok ? ref(2, oa.end) : Out{ false, 0 }; return q.ok ? q : ob; }()); lang(a >> (b | c), in, [&] { if (!oa.ok) return oa; Out q = ref(1, oa.end); return q.ok ? q : ref(2, oa.end); }()); }
// ---- literals and classes: fused where the library can, same language
template <std::size_t N> bool at(const Input<char>& in, u64 from, const char(&s)[N]) { bool m = in.n >= from + N - 1; if (m) for (u64 i = 0; i < N - 1; ++i) m = m & (in.p[from + i] == s[i]); return m; }
ENTRY(literals) { auto in = input(1ull << 36); Out abcd{ at(in, 0, "abcd"), 4 }, ab{ at(in, 0, "ab"), 2 }, abc{ at(in, 0, "abc"), 3 }, axc{ in.n > 2 && (in.p[0] == 'a') & ((in.p[1] == 'x') | (in.p[1] == 'y')) & (in.p[2] == 'c'), 3 };
    if (sx_fork(abcd.ok)) sx_cover("*abcd"); else if (sx_fork(axc.ok)) sx_cover("*axc");
    lang("ab"_all >> "cd"_all, in, abcd); lang("a"_all >> "b"_all >> "c"_all >> "d"_all, in, abcd); lang("a"_all >> ("b"_all >> ("c"_all >> "d"_all)), in, abcd); lang(("a"_all >> "b"_all) >> ("c"_all >> "d"_all), in, abcd); lang("abcd"_all >> ""_all, in, abcd); lang(""_all >> "abcd"_all, in, abcd);
    lang("ab"_ign >> "cd"_all, in, abcd); lang("ab"_all >> "cd"_ign, in, abcd); lang("ab"_ign >> "cd"_ign, in, abcd); lang(L"ab"_all >> L"cd"_all, in, abcd);
    lang("a"_all >> "xy"_any >> "c"_all, in, axc); lang("a"_any >> ("yx"_any >> "c"_all), in, axc); lang(("a"_all >> "x"_any) >> "c"_any | "ayc"_all, in, axc);
    lang("ab"_all | "abcd"_all, in, ab); lang("abcd"_all | "ab"_all, in, abcd.ok ? abcd : ab); lang("abc"_all | "ab"_all | "abcd"_all, in, abc.ok ? abc : ab); lang(("ab"_all | "x"_any) >> "cd"_all, in, [&] { Out o{ abcd.ok || (in.n > 2 && (in.p[0] == 'x') & at(in, 1, "cd")), 0 }; o.end = abcd.ok ? 4 : 3; return o; }()); }
ENTRY(classes) { minLen = 0; maxLen = 2; auto in = input(1ull << 36); constexpr S<0, A> p; Out op = ref(0, 0); char c = in.n ? in.p[0] : 0; bool a = sx_fork(in.n && (c == 'a' || c == 'b')), b = sx_fork(in.n && (c == 'b' || c == 'c')), nb = in.n && !(c == 'b' || c == 'c'); Out one{ true, 1 }, no{ false, 0 };
    auto A_ = "ab"_any; auto B_ = "bc"_any; if (a && b) sx_cover("*both"); else if (op.ok) sx_cover("*p");
    lang(A_ | p, in, a ? one : op); lang(p | A_, in, op.ok ? op : a ? one : no); lang((A_ | p) | B_, in, a ? one : op.ok ? op : b ? one : no); lang(A_ | (p | B_), in, a ? one : op.ok ? op : b ? one : no); lang((p | A_) | (B_ | p), in, op.ok ? op : a || b ? one : no); lang((A_ | B_) | p, in, a || b ? one : op); lang(p | (A_ | B_), in, op.ok ? op : a || b ? one : no);
    lang(A_ | !B_ | p, in, a || sx_fork(nb) ? one : op); lang(p | "ab"_all | A_, in, op.ok ? op : sx_fork(at(in, 0, "ab")) ? Out{ true, 2 } : a ? one : no); }
