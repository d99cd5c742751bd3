// Repetitions of an arbitrary sub-parser: ~ * + (C08), exactly<N> (C09), delimit and delimit_keep (C10).
#define STUB_POS 70
#include "h.h"
using A = Tok<100>; using B = Tok<101>; using Sp = tk::output_span<char>; using ND = Tok<104, NODEFAULT>;
constexpr int K = TIER ? 9 : 6;
struct Hits { u64 pos[70]; int n = 0; u64 end = 0; };
inline Hits run(int id, int max = 19) { Hits h; while (h.n < max) { Out o = ref(id, h.end); if (!o.ok) break; h.pos[h.n++] = h.end; h.end = o.end; } return h; }
template <class Res, class R> void listIs(int prop, const R& v, int id, const Hits& h) {
    sx_assert(v.size() == std::size_t(h.n), "number of results differs from the number of matches");
    for (int i = 0; i < h.n; ++i) sx_assert(valueIs<Res>(v[i], id, h.pos[i]), "a result differs from what its match gave, or is out of order"); }

#if PROP == 0 || PROP == 8 || LAWPROP
template <class Res, int Kind> void rep() { loose = ~0u; // 0 ~  1 *  2 +
    minLen = Kind == 0 ? 0 : 1; maxLen = 2; stopAt = Kind == 0 ? 1 : K;
    auto inp = input(1ull << 36); constexpr S<0, Res> s; Hits h = run(0, Kind == 0 ? 1 : 19); Out o{ Kind != 2 || h.n > 0, h.end };
    auto p = [&] { if constexpr (Kind == 0) return ~s; else if constexpr (Kind == 1) return *s; else return +s; }();
    if constexpr (LAWS) { vectors = is_vector<Res>::value; laws(p, inp, o); }
    else {
        auto r = p.parse(inp.span()); observe(r); SPLIT(r, o); using Got = typename decltype(r)::value_type;
        if constexpr (PROP == 8 || PROP == 0) {
            sx_assert(hits[0] == h.n, "the sub-parser is not applied once for each match until it first fails");
            if constexpr (std::is_void_v<Res>) sx_assert(std::is_void_v<Got>, "result type");
            else if constexpr (Kind == 0) { sx_assert(std::same_as<Got, std::optional<Res>>, "result type"); if (r) { sx_assert((*r).has_value() == (h.n == 1), "an optional is empty exactly when there was no match"); if (*r) sx_assert(valueIs<Res>(**r, 0, 0), "value of the match"); } }
            else { sx_assert(std::same_as<Got, std::vector<Res>>, "result type"); if (r) listIs<Res>(8, *r, 0, h); } }
        if (h.n == 0) sx_cover("*none"); else if (h.n > 1) sx_cover(Kind ? "*several" : "several"); }
}
#define R3(n, T) ENTRY(maybe_##n) { rep<T, 0>(); } ENTRY(star_##n) { rep<T, 1>(); } ENTRY(plus_##n) { rep<T, 2>(); }
R3(tok, A) R3(void, void) R3(span, Sp) R3(bool, bool) R3(opt, std::optional<A>) R3(vec, std::vector<A>) R3(nodef, ND)
#endif

#if PROP == 0 || PROP == 9 || LAWPROP
template <class Res, int N> void exact() { loose = ~0u;
    auto inp = input(1ull << 36); constexpr S<0, Res> s; Hits h = run(0, N); Out o{ h.n == N, h.end };
    if (o.ok) sx_cover("*N matches"); else sx_cover("*fewer");
    auto p = exactly<N>(s);
    if constexpr (LAWS) { vectors = is_vector<Res>::value; laws(p, inp, o); }
    else {
        auto r = p.parse(inp.span()); observe(r); SPLIT(r, o); using Got = typename decltype(r)::value_type;
        if constexpr (PROP == 9 || PROP == 0) {
            sx_assert(o.ok ? hits[0] == N && parses[0] == N : hits[0] <= h.n, "more than N matches attempted, or a match attempted twice");
            if constexpr (std::is_void_v<Res>) sx_assert(std::is_void_v<Got>, "result type");
            else { sx_assert(std::same_as<Got, std::array<Res, N>>, "result type"); if (r) listIs<Res>(9, *r, 0, h); } } }
}
#define X(N) ENTRY(exactly_tok_##N) { exact<A, N>(); } ENTRY(exactly_void_##N) { exact<void, N>(); } ENTRY(exactly_span_##N) { exact<Sp, N>(); } ENTRY(exactly_opt_##N) { exact<std::optional<A>, N>(); } ENTRY(exactly_bool_##N) { exact<bool, N>(); }
X(1) X(2) X(3) X(4)
#define XL(N) ENTRY(exactly_tok_##N) { minLen = maxLen = 1; exact<A, N>(); } ENTRY(exactly_void_##N) { minLen = maxLen = 1; exact<void, N>(); } ENTRY(exactly_span_##N) { minLen = maxLen = 1; exact<Sp, N>(); }
XL(8) XL(16) XL(17) XL(33)
#if TIER
X(5) X(6)
XL(9) XL(15) XL(31) XL(32) XL(63) XL(64) XL(65)
#endif
#endif

#if PROP == 0 || PROP == 10 || LAWPROP
template <class P, class D, bool Keep> void delim() { loose = Keep ? 3 : 1;
    minLen = 0; maxLen = 1; stopAt = K; auto inp = input(1ull << 36); constexpr S<0, P> s; constexpr S<1, D> d; u64 pp[20], dp[20]; int np = 0, nd = 0;
    Out o = ref(0, 0); bool dangling = false; if (o.ok) { pp[np++] = 0;
        while (np < 8) { Out a = ref(1, o.end); if (!a.ok) break; Out b = ref(0, a.end); if (!b.ok) { dangling = true; break; }
            sx_assume(b.end > o.end); // progress: the repeated pair consumes something
            dp[nd++] = o.end; pp[np++] = a.end; o.end = b.end; } }
    sx_assume(np < 8);
    auto p = [&] { if constexpr (Keep) return delimit_keep(s, d); else return delimit(s, d); }();
    auto q = [&] { if constexpr (Keep) return s % delimit_keep(d); else return s % delimit(d); }();
    auto check = [&](auto r) { observe(r); SPLIT(r, o); using Got = typename decltype(r)::value_type; constexpr bool hp = !std::is_void_v<P>, hd = Keep && !std::is_void_v<D>;
        if constexpr (PROP == 10 || PROP == 0) {
            auto ps = [&](const auto& v) { sx_assert(v.size() == std::size_t(np), "number of element results"); for (int i = 0; i < np; ++i) sx_assert(valueIs<P>(v[i], 0, pp[i]), "an element's result is wrong or out of order"); };
            auto ds = [&](const auto& v) { sx_assert(v.size() == std::size_t(nd), "number of delimiter results"); for (int i = 0; i < nd; ++i) sx_assert(valueIs<D>(v[i], 1, dp[i]), "a delimiter's result is wrong or out of order"); };
            if constexpr (hp && hd) { sx_assert(std::same_as<Got, std::pair<std::vector<P>, std::vector<D>>>, "result type"); if (r) { ps((*r).first); ds((*r).second); } }
            else if constexpr (hp) { sx_assert(std::same_as<Got, std::vector<P>>, "result type"); if (r) ps(*r); }
            else if constexpr (hd) { sx_assert(std::same_as<Got, std::vector<D>>, "result type"); if (r) ds(*r); }
            else sx_assert(std::is_void_v<Got>, "result type"); } };
    if constexpr (LAWS) { laws(p, inp, o); laws(q, inp, o); } else { check(p.parse(inp.span())); check(q.parse(inp.span())); }
    if (dangling) sx_cover("*dangling delimiter"); if (np == 0) sx_cover("*none"); if (np > 2) sx_cover("*several");
}
ENTRY(delimit_aa) { delim<A, B, false>(); } ENTRY(delimit_av) { delim<A, void, false>(); } ENTRY(delimit_va) { delim<void, A, false>(); } ENTRY(delimit_vv) { delim<void, void, false>(); }
ENTRY(keep_aa) { delim<A, B, true>(); } ENTRY(keep_av) { delim<A, void, true>(); } ENTRY(keep_va) { delim<void, B, true>(); } ENTRY(keep_vv) { delim<void, void, true>(); } ENTRY(keep_same) { delim<A, A, true>(); }
ENTRY(delimit_nodef) { delim<ND, Sp, false>(); } ENTRY(keep_nodef) { delim<ND, ND, true>(); } ENTRY(delimit_span) { delim<Sp, Sp, false>(); } ENTRY(keep_span) { delim<Sp, Sp, true>(); } ENTRY(delimit_opt) { delim<std::optional<A>, bool, true>(); } ENTRY(keep_bool) { delim<bool, bool, true>(); }
// lists longer than any block a loop over them would be cut into, of classes and literals
template <class V, class P, class D> void list(P p, D d, V comma) {
    constexpr int L0 = TIER ? 30 : 15, L1 = TIER ? 37 : 20; vectors = true;
    auto in = input<V>(L1); sx_assume(in.n >= L0); u64 n = sx_fork(in.n), end = 0; auto el = [&](u64 i) { return (in.p[i] == 'a') | (in.p[i] == 'b'); };
    bool ok = sx_fork(el(0)); if (ok) { end = 1; while (end + 1 < n && sx_fork((in.p[end] == comma) & el(end + 1))) end += 2; }
    Out o{ ok, end }; if (ok && end + 1 >= L0) sx_cover("*long list"); if (!ok) sx_cover("*none"); if (ok && end < n) sx_cover("*rest left");
    auto a = delimit(p, d), b = p % delimit(d); auto k = delimit_keep(p, d);
    if constexpr (LAWS) { laws(a, in, o); laws(b, in, o); laws(k, in, o); }
    else {
        auto at = [&](const auto& v, u64 from) { sx_assert(v.size() == (end + 1 - from) / 2, "number of results of a long list"); for (u64 i = 0; i < v.size(); ++i) sx_assert(spanIs(v[i], 2 * i + from, 2 * i + from + 1), "a result of a long list is wrong or out of order"); };
        auto check = [&](auto r) { observe(r); SPLIT(r, o); if (r) at(*r, 0); }; check(a.parse(in.span())); check(b.parse(in.span()));
        auto r = k.parse(in.span()); observe(r); SPLIT(r, o);
        if (r) { if constexpr (requires { (*r).first; }) { at((*r).first, 0); at((*r).second, 1); } else at(*r, 0); } }
}
ENTRY(long_list_any) { list<char>(any<"ab">, any<",">, ','); } ENTRY(long_list_all) { list<char>(any<"ab">, all<",">, ','); } ENTRY(long_list_ignored) { list<char>(any<"ab">, ignore(all<",">), ','); } ENTRY(long_list_int) { list<int>(any_of<97, 98>, any_of<-1>, -1); }
ENTRY(long_list_wide) { list<wchar_t>(any<L"ab">, all<L"\x100">, L'\x100'); }
#endif
