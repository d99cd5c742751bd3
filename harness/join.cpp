// join over a parser returning any nesting of spans, anywhere in the input (C11; C01, C02 reuse it).
#include "h.h"
namespace sxh { inline u64 made[40]; inline int nMade, nUsed; template <class F> u64 decided(F f) { if constexpr (PROP != 28) return f(); else { if (nUsed == nMade) made[nMade++] = f(); return made[nUsed++]; } } // the same choices in every parse
inline int spansMade; inline u64 got[12][2]; inline bool present[12]; inline bool accept; inline u64 inner; }
// builds a value of the result type and the list of its spans
template <class V> struct Make {
    using Sp = tk::output_span<V>;
    static Sp one(const V* p) { u64 n = total; u64 len = decided([] { return sx_range("len", 0, 1ull << 36); }), off = decided([] { return sx_range("off", 0, 1ull << 36); }); sx_assume(off <= n); sx_assume(len <= n - off); got[spansMade][0] = off; got[spansMade][1] = len; present[spansMade++] = true; return Sp(std::span<const V>(p + off, len)); }
    static void value(std::type_identity<Sp>, const V* p, auto k) { k(one(p)); }
    template <class T> static T make(const V* p) {
        if constexpr (std::same_as<T, Sp>) return one(p);
        else if constexpr (is_optional<T>::value) { if (decided([] { return sx_fork(sx_sym("has", 1)); })) return T(std::in_place, make<typename T::value_type>(p)); return T(); }
        else if constexpr (is_vector<T>::value) { T r; u64 n = decided([] { return sx_fork(sx_range("count", 0, std::same_as<typename T::value_type, Sp> ? (TIER ? 4 : 3) : 2)); }); for (u64 i = 0; i < n; ++i) r.push_back(make<typename T::value_type>(p)); return r; }
        else return seq<T>(p, std::make_index_sequence<std::tuple_size_v<T>>()); }
    template <class T, std::size_t... I> static T seq(const V* p, std::index_sequence<I...>) { return T{ make<std::tuple_element_t<I, T>>(p)... }; } // braces: left to right
};
template <class T, class V> struct Src : tk::custom_parser<Src<T, V>, V> {
    template <class> using result_for = T;
    template <class R> static tk::result<T, V> parse(R&& r) { tk::input_span<V> in{ std::forward<R>(r) }; ++calls; if constexpr (PROP == 28) { spansMade = 0; nUsed = 0; } if (!sx_fork(accept)) return { tk::failure_tag, in };
        return { tk::success_tag, Make<V>::template make<T>(in.data()), tk::input_span<V>{ std::span<const V>(in.data() + inner, in.size() - inner) } }; }
    template <class R> static tk::result<void, V> lookahead(R&& r) { tk::input_span<V> in{ std::forward<R>(r) }; ++lookaheads[0]; if (!sx_fork(accept)) return { tk::failure_tag, in };
        return { tk::success_tag, tk::input_span<V>{ std::span<const V>(in.data() + inner, in.size() - inner) } }; }
};
template <class T, class V = char> void joined() {
    auto in = input<V>(1ull << 36); accept = sx_sym("accept", 1); inner = sx_range("consumed", 0, 1ull << 36); sx_assume(inner <= in.n); spansMade = 0; calls = 0;
    constexpr Src<T, V> s; auto p = join(s);
    if constexpr (LAWS) { vectors = true; Out lo{ bool(sx_fork(accept)), inner };
        if constexpr (PROP != 1) lawsOf(p, in, Out{ false, 0 }, lo, true, [] { return calls; }); // C01 in detail below
        else { auto l = p.lookahead(in.span()); splitIs(l, lo); } }
    if constexpr (!LAWS || PROP == 1) {
    spansMade = 0; calls = 0; auto r = p.parse(in.span()); observe(r);
    // reference: fold over the spans in order
    bool any = false, ok = sx_fork(accept); u64 from = 0, to = 0;
    if (ok) for (int i = 0; i < spansMade; ++i) { u64 off = got[i][0], len = got[i][1]; bool use = sx_fork(len != 0); if (!use) continue;
        if (!any) { any = true; from = off; to = off + len; } else if (sx_fork(off == to)) to += len; else { ok = false; break; } }
    sx_assert((bool)r == ok, "join accepts output that is not contiguous, or rejects contiguous output"); CHKN(L({1, 11}), (bool)r != ok || restIs(r.remaining(), ok ? inner : 0), "join's remaining input");
    if (r && any) CHKN(L({1, 11}), !ok || spanIs(*r, from, to), "joined span is not the one from the first to the last");
    if (r && !any && ok) { auto d = reinterpret_cast<std::uintptr_t>((*r).data()) - reinterpret_cast<std::uintptr_t>(base); CHKN(L({1, 11}), (*r).size() == 0, "joined span of nothing is not empty"); CHKN(L({1, 11}), d <= total * esize, "an empty joined span lies outside the input"); }
    if (!ok && accept) sx_cover("gap"); else if (!ok) sx_cover("*reject"); else if (any && from) sx_cover("*joined"); else if (!any) sx_cover("nothing"); }
}
using Sp = tk::output_span<char>; template <class... T> using Tu = std::tuple<T...>; template <class T> using Ve = std::vector<T>; template <class T> using Op = std::optional<T>; template <class T, int N> using Ar = std::array<T, N>;
ENTRY(span) { joined<Sp>(); } ENTRY(opt) { joined<Op<Sp>>(); } ENTRY(vec) { joined<Ve<Sp>>(); } ENTRY(arr2) { joined<Ar<Sp, 2>>(); } ENTRY(arr3) { joined<Ar<Sp, 3>>(); } ENTRY(tup2) { joined<Tu<Sp, Sp>>(); } ENTRY(tup3) { joined<Tu<Sp, Sp, Sp>>(); }
ENTRY(tup_opt) { joined<Tu<Sp, Op<Sp>, Sp>>(); } ENTRY(tup_vec) { joined<Tu<Ve<Sp>, Sp>>(); } ENTRY(vec_tup) { joined<Ve<Tu<Sp, Sp>>>(); } ENTRY(vec_vec) { joined<Ve<Ve<Sp>>>(); } ENTRY(opt_vec) { joined<Op<Ve<Sp>>>(); } ENTRY(vec_opt) { joined<Ve<Op<Sp>>>(); }
ENTRY(arr_opt) { joined<Ar<Op<Sp>, 2>>(); } ENTRY(opt_opt) { joined<Op<Op<Sp>>>(); } ENTRY(tup_arr) { joined<Tu<Ar<Sp, 2>, Sp>>(); } ENTRY(arr_tup) { joined<Ar<Tu<Sp, Op<Sp>>, 2>>(); } ENTRY(arr_vec) { joined<Ar<Ve<Sp>, 2>>(); } ENTRY(opt_tup) { joined<Op<Tu<Sp, Sp>>>(); } ENTRY(tup_nested) { joined<Tu<Tu<Sp, Op<Sp>>, Sp>>(); }
using Sw = tk::output_span<wchar_t>; using Si = tk::output_span<long long>; struct P12 { int a, b, c; bool operator==(const P12&) const = default; }; using S12 = tk::output_span<P12>;
ENTRY(wspan) { joined<Sw, wchar_t>(); } ENTRY(wtup3) { joined<Tu<Sw, Sw, Sw>, wchar_t>(); } ENTRY(wvec) { joined<Ve<Sw>, wchar_t>(); } ENTRY(ltup) { joined<Tu<Si, Op<Si>>, long long>(); } ENTRY(structs) { joined<Tu<S12, S12>, P12>(); }
#if TIER
ENTRY(tup4) { joined<Tu<Sp, Sp, Sp, Sp>>(); } ENTRY(deep1) { joined<Ve<Op<Tu<Sp, Sp>>>>(); } ENTRY(deep2) { joined<Tu<Op<Ve<Sp>>, Ar<Sp, 2>>>(); } ENTRY(deep3) { joined<Op<Ar<Ve<Sp>, 2>>>(); } ENTRY(deep4) { joined<Tu<Ve<Tu<Sp, Op<Sp>>>, Sp>>(); } ENTRY(deep5) { joined<Ar<Ar<Sp, 2>, 2>>(); }
#endif
