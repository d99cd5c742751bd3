// The algebraic example's grammar against a recogniser written from its rules (C24).
#include "examples/algebraic/parser.h"
#include "h.h"
#include <cstdlib>
static Input<char> input_(u64 max) { return sxh::input(max); } // the example has an input of its own
static const char* sxhP; static u64 sxhN;
struct Res { bool ok; u64 end; };
static bool is(u64 i, const char* set) { if (i >= sxhN) return false; bool m = false; for (; *set; ++set) m = m | (sxhP[i] == *set); return m; }
static bool dig(u64 i) { return i < sxhN && ((sxhP[i] >= '0') & (sxhP[i] <= '9')); }
static u64 wsR(u64 i) { while (is(i, "\t\n\r ")) ++i; return i; }
static u64 digits(u64 i) { while (dig(i)) ++i; return i; }
static Res exprR(u64 i, const expr::result_type* v);
static Res numberR(u64 i, const number::result_type* v) { u64 a = i; if (!dig(i)) return { false, a }; i = digits(i); u64 e1 = i, f0 = 0, f1 = 0, x0 = 0, x1 = 0; if (is(i, ".") && dig(i + 1)) { f0 = i + 1; f1 = i = digits(i + 1); } if (is(i, "Ee")) { u64 j = i + 1; if (is(j, "-")) ++j; if (dig(j)) { x0 = i + 1; x1 = i = digits(j); } }
    if (v) { sx_assert(spanIs(v->integer, a, e1), "the integer part of a number"); sx_assert(v->decimal.has_value() == (f1 != 0) && (!v->decimal || spanIs(*v->decimal, f0, f1)), "the fraction of a number"); sx_assert(v->exponent.has_value() == (x1 != 0) && (!v->exponent || spanIs(*v->exponent, x0, x1)), "the exponent of a number"); } return { true, i }; }
static Res powR(u64 i, const powterm::result_type* v) { u64 a = i; if (is(i, "(")) { u64 k = wsR(i + 1); Res e = exprR(k, nullptr); if (e.ok) { u64 j = wsR(e.end); if (is(j, ")")) { if (v) { bool ok = v->data.index() == 0; sx_assert(ok, "the kind of a term"); if (ok) exprR(k, &std::get<0>(v->data).data); } return { true, j + 1 }; } } }
    if (is(i, "-")) { u64 k = wsR(i + 1); Res e = exprR(k, nullptr); if (e.ok) { if (v) { bool ok = v->data.index() == 1; sx_assert(ok, "the kind of a term"); if (ok) exprR(k, &std::get<1>(v->data).data); } return e; } }
    if (v) { bool ok = v->data.index() == 2; sx_assert(ok, "the kind of a term"); return numberR(i, ok ? &std::get<2>(v->data) : nullptr); } return numberR(a, nullptr); }
template <class V, class D, class F> static Res list(u64 i, const char* ops, const V* v, const D* d, F item) { u64 a = i; u64 k = wsR(i); Res r = item(k, nullptr); if (!r.ok) return { false, a }; u64 n = 1; if (v) { sx_assert(v->size() > 0, "the number of operands"); if (v->size() > 0) item(k, &(*v)[0]); } i = r.end;
    for (;;) { u64 j = wsR(i); if (!is(j, ops)) break; u64 m = wsR(j + 1); Res q = item(m, nullptr); if (!q.ok) break; if (v) { sx_assert(v->size() > n, "the number of operands"); if (v->size() > n) item(m, &(*v)[n]); } if (d) { sx_assert(d->size() > n - 1, "the number of operators"); if (d->size() > n - 1) sx_assert(spanIs((*d)[n - 1], j, j + 1), "an operator"); } ++n; i = q.end; }
    if (v) sx_assert(v->size() == n, "the number of operands"); if (d) sx_assert(d->size() == n - 1, "the number of operators"); return { true, i }; }
static Res factorR(u64 i, const factor::result_type* v) { return list(i, "^", v, (const std::vector<std::string_view>*)nullptr, powR); }
static Res termR(u64 i, const term::result_type* v) { return list(i, "*/", v ? &v->first : nullptr, v ? &v->second : nullptr, factorR); }
static Res exprR(u64 i, const expr::result_type* v) { return list(i, "+-", v ? &v->first : nullptr, v ? &v->second : nullptr, termR); }
static Res inputR(u64 i, const expr::result_type* v) { Res e = exprR(wsR(i), v); if (!e.ok) return { false, i }; u64 k = wsR(e.end); return { k == sxhN, k == sxhN ? k : i }; }
template <class G, class F> void check(G g, const Input<char>& in, F reference) {
    sxhP = in.p; sxhN = in.n; Res w = reference(0, nullptr); Out o{ w.ok, w.end }; if (o.ok) sx_cover("*accept"); else sx_cover("reject"); if constexpr (LAWS) { vectors = true; laws(g, in, o); return; }
    auto r = g.parse(in.span()); observe(r); SPLIT(r, o); if (r) { if constexpr (requires { reference(u64(0), std::addressof(*r)); }) reference(0, std::addressof(*r)); }
    auto l = g.lookahead(in.span()); sx_assert((bool)l == o.ok, "lookahead differs from the grammar"); sx_assert(restIs(l.remaining(), o.ok ? o.end : 0), "lookahead's remaining input differs from the grammar"); }
static void alphabet(const Input<char>& in, u64 max, const char* set) { for (u64 i = 0; i < max; ++i) if (i < in.n) { bool m = false; for (const char* c = set; *c; ++c) m = m | (in.p[i] == *c); sx_assume(m); } }
constexpr int T = TIER ? 1 : 0;
ENTRY(numbers) { check(number{}, ::input_(T ? 8 : 6), numberR); }
ENTRY(any_text) { check(::input{}, ::input_(T ? 4 : 3), inputR); }
ENTRY(exprs) { auto in = ::input_(T ? 6 : 5); alphabet(in, 6, "1+*^"); check(expr{}, in, exprR); }
ENTRY(brackets) { auto in = ::input_(T ? 7 : 5); alphabet(in, 7, "1(-)"); check(::input{}, in, inputR); }
ENTRY(spaces) { auto in = ::input_(T ? 6 : 4); alphabet(in, 6, " 1+"); check(::input{}, in, inputR); }
ENTRY(mixed) { auto in = ::input_(T ? 6 : 4); alphabet(in, 6, "1 (*-)^"); check(::input{}, in, inputR); }
