// The JSON example's grammar against a recogniser written from its rules (C24).
#include "h.h"
// clang 18 with libstdc++ 13 cannot work out by itself that the example's recursive type is default-constructible (g++ can)
template <class T> requires requires { typename T::variant_type; requires !requires { typename T::value_type; }; } struct std::__is_implicitly_default_constructible<T> : std::true_type {};
template <class T> requires requires { typename T::variant_type; requires !requires { typename T::value_type; }; } struct std::is_default_constructible<T> : std::true_type {};
#define main json_example_main
#include "examples/json/json.cpp"
#undef main
static const char* sxhP; static u64 sxhN; // the text
struct Res { bool ok; u64 end; };
static bool is(u64 i, const char* set) { if (i >= sxhN) return false; bool m = false; for (; *set; ++set) m = m | (sxhP[i] == *set); return m; }
static bool range(u64 i, char lo, char hi) { return i < sxhN && ((sxhP[i] >= lo) & (sxhP[i] <= hi)); }
static u64 wsR(u64 i) { while (is(i, " \n\r\t")) ++i; return i; }
static u64 digits(u64 i) { while (range(i, '0', '9')) ++i; return i; }
static bool text(const std::string& s, u64 a, u64 b) { if (s.size() != b - a) return false; bool ok = true; for (u64 i = a; i < b; ++i) ok = ok & (s[i - a] == sxhP[i]); return ok; }
// each takes the value found, or null when there is none to compare; a mismatch is reported on the spot
static Res numberR(u64 i, const number_type* v) { u64 a = i; if (is(i, "-")) ++i; if (is(i, "0")) ++i; else if (range(i, '1', '9')) i = digits(i + 1); else return { false, a }; u64 e1 = i, f0 = 0, f1 = 0, x0 = 0, x1 = 0;
    if (is(i, ".") && range(i + 1, '0', '9')) { f0 = i + 1; f1 = i = digits(i + 1); }
    if (is(i, "eE")) { u64 j = i + 1; if (is(j, "+-")) ++j; if (range(j, '0', '9')) { x0 = i + 1; x1 = i = digits(j); } }
    if (v) { sx_assert(spanIs(v->integer, a, e1), "the integer part of a number"); sx_assert(v->fraction.has_value() == (f1 != 0) && (!v->fraction || spanIs(*v->fraction, f0, f1)), "the fraction of a number"); sx_assert(v->exponent.has_value() == (x1 != 0) && (!v->exponent || spanIs(*v->exponent, x0, x1)), "the exponent of a number"); }
    return { true, i }; }
static Res stringR(u64 i, const std::string* v) { u64 a = i; if (!is(i, "\"")) return { false, a }; ++i; for (;;) { if (i < sxhN && ((sxhP[i] != '"') & (sxhP[i] != '\\'))) { ++i; continue; } if (!is(i, "\\")) break; if (is(i + 1, "\"\\/bfnrt")) { i += 2; continue; }
        if (is(i + 1, "u") && is(i + 2, "0123456789ABCDEFabcdef") && is(i + 3, "0123456789ABCDEFabcdef") && is(i + 4, "0123456789ABCDEFabcdef") && is(i + 5, "0123456789ABCDEFabcdef")) { i += 6; continue; } break; }
    if (!is(i, "\"")) return { false, a }; if (v) sx_assert(text(*v, a + 1, i), "the text of a string"); return { true, i + 1 }; }
static Res word(u64 i, const char* w) { u64 j = i; for (; *w; ++w, ++j) if (j >= sxhN || sxhP[j] != *w) return { false, i }; return { true, j }; }
static Res valueR(u64 i, const JsonValue::result_type* v);
static Res pairR(u64 i, const std::pair<std::string, JsonValue::result_type>* v) { u64 a = i; i = wsR(i); Res s = stringR(i, nullptr); if (!s.ok) return { false, a }; u64 k = i; i = wsR(s.end); if (!is(i, ":")) return { false, a }; Res x = valueR(i + 1, nullptr); if (!x.ok) return { false, a }; if (v) { stringR(k, &v->first); valueR(i + 1, &v->second); } return x; }
template <class V, class F> static Res listR(u64 i, char open, char close, const V* v, F item) { u64 a = i; if (!(i < sxhN && sxhP[i] == open)) return { false, a }; ++i; u64 n = 0; Res r = item(i, nullptr);
    if (r.ok) { if (v) { sx_assert(v->size() > 0, "the number of elements"); if (v->size() > 0) item(i, &(*v)[0]); } ++n; i = r.end; while (is(i, ",")) { Res q = item(i + 1, nullptr); if (!q.ok) break; if (v) { sx_assert(v->size() > n, "the number of elements"); if (v->size() > n) item(i + 1, &(*v)[n]); } ++n; i = q.end; } } else i = wsR(i);
    if (!(i < sxhN && sxhP[i] == close)) return { false, a }; if (v) sx_assert(v->size() == n, "the number of elements"); return { true, i + 1 }; }
static Res objectR(u64 i, const JsonObject::result_type* v) { return listR(i, '{', '}', v, pairR); }
static Res arrayR(u64 i, const JsonArray::result_type* v) { return listR(i, '[', ']', v, valueR); }
static Res valueR(u64 i, const JsonValue::result_type* v) { u64 a = i; i = wsR(i); int kind = 0; Res r = stringR(i, nullptr); if (!r.ok) { kind = 1; r = numberR(i, nullptr); } if (!r.ok) { kind = 2; r = objectR(i, nullptr); } if (!r.ok) { kind = 3; r = arrayR(i, nullptr); } if (!r.ok) { kind = 4; r = word(i, "true"); } if (!r.ok) { kind = 5; r = word(i, "false"); } if (!r.ok) { kind = 6; r = word(i, "null"); } if (!r.ok) return { false, a };
    if (v) { static constexpr int slot[] = { 0, 1, 2, 3, 4, 4, 5 }; bool ok = v->variant.index() == std::size_t(slot[kind]); sx_assert(ok, "the kind of a value"); if (ok) switch (kind) { case 0: stringR(i, &std::get<0>(v->variant)); break; case 1: numberR(i, &std::get<1>(v->variant)); break; case 2: objectR(i, &std::get<2>(v->variant)); break; case 3: arrayR(i, &std::get<3>(v->variant)); break; case 4: sx_assert(std::get<4>(v->variant) == true, "true"); break; case 5: sx_assert(std::get<4>(v->variant) == false, "false"); break; default: break; } }
    return { true, wsR(r.end) }; }
template <class G, class F> void check(G g, const Input<char>& in, F reference) {
    sxhP = in.p; sxhN = in.n; Res w = reference(0, nullptr); Out o{ w.ok, w.end };
    if (o.ok) sx_cover("*accept"); else sx_cover("reject"); if constexpr (LAWS) { vectors = true; laws(g, in, o); return; }
    auto r = g.parse(in.span()); observe(r); SPLIT(r, o); if (r) { if constexpr (requires { reference(u64(0), std::addressof(*r)); }) reference(0, std::addressof(*r)); }
    auto l = g.lookahead(in.span()); sx_assert((bool)l == o.ok, "lookahead differs from the grammar"); sx_assert(restIs(l.remaining(), o.ok ? o.end : 0), "lookahead's remaining input differs from the grammar"); }
static Input<char> starting(const char* s, u64 max) { auto in = input(max); u64 k = std::char_traits<char>::length(s); sx_assume(in.n >= k); for (u64 i = 0; i < k; ++i) sx_assume(in.p[i] == s[i]); return in; }
static void alphabet(const Input<char>& in, u64 max, const char* set) { for (u64 i = 0; i < max; ++i) if (i < in.n) { bool m = false; for (const char* c = set; *c; ++c) m = m | (in.p[i] == *c); sx_assume(m); } }
constexpr int T = TIER ? 1 : 0;
ENTRY(numbers) { check(number, input(T ? 9 : 6), numberR); }
ENTRY(strings) { check(string, input(T ? 8 : 6), stringR); }
ENTRY(strings_u) { check(string, starting("\"\\u", T ? 11 : 9), stringR); }
ENTRY(values) { check(JsonValue{}, input(T ? 6 : 4), valueR); }
ENTRY(words) { check(JsonValue{}, starting("t", 6), valueR); } ENTRY(words_f) { check(JsonValue{}, starting("f", 6), valueR); } ENTRY(words_n) { check(JsonValue{}, starting("n", 6), valueR); }
ENTRY(arrays) { check(JsonArray{}, starting("[", T ? 6 : 4), arrayR); }
ENTRY(arrays2) { auto in = starting("[1,", T ? 7 : 6); check(JsonArray{}, in, arrayR); }
ENTRY(objects) { check(JsonObject{}, starting("{", T ? 7 : 6), objectR); }
ENTRY(objects2) { check(JsonObject{}, starting("{\"\":", T ? 8 : 7), objectR); }
ENTRY(objects3) { check(JsonObject{}, starting("{\"a\":1,\"", T ? 14 : 12), objectR); }
ENTRY(nested) { auto in = input(T ? 8 : 5); alphabet(in, 9, "[],1"); check(JsonValue{}, in, valueR); }
ENTRY(nested_objects) { auto in = starting("{\"\":{\"\":", T ? 13 : 11); alphabet(in, 13, "{}\":,1"); check(JsonValue{}, in, valueR); }
ENTRY(whitespace) { auto in = input(T ? 7 : 5); alphabet(in, 8, " \t[]0,"); check(JsonValue{}, in, valueR); }
