// Result objects and the way of a value from the sub-parser that made it into the final result (C23).
#include "agree.h"
using A = Tok<100>; using B = Tok<101>; using M = Tok<102, MOVEONLY>; using N_ = Tok<104, MOVEONLY>; using C_ = Tok<103, COPYONLY>; using D_ = Tok<105, COPYONLY>; using Sp = tk::output_span<char>; using Y = Tok<50>;
constexpr u64 BIG = 1ull << 36;
#define OK(c, m) sx_assert((c), m)
template <class T> using R = decltype(S<0, T>::parse(std::declval<tk::input_span<char>>()));
// ---- copies, moves, access
template <class T, class X> void holds(const X& r, Out o, const char* what) { sx_assert((bool)r == o.ok, "success changes"); sx_assert(r.has_value() == o.ok, "has_value() differs from the test"); sx_assert(restIs(r.remaining(), o.ok ? o.end : 0), "remaining() changes"); if constexpr (!std::is_void_v<T>) if (r) { sx_assert(valueIs<T>(*r, 0, 0), "the value changes"); sx_assert(valueIs<T>(r.value(), 0, 0), "value() differs from *"); sx_assert(std::addressof(*r) == std::addressof(r.value()), "value() and * are different objects"); } }
template <class X> bool throws(X&& f) { try { f(); return false; } catch (const std::bad_optional_access&) { return true; } }
template <class T> void objects() {
    minLen = 0; maxLen = 2; auto in = input(BIG); constexpr S<0, T> s; Out o = ref(0, 0); if (o.ok) sx_cover("*ok"); else sx_cover("*failed"); auto r = s.parse(in.span()); using Rt = decltype(r); holds<T>(r, o, "");
    static_assert(std::is_move_constructible_v<Rt>); constexpr bool copyable = std::is_void_v<T> || std::is_copy_constructible_v<T>;
    if constexpr (copyable) { Rt c(r); holds<T>(c, o, ""); holds<T>(r, o, ""); const Rt k = r; holds<T>(k, o, ""); Rt e = std::as_const(r); holds<T>(e, o, ""); Rt d; OK(!d && !d.has_value(), "a default-constructed result succeeds"); OK(d.remaining().size() == 0, "a default-constructed result leaves input"); d = r; holds<T>(d, o, ""); holds<T>(r, o, ""); d = Rt(); OK(!d, "assigning a failed result"); d = k; holds<T>(d, o, ""); d = d; holds<T>(d, o, ""); Rt m = std::move(k); holds<T>(m, o, ""); }
    Rt d; OK(!d, "a default-constructed result succeeds"); if constexpr (!std::is_void_v<T>) OK(throws([&] { (void)d.value(); }), "value() on a default-constructed result"); d = std::move(r); holds<T>(d, o, ""); Rt m = std::move(d); holds<T>(m, o, ""); Rt z; z = std::move(m); holds<T>(z, o, ""); const Rt& cz = z;
    if constexpr (!std::is_void_v<T>) { if (!z) { OK(throws([&] { (void)z.value(); }), "value() on a failed result does not throw"); OK(throws([&] { (void)cz.value(); }), "value() on a failed result does not throw"); OK(throws([&] { (void)std::move(z).value(); }), "value() on a failed result does not throw"); OK(throws([&] { (void)std::move(cz).value(); }), "value() on a failed result does not throw"); }
        else { OK(!throws([&] { (void)z.value(); }), "value() throws on a success"); OK(valueIs<T>(cz.value(), 0, 0), "value() const"); OK(valueIs<T>(std::move(cz).value(), 0, 0), "value() const&&"); OK(valueIs<T>(*std::move(cz), 0, 0), "*const&&"); { T v = std::move(z).value(); OK(valueIs<T>(v, 0, 0), "value() &&"); *z = std::move(v); } holds<T>(z, o, ""); { T v = *std::move(z); OK(valueIs<T>(v, 0, 0), "* &&"); z.value() = std::move(v); } holds<T>(z, o, ""); T w = s.parse(in.span()).value(); OK(valueIs<T>(w, 0, 0), "value() of a temporary"); T x = *s.parse(in.span()); OK(valueIs<T>(x, 0, 0), "* of a temporary"); } }
    auto f = [](Rt q) { return q; }; Rt back = f(std::move(z)); holds<T>(back, o, ""); loose = 0; auto l = s.lookahead(in.span()); auto l2 = l; OK((bool)l2 == o.ok && restIs(l2.remaining(), o.ok ? o.end : 0), "a copied lookahead"); decltype(l) l0; OK(!l0 && !l0.has_value(), "a default-constructed lookahead result succeeds"); }
#define OBJ(n, T) ENTRY(object_##n) { objects<T>(); }
OBJ(tok, A) OBJ(void, void) OBJ(move, M) OBJ(copy, C_) OBJ(span, Sp) OBJ(bool, bool) OBJ(opt, std::optional<A>) OBJ(vec, std::vector<A>)
// ---- conversions
struct Wide { A a; Wide() = default; Wide(A&& x) : a(std::move(x)) {} Wide(const A& x) : a(x) {} }; struct WideM { M m; WideM() = default; WideM(M&& x) : m(std::move(x)) {} };
template <class From, class To, class F> void converts(F check) {
    minLen = 0; maxLen = 2; auto in = input(BIG); constexpr S<0, From> s; Out o = ref(0, 0); if (o.ok) sx_cover("*ok"); else sx_cover("*failed"); using T2 = R<To>;
    auto ok = [&](const T2& t) { sx_assert((bool)t == o.ok, "a conversion changes success"); sx_assert(restIs(t.remaining(), o.ok ? o.end : 0), "a conversion changes remaining()"); if (t) check(*t); else OK(throws([&] { (void)t.value(); }), "value() on a converted failure"); };
    T2 a = s.parse(in.span()); ok(a); auto r = s.parse(in.span()); T2 b(std::move(r)); ok(b); if constexpr (std::is_copy_constructible_v<From> && std::convertible_to<const From&, To>) { auto q = s.parse(in.span()); const auto& cq = q; T2 c(q); ok(c); holds<From>(q, o, ""); T2 d = cq; ok(d); holds<From>(q, o, ""); T2 e; e = q; ok(e); holds<From>(q, o, ""); }
    T2 f; f = s.parse(in.span()); ok(f); }
ENTRY(conv_class) { converts<A, Wide>([](const Wide& w) { OK(valueIs<A>(w.a, 0, 0), "a converted value"); }); } ENTRY(conv_move) { converts<M, WideM>([](const WideM& w) { OK(valueIs<M>(w.m, 0, 0), "a converted value"); }); }
ENTRY(conv_optional) { converts<A, std::optional<A>>([](const auto& w) { OK(w && valueIs<A>(*w, 0, 0), "a value converted to optional"); }); } ENTRY(conv_optional_move) { converts<M, std::optional<M>>([](const auto& w) { OK(w && valueIs<M>(*w, 0, 0), "a value converted to optional"); }); }
ENTRY(conv_optional2) { converts<std::optional<A>, std::optional<std::optional<A>>>([](const auto& w) { OK(w && valueIs<std::optional<A>>(*w, 0, 0), "an optional converted to optional"); }); }
ENTRY(conv_variant) { converts<A, std::variant<B, A>>([](const auto& w) { OK(w.index() == 1 && valueIs<A>(std::get<1>(w), 0, 0), "a value converted to variant"); }); } ENTRY(conv_bool) { converts<bool, std::optional<bool>>([](const auto& w) { OK(w && valueIs<bool>(*w, 0, 0), "a bool converted to optional"); }); } ENTRY(conv_int) { converts<bool, long>([](long w) { OK(w == long((length(0, 0) & 1) != 0), "a bool converted to long"); }); }
ENTRY(conv_view) { converts<Sp, std::string_view>([](std::string_view w) { OK(spanIs(w, 0, length(0, 0)), "a span converted to string_view"); }); } ENTRY(conv_vec) { converts<std::vector<A>, std::optional<std::vector<A>>>([](const auto& w) { OK(w && valueIs<std::vector<A>>(*w, 0, 0), "a vector converted to optional"); }); }
// through a custom parser that declares another result type
template <class P, class T> struct As : tk::custom_parser<As<P, T>, char> { using result_type = T; static constexpr auto get_parser() { return P{}; } };
template <class From, class To, class F> void custom(F check) { minLen = 1; maxLen = 2; auto in = input(BIG); Out o = ref(0, 0); if (o.ok) sx_cover("*ok"); else sx_cover("*failed"); As<S<0, From>, To> p; auto r = p.parse(in.span()); sx_assert((std::same_as<typename decltype(r)::value_type, To>), "type of a custom parser's result"); sx_assert((bool)r == o.ok && restIs(r.remaining(), o.ok ? o.end : 0), "a custom parser changes the outcome"); if (r) check(*r);
    auto q = (p >> stub<1, From>).parse(in.span()); Out o2 = o.ok ? ref(1, o.end) : o; sx_assert((bool)q == o2.ok, "a sequence with a custom parser"); if (q) check(std::get<0>(*q)); auto v = (*(p >> stub<2, void>)).parse(in.span()); if ((*v).size()) check((*v)[0]); auto m = (~p).parse(in.span()); sx_assert((*m).has_value() == o.ok, "an optional of a custom parser"); if (*m) check(**m); }
ENTRY(custom_class) { stopAt = 3; custom<A, Wide>([](const Wide& w) { OK(valueIs<A>(w.a, 0, 0), "a converted value"); }); } ENTRY(custom_move) { stopAt = 3; custom<M, WideM>([](const WideM& w) { OK(valueIs<M>(w.m, 0, 0), "a converted value"); }); }
ENTRY(custom_optional) { stopAt = 3; custom<A, std::optional<A>>([](const auto& w) { OK(w && valueIs<A>(*w, 0, 0), "a value converted to optional"); }); } ENTRY(custom_variant) { stopAt = 3; custom<M, std::variant<A, M>>([](const auto& w) { OK(w.index() == 1 && valueIs<M>(std::get<1>(w), 0, 0), "a value converted to variant"); }); }
// ---- the way of a value through combinators of combinators; Tok itself reports reads after a move
template <class T, class U> void travel_seq() { minLen = 0; maxLen = 2; auto in = input(BIG); u64 p[4] = {}; int k = 0; for (; k < 3; ++k) { Out o = ref(k, p[k]); if (!o.ok) break; p[k + 1] = o.end; } if (k == 3) sx_cover("*all");
    auto in3 = [&](const auto& t) { OK(valueIs<T>(std::get<0>(t), 0, p[0]) && valueIs<U>(std::get<1>(t), 1, p[1]) && valueIs<T>(std::get<2>(t), 2, p[2]), "a value on its way through a sequence"); };
    constexpr auto q = stub<0, T> >> stub<1, U> >> stub<2, T>; auto r = q.parse(in.span()); OK((bool)r == (k == 3), "acceptance"); if (r) { in3(*r); auto r2 = std::move(r); in3(*r2); }
    auto r3 = (~q).parse(in.span()); OK((*r3).has_value() == (k == 3), "acceptance"); if (*r3) in3(**r3); auto r4 = exactly<1>(q).parse(in.span()); if (r4) in3((*r4)[0]); auto r5 = (q | stub<3, T>).parse(in.span()); if (k == 3) in3(std::get<0>(*r5)); auto r6 = name<"n">(q).parse(in.span()); if (r6) in3(*r6); auto r7 = (q % map<[](auto&& t) { return std::move(t); }>).parse(in.span()); if (r7) in3(*r7); auto r8 = (q % filter<[](const auto&) { return true; }>).parse(in.span()); if (r8) in3(*r8); auto r9 = complete(q).parse(in.span()); if (r9) in3(*r9);
    auto r10 = (q % apply<[](T a, U b, T c) { return std::tuple<T, U, T>(std::move(a), std::move(b), std::move(c)); }>).parse(in.span()); if (r10) in3(*r10); auto r11 = (q % apply_filter<[](const T&, const U&, const T&) { return true; }>).parse(in.span()); if (r11) in3(*r11); auto r12 = (q % apply_into<std::tuple<T, U, T>>).parse(in.span()); if (r12) in3(*r12); }
template <class T, class U> void travel_choice() { minLen = 0; maxLen = 2; auto in = input(BIG); Out a = ref(0, 0), b = ref(1, 0), c = ref(2, 0); if (!a.ok && b.ok) sx_cover("*second"); constexpr auto q = stub<0, T> | stub<1, U> | stub<2, T>;
    auto ck = [&](const auto& v) { if (a.ok) OK(v.index() == 0 && valueIs<T>(std::get<0>(v), 0, 0), "a value on its way through a choice"); else if (b.ok) OK(v.index() == 1 && valueIs<U>(std::get<1>(v), 1, 0), "a value on its way through a choice"); else OK(v.index() == 0 && valueIs<T>(std::get<0>(v), 2, 0), "a value on its way through a choice"); };
    auto r = q.parse(in.span()); OK((bool)r == (a.ok || b.ok || c.ok), "acceptance"); if (r) { ck(*r); auto r2 = std::move(r); ck(*r2); } auto r3 = (~q).parse(in.span()); if (*r3) ck(**r3); auto r4 = exactly<1>(q).parse(in.span()); if (r4) ck((*r4)[0]); auto r6 = (q % name<"n"> % complete).parse(in.span()); if (r6) ck(*r6); auto r7 = (q % map<[](auto v) { return v; }>).parse(in.span()); if (r7) ck(*r7); auto r8 = (q % filter<[](const auto&) { return true; }>).parse(in.span()); if (r8) ck(*r8); auto r5 = (q >> stub<3, U>).parse(in.span()); if (r5) ck(std::get<0>(*r5)); auto r10 = (~stub<0, T> | stub<1, U>).parse(in.span()); OK((bool)r10, "an optional always succeeds"); auto& o10 = std::get<0>(*r10); OK(o10.has_value() == a.ok && (!a.ok || valueIs<T>(*o10, 0, 0)), "an optional in a choice"); }
template <class T, class U> void travel_repeat() { minLen = 1; maxLen = 1; stopAt = TIER ? 6 : 4; auto in = input(BIG); u64 e = 0; while (ref(0, e).ok) ++e; if (e > 1) sx_cover("*many");
    auto all_ = [&](const auto& v, u64 n) { OK(v.size() == n, "the number of results"); for (u64 i = 0; i < n; ++i) OK(valueIs<T>(v[i], 0, i), "a value on its way through a repetition"); };
    auto r = (*stub<0, T>).parse(in.span()); all_(*r, e); auto m = std::move(r); all_(*m, e); auto r2 = (+stub<0, T>).parse(in.span()); if (r2) all_(*r2, e); auto r3 = exactly<2>(stub<0, T>).parse(in.span()); OK((bool)r3 == (e >= 2), "acceptance"); if (r3) all_(*r3, 2); auto r4 = (~(+stub<0, T>)).parse(in.span()); (void)r4;
    u64 pairs = 0; while (ref(0, 2 * pairs).ok && ref(1, 2 * pairs + 1).ok) ++pairs; auto r5 = (*(stub<0, T> >> stub<1, U>)).parse(in.span()); OK((*r5).size() == pairs, "the number of results"); for (u64 i = 0; i < pairs; ++i) OK(valueIs<T>(std::get<0>((*r5)[i]), 0, 2 * i) && valueIs<U>(std::get<1>((*r5)[i]), 1, 2 * i + 1), "a value on its way through a repetition of sequences");
    auto r6 = (*(stub<0, T> | stub<1, U>)).parse(in.span()); for (u64 i = 0; i < (*r6).size(); ++i) { if (ref(0, i).ok) OK((*r6)[i].index() == 0 && valueIs<T>(std::get<0>((*r6)[i]), 0, i), "a value on its way through a repetition of choices"); else OK((*r6)[i].index() == 1 && valueIs<U>(std::get<1>((*r6)[i]), 1, i), "a value on its way through a repetition of choices"); }
    auto r7 = delimit_keep(stub<0, T>, stub<1, U>).parse(in.span()); OK((bool)r7 == ref(0, 0).ok, "acceptance"); if (r7) { auto& [v, w] = *r7; OK(w.size() + 1 == v.size(), "the number of delimiters"); for (u64 i = 0; i < v.size(); ++i) OK(valueIs<T>(v[i], 0, 2 * i) && (i == 0 || valueIs<U>(w[i - 1], 1, 2 * i - 1)), "a value on its way through a delimited list"); auto mv = std::move(r7); OK(valueIs<T>((*mv).first[0], 0, 0), "a value on its way through a delimited list"); } auto r8 = delimit(stub<0, T>, stub<1, U>).parse(in.span()); if (r8) OK(valueIs<T>((*r8)[0], 0, 0), "a value on its way through a delimited list");
    auto r9 = exactly<2>(exactly<1>(stub<0, T>)).parse(in.span()); if (r9) OK(valueIs<T>((*r9)[1][0], 0, 1), "a value on its way through arrays"); auto r10 = (exactly<2>(stub<0, T>) % apply<[](T a, T b) { return std::tuple<T, T>(std::move(a), std::move(b)); }>).parse(in.span()); if (r10) OK(valueIs<T>(std::get<0>(*r10), 0, 0) && valueIs<T>(std::get<1>(*r10), 0, 1), "a value on its way through apply"); auto r11 = (*stub<0, T> >> stub<1, U>).parse(in.span()); if (r11) all_(std::get<0>(*r11), e); }
#define TRAVEL(n, T, U) ENTRY(seq_##n) { travel_seq<T, U>(); } ENTRY(choice_##n) { travel_choice<T, U>(); } ENTRY(repeat_##n) { travel_repeat<T, U>(); }
TRAVEL(copy, A, B) TRAVEL(moveonly, M, N_) TRAVEL(copyonly, C_, D_) TRAVEL(mixed, M, C_) TRAVEL(mixed2, A, M)
