// What the compiler computes in constant expressions against the run-time code (C28): for every text over three letters up to a length,
// the outcome of a parse and a lookahead is computed by the compiler into a table; the run-time outcome over an unknown text must be the table's.
#include "h.h"
constexpr u64 LEN = TIER ? 5 : 4; constexpr u64 power(u64 k) { return k ? 3 * power(k - 1) : 1; } constexpr u64 first(u64 len) { return len ? first(len - 1) + power(len - 1) : 0; } constexpr u64 ROWS = first(LEN + 1);
struct Row { bool ok, lok; u64 rest, lrest, digest; };
template <class T> constexpr u64 digest(const T& v, const auto* b) {
    if constexpr (requires { v.data(); v.size(); requires !is_vector<T>::value; requires !requires { std::tuple_size<T>::value; }; }) return v.size() == 0 ? 7 : u64(v.data() - b) * 64 + v.size() + 11;
    else if constexpr (is_optional<T>::value) return v ? digest(*v, b) * 3 + 1 : 2;
    else if constexpr (is_vector<T>::value) { u64 h = v.size(); for (const auto& e : v) h = h * 31 + digest(e, b); return h; }
    else if constexpr (requires { std::variant_size<T>::value; }) return v.index() + 5 * std::visit([&](const auto& e) { return digest(e, b); }, v);
    else if constexpr (requires { std::tuple_size<T>::value; }) return std::apply([&](const auto&... e) { u64 h = 3; ((h = h * 37 + digest(e, b)), ...); return h; }, v);
    else if constexpr (requires { v.digest(b); }) return v.digest(b);
    else return u64(v) + 1; }
template <class P, class V> constexpr Row outcome(P p, const V* t, u64 n) {
    tk::input_span<V> in{ std::span<const V>(t, n) }; auto r = p.parse(in); auto l = p.lookahead(in); Row w{ (bool)r, (bool)l, r.remaining().size(), l.remaining().size(), 0 };
    if (w.rest <= n && r.remaining().data() != t + (n - w.rest)) w.rest = 1000; if (w.lrest <= n && l.remaining().data() != t + (n - w.lrest)) w.lrest = 1000;
    if constexpr (!std::is_void_v<typename decltype(r)::value_type>) if (r) w.digest = digest(*r, t);
    return w; }
template <class P, class V> constexpr auto table() { std::array<Row, ROWS> a{}; for (u64 len = 0; len <= LEN; ++len) for (u64 k = 0; k < power(len); ++k) { V t[LEN + 1] = {}; u64 x = k; for (u64 i = 0; i < len; ++i) { t[i] = V('a' + x % 3); x /= 3; } a[first(len) + k] = outcome(P{}, t, len); } return a; }
template <class P, class V> constexpr auto rows = table<P, V>();
template <class V = char, class P> void same(P p) {
    auto in = input<V>(LEN); u64 index = 0, total_ = first(sx_fork(in.n)); for (u64 i = in.n; i-- > 0;) { u64 d = u64(in.p[i]) - 'a'; sx_assume(d < 3); index = index * 3 + sx_fork(d); }
    Row w = outcome(p, in.p, in.n); const Row& t = rows<P, V>[total_ + index];
    MUST(w.ok == t.ok && w.lok == t.lok, "acceptance at compile time differs from run time"); MUST(w.rest == t.rest && w.lrest == t.lrest, "the remaining input at compile time differs from run time"); MUST(w.digest == t.digest, "the value at compile time differs from run time"); sx_observe(w.ok); sx_observe(w.digest); sx_cover(w.ok ? "*accept" : "reject"); }
struct Pt { u64 a, b; constexpr u64 digest(const auto*) const { return a * 100 + b; } };
struct Sz { u64 n; constexpr Sz() : n(77) {} constexpr Sz(tk::output_span<char> s) : n(s.size()) {} constexpr Sz(tk::output_span<char> s, tk::output_span<char> t) : n(s.size() * 10 + t.size()) {} constexpr Sz(const std::vector<tk::output_span<char>>& v) : n(v.size()) {} constexpr u64 digest(const auto*) const { return n; } };
constexpr auto a = any<"a">; constexpr auto ab = any<"ab">; constexpr auto nb = none<"b">; constexpr auto l = all<"ab">; constexpr auto i_ = ign<"c">; constexpr auto size_ = [](auto s) { return s.size(); };
constexpr auto count = [](const auto& v) { return v.size() + 1; }; constexpr auto pt = [](auto x, auto y) { return Pt{ x.size(), y.size() }; }; constexpr auto isA = [](auto s) { return s.size() && s.data()[0] == 'a'; }; constexpr auto eq2 = [](const auto& x, const auto& y) { return *x.data() == *y.data(); };
#define E(n, ...) ENTRY(n) { same(__VA_ARGS__); }
E(any1, ab) E(none1, nb) E(all1, l) E(all2, all<"aba">) E(all0, all<"">) E(ign1, ign<"ab">) E(union1, any<"a"> | any<"c">) E(union2, any<"ab"> | none<"bc">) E(not1, !ab)
E(seq1, ab >> nb) E(seq2, a >> i_ >> ab) E(seq3, l >> ab >> nb) E(seq4, i_ >> i_) E(seq5, all<"a"> >> all<"b">)
E(choice1, l | ab) E(choice2, (a >> nb) | ab) E(choice4, i_ | l) E(choice5, ign<"a"> | i_) E(choice6, l | eps)
E(maybe1, ~ab) E(maybe2, ~l >> nb) E(star1, *ab) E(star2, *l) E(star3, *(a >> nb)) E(star4, *(l | i_) >> nb) E(plus1, +ab) E(plus2, +(l | (nb >> nb))) E(plus3, +i_) E(exactly1, exactly<2>(ab)) E(exactly2, exactly<2>(l)) E(exactly3, exactly<2>(~ab >> i_)) E(exactly4, exactly<3>(i_))
E(delimit1, delimit(ab, i_)) E(delimit2, delimit(ab, any<"c">)) E(keep1, delimit_keep(a, any<"bc">)) E(keep2, delimit_keep(ign<"a">, any<"bc">)) E(delimit3, delimit(+a, i_) >> *nb)
E(join1, join(ab >> nb)) E(join2, join(*ab)) E(join3, join(+l)) E(join4, join(~nb)) E(join5, join(exactly<2>(ab))) E(join8, join(*(ab >> ~any<"c">))) E(join10, join(delimit(a, ign<"">))) E(join11, join(exactly<2>(ab >> ~nb))) E(join12, join(~i_ >> *ab)) E(join13, join(*any<"a"> >> *any<"b">))
E(map1, ab % map<size_>) E(map2, *ab % map<count>) E(map3, (ab >> nb) % apply<pt>) E(map4, i_ % map<[] { return 9; }>) E(map5, (ab % map<[](auto) {}>) >> nb) E(map6, into<Sz>(ab)) E(map7, (ab >> nb) % apply_into<Sz>) E(map8, *ab % into<Sz>) E(map9, ab % constant<5>) E(map10, i_ % constant<6>) E(map11, ab % defaulted<Sz>) E(map12, (ab % map<size_>) >> (l % map<size_>))
E(filter1, ab % filter<isA>) E(filter2, (ab >> nb) % apply_filter<eq2>) E(filter3, *(ab % filter<isA>) >> nb) E(filter4, (ab % filter<isA>) | nb)
E(complete1, complete(*ab)) E(complete2, complete(ab >> nb) | l) E(ignore1, ab >> ignore(nb) >> ab) E(ignore2, ignore(*ab)) E(ignore3, ignore(ab % filter<isA>)) E(name1, name<"x">(ab) >> name<"y">(nb)) E(sub1, (name<"x">(ab) >> *name<"y">(nb)) % sub(name<"x"> = ignore, name<"y"> = map<size_>))
template <class P> struct Cu : tk::custom_parser<Cu<P>> { using result_type = typename P::template result_for<char>; static constexpr auto get_parser() { return P{}; } };
E(custom1, Cu<std::remove_cvref_t<decltype(ab >> nb)>>{} | l)
struct Bal : tk::custom_parser<Bal> { using result_type = void; static consteval auto get_parser(); }; consteval auto Bal::get_parser() { return (ign<"a"> >> Bal{} >> ign<"b"> >> Bal{}) | eps; }
E(recursive1, Bal{}) E(recursive2, complete(Bal{}))
ENTRY(wide1) { same<wchar_t>(*any<L"ab"> >> none<L"b">); } ENTRY(wide2) { same<char32_t>(join(+all<U"ab">) >> ign<U"c">); } ENTRY(ints1) { same<int>(delimit_keep(any_of<97, 98>, all_of<99>)); } ENTRY(ints2) { same<int>(join(*any_of<97> >> ~all_of<98, 99>)); } ENTRY(u8) { same<char8_t>(exactly<2>(any<u8"ab">) | none<u8"a">); }
E(mixed1, +(any<"a"> >> delimit(any<"b">, i_))) E(mixed2, ((ab >> ~l) | (+i_ >> nb)) % name<"q">) E(mixed3, complete(*(a | (any<"b"> >> *i_)))) E(mixed4, join((a | any<"b">) >> *(any<"c"> | a)))
