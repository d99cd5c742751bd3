// Shared by the harnesses: arbitrary sub-parsers ("stubs"), reference helpers, assertion macros.
#pragma once
#include "sx.h"
#include <algorithm>
#include <array>
#include <concepts>
#include <cstdint>
#include <functional>
#include <iterator>
#include <memory>
#include <numeric>
#include <optional>
#include <ranges>
#include <span>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <type_traits>
#include <variant>
#include <vector>
#ifndef PROP
#define PROP 0
#endif
#if PROP == 28
// C28: the library's own questions whether it is being evaluated at compile time are answered by a flag, so that both answers can be encoded.
namespace sxh { inline bool compileTime = false; }
namespace std { constexpr bool sxh_really() noexcept { return __builtin_is_constant_evaluated(); } constexpr bool sxh_is_constant_evaluated() noexcept { if (__builtin_is_constant_evaluated()) return true; return sxh::compileTime; } }
#define is_constant_evaluated sxh_is_constant_evaluated
#define __builtin_is_constant_evaluated() std::sxh_is_constant_evaluated()
#define __builtin_constant_p(x) (std::sxh_really() ? __builtin_constant_p(x) : sxh::compileTime ? true : __builtin_constant_p(x)) /* of differences of pointers into one input, which are constant at compile time */
#endif
#include <k3/tok3n.h>
#if PROP == 28
#undef is_constant_evaluated
#undef __builtin_is_constant_evaluated
#undef __builtin_constant_p
#endif
// The laws every parser obeys are checked on the parsers of the other properties' harnesses, whose own assertions are then left out:
// C01 faithful split, C02 lookahead agrees, C20 memory safety and no effects, C21 allocation, C28 compile-time paths agree with run-time ones
constexpr bool LAWS = PROP == 1 || PROP == 2 || PROP == 20 || PROP == 21 || PROP == 28;
#define LAWPROP (PROP == 1 || PROP == 2 || PROP == 20 || PROP == 21 || PROP == 28)
#define MUST(...) (sx_assert)(__VA_ARGS__) // checked in any case
#if LAWPROP
#define sx_assert(...) do { if constexpr (false) (sx_assert)(__VA_ARGS__); } while (0)
#endif
// checked only by the check of that property (0: by every one)
#define CHK(prop, cond, msg) do { if constexpr (PROP == 0 || (prop) == 0 || PROP == (prop)) MUST((cond), #prop ": " msg); } while (0)
#define CHKN(props, cond, msg) do { if constexpr (PROP == 0 || sxh::sel(PROP, props)) MUST((cond), msg); } while (0)
#define L(...) __VA_ARGS__
using namespace k3::tok3n;
namespace tk = k3::tok3n::detail;

namespace sxh {
using u64 = std::uint64_t;
constexpr bool sel(int p, std::initializer_list<int> l) { for (int x : l) if (x == p) return true; return false; }

// ---------------------------------------------------------------- arbitrary input
// The input: n elements, n symbolic. Positions that parsing can reach are bounded by the harness, n is not.
inline const void* base = nullptr; inline u64 total = 0; inline u64 esize = 1;
template <class V = char> struct Input { const V* p; u64 n; tk::input_span<V> span() const { return { std::span<const V>(p, n) }; } };
template <class V = char> Input<V> input(u64 max) {
    u64 n = sx_range("n", 0, max); auto p = static_cast<const V*>(sx_buf("in", n, max, sizeof(V)));
    base = p; total = n; esize = sizeof(V); return { p, n }; }

// ---------------------------------------------------------------- values
enum { LIVE = 1, MOVED = 2, DEAD = 3, EMPTY = 4 };
inline std::int64_t tokensAlive = 0; // constructed minus destroyed
enum Flavour { COPY, MOVEONLY, COPYONLY, NODEFAULT };
// a value with an identity; reading one after it was moved from or destroyed is a violation
template <int K, Flavour F = COPY> struct Tok {
    u64 id = 0, pos = 0, len = 0; int st = EMPTY;
    Tok() noexcept requires (F != NODEFAULT) { ++tokensAlive; }
    Tok(u64 i, u64 p, u64 l) noexcept : id(i), pos(p), len(l), st(LIVE) { ++tokensAlive; }
    Tok(const Tok& o) noexcept requires (F != MOVEONLY) : id(o.id), pos(o.pos), len(o.len), st(o.use()) { ++tokensAlive; }
    Tok(Tok&& o) noexcept requires (F != COPYONLY) : id(o.id), pos(o.pos), len(o.len), st(o.use()) { o.gone(); ++tokensAlive; }
    Tok& operator=(const Tok& o) noexcept requires (F != MOVEONLY) { id = o.id; pos = o.pos; len = o.len; st = o.use(); return *this; }
    Tok& operator=(Tok&& o) noexcept requires (F != COPYONLY) { int s = o.use(); id = o.id; pos = o.pos; len = o.len; if (&o != this) o.gone(); st = s; return *this; }
    ~Tok() { MUST(st != DEAD, "a value is destroyed twice"); st = DEAD; --tokensAlive; }
    void gone() noexcept { st = MOVED; id = pos = len = ~u64(0); }
    int use() const noexcept { sx_assert(st != MOVED, "a value is read after it was moved from"); MUST(st != DEAD, "a value is read after it was destroyed"); return st; }
    bool is(u64 i, u64 p, u64 l) const { use(); return (st == LIVE) & (id == i) & (pos == p) & (len == l); }
    bool same(const Tok& o) const { use(); return (st == o.st) & (id == o.id) & (pos == o.pos) & (len == o.len); }
};
template <class T> struct is_tok : std::false_type {};
template <int K, Flavour F> struct is_tok<Tok<K, F>> : std::true_type {};

template <class T> struct is_optional : std::false_type {};
template <class T> struct is_optional<std::optional<T>> : std::true_type {};
template <class T> struct is_vector : std::false_type {};
template <class T> struct is_vector<std::vector<T>> : std::true_type {};
template <class T> struct is_variant : std::false_type {};
template <class... T> struct is_variant<std::variant<T...>> : std::true_type {};
template <class T> concept Several = requires { std::tuple_size<T>::value; };

// ---------------------------------------------------------------- element types with an equality of their own
struct Ci { char c = 0; constexpr Ci() = default; constexpr Ci(char x) : c(x) {} static constexpr char fold(char x) { return x >= 'A' && x <= 'Z' ? char(x + 32) : x; } // letters of either case are equal
    friend constexpr bool operator==(const Ci& a, const Ci& b) { return fold(a.c) == fold(b.c); } friend constexpr auto operator<=>(const Ci& a, const Ci& b) { return fold(a.c) <=> fold(b.c); } };
struct Keyed { std::int32_t key = 0, note = 0; friend constexpr bool operator==(const Keyed& a, const Keyed& b) { return a.key == b.key; } friend constexpr auto operator<=>(const Keyed& a, const Keyed& b) { return a.key <=> b.key; } }; // part of it does not count
struct Padded { std::int8_t tag = 0; std::int32_t v = 0; friend constexpr bool operator==(const Padded&, const Padded&) = default; friend constexpr auto operator<=>(const Padded&, const Padded&) = default; }; // has bytes that belong to nothing
// one of the cases given, all of them in one entry
template <class... F> void oneOf(F... f) { u64 w = sx_fork(sx_range("which", 0, sizeof...(F) - 1)), i = 0; ((i++ == w ? f() : void()), ...); }
// Sets with a shape of their own: H elements from a on in steps of d, the others from b on; computed modulo the type's size
template <class V, int N, long long a, long long d = 1, int H = N, long long b = 0> constexpr tk::static_array<V, N> shape() { tk::static_array<V, N> s; using L_ = std::conditional_t<std::is_same_v<V, Ci>, unsigned char, V>; for (int i = 0; i < N; ++i) s[i] = V(L_(i < H ? u64(a) + u64(d) * i : u64(b) + u64(d) * (i - H))); return s; }
template <class V, int N> constexpr tk::static_array<V, N> powers() { tk::static_array<V, N> s; for (int i = 0; i < N; ++i) s[i] = V(1ull << i); return s; }
template <class V, int N> constexpr tk::static_array<V, N> rotated(tk::static_array<V, N> s, int k) { tk::static_array<V, N> t; for (int i = 0; i < N; ++i) t[i] = s[(i * k + k) % N]; return t; } // k prime to N: another order
// ---------------------------------------------------------------- arbitrary sub-parsers
// What stub ID does at element position pos: succeed or not, and how many elements it consumes. Arbitrary, but fixed per position.
#ifndef STUB_POS
#define STUB_POS 16
#endif
constexpr int IDS = 8, POS = STUB_POS;
struct Cell { bool known = false, ok = false; u64 len = 0; };
inline Cell cells[2 * IDS][POS];
inline unsigned loose = 0; // stubs whose lookahead answers independently of parse, as that of a parser containing filters or joins may
inline u64 minLen = 0, maxLen = 2;        // consumed on success
inline u64 stopAt = POS;                  // no match at or after this position: bounds the number of matches
inline int calls = 0, hits[IDS], parses[IDS], lookaheads[IDS]; inline u64 lastPos[IDS];
inline bool monitored = false; // count calls
inline const Cell& at(int id, u64 pos) {
    pos = sx_fork(pos); MUST(pos < POS, "harness: position bound"); Cell& c = cells[id][pos];
    if (!c.known) { c.known = true; if (pos >= stopAt) return c; u64 left = total - pos; bool ok = sx_sym("ok", 1); u64 len = minLen == maxLen ? minLen : sx_range("len", minLen, maxLen);
        ok = ok & (len <= left); c.ok = ok; c.len = len; }
    return c;
}
inline bool decide(int id, u64 pos) { return sx_fork(at(id, pos).ok); }
inline u64 length(int id, u64 pos) { return sx_fork(at(id, pos).len); }

template <class Res, class V> Res makeValue(int id, u64 pos, u64 len, const V* p) {
    if constexpr (is_tok<Res>::value) return Res(id + 1, pos, len);
    else if constexpr (std::same_as<Res, tk::output_span<V>>) return Res(std::span<const V>(p, len));
    else if constexpr (std::same_as<Res, bool>) return ((pos + len + id) & 1) != 0;
    else if constexpr (is_optional<Res>::value) { if (pos & 1) return Res(); return Res(std::in_place, makeValue<typename Res::value_type, V>(id, pos, len, p)); }
    else if constexpr (is_vector<Res>::value) { Res r; for (u64 i = 0; i < len; ++i) r.push_back(makeValue<typename Res::value_type, V>(id, pos, i, p)); return r; }
    else if constexpr (is_variant<Res>::value) { constexpr std::size_t k = std::variant_size_v<Res>; return [&]<std::size_t... I>(std::index_sequence<I...>) { Res r{ std::in_place_index<k - 1>, makeValue<std::variant_alternative_t<k - 1, Res>, V>(id, pos, len, p) }; ((pos % k == I && I + 1 != k ? void(r.template emplace<I>(makeValue<std::variant_alternative_t<I, Res>, V>(id, pos, len, p))) : void()), ...); return r; }(std::make_index_sequence<k>()); }
    else if constexpr (Several<Res>) return [&]<std::size_t... I>(std::index_sequence<I...>) { return Res{ makeValue<std::tuple_element_t<I, Res>, V>(id, pos, len, p)... }; }(std::make_index_sequence<std::tuple_size_v<Res>>());
    else return Res(id + 1, pos, len);
}
template <int ID, class Res, class V = char> struct S : tk::custom_parser<S<ID, Res, V>, V> {
    template <class V2> using result_for = Res;
    static u64 where(const auto& in) { // the sub-parser must be given a suffix of the caller's input
        u64 off = reinterpret_cast<std::uintptr_t>(in.data()) - reinterpret_cast<std::uintptr_t>(base);
        u64 pos = sx_fork(off / esize); bool rest = (off == pos * esize) & (pos <= total) & (in.size() == total - pos); if constexpr (LAWS && PROP != 1) sx_assume(rest); else MUST(rest, "a sub-parser is run on something other than the rest of the input");
        return pos; }
    template <class R> static tk::result<Res, V> parse(R&& r) {
        tk::input_span<V> in{ std::forward<R>(r) }; u64 pos = where(in); ++calls; ++parses[ID]; lastPos[ID] = pos;
        if (!decide(ID, pos)) return { tk::failure_tag, in };
        ++hits[ID]; u64 len = length(ID, pos); tk::input_span<V> rest{ std::span<const V>(in.data() + len, in.size() - len) };
        if constexpr (std::is_void_v<Res>) return { tk::success_tag, rest };
        else return { tk::success_tag, makeValue<Res, V>(ID, pos, len, in.data()), rest }; }
    template <class R> static tk::result<void, V> lookahead(R&& r) {
        tk::input_span<V> in{ std::forward<R>(r) }; u64 pos = where(in); ++calls; ++lookaheads[ID]; lastPos[ID] = pos;
        const int t = !LAWS && (loose >> ID & 1) ? ID + IDS : ID;
        if (!decide(t, pos)) return { tk::failure_tag, in };
        u64 len = length(t, pos); return { tk::success_tag, { std::span<const V>(in.data() + len, in.size() - len) } }; }
};
template <int ID, class Res = Tok<ID>, class V = char> constexpr S<ID, Res, V> stub{};

// ---------------------------------------------------------------- reference outcomes
struct Out { bool ok; u64 end; }; // end: position after the consumed elements
inline Out ref(int id, u64 pos) { if (!decide(id, pos)) return { false, pos }; return { true, pos + length(id, pos) }; }
template <class Rm> bool restIs(const Rm& rem, u64 pos) { // remaining() is exactly the rest from pos
    return (reinterpret_cast<std::uintptr_t>(rem.data()) == reinterpret_cast<std::uintptr_t>(base) + pos * esize) & (rem.size() == total - pos); }
template <class Sp> bool spanIs(const Sp& s, u64 from, u64 to) {
    return (reinterpret_cast<std::uintptr_t>(s.data()) == reinterpret_cast<std::uintptr_t>(base) + from * esize) & (s.size() == to - from); }
template <class T> bool valueIs2(const T& v, int id, u64 pos, u64 len) {
    if constexpr (is_tok<T>::value) return v.is(id + 1, pos, len);
    else if constexpr (std::same_as<T, bool>) return v == (((pos + len + id) & 1) != 0);
    else if constexpr (is_optional<T>::value) return (pos & 1) ? !v : (v && valueIs2(*v, id, pos, len));
    else if constexpr (is_vector<T>::value) { if (v.size() != len) return false; for (u64 i = 0; i < len; ++i) if (!valueIs2(v[i], id, pos, i)) return false; return true; }
    else if constexpr (is_variant<T>::value) return v.index() == pos % std::variant_size_v<T> && std::visit([&](const auto& x) { return valueIs2(x, id, pos, len); }, v);
    else if constexpr (Several<T>) return [&]<std::size_t... I>(std::index_sequence<I...>) { return (true & ... & valueIs2(std::get<I>(v), id, pos, len)); }(std::make_index_sequence<std::tuple_size_v<T>>());
    else return spanIs(v, pos, pos + len); }
// value produced by stub id at pos
template <class T> bool valueIs(const T& v, int id, u64 pos) {
    return valueIs2(v, id, pos, length(id, pos)); }
template <class R> void observe(const R& r) { sx_observe((bool)r); sx_observe(r.remaining().size()); }
template <class Rm> bool isSuffix(const Rm& rem) { u64 off = reinterpret_cast<std::uintptr_t>(rem.data()) - reinterpret_cast<std::uintptr_t>(base); return (off <= total * esize) & (rem.size() <= total) & (off == (total - rem.size()) * esize); }
// every span in a value lies in the consumed part of the input
template <class T> void spansInside(const T& v, u64 end) {
    if constexpr (requires { v.data(); v.size(); requires !std::is_array_v<T>; requires !is_vector<T>::value; requires !requires { std::tuple_size<T>::value; }; requires !std::is_same_v<T, std::string>; } && !std::is_same_v<T, std::vector<bool>>) { u64 off = reinterpret_cast<std::uintptr_t>(v.data()) - reinterpret_cast<std::uintptr_t>(base); MUST((v.data() == nullptr && v.size() == 0) || (off <= end * esize) & (v.size() <= end) & (off <= (end - v.size()) * esize), "a returned span is not within the consumed part of the input"); }
    else if constexpr (is_optional<T>::value) { if (v) spansInside(*v, end); }
    else if constexpr (is_vector<T>::value) { if constexpr (!std::is_same_v<T, std::vector<bool>>) for (const auto& e : v) spansInside(e, end); }
    else if constexpr (requires { std::variant_size<T>::value; }) [&]<std::size_t... I>(std::index_sequence<I...>) { ((v.index() == I ? spansInside(*std::get_if<I>(&v), end) : void()), ...); }(std::make_index_sequence<std::variant_size_v<T>>());
    else if constexpr (requires { std::tuple_size<T>::value; }) [&]<std::size_t... I>(std::index_sequence<I...>) { (spansInside(std::get<I>(v), end), ...); }(std::make_index_sequence<std::tuple_size_v<T>>());
}
// C01: a success leaves what follows the end, a failure leaves everything (o: what the specification says, no say on acceptance here)
template <class R> void splitIs(const R& r, Out o, bool exact = true) {
    if (!r) MUST(restIs(r.remaining(), 0), "a failure consumes input");
    else if (o.ok && exact) MUST(restIs(r.remaining(), o.end), "what a success leaves is not what follows the consumed elements");
    else MUST(isSuffix(r.remaining()), "what a success leaves is not the rest of the caller's input");
    if constexpr (!std::is_void_v<typename std::remove_cvref_t<R>::value_type>) if (r) spansInside(*r, total - r.remaining().size()); }
inline bool vectors = false; // sub-results contain vectors
template <class T> constexpr bool hasVector() {
    if constexpr (std::is_void_v<T>) return false; else if constexpr (is_vector<T>::value) return true; else if constexpr (is_optional<T>::value) return hasVector<typename T::value_type>();
    else if constexpr (requires { std::variant_size<T>::value; }) return []<std::size_t... I>(std::index_sequence<I...>) { return (false || ... || hasVector<std::variant_alternative_t<I, T>>()); }(std::make_index_sequence<std::variant_size_v<T>>());
    else if constexpr (requires { std::tuple_size<T>::value; }) return []<std::size_t... I>(std::index_sequence<I...>) { return (false || ... || hasVector<std::tuple_element_t<I, T>>()); }(std::make_index_sequence<std::tuple_size_v<T>>());
    else return false; }
template <class T> concept Span = requires (const T& t) { t.data(); t.size(); typename T::value_type; };
template <class T> bool deep(const T& a, const T& b) {
    if constexpr (is_tok<T>::value) return a.same(b);
    else if constexpr (is_optional<T>::value) return a.has_value() == b.has_value() && (!a || deep(*a, *b));
    else if constexpr (is_vector<T>::value) { if (a.size() != b.size()) return false; bool ok = true; for (std::size_t i = 0; i < a.size(); ++i) { if constexpr (std::same_as<typename T::value_type, bool>) ok = ok & (a[i] == b[i]); else ok = ok & deep(a[i], b[i]); } return ok; }
    else if constexpr (requires { std::variant_size<T>::value; }) { if (a.index() != b.index()) return false; return [&]<std::size_t... I>(std::index_sequence<I...>) { bool ok = true; ((a.index() == I ? void(ok = deep(*std::get_if<I>(&a), *std::get_if<I>(&b))) : void()), ...); return ok; }(std::make_index_sequence<std::variant_size_v<T>>()); }
    else if constexpr (requires { std::tuple_size<T>::value; }) return [&]<std::size_t... I>(std::index_sequence<I...>) { return (true & ... & deep(std::get<I>(a), std::get<I>(b))); }(std::make_index_sequence<std::tuple_size_v<T>>());
    else if constexpr (std::same_as<T, std::string>) return a == b;
    else if constexpr (Span<T>) return (a.data() == b.data()) & (a.size() == b.size());
    else if constexpr (requires { a == b; }) return a == b; else if constexpr (requires { a.v; }) return deep(a.v, b.v); else if constexpr (requires { a.k; }) return a.k == b.k; else return true;
}
template <class R> bool sameResult(const R& r, const R& s) { return (bool)r == (bool)s && (r.remaining().data() == s.remaining().data()) & (r.remaining().size() == s.remaining().size()); }
// the laws for one parser; o: what it does by its specification, lo: what its lookahead does (differs with filters and joins)
inline int callbacks() { return 0; }
inline bool filtersInside = false; // lookahead may answer otherwise than parse
template <class P, class In, class F> void lawsOf(P p, const In& inp, Out o, Out lo, bool differs, F called) {
    for (int& c : parses) c = 0;
#if PROP == 28
    { compileTime = false; auto c0 = called(); auto r = p.parse(inp.span()); c0 = called() - c0; observe(r); for (int& c : parses) c = 0; compileTime = true; auto c1 = called(); auto s = p.parse(inp.span()); c1 = called() - c1; compileTime = false;
      MUST(sameResult(r, s), "parse accepts or leaves something else at compile time"); MUST(c0 == c1, "user functions are called at other times at compile time"); using Got = typename decltype(r)::value_type; if constexpr (!std::is_void_v<Got>) if (r) MUST(deep(*r, *s), "parse gives another value at compile time"); sx_cover("*parsed");
      auto l = p.lookahead(inp.span()); compileTime = true; auto m = p.lookahead(inp.span()); compileTime = false; MUST(sameResult(l, m), "lookahead accepts or leaves something else at compile time"); }
    return;
#endif
    const auto before = sx_heap_live();
    { const auto a0 = sx_allocs(); auto r = p.parse(inp.span()); observe(r); if constexpr (PROP == 21 && !hasVector<typename decltype(r)::value_type>()) { if (!vectors) MUST(sx_allocs() == a0, "a parse without vectors allocates"); } if constexpr (PROP == 1) splitIs(r, o); if (r) sx_cover("accept"); else sx_cover("reject"); sx_cover("*parsed");
      if constexpr (PROP == 20) { auto copy = std::move(r); sx_observe((bool)copy); }
      if constexpr (PROP != 20) { for (int& c : parses) c = 0; auto c0 = called(); const auto a1 = sx_allocs();
      auto l = p.lookahead(inp.span()); observe(l); if constexpr (PROP == 21) { MUST(sx_allocs() == a1, "lookahead allocates"); if constexpr (requires { ignore(p); }) { auto g = ignore(p).parse(inp.span()); observe(g); MUST(sx_allocs() == a1, "parsing with the result ignored allocates"); } } if constexpr (PROP == 1) splitIs(l, lo);
      if constexpr (PROP == 2) {
        if (differs) { MUST((bool)l == lo.ok, "lookahead's answer is not the wrapped parser's"); MUST(restIs(l.remaining(), lo.ok ? lo.end : 0), "what lookahead leaves is not what the wrapped parser leaves"); }
        else if (!filtersInside) { MUST((bool)l == (bool)r, "lookahead's answer differs from parse's"); MUST((l.remaining().data() == r.remaining().data()) & (l.remaining().size() == r.remaining().size()), "lookahead's remaining input differs from parse's"); }
        for (int c : parses) MUST(c == 0, "lookahead parses a sub-parser, running its functions"); MUST(called() == c0, "lookahead invokes a callable"); } } 
      else { auto l = p.lookahead(inp.span()); observe(l); } }
    if constexpr (PROP == 20) MUST(sx_heap_live() == before, "memory allocated by a parse is not released with its result"); }
template <class P, class In> void laws(P p, const In& inp, Out o) { lawsOf(p, inp, o, o, false, callbacks); }
// split, for every parser: success leaves the rest, failure leaves everything
#define SPLIT(r, o) do { \
    sx_assert((bool)(r) == (o).ok, "acceptance differs from the specification"); \
    sx_assert(sxh::restIs((r).remaining(), (o).ok ? (o).end : 0), "remaining input differs from the specification"); } while (0)
} // namespace sxh
using namespace sxh;
