// Exceptions from user code during a parse: values whose copies and moves throw, callables that throw, sub-parsers that throw (C26).
// Which of the operations throws is a symbolic number.
#include "h.h"
#include <new>
namespace sxh {
inline bool armed = false, fired = false; inline u64 throwAt = 0, ops = 0; inline int boomsAlive = 0; inline u64 firedTag = 0;
enum { BASE, DERIVED, INT };
inline int kindOf = BASE;
struct Boom { u64 tag; const void* self; Boom(u64 t) : tag(t), self(this) { ++boomsAlive; } Boom(const Boom& o) : tag(o.tag + 1000), self(this) { ++boomsAlive; } virtual ~Boom() { --boomsAlive; } };
struct Boom2 : Boom { u64 more; Boom2(u64 t) : Boom(t), more(t * 3) {} };
inline void step() { if (armed && throwAt == ops++) { armed = false; fired = true; firedTag = ops; if (kindOf == BASE) throw Boom(ops); if (kindOf == DERIVED) throw Boom2(ops); throw int(ops); } }
// a value that owns memory, counts itself, and whose construction, copies and moves may throw
template <int K, Flavour F = COPY> struct Tx {
    u64 id = 0, pos = 0, len = 0; int st = EMPTY; int* own = nullptr;
    Tx() noexcept { ++tokensAlive; }
    Tx(u64 i, u64 p, u64 l) : id(i), pos(p), len(l), st(LIVE) { step(); own = new int(7); ++tokensAlive; }
    Tx(const Tx& o) requires (F != MOVEONLY) : id(o.id), pos(o.pos), len(o.len), st(o.use()) { step(); if (o.own) own = new int(*o.own); ++tokensAlive; }
    Tx(Tx&& o) requires (F != COPYONLY) : id(o.id), pos(o.pos), len(o.len), st(o.use()) { step(); own = o.own; o.own = nullptr; o.gone(); ++tokensAlive; }
    Tx& operator=(const Tx& o) requires (F != MOVEONLY) { o.use(); use(); step(); int* n = o.own ? new int(*o.own) : nullptr; delete own; own = n; id = o.id; pos = o.pos; len = o.len; st = o.st; return *this; }
    Tx& operator=(Tx&& o) requires (F != COPYONLY) { o.use(); use(); step(); if (&o != this) { delete own; own = o.own; o.own = nullptr; id = o.id; pos = o.pos; len = o.len; st = o.st; o.gone(); } return *this; }
    ~Tx() { MUST(st != DEAD, "a value is destroyed twice"); st = DEAD; delete own; own = nullptr; --tokensAlive; }
    void gone() noexcept { st = MOVED; id = pos = len = ~u64(0); }
    int use() const noexcept { MUST(st != DEAD, "a value is read after it was destroyed"); return st; }
    bool is(u64 i, u64 p, u64 l) const { use(); return (st == LIVE) & (id == i) & (pos == p) & (len == l); }
    bool same(const Tx& o) const { return (st == o.st) & (id == o.id) & (pos == o.pos) & (len == o.len); }
};
template <int K, Flavour F> struct is_tok<Tx<K, F>> : std::true_type {};
// a sub-parser that may throw by itself
template <int ID> struct Th : tk::custom_parser<Th<ID>, char> {
    template <class V2> using result_for = Tx<1>;
    template <class R> static tk::result<Tx<1>, char> parse(R&& r) { step(); return S<ID, Tx<1>>::parse(std::forward<R>(r)); }
    template <class R> static tk::result<void, char> lookahead(R&& r) { step(); return S<ID, Tx<1>>::lookahead(std::forward<R>(r)); } };
}
using A = Tx<1>; using B = Tx<2>; using M = Tx<3, MOVEONLY>; using C_ = Tx<4, COPYONLY>; using Sp = tk::output_span<char>;
constexpr u64 OPS = TIER ? 60 : 30;
template <class P> void throwing(P p, u64 lo = 0, u64 hi = 1, u64 stop = POS) {
    minLen = lo; maxLen = hi; stopAt = stop; auto in = input(1ull << 36); throwAt = sx_range("throwAt", 0, OPS); kindOf = sx_fork(sx_range("kind", 0, 2));
    const auto heap = sx_heap_live(); const auto alive = tokensAlive; bool ok; u64 left;
    { armed = true; ops = 0; fired = false; bool caught = false;
      try { auto r = p.parse(in.span()); MUST(!fired, "an exception does not reach the caller"); armed = false; sx_cover("*finished"); }
      catch (Boom2& b) { caught = true; MUST(fired && kindOf == DERIVED, "another exception arrives"); MUST(b.tag == firedTag && b.more == firedTag * 3 && b.self == &b, "the exception changes on its way"); sx_cover("thrown"); }
      catch (Boom& b) { caught = true; MUST(fired && kindOf == BASE, "another exception arrives"); MUST(b.tag == firedTag && b.self == &b, "the exception changes on its way"); sx_cover("*thrown"); }
      catch (int i) { caught = true; MUST(fired && kindOf == INT && i == int(firedTag), "another exception arrives"); }
      catch (...) { caught = true; MUST(false, "another exception arrives"); }
      MUST(caught == fired, "an exception does not reach the caller"); sx_observe(caught); sx_observe(ops); }
    MUST(boomsAlive == 0, "the exception is not destroyed"); MUST(tokensAlive == alive, "a value is left alive, or destroyed twice"); MUST(sx_heap_live() == heap, "memory is left allocated");
    armed = false; { auto r = p.parse(in.span()); ok = (bool)r; left = r.remaining().size(); }
    { auto r = p.parse(in.span()); MUST((bool)r == ok && r.remaining().size() == left, "the next parse differs"); sx_observe(ok); sx_observe(left); }
    MUST(tokensAlive == alive && sx_heap_live() == heap, "something is left after the next parse");
}
// memory runs out at any one of the allocations
template <class P> void outOfMemory(P p, u64 lo = 0, u64 hi = 1, u64 stop = POS) {
    minLen = lo; maxLen = hi; stopAt = stop; auto in = input(1ull << 36); const u64 at = sx_fork(sx_range("failAt", 1, TIER ? 24 : 10)); const auto heap = sx_heap_live(); const auto alive = tokensAlive; bool ok; u64 left; armed = false;
    { bool caught = false, failed = false; sx_alloc_fail(at);
      try { auto r = p.parse(in.span()); failed = sx_alloc_fail(0) == 0; MUST(!failed, "an exception does not reach the caller"); sx_cover("*finished"); } catch (std::bad_alloc&) { caught = true; failed = sx_alloc_fail(0) == 0; sx_cover("out of memory"); } catch (...) { MUST(false, "another exception arrives"); }
      MUST(caught == failed, "an exception does not reach the caller"); sx_observe(caught); }
    MUST(tokensAlive == alive, "a value is left alive, or destroyed twice"); MUST(sx_heap_live() == heap, "memory is left allocated");
    { auto r = p.parse(in.span()); ok = (bool)r; left = r.remaining().size(); } { auto r = p.parse(in.span()); MUST((bool)r == ok && r.remaining().size() == left, "the next parse differs"); sx_observe(ok); sx_observe(left); }
    MUST(tokensAlive == alive && sx_heap_live() == heap, "something is left after the next parse");
}
#define T(n, ...) ENTRY(n) { throwing(__VA_ARGS__); } ENTRY(memory_##n) { outOfMemory(__VA_ARGS__); }
constexpr auto& sa = stub<0, A>; constexpr auto& sa1 = stub<1, A>; constexpr auto& sb = stub<1, B>; constexpr auto& sm = stub<0, M>; constexpr auto& sc = stub<0, C_>; constexpr auto& sv = stub<2, void>; constexpr auto& ss = stub<3, Sp>; constexpr auto& sva = stub<4, std::vector<A>>; constexpr auto& soa = stub<5, std::optional<A>>;
constexpr auto f1 = [](auto&& v) { step(); return std::forward<decltype(v)>(v); }; constexpr auto fv = [](auto v) { step(); return v; }; constexpr auto f0 = [](const auto&) { step(); }; constexpr auto mk = [](auto&&...) { step(); return B(1, 2, 3); };
constexpr auto pr = [](const auto&...) { step(); return true; }; constexpr auto no = [](const auto&... v) { step(); return false; }; constexpr auto sp0 = [] { step(); return true; };
struct Built { A a; Built(A x) : a(std::move(x)) { step(); } }; struct Built2 { A a; B b; Built2(A x, B y) : a(std::move(x)), b(std::move(y)) { step(); } }; struct Dflt { A a; Dflt() { step(); } };
T(seq2, sa >> sb) T(seq3, sa >> sb >> stub<2, M>) T(seq3same, sa >> sa1 >> stub<2, A>) T(seq_copy, sc >> stub<1, C_>) T(seq_void, sa >> sv >> sa1) T(seq_vec, sva >> sb) T(seq_opt, soa >> sb >> ss) T(seq_one, sv >> sa)
T(choice_same, sa | sa1 | stub<2, A>) T(choice_diff, sa | sb) T(choice3, sa | sb | stub<2, M>) T(choice_void, sa | sv) T(choice_opt, soa | sb) T(choice_copy, sc | stub<1, C_> | sb) T(choice_seq, (sa >> sb) | stub<2, M>) T(choice_seq2, (sa >> sb) | (sa >> stub<2, M>))
T(maybe_tok, ~sa) T(maybe_move, ~sm) T(maybe_copy, ~sc) T(maybe_seq, ~(sa >> sb)) T(maybe_choice, ~(sa | sb)) T(maybe_opt, ~soa)
T(star_tok, *sa, 1, 1, 3) T(star_move, *sm, 1, 1, 3) T(star_copy, *sc, 1, 1, 3) T(plus_tok, +sa, 1, 1, 3) T(plus_move, +sm, 1, 1, 3) T(plus_copy, +sc, 1, 1, 3) T(star_seq, *(sa >> sb), 1, 1, 4) T(star_choice, *(sa | sb), 1, 1, 3) T(star_vec, *sva, 1, 1, 2) T(plus_maybe, *(sb >> ~sa), 1, 1, 4)
T(exactly2, exactly<2>(sa)) T(exactly3, exactly<3>(sm)) T(exactly_copy, exactly<3>(sc)) T(exactly_seq, exactly<2>(sa >> sb)) T(exactly_opt, exactly<2>(soa))
T(delimit_tok, delimit(sa, sv), 1, 1, 4) T(delimit_move, delimit(sm, sb), 1, 1, 4) T(keep, delimit_keep(sa, sb), 1, 1, 4) T(keep_move, delimit_keep(sm, stub<1, M>), 1, 1, 4) T(keep_copy, delimit_keep(sc, sb), 1, 1, 4) T(keep_void, delimit_keep(sv, sb), 1, 1, 4)
T(map_tok, map<mk>(sa)) T(map_same, sa % map<f1>) T(map_value, sa % map<fv>) T(map_none, sa % map<f0>) T(map_void, sv % map<mk>) T(map_chain, sa % map<fv> % map<mk> % map<f0>) T(map_vec, sva % map<f1>) T(map_opt, soa % map<f1>) T(map_move, sm % map<f1>)
T(apply_tok, (sa >> sb) % apply<mk>) T(apply_arr, exactly<2>(sa) % apply<mk>) T(apply_none, (sa >> sb) % apply<[](auto, auto) { step(); }>) T(apply_vec, delimit_keep(sa, sb) % apply<mk>, 1, 1, 3)
T(into_tok, into<Built>(sa)) T(apply_into_tok, (sa >> sb) % apply_into<Built2>) T(default_tok, sa % defaulted<Dflt>) T(default_value, sv % defaulted<A>) T(const_tok, sa % constant<5>)
T(filter_tok, sa % filter<pr>) T(filter_no, sa % filter<no>) T(filter_void, sv % filter<sp0>) T(filter_apply, (sa >> sb) % apply_filter<pr>) T(filter_choice, (sa % filter<no>) | sa1) T(filter_copy, sc % filter<[](auto v) { step(); return v.len != 0; }>) T(filter_vec, sva % filter<pr>) T(filter_maybe, ~(sm % filter<no>))
T(complete_tok, complete(sa >> sb)) T(name_tok, name<"n">(sa) >> name<"m">(sb)) T(ignore_tok, sa >> ignore(sb) >> stub<2, A>)
T(join_filter, join(ss % filter<pr> >> stub<2, Sp>)) T(join_star, join(*(ss % filter<pr>)), 1, 1, 3) T(join_opt, join(~(ss % filter<no>) >> stub<2, Sp>))
T(parser_tok, stub<1, B> >> Th<0>{}) T(parser_choice, Th<0>{} | Th<1>{}) T(parser_star, *Th<0>{}, 1, 1, 3) T(parser_ignore, sb >> ignore(Th<0>{})) T(parser_delimit, delimit(sa, Th<1>{}), 1, 1, 4) T(parser_complete, complete(Th<0>{} % map<mk>))
T(sub_tok, (name<"x">(sa) >> sb) % sub(name<"x"> = map<mk>))
template <class P> struct Cu : tk::custom_parser<Cu<P>> { using result_type = typename P::template result_for<char>; static constexpr auto get_parser() { return P{}; } };
T(custom_tok, Cu<std::remove_cvref_t<decltype(sa >> sb)>>{} >> stub<2, A>) T(custom_map, Cu<std::remove_cvref_t<decltype((sa >> sb) % map<mk>)>>{} | stub<2, M>)
// nested lists as values: a tree of unique owners
T(nested, (*(sa >> ~sb)) % map<mk> >> stub<2, A>, 1, 1, 4) T(nested2, ((sa | sb) >> *stub<2, M>) | stub<3, A>, 1, 1, 3) T(nested3, *(delimit(sa, sv) % filter<pr>), 1, 1, 3)
// what is at fault may be the result object itself: copies, moves, conversions
template <class V, class F> void object(F f) { minLen = 0; maxLen = 1; auto in = input(1ull << 36); throwAt = sx_range("throwAt", 0, OPS); const auto heap = sx_heap_live(); const auto alive = tokensAlive; armed = true; ops = 0; fired = false; bool caught = false;
    try { f(S<0, V>::parse(in.span())); sx_cover("*finished"); MUST(!fired, "an exception does not reach the caller"); } catch (Boom& b) { caught = true; MUST(b.tag == firedTag && b.self == &b, "the exception changes on its way"); sx_cover("*thrown"); }
    armed = false; MUST(caught == fired, "an exception does not reach the caller"); MUST(tokensAlive == alive, "a value is left alive, or destroyed twice"); MUST(sx_heap_live() == heap, "memory is left allocated"); sx_observe(ops); }
template <class T> using R = decltype(S<0, T>::parse(std::declval<tk::input_span<char>>()));
struct Wide { A a; Wide(A&& x) : a(std::move(x)) {} Wide(const A& x) : a(x) {} };
ENTRY(object_copy) { object<A>([](auto r) { auto c = r; auto d = c; d = r; d = std::move(c); auto e = std::move(d); }); } ENTRY(object_move) { object<M>([](auto r) { auto c = std::move(r); R<M> d; d = std::move(c); }); } ENTRY(object_convert) { object<A>([](auto r) { R<Wide> w = r; R<std::optional<A>> o(r); w = r; o = std::move(r); R<Wide> v(w); }); } ENTRY(object_value) { object<A>([](auto r) { if (r) { A a = *r; A b = std::move(r).value(); a = std::move(b); } }); }
