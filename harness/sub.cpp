// sub: the named parts, and only those, become what the modifier makes of them (C17).
#include "agree.h"
using A = Tok<100>; using B = Tok<101>; using Sp = tk::output_span<char>; using Y = Tok<50>; using Z = Tok<51>;
constexpr u64 BIG = 1ull << 36; constexpr int K = TIER ? 5 : 4;
constexpr S<0, A> a; constexpr S<1, B> b; constexpr S<2, A> c; constexpr S<3, B> d;
constexpr auto fY = [](const auto& v) { used(0); if constexpr (requires { v.pos; }) return Y(7, v.pos, v.len); else return Y(7, 1, 1); };
constexpr auto fZ = [](const auto&) { used(1); return Z(8, 1, 2); };
constexpr auto pass = [](auto v) { used(2); return v; };
constexpr auto odd = [](const auto& v) { used(3); if constexpr (requires { v.pos; }) return ((v.pos + v.len) & 1) != 0; else return false; };
constexpr auto three = [](auto&&...) { used(3); return 3; }; constexpr auto yes = [](auto&&...) { used(3); return true; };
struct Wrap { u64 n = 0; Wrap() = default; template <class T> requires (!std::same_as<std::remove_cvref_t<T>, Wrap>) explicit Wrap(T&& v) : n(0) { if constexpr (requires { v.len; }) n = v.len; } bool operator==(const Wrap&) const = default; };
// the modifiers; each is applied by sub and, for reference, directly to the part
template <int k, class F> void mods(F f) {
    if constexpr (k == 0) f(map<fY>); else if constexpr (k == 1) f(ignore); else if constexpr (k == 2) f(complete); else if constexpr (k == 3) f(filter<odd>); else if constexpr (k == 4) f(constant<5>); else if constexpr (k == 5) f(exactly<2>); else if constexpr (k == 6) f(into<Wrap>); else if constexpr (k == 7) f(defaulted<u64>); else if constexpr (k == 8) f(name<"other">); else if constexpr (k == 9) f(delimit(d)); else if constexpr (k == 10) f(delimit_keep(d)); else if constexpr (k == 11) f(map<fY> % map<fZ> % ignore); else f(map<pass> % exactly<2>); }
// grammar g(x, y, z) over three parts: x twice named n, y named m, z not named
template <int k, class G> void grammar(G g, u64 lo, u64 hi, u64 stop) {
    minLen = lo; maxLen = hi; stopAt = stop; auto in = input(BIG);
    mods<k>([&](auto m) {
        agreeOn(g(name<"n">(a), name<"m">(b), c) % sub(name<"n"> = m), g(m(a), name<"m">(b), c), in);
        agreeOn(sub(g(name<"n">(a), name<"nn">(b), c), name<"n"> = m), g(m(a), b, c), in);
        agreeOn(g(name<"n">(a), name<"">(b), name<"N">(c)) % sub(name<"q"> = m, name<"nn"> = m, name<"m"> = m), g(a, b, c), in);
    }); }
#define SHAPE(id, lo, hi, stop, expr) template <int k> void shape_##id() { grammar<k>([](auto x, auto y, auto z) { return expr; }, lo, hi, stop); } \
  ENTRY(id##_map) { shape_##id<0>(); } ENTRY(id##_ignore) { shape_##id<1>(); } ENTRY(id##_filter) { shape_##id<3>(); }
#define ALLMODS(id) ENTRY(id##_complete) { shape_##id<2>(); } ENTRY(id##_constant) { shape_##id<4>(); } ENTRY(id##_exactly) { shape_##id<5>(); } ENTRY(id##_into) { shape_##id<6>(); } ENTRY(id##_defaulted) { shape_##id<7>(); } ENTRY(id##_name) { shape_##id<8>(); } ENTRY(id##_delimit) { shape_##id<9>(); } ENTRY(id##_keep) { shape_##id<10>(); } ENTRY(id##_multi) { shape_##id<11>(); } ENTRY(id##_multi2) { shape_##id<12>(); }
SHAPE(self, 1, 1, 4, x) ALLMODS(self)
SHAPE(seq, 1, 1, 4, x >> y >> z >> x) ALLMODS(seq)
SHAPE(choice, 1, 1, 4, y | x | z) ALLMODS(choice)
SHAPE(maybe, 0, 2, POS, ~x >> z)
SHAPE(star, 1, 1, K, y >> *(x >> z))
SHAPE(plus, 1, 1, K, +(x | z))
SHAPE(starx, 1, 1, K, *x)
SHAPE(exactly, 1, 1, POS, exactly<2>(x) >> exactly<1>(y))
SHAPE(delim, 1, 1, 4, delimit(x, z))
SHAPE(delim2, 1, 1, 4, delimit(z, x))
SHAPE(keep, 1, 1, 4, delimit_keep(x, z))
SHAPE(keep2, 1, 1, 4, delimit_keep(z, x))
SHAPE(inside_map, 0, 2, POS, (map<three>(x) >> y))
SHAPE(inside_filter, 0, 2, POS, (filter<yes>(x) >> y))
SHAPE(inside_complete, 0, 2, POS, complete(y >> x))
SHAPE(inside_ignore, 0, 2, POS, ignore(x) >> z)
SHAPE(inside_name, 0, 2, POS, name<"outer">(x >> y))
SHAPE(inside_into, 0, 2, POS, (into<std::optional<u64>>(constant<3>(x))))
SHAPE(deep, 1, 1, 4, name<"p">(y >> ~(z | name<"o">(*(x >> ignore(y))))) >> (x | complete(exactly<1>(x))))
SHAPE(twice, 1, 1, POS, x >> name<"k">(x) >> name<"kk">(name<"k">(y | x)))
// a part inside a part of the same name, and a named part whose inside is named
ENTRY(nested) { minLen = 0; maxLen = 2; auto in = input(BIG); agreeOn(name<"n">(name<"n">(a)) % sub(name<"n"> = exactly<2>), exactly<2>(exactly<2>(a)), in); agreeOn(name<"n">(a >> name<"n">(b)) % sub(name<"n"> = map<fY>), map<fY>(a >> map<fY>(b)), in); agreeOn(name<"n">(a >> name<"m">(b)) % sub(name<"m"> = map<fY>), a >> map<fY>(b), in);
    agreeOn(name<"n">(a >> name<"m">(b)) % sub(name<"n"> = map<fZ>, name<"m"> = map<fY>), map<fZ>(a >> map<fY>(b)), in); agreeOn(name<"n">(a >> name<"m">(b)) % sub(name<"m"> = map<fY>, name<"n"> = map<fZ>), map<fZ>(a >> map<fY>(b)), in); agreeOn(name<"m">(name<"n">(name<"m">(a))) % sub(name<"n"> = complete), complete(a), in); }
// several substitutions: one after another
template <class F> void several(F g) { auto in = input(BIG); auto x = name<"x">(a); auto y = name<"y">(b); auto p = g(x, y, c);
    agreeOn(p % sub(name<"x"> = map<fY>, name<"y"> = ignore), g(map<fY>(a), ignore(b), c), in); agreeOn(p % sub(name<"y"> = ignore) % sub(name<"x"> = map<fY>), g(map<fY>(a), ignore(b), c), in); agreeOn(sub(p, name<"y"> = ignore, name<"x"> = map<fY>), g(map<fY>(a), ignore(b), c), in);
    agreeOn(p % sub(name<"x"> = map<fY>, name<"x"> = map<fZ>), g(map<fY>(a), b, c), in); agreeOn(p % sub(name<"x"> = map<fY>) % sub(name<"x"> = map<fZ>), g(map<fY>(a), b, c), in);
    agreeOn(p % sub(name<"x"> = name<"y">, name<"y"> = map<fY>), g(map<fY>(a), map<fY>(b), c), in); agreeOn(p % sub(name<"y"> = map<fY>, name<"x"> = name<"y">), g(a, map<fY>(b), c), in); agreeOn(p % sub(name<"x"> = name<"y">) % sub(name<"y"> = map<fY>), g(map<fY>(a), map<fY>(b), c), in);
    agreeOn(p % sub(name<"x"> = map<fY> % name<"x">, name<"x"> = map<fZ>), g(map<fZ>(map<fY>(a)), b, c), in); agreeOn(p % sub(name<"x"> = map<fY> % name<"z">, name<"y"> = ignore % name<"z">, name<"z"> = exactly<2>), g(exactly<2>(map<fY>(a)), exactly<2>(ignore(b)), c), in); }
ENTRY(several_seq) { minLen = 1; maxLen = 1; several([](auto x, auto y, auto z) { return x >> y >> z; }); } ENTRY(several_choice) { minLen = 0; maxLen = 2; several([](auto x, auto y, auto z) { return z | x | y; }); } ENTRY(several_deep) { minLen = 1; maxLen = 1; stopAt = 4; several([](auto x, auto y, auto z) { return *(x >> ~y) >> exactly<1>(z | ignore(x)); }); }
// three and four at once; a sub inside a sub; a sub with several inside a chain of modifiers
ENTRY(many) { minLen = 0; maxLen = 1; auto in = input(BIG); auto p = name<"a">(a) >> name<"b">(b) >> name<"c">(c) >> name<"d">(d);
    agreeOn(p % sub(name<"a"> = ignore, name<"b"> = map<fY>, name<"c"> = ignore), ignore(a) >> map<fY>(b) >> ignore(c) >> d, in); agreeOn(p % sub(name<"d"> = map<fZ>, name<"c"> = ignore, name<"b"> = map<fY>, name<"a"> = map<pass>), map<pass>(a) >> map<fY>(b) >> ignore(c) >> map<fZ>(d), in);
    agreeOn(name<"q">(p) % sub(name<"q"> = sub(name<"b"> = map<fY>), name<"d"> = ignore), a >> map<fY>(b) >> c >> ignore(d), in); agreeOn(p % (sub(name<"a"> = ignore, name<"d"> = ignore) % map<fY>), map<fY>(ignore(a) >> b >> c >> ignore(d)), in);
    agreeOn((name<"a">(a) >> name<"b">(b)) % sub(name<"a"> = sub(name<"a"> = map<fY>)) , a >> b, in); }
// names: prefixes, extensions, empty, other characters and widths
ENTRY(names) { minLen = 0; maxLen = 1; auto in = input(BIG);
    agreeOn((name<"ab">(a) >> name<"abc">(b) >> name<"a">(c)) % sub(name<"ab"> = map<fY>), map<fY>(a) >> b >> c, in); agreeOn((name<"ab">(a) >> name<"abc">(b) >> name<"a">(c)) % sub(name<"abc"> = map<fY>), a >> map<fY>(b) >> c, in); agreeOn((name<"ab">(a) >> name<"abc">(b) >> name<"a">(c)) % sub(name<"a"> = map<fY>), a >> b >> map<fY>(c), in);
    agreeOn((name<"">(a) >> name<"x">(b)) % sub(name<""> = map<fY>), map<fY>(a) >> b, in); agreeOn((name<"">(a) >> name<"x">(b)) % sub(name<"x"> = map<fY>), a >> map<fY>(b), in); agreeOn((name<"a\0b">(a) >> name<"a">(b)) % sub(name<"a"> = map<fY>), a >> map<fY>(b), in); agreeOn((name<"a\0b">(a) >> name<"a\0c">(b)) % sub(name<"a\0b"> = map<fY>), map<fY>(a) >> b, in);
    agreeOn((name<"ba">(a) >> name<"ab">(b)) % sub(name<"ab"> = map<fY>), a >> map<fY>(b), in); agreeOn((name<L"w">(a) >> name<L"v">(b)) % sub(name<L"w"> = map<fY>), map<fY>(a) >> b, in); agreeOn(name<L"w">(name<"v">(a) >> b) % sub(name<"v"> = map<fY>), map<fY>(a) >> b, in); agreeOn(name<"w">(name<L"v">(a) >> b) % sub(name<L"v"> = map<fY>), map<fY>(a) >> b, in); }
// parts that are classes and literals; under join, where the name hides the shortcut
ENTRY(classes) { auto in = input(4); auto x = name<"d">(any<"ab">); auto l = name<"l">(all<"ab">); agreeOn((*x >> l) % sub(name<"d"> = map<fY>), *map<fY>(any<"ab">) >> l, in); agreeOn((x >> x | l) % sub(name<"l"> = ignore), x >> x | ign<"ab">, in); agreeOn(join(+x) % sub(name<"d"> = complete), join(+complete(any<"ab">)), in); agreeOn(join(x >> l) % sub(name<"l"> = ignore), join(any<"ab"> >> ignore(all<"ab">)), in); agreeOn((delimit(x, l)) % sub(name<"l"> = complete), delimit(any<"ab">, complete(all<"ab">)), in); }
ENTRY(joined) { minLen = 0; maxLen = 2; auto in = input(BIG); S<4, Sp> e; S<5, Sp> f; agreeOn(join(name<"e">(e) >> name<"f">(f)) % sub(name<"f"> = ignore), join(e >> ignore(f)), in); agreeOn(join(exactly<2>(name<"e">(e) >> f)) % sub(name<"e"> = ignore), join(exactly<2>(ignore(e) >> f)), in); agreeOn((name<"e">(e >> f) >> name<"f">(f)) % sub(name<"e"> = join), join(e >> f) >> f, in); }
