// Two parsers behave alike: same type of result, acceptance, value, remaining input, lookahead, and calls of user functions.
#pragma once
#include "h.h"
namespace sxh {
inline unsigned agreeLoose = 0; inline int uses[4]; inline u64 trace; // calls of user functions, in order
inline void used(int k) { ++uses[k]; trace = trace * 5 + k + 1; }
inline void resetUses() { for (int& u : uses) u = 0; trace = 0; }
template <class P, class Q> void agreeOn(P p, Q q, const Input<char>& in, bool value = true) {
    if constexpr (LAWS) { vectors = true; resetUses(); lawsOf(p, in, Out{ false, 0 }, Out{ false, 0 }, false, [] { return uses[0] + uses[1] * 100 + uses[2] * 10000 + uses[3] * 1000000; }); (void)q; return; }
    else {
    loose = agreeLoose; resetUses(); auto r = p.parse(in.span()); u64 t = trace; observe(r); resetUses(); auto s = q.parse(in.span());
    sx_assert((bool)r == (bool)s, "acceptance differs"); sx_assert((r.remaining().data() == s.remaining().data()) & (r.remaining().size() == s.remaining().size()), "remaining input differs"); sx_assert(t == trace, "user functions are called at different times");
    sx_assert((std::same_as<decltype(r), decltype(s)>), "type of the result differs");
    if constexpr (std::same_as<decltype(r), decltype(s)>) if constexpr (!std::is_void_v<typename decltype(r)::value_type>) if (r && s) sx_assert(deep(*r, *s), "value differs");
    if (r) sx_cover("*accept"); else sx_cover("reject");
    loose = 0; auto l = p.lookahead(in.span()); auto m = q.lookahead(in.span()); sx_assert((bool)l == (bool)m, "lookahead differs"); sx_assert((l.remaining().data() == m.remaining().data()) & (l.remaining().size() == m.remaining().size()), "lookahead's remaining input differs"); } }
} // namespace sxh
