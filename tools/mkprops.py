#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one source of the property texts)."""
import json, os
D = "include/k3/tok3n/detail/"
def P(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or ["P::parse(input): has_value(), operator*, remaining()", "P::lookahead(input): has_value(), remaining()"],
                     hook_needed=hook))
SAMPLE = "the existing tests evaluate a fixed list of short literals against a fixed list of sample parsers; "
props = [
P("C01", "Every parse yields a faithful split of the input, failures consume nothing",
  "For every parser and input, a successful parse or lookahead reports as remaining exactly the suffix of the caller's input that follows the consumed elements, and a failed one reports the whole, unconsumed input. Every span a parse returns (but the empty default of an alternative without a result) refers to the caller's own memory, inside the consumed part, so nothing is copied or invented. This holds for every combinator over arbitrary sub-parsers that obey it themselves, hence for every grammar.",
  ["inputs", "programs"], "all inputs, all grammars (structural induction: each combinator over arbitrary conforming sub-parsers)",
  SAMPLE + "they compare remaining() by content only, never by address, and no combinator is exercised over arbitrary sub-parser behaviour.",
  [D+"parsers/basic_base.h", D+"parsers/choice.h", D+"parsers/sequence.h", D+"parsers/exactly.h", D+"parsers/one_or_more.h", D+"parsers/zero_or_more.h", D+"parsers/delimit.h", D+"parsers/maybe.h", D+"parsers/join.h", D+"parsers/complete.h", D+"parsers/map.h", D+"parsers/filter.h", D+"result.h", D+"span.h"],
  [("failure_tag results carry the original input", "every parsers/*.h parse/lookahead"), ("remaining built from data()+consumed, size()-consumed", D+"parsers/basic_base.h")]),
P("C02", "lookahead agrees with parse",
  "For every parser that contains no filter and no join, lookahead succeeds on exactly the inputs on which parse succeeds, and leaves the same remaining input. A filter or join answers lookahead with the answer of the parser it wraps, without running the predicate or looking at contiguity. lookahead never invokes a user's callable.",
  ["inputs", "programs"], "all inputs, all grammars",
  SAMPLE + "agreement is two separately written loops per combinator and only the sampled inputs are compared.",
  [D+"helpers.h", D+"parsers/choice.h", D+"parsers/sequence.h", D+"parsers/delimit.h", D+"parsers/exactly.h", D+"parsers/maybe.h", D+"parsers/one_or_more.h", D+"parsers/zero_or_more.h", D+"parsers/complete.h", D+"parsers/filter.h", D+"parsers/join.h", D+"optimizations/join_exactly_basic.h"],
  [("lookahead mirrors parse, recursing into lookahead", "every parsers/*.h"), ("void elements of compounds run through lookahead", D+"helpers.h")]),
P("C03", "Character classes match exactly their members",
  "any<...> succeeds exactly when the first input element equals one of the listed elements, none<...> exactly when there is a first element and it equals none of them, whatever the order or duplicates in which the elements were listed. A match consumes exactly one element and returns a span of it; the empty input never matches. The same holds for every element type (narrow, wide, signed, integral, enum, user-defined structural).",
  ["inputs", "programs"], "all element values of every element type; sets in any order, with duplicates, with values above 127 and NUL, empty",
  SAMPLE + "no element above 127, no NUL, no exhaustive value sweep.",
  ["include/k3/tok3n/basic.h", D+"static_array.h", D+"parsers/any_of.h", D+"parsers/none_of.h", D+"parsers/anything.h", D+"parsers/basic_base.h"],
  [("sort_and_unique canonicalises the set", D+"static_array.h"), ("static_array::contains", D+"static_array.h")]),
P("C04", "Literal parsers match exactly their text",
  "all<...> succeeds exactly when the input begins with the listed elements in order, for every length of literal and of input, including embedded NULs and the empty literal. A match consumes exactly the length of the literal and returns a span over those input elements. ign<...> accepts the same inputs and returns nothing.",
  ["inputs", "programs"], "all input contents and lengths up to the bound; literals of length 0 to 64, several element types",
  SAMPLE + "only near-miss strings chosen by hand, literals of at most 7 elements.",
  ["include/k3/tok3n/basic.h", D+"static_array.h", D+"span.h", D+"parsers/all_of.h", D+"parsers/basic_base.h", D+"parsers/ignore.h"],
  [("size test, then span comparison", D+"parsers/all_of.h"), ("span_equal_to", D+"span.h")]),
P("C05", "Combining classes with | and ! is exact boolean algebra",
  "For character classes A and B, the parser A | B matches an element exactly when A or B matches it, and !A matches an element exactly when A does not, for any mix of any and none classes, nested to any depth. In particular the merged single class accepts the same inputs as trying A and then B would.",
  ["inputs", "programs"], "all pairs of sets up to the bound (any/none on either side, equal, disjoint, overlapping, nested, empty), all element values",
  "the tests check the merged type for about a dozen set pairs; the merge walks two sorted arrays and its branches depend on how the sets interleave.",
  [D+"set_operations.h", D+"operators/choice.h", D+"operators/not.h", D+"static_array.h"],
  [("set_union/set_intersection/set_difference", D+"set_operations.h"), ("choice_operator overloads choose the set operation", D+"operators/choice.h")]),
P("C06", "Sequence runs all parts in order, keeps the non-void results in order",
  "p1 >> p2 >> ... succeeds exactly when every part succeeds in turn, each starting where the previous one stopped, and then leaves what the last part left. Its result holds the results of the parts that have one, in order and unmodified: nothing if there is none, the bare value if there is one, a tuple otherwise. If any part fails the whole sequence fails and consumes nothing.",
  ["inputs", "programs"], "arbitrary sub-parsers, every mix of void and non-void parts up to the bound, all inputs up to the bound",
  SAMPLE + "five sample sequences; the mapping from part to tuple slot is only sampled.",
  [D+"parsers/sequence.h", D+"helpers.h", D+"filter.h", D+"operators/sequence.h"],
  [("filter_out_void index sequence", D+"filter.h"), ("compound_executor", D+"helpers.h")]),
P("C07", "Choice takes the first alternative that succeeds and reports it as itself",
  "p1 | p2 | ... succeeds exactly when some alternative succeeds on the original input, and its remaining input and value are those of the first such alternative; later alternatives are not run. The value is stored in the variant alternative of its own type: identical result types share one slot, void alternatives have none, and a single distinct type is returned bare.",
  ["inputs", "programs"], "arbitrary sub-parsers, every pattern of equal, different and void result types up to the bound, all inputs up to the bound",
  SAMPLE + "five sample choices, none of them repeating a type after another one; the type de-duplication is a hand-written index computation.",
  [D+"parsers/choice.h", D+"helpers.h", D+"filter.h", D+"operators/choice.h"],
  [("filter_out_void_deduplicate index sequence", D+"filter.h"), ("short-circuit fold over execute()", D+"parsers/choice.h")]),
P("C08", "Repetition operators ~ * + are greedy and complete",
  "For every sub-parser that consumes something when it succeeds, *p and +p apply p from where the previous match ended until it first fails, return the results of all matches in order, and leave the input after the last match; +p fails without consuming if there was no match. ~p applies p once and succeeds with an empty optional and nothing consumed if p fails. They terminate on every input.",
  ["inputs", "programs"], "arbitrary sub-parsers with progress, all inputs up to the bound",
  SAMPLE + "at most a handful of repetitions.",
  [D+"parsers/zero_or_more.h", D+"parsers/one_or_more.h", D+"parsers/maybe.h", D+"helpers.h"],
  [("loop until the first failure", D+"parsers/zero_or_more.h"), ("result_builder::insert_back", D+"helpers.h")]),
P("C09", "exactly<N> means N matches, all or nothing",
  "exactly<N>(p) succeeds exactly when p succeeds N times in a row, each time starting where the previous match ended; the result is an array of the N results in order (nothing if p has no result), and the input left is what the N-th match left. With fewer matches it fails and consumes nothing; it never attempts more than N.",
  ["inputs", "programs"], "arbitrary sub-parsers (also ones that may match without consuming), N from 1 to the bound, all inputs up to the bound",
  SAMPLE + "N of 2 to 5 with two or three inputs each.",
  [D+"parsers/exactly.h", D+"modifiers/exactly.h", D+"helpers.h", D+"optimizations/join_exactly_basic.h"],
  [("counted loop with original_input", D+"parsers/exactly.h"), ("result_builder::array_assign", D+"helpers.h")]),
P("C10", "delimit is p (d p)*, with no dangling delimiter",
  "delimit(p, d) behaves like p followed by as many (d p) pairs as match: it fails without consuming if the first p fails, and a delimiter that is not followed by p is neither consumed nor reported. The result lists every p result in order, and delimit_keep also lists every delimiter result in order, exactly one fewer than there are elements. The infix form p % delimit(d) is the same parser.",
  ["inputs", "programs"], "arbitrary p and d (with and without results), all inputs up to the bound",
  SAMPLE + "the interesting cases (trailing delimiter, delimiter consumed but element failing) are sampled with one-character delimiters.",
  [D+"parsers/delimit.h", D+"modifiers/delimit.h", D+"modifiers/delimit_keep.h", D+"helpers.h"],
  [("input only advanced after p", D+"parsers/delimit.h"), ("insert_back_first/second", D+"helpers.h")]),
P("C11", "join succeeds exactly on contiguous output and returns exactly that span",
  "join(p) succeeds exactly when p succeeds and the non-empty spans in p's result, taken in order through any nesting of vectors, arrays, optionals and tuples, each start where the previous one ended; the result is the single span from the first to the last of them. If all are empty the result is an empty span inside the input. The remaining input is p's, and a gap left by an ignored part between two non-empty spans makes join fail without consuming.",
  ["inputs", "programs"], "arbitrary sub-parsers and nestings up to the bound, all inputs up to the bound",
  SAMPLE + "gaps, empty spans and their positions are sampled in five parsers.",
  [D+"parsers/join.h", D+"modifiers/join.h"],
  [("join_executor::try_join", D+"parsers/join.h")]),
P("C12", "The join shortcuts are invisible",
  "join applied directly to a repetition (~, *, +, exactly<N>) of a character class or literal gives, on every input, the same acceptance, the same span (same address and length) and the same remaining input as collecting the individual matches and joining them.",
  ["inputs", "programs"], "all inputs up to the bound for every repetition kind over any, none and all parsers",
  "the shortcut is a separate hand-written parser per repetition kind; tests compare it on a few strings and never by address.",
  [D+"optimizations/join_exactly_basic.h", D+"optimizations/join_maybe_basic.h", D+"optimizations/join_one_or_more_basic.h", D+"optimizations/join_zero_or_more_basic.h", D+"parsers/join.h"],
  [("partial specialisations of join_parser", D+"optimizations/")]),
P("C13", "Operator simplifications preserve the language",
  "Rewrites performed when parsers are combined with operators (stacked ~ * +, p | p, flattening of nested >> and |, adjacent literals fused into one, p | eps) never change which inputs are accepted nor how much is consumed, compared with the usual reading of the expression as written. Grouping does not matter: (a >> b) >> c accepts and consumes the same as a >> (b >> c), and (a | b) | c as a | (b | c), with equal results (except that literals written next to each other are reported as one span).",
  ["inputs", "programs"], "arbitrary sub-parsers, all operator stacks of depth 2 and groupings of up to 4 parts, all inputs up to the bound",
  "the tests check the rewritten types, not that the rewritten parser accepts what the unrewritten one would.",
  [D+"operators/maybe.h", D+"operators/one_or_more.h", D+"operators/zero_or_more.h", D+"operators/choice.h", D+"operators/sequence.h", D+"operators/epsilon.h"],
  [("*_operator overload sets", D+"operators/")]),
P("C14", "Value transformations are applied once, to the right value",
  "map<f>, into<T>, apply<f>, apply_into<T>, constant<v> and defaulted<T> accept exactly what the wrapped parser accepts and leave the same remaining input. On success the callable is invoked exactly once, with the wrapped parser's result (its tuple, pair or array elements in order for the apply forms; nothing if it has none), and its return value is the result; on failure it is not invoked.",
  ["inputs", "programs"], "arbitrary sub-parsers and results, all inputs up to the bound, tuples of up to the bound",
  SAMPLE + "invocation counts are never observed, argument order only for two-element tuples.",
  [D+"parsers/map.h", D+"functions.h", D+"apply.h", D+"aliases/apply_map.h", D+"aliases/apply_into.h", D+"aliases/into.h", D+"aliases/constant.h", D+"aliases/defaulted.h", D+"modifiers/map.h", D+"modifiers/apply.h", D+"modifiers/into.h", D+"modifiers/apply_into.h", D+"modifiers/constant.h", D+"modifiers/defaulted.h"],
  [("std::invoke on the moved result", D+"parsers/map.h"), ("apply_invoke", D+"apply.h")]),
P("C15", "filter accepts exactly what its predicate accepts",
  "filter<f>(p) and apply_filter<f>(p) succeed exactly when p succeeds and the predicate returns true for p's result, and then return that result untouched with p's remaining input. The predicate is evaluated once per successful p and never after a failed one; a rejected match fails and consumes nothing.",
  ["inputs", "programs"], "arbitrary sub-parsers and predicates, all inputs up to the bound",
  SAMPLE + "predicates of the tests look at sizes only.",
  [D+"parsers/filter.h", D+"aliases/apply_filter.h", D+"modifiers/filter.h", D+"modifiers/apply_filter.h", D+"apply.h"],
  [("std::invoke(f, as_const(*res))", D+"parsers/filter.h")]),
P("C16", "complete, ignore and name add exactly what they say",
  "complete(p) succeeds exactly when p succeeds and leaves nothing, with p's result. ignore(p) accepts what p's lookahead accepts, with the same remaining input and no result. name<...>(p) is indistinguishable from p; and applying complete or ignore twice is the same as applying it once.",
  ["inputs", "programs"], "arbitrary sub-parsers, all inputs up to the bound",
  SAMPLE + "seven complete and five ignore samples.",
  [D+"parsers/complete.h", D+"parsers/ignore.h", D+"parsers/named.h", D+"modifiers/complete.h", D+"modifiers/ignore.h", D+"modifiers/name.h"],
  [("remaining().empty() test", D+"parsers/complete.h"), ("forwarding to lookahead", D+"parsers/ignore.h")]),
P("C17", "sub applies each modifier to every part with that name and to nothing else",
  "p % sub(name<\"n\"> = m, ...) behaves like the grammar in which every part named n, at any depth inside any library combinator, is replaced by the result of applying m to that part; parts with other names (including prefixes and extensions of n) are untouched. Several substitutions behave as if applied one after another in the order written, whether given in one sub or several.",
  ["inputs", "programs"], "names under every combinator, nested names, equal, prefix and different names, several substitutions, all inputs up to the bound",
  "tests compare types for four sample names at top level; behaviour inside other combinators is not exercised.",
  [D+"modifiers/sub.h", D+"modifiers/name.h", D+"substitution.h", D+"parsers/named.h", D+"static_array.h"],
  [("substitute_one recursion over template arguments", D+"modifiers/sub.h"), ("static_array operator==", D+"static_array.h")]),
P("C18", "Modifiers compose associatively, prefix and infix alike",
  "For every parser p and modifiers m1, m2, ..., m(p) and p % m behave identically, and p % m1 % m2 % m3 behaves identically to p % (m1 % m2 % m3) under every grouping: the modifiers act left to right.",
  ["inputs", "programs"], "all pairs of a representative set of modifiers and chains of 3 and 4 under every grouping, all inputs up to the bound",
  "the tests compare a few two-modifier chains by type.",
  [D+"operators/modifier.h", D+"modifiers/multi.h", D+"modifier.h"],
  [("multi_modifier folds % left to right", D+"modifiers/multi.h"), ("modifier_operator overloads", D+"operators/modifier.h")]),
P("C19", "Every contiguous input form of the same elements parses alike",
  "Passing the same elements as a string literal, pointer to a NUL-terminated string, string, string_view, vector, array, non-const char array or span, as lvalue, const lvalue or rvalue, gives the same acceptance, consumed length and remaining length. A literal (a constant array) ends before its last element, the terminator, and includes any NULs before it; a pointer ends at the first NUL; the other forms include every element, NULs too.",
  ["inputs"], "all contents up to the bound in every form, for narrow, wide and non-character elements",
  SAMPLE + "almost all inputs are string literals.",
  [D+"span.h", D+"parsers/basic_base.h"],
  [("span constructors and deduction guides", D+"span.h"), ("input_value_t", D+"span.h")]),
P("C20", "Parsing is memory-safe and has no side effects",
  "No parse or lookahead, on any input, reads an element outside the input range, violates a standard-library precondition, uses memory after release or has other undefined behaviour; every allocation it makes is released when the result is destroyed. It never writes to the input or to any global state, so a parse has no effect on later or concurrent parses.",
  ["inputs", "programs"], "all inputs up to the bound, grammars covering every parser and modifier",
  SAMPLE + "no sanitizer runs, inputs are in literals where an over-read by one hits the terminator.",
  [D+"parsers/basic_base.h", D+"parsers/any_of.h", D+"parsers/all_of.h", D+"optimizations/join_one_or_more_basic.h", D+"helpers.h", D+"span.h", D+"result.h"],
  [("failure_condition checks emptiness/length before access", D+"parsers/any_of.h"), ("value semantics of result", D+"result.h")]),
P("C21", "No allocation unless the result contains a vector",
  "A parser whose sub-results contain no vector performs no heap allocation in parse, and no parser performs any in lookahead or when its result is ignored. In particular joining a repetition of a class or literal does not allocate.",
  ["inputs", "programs"], "all inputs up to the bound",
  "no test observes allocation.",
  [D+"parsers/basic_base.h", D+"optimizations/join_one_or_more_basic.h", D+"parsers/ignore.h", D+"parsers/exactly.h", D+"helpers.h"],
  [("spans into the input", D+"parsers/basic_base.h"), ("join shortcuts", D+"optimizations/"), ("ignore forwards to lookahead", D+"parsers/ignore.h")],
  ["operator new during parse/lookahead"]),
P("C22", "Comparing spans compares their elements",
  "A span returned by a parse (or remaining()) equals another span, string, string_view, literal, pointer to a NUL-terminated string, vector or array exactly when both have the same number of elements and these are pairwise equal, irrespective of addresses; != is the negation. A string literal counts as its characters without the terminating NUL (NULs written inside it count), a pointer as the characters before the first NUL, a std::array or array object as all its elements.",
  ["inputs"], "all pairs of contents up to the bound in each length combination, narrow, wide and non-character elements",
  "the tests use == everywhere but only ever on hand-picked values.",
  [D+"span.h"], [("span_equal_to", D+"span.h")],
  ["operator== / != on result spans"]),
P("C23", "Result objects carry their value through copies, moves and conversions",
  "Copying, moving or converting a result preserves success, value and remaining input; testing it, value() and * agree, and value() on a failed result throws bad_optional_access. A value travels from the sub-parser that produced it into the final result without being read after being moved from, including move-only and copy-only value types.",
  ["inputs", "programs"], "arbitrary values, every combinator carrying move-tracking values",
  "tests check a few type traits and a few move-only parses.",
  [D+"result.h", D+"helpers.h", D+"parsers/custom.h"],
  [("result constructors", D+"result.h"), ("result_builder", D+"helpers.h")]),
P("C24", "Custom parsers are transparent, recursive grammars parse their language",
  "A custom parser accepts the same inputs, with the same remaining input and a value convertible from that of the parser it returns; grammars that refer to themselves through custom parsers accept exactly the language their rules describe under ordered choice. In particular the JSON and algebraic example grammars accept and reject exactly what their rules say.",
  ["inputs", "programs"], "all inputs up to the bound for recursive grammars, including the two shipped examples",
  "the two examples have no tests and the custom parser samples are not recursive.",
  [D+"parsers/custom.h", "examples/json/json.cpp", "examples/algebraic/parser.h"],
  [("custom_parser forwards to get_parser()", D+"parsers/custom.h")]),
P("C25", "No hidden size limits",
  "Acceptance, consumed length and remaining length do not depend on how long the rest of the input is: they are right for every input size, beyond 2^32 elements too. Repetitions, delimited lists and joins stay right for counts beyond the 8-bit and 16-bit range.",
  ["inputs"], "input sizes up to 2^33 elements (symbolic), repetition counts up to and beyond 256 and 65536",
  "the longest test input has some thirty elements.",
  [D+"parsers/basic_base.h", D+"span.h", D+"parsers/zero_or_more.h", D+"parsers/delimit.h", D+"parsers/join.h", D+"optimizations/join_zero_or_more_basic.h", D+"optimizations/join_exactly_basic.h"],
  [("std::size_t arithmetic throughout", D+"parsers/basic_base.h")]),
P("C26", "An exception during a parse leaves nothing behind",
  "If a user's callable, a result's construction, copy or move, or an allocation throws during parse, the exception reaches the caller unchanged, all memory allocated by the parse is released and every constructed value is destroyed exactly once.",
  ["inputs", "fault_sequences"], "every point at which a callable may throw, all inputs up to the bound",
  "no test throws.",
  [D+"parsers/map.h", D+"parsers/filter.h", D+"helpers.h", D+"result.h"],
  [("RAII only, no catch in the library", D+"helpers.h")],
  ["exception at the caller of parse; live objects and allocations"]),
P("C27", "Inputs of another comparable element type",
  "A parser written in one element type and applied to input of another comparable element type matches element by element with ==, on every value of both types, and its spans refer to the input's own elements.",
  ["inputs", "programs"], "all element values, pairs of narrow, wide, integral, enum-like and user-defined element types",
  "tests re-run the same ASCII samples with wchar_t and int.",
  [D+"span.h", D+"static_array.h", D+"parsers/basic_base.h", D+"parsers/all_of.h", D+"type_traits.h"],
  [("input_constructible_for / equality_comparable_with", D+"span.h")]),
P("C28", "Compile-time evaluation gives the run-time result",
  "Evaluating a parse or lookahead in a constant expression gives the same acceptance, value and remaining input as evaluating it at run time on the same input.",
  ["inputs", "programs"], "all inputs, all grammars whose callables are constexpr",
  "each test assertion is evaluated in both modes, but only for the sampled literals.",
  [D+"parsers/join.h", "include/k3/tok3n/basic.h"],
  [("std::is_constant_evaluated branch of try_join", D+"parsers/join.h")]),
]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
