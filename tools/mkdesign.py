#!/usr/bin/env python3
"""Writes DESIGN.md: the prose of this file, the properties of properties.jsonl, the bounds of plan.py."""
import os, sys, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from plan import PLAN, BOUND
HOW = {
 'C01': 'Every parser that the other harnesses build is also parsed and looked ahead once more by `lawsOf` (harness/h.h), which asserts, on the address and size of the result, that remaining is the exact suffix (success) or the whole input (failure), and that every span reachable in the value lies within the consumed part. Sub-parsers are arbitrary conforming stubs, so each combinator is checked as one step of an induction over the grammar. Tests compare contents of fixed literals; here the addresses and lengths are terms over unknown sizes.',
 'C02': 'parse and lookahead of the same parser over the same unknowns (stubs answer both from the same variables) must agree on success and on what remains; counters in stubs and callables must not move during lookahead except by lookahead.',
 'C03': 'Class parsers over an unknown first element and an unknown input size against the plain disjunction of equalities over the elements as the programmer listed them.',
 'C04': 'Literal parsers over an unknown text of unknown length against an element-by-element comparison written in the harness.',
 'C05': 'For every ordered pair of subsets of a small universe and each of any/none on either side (the merge of two sorted lists depends only on how they interleave, which these pairs exhaust up to the size), the merged class must match an unknown element exactly when one of the two operands does; plus larger, nested and non-ASCII cases.',
 'C06': 'Sequences of arbitrary stubs: acceptance, remaining, each slot of the tuple, number and position of the calls, against a loop in the harness; every mix of result types up to the bound is generated by template recursion.',
 'C07': 'Choices of arbitrary stubs: which alternative won, its value, its variant slot (by type), what remains, and that later alternatives were not run.',
 'C08': 'Repetitions of a stub which succeeds or not, and with which length, for unknown choices at every position; values numbered by position so order, omission and duplication show.',
 'C09': 'As C08, with the number of attempts asserted.',
 'C10': 'Elements and delimiters are two stubs; a reference loop in the harness predicts count, values, remaining; delimit_keep must have one delimiter fewer.',
 'C11': 'A stub yields spans of unknown offset and length in all nestings of vector, array, optional, tuple; the reference folds them in order; the result is compared by address and length.',
 'C12': 'join(rep(basic)) against parsing rep(basic) without the shortcut and joining the individual spans by a loop in the harness, over unknown texts.',
 'C13': 'Each operator expression against the same expression read literally, which is evaluated by a small interpreter over the same stubs in the harness (never through the library\'s operators).',
 'C14': 'Callables record their arguments (values are unknowns), number of calls and order; result compared with the callable\'s answer; on failure the record must be empty.',
 'C15': 'The predicate returns a fresh unknown per match; acceptance must be "p matched and the answer was true", the match is handed over unmodified, calls are counted.',
 'C16': 'complete/ignore/name around every kind of stub and around each other, against the wrapped parser.',
 'C17': 'p % sub(...) against the expression with the modifiers written out by hand at the named parts, over the same unknowns, including names that are prefixes or extensions and names in other character types.',
 'C18': 'For all pairs (and triples) of modifiers: m(p), p % m, (p % m1) % m2, p % (m1 % m2), in every grouping, must agree in type-independent observations over the same unknowns.',
 'C19': 'The same unknown elements handed over in every form; acceptance, consumed and remaining length must be equal to those of the span form with the count the statement prescribes.',
 'C20': 'All harnesses re-run on an encoding built with -fsanitize=undefined traps. The engine checks every load and store against the live objects (out of bounds, use after free or after scope, uninitialised values that reach a branch or a result), rejects any write to the input or to global state, checks the libstdc++ assertions, and that the heap is as before.',
 'C21': 'The engine counts operator new per parse/lookahead. Parsers without a vector among their sub-results must not allocate in parse; no parser may in lookahead or under ignore.',
 'C22': 'Two unknown contents of unknown length; ==, != both ways round, against a loop; every kind of right-hand side.',
 'C23': 'Results carrying copy-only, move-only and move-tracking values in all states, copied, moved, converted; values are unknowns; reading a moved-from value asserts; throwing value() is executed through the encoded exception machinery.',
 'C24': 'Custom parsers around stubs; recursive grammars over unknown texts against recognisers written by hand in the harness; the two example grammars of the repository (included from /repo/examples) against hand-written recursive-descent recognisers.',
 'C25': 'Sizes are unknowns up to 2^36 in C01–C16 too; here sub-parsers consume huge amounts, and counts cross 2^8 and 2^16, literals and classes are larger than 255.',
 'C26': 'One unknown says which construction/copy/move/call throws; the exception must arrive with its identity and value, heap and number of live values must be as before. Unwinding (invoke, landingpad, rethrow, cleanup) is encoded by the engine.',
 'C27': 'Parsers of one element type over unknown input of another; expected matches by == of the two types in the harness.',
 'C28': 'Two parts. (a) The library\'s own questions whether it is being evaluated at compile time are answered by a flag, every parser of the other harnesses is run with both answers over the same unknowns, and results must agree. (b) The compiler computes tables of outcomes in constant expressions for all short texts; the run-time code is encoded over an unknown text and its outcome compared with the table at that text.',
}
PAIRS = ' Besides (pairs.cpp), the combinator around every other one is compared, over the same unknowns, with the same combinator around the inner parser hidden behind a custom parser, so that no rewrite or shortcut for a particular pair of combinators can change acceptance, values, types, calls or what remains.'
ps = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
o = open(os.path.join(HERE, 'tools', 'design_head.md')).read()
o += '\n## Property by property\n\n'
for p in ps:
    files = []
    for q in PLAN.get(p['id'], []):
        if q['file'] not in files: files.append(q['file'])
    o += '### %s %s\n\n%s\n\n*Decided by:* %s\n\n*Bounds:* %s.\n\n*Harnesses:* %s.\n\n' % (p['id'], p['title'], p['statement'], HOW[p['id']] + PAIRS * ('pairs.cpp' in files and p['id'] in ('C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C23 C24'.split())), BOUND[p['id']].rstrip('.'), ', '.join(files))
o += open(os.path.join(HERE, 'tools', 'design_tail.md')).read()
o += open(os.path.join(HERE, 'tools', 'design_seeds.md')).read()
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(o)
