LEVEL = 'model_checking'
LAWFUL = [dict(file='json.cpp', weight=3), dict(file='algebraic.cpp', weight=2), dict(file='maps.cpp', weight=2), dict(file='classes.cpp'), dict(file='classes.cpp', defs=['-DPART=1']), dict(file='literals.cpp'), dict(file='sequence.cpp'), dict(file='choice.cpp'),
          dict(file='repeat.cpp'), dict(file='join.cpp'), dict(file='joinshort.cpp'), dict(file='misc.cpp'), dict(file='custom.cpp'), dict(file='ops.cpp'), dict(file='foreign.cpp')] + [dict(file='pairs.cpp', defs=['-DPART=%d' % k], weight=2) for k in range(4)]
PLAN = {
 'C01': LAWFUL,
 'C02': [p for p in LAWFUL if p['file'] not in ('ops.cpp', 'mods.cpp', 'sub.cpp')],
 'C03': [dict(file='classes.cpp')],
 'C04': [dict(file='literals.cpp')],
 'C05': [dict(file='classes.cpp')],
 'C06': [dict(file='sequence.cpp'), dict(file='pairs.cpp')],
 'C07': [dict(file='choice.cpp'), dict(file='pairs.cpp', defs=['-DPART=0']), dict(file='pairs.cpp', defs=['-DPART=1'])],
 'C08': [dict(file='repeat.cpp'), dict(file='pairs.cpp')],
 'C09': [dict(file='repeat.cpp'), dict(file='pairs.cpp')],
 'C10': [dict(file='repeat.cpp'), dict(file='pairs.cpp', defs=['-DPART=0']), dict(file='pairs.cpp', defs=['-DPART=1'])],
 'C11': [dict(file='join.cpp'), dict(file='pairs.cpp')],
 'C12': [dict(file='joinshort.cpp'), dict(file='pairs.cpp')],
 'C13': [dict(file='ops.cpp'), dict(file='pairs.cpp', defs=['-DPART=0']), dict(file='pairs.cpp', defs=['-DPART=1'])],
 'C14': [dict(file='maps.cpp'), dict(file='pairs.cpp')],
 'C15': [dict(file='maps.cpp'), dict(file='pairs.cpp')],
 'C16': [dict(file='misc.cpp'), dict(file='pairs.cpp')],
 'C17': [dict(file='sub.cpp')],
 'C18': [dict(file='mods.cpp', defs=['-DPART=%d' % k]) for k in range(3)],
 'C19': [dict(file='inputs.cpp', defs=['-DPART=%d' % k]) for k in range(6)],
 'C20': [dict(p, ub=True) for p in LAWFUL + [dict(file='results.cpp'), dict(file='sub.cpp')] + [dict(file='spans.cpp', defs=['-DPART=%d' % k]) for k in range(2)] + [dict(file='mods.cpp', defs=['-DPART=%d' % k]) for k in range(3)] + [dict(file='inputs.cpp', defs=['-DPART=%d' % k]) for k in range(6)]],
 'C21': LAWFUL,
 'C22': [dict(file='spans.cpp', defs=['-DPART=%d' % k]) for k in range(2)],
 'C23': [dict(file='results.cpp'), dict(file='pairs.cpp')],
 'C24': [dict(file='custom.cpp'), dict(file='json.cpp', weight=3), dict(file='algebraic.cpp', weight=2), dict(file='pairs.cpp')],
 'C25': [dict(file='sizes.cpp', defs=['-DPART=0']), dict(file='sizes.cpp', defs=['-DPART=1', '-DAROUND=256']), dict(file='sizes.cpp', defs=['-DPART=1', '-DAROUND=65536'], steps=100000000, compile=200), dict(file='sizes.cpp', defs=['-DPART=1', '-DAROUND=131072'], steps=400000000, thorough_only=True), dict(file='sizes.cpp', defs=['-DPART=2'])],
 'C26': [dict(file='throws.cpp')],
 'C27': [dict(file='foreign.cpp')],
 'C28': LAWFUL + [dict(file='consteval.cpp')],
}

STUBS = 'sub-parsers are arbitrary: at every position they succeed or fail and consume any length within the bound, chosen by the solver; '
# per property: what is symbolic and how far (the bounds), for MANIFEST, DESIGN and the evidence
LAWB = 'every parser of the harnesses of C03 to C16 and C24 with their bounds (the pairs of combinators with one result type and with real classes): classes, literals, sequences, choices, repetitions, exactly, maybe, delimited lists, join, maps, filters, complete, ignore, name, custom and recursive parsers, the example grammars; '
BOUND = {
 'C01': LAWB + STUBS + 'input of any length up to 2^36 except where a repetition of real classes or a grammar bounds it (3 to 9 elements)',
 'C02': LAWB + 'lookahead compared with parse of the same parser over the same unknowns (filter and join: with the wrapped parser, as documented in C02); calls of parse and of callables counted during lookahead',
 'C20': LAWB + 'also sub, modifiers, results, foreign element types, every input form and output_span; every load and store checked against the live objects, no write to anything outside the parse, heap as before once the result is gone, every undefined operation of -fsanitize=undefined',
 'C21': LAWB + 'operator new counted by the encoding during parse of a parser whose result has no vector, lookahead of every parser, and parse of every parser with its result ignored',
 'C03': 'input of any length up to 2^36 with every value of its first element; 41 classes (character types, integers, enums, structs, floating point, types with an equality of their own or with padding; NUL, above 127, duplicates, unsorted, empty) and classes of every size from 1 to 20 and of 33, at random values, in 4 types; and over the character types classes of particular shapes (runs, several runs, steps, single bits, one half, all but few, every character)',
 'C04': 'input of any length up to 2^36 with every content; literals of 0 to 64 elements (257 thorough) in 10 element types, NULs included; and of floating point and of types with an equality of their own or with padding',
 'C05': 'every pair of any/none classes over a universe of 3 elements (4 thorough), complements and unions of both, every value of the input element; larger and nested cases, and random large overlapping pairs, in 5 element types, one with an equality of its own; pairs of classes of particular shapes (runs, steps, single bits, halves, nearly all characters)',
 'C06': STUBS + '2 to 4 parts (5 thorough) with every mix of 4 result types, lengths 0 to 2, 15 mixes of compound and move-only result types, up to 11 parts (15 thorough) of length 1, input of any length up to 2^36; sequences around 33 inner parsers over 4 result types, 13 over mixed ones and 39 of real classes and literals, compared with the same around a custom parser, matches of 1 element (2 thorough), up to 3 (4 thorough)',
 'C07': STUBS + '2 to 4 alternatives (5 thorough) with every pattern of equal, different and void result types, 14 of compound, mutually convertible and move-only ones, up to 11 alternatives, lengths 0 to 2, input of any length up to 2^36; choices around 33 inner parsers over 4 result types, 13 over mixed ones and 39 of real classes and literals, compared with the same around a custom parser, matches of 1 element (2 thorough), up to 3 (4 thorough)',
 'C08': STUBS + 'up to 6 positions (9 thorough) of matches of length 1 or 2, 6 result types, input of any length up to 2^36; ~ * + around 33 inner parsers over 4 result types, 13 over mixed ones and 39 of real classes and literals, compared with the same around a custom parser, matches of 1 element (2 thorough), up to 3 (4 thorough)',
 'C09': STUBS + 'N from 1 to 4 (6 thorough), 5 result types, lengths 0 to 2; N up to 33 (65 thorough), 3 result types, length 1; input of any length up to 2^36; exactly<1>, <2>, <3> around 33 inner parsers over 4 result types, 13 over mixed ones and 39 of real classes and literals, compared with the same around a custom parser, matches of 1 element (2 thorough), up to 3 (4 thorough)',
 'C10': STUBS + 'up to 6 positions (9 thorough), lengths 0 and 1 under the progress precondition, input of any length up to 2^36; lists of real classes and literals over every content of 15 to 20 elements (30 to 37 thorough); delimited lists (as element and as delimiter) around 33 inner parsers over 4 result types, 13 over mixed ones and 39 of real classes and literals, compared with the same around a custom parser, matches of 1 element (2 thorough), up to 3 (4 thorough)',
 'C11': 'arbitrary spans (any offset and length in an input of up to 2^36 elements) in 25 nestings of span, optional, tuple, array and vector (vectors up to 3 elements); 4 element sizes; join and join of ~ * + exactly and sequences around 33 and 39 inner parsers of spans, compared with the same around a custom parser, matches of 1 element (2 thorough), up to 3 (4 thorough)',
 'C12': '~ * + exactly<N> of 12 classes and literals, joined; inputs of every content of up to 6 elements (9 thorough) and, for 7 of them, of 15 to 20 (30 to 37 thorough), of any length for one; join and join of ~ * + exactly and sequences around 33 and 39 inner parsers of spans, compared with the same around a custom parser, matches of 1 element (2 thorough), up to 3 (4 thorough)',
 'C13': STUBS + 'pairs of an expression and its usual reading, over arbitrary sub-parsers, classes, literals and epsilon; lengths 0 to 2, repetitions up to 5 positions; the operators around 33 inner parsers, 13 over mixed result types and 39 of real classes and literals, compared with the same around a custom parser, matches of 1 element (2 thorough), up to 3 (4 thorough)',
 'C14': STUBS + '8 result types, 6 kinds of callable, tuples of 2 to 5, arrays, pairs; the callable inside sequences, choices, repetitions and delimited lists (up to 5 positions, 8 thorough); map, constant and defaulted around 33 inner parsers over 4 result types, 13 over mixed ones and 39 of real classes and literals, compared with the same around a custom parser, matches of 1 element (2 thorough), up to 3 (4 thorough)',
 'C15': STUBS + 'the predicate answers arbitrarily (a fresh unknown per match), 8 result types, tuples of 2 to 4, under choice, optional, sequence, complete, repetition (up to 5 positions, 8 thorough); filter around 33 inner parsers over 4 result types, 13 over mixed ones and 39 of real classes and literals, compared with the same around a custom parser, matches of 1 element (2 thorough), up to 3 (4 thorough)',
 'C16': STUBS + 'complete, ignore and name over 6 result types and nested in each other, in sequences, choices, repetitions and delimited lists; lengths 0 to 2, input of any length up to 2^36; complete, ignore and name around 33 inner parsers over 4 result types, 13 over mixed ones and 39 of real classes and literals, compared with the same around a custom parser, matches of 1 element (2 thorough), up to 3 (4 thorough)',
 'C17': STUBS + 'parts replaced in sequences, choices, repetitions, modifiers and custom parsers, nested up to 3 deep, in 2 character types; sub compared with the expression written out; input of any length up to 2^36',
 'C18': STUBS + 'every modifier with its function and operator forms, chains of 2 (3 thorough) compared with the nested application; input of any length up to 2^36',
 'C19': 'every input form (literals, string views, spans, arrays, containers, pointers, remaining input), contiguous ranges of the user\'s own, of every content of up to 3 elements (5 thorough); 7 character types and other element types',
 'C22': 'every length and content of up to 3 elements (5 thorough) on both sides, and of 15 to 18 in 3 element types, against spans, arrays, literals, vectors and string views, 7 character types and other element types, among them types with an equality of their own or with padding, NULs included',
 'C23': STUBS + 'every state of a result (never set, failed, succeeded, copied, moved, converted) over 12 value types; copies and moves of it and their effect on the value; all combinators around 33 inner parsers with a move-only result, compared with the same around a custom parser, matches of 1 element (2 thorough), up to 3 (4 thorough)',
 'C24': 'custom parsers around 8 kinds of sub-parsers (arbitrary); self-referential grammars (balanced brackets, palindromes, lists, mutual recursion) over every text of up to 6 elements (9 thorough); the JSON example over every text of up to 4 to 7 characters (to 14 thorough, fixed prefixes and alphabets for the longer ones) and the algebraic example of up to 3 to 6 (8 thorough); custom parsers around 33 inner parsers over 4 result types, 13 over mixed ones and 39 of real classes and literals, compared with the same around a custom parser, matches of 1 element (2 thorough), up to 3 (4 thorough)',
 'C25': 'sub-parsers consuming any number of elements up to 2^36 at any place of an input of up to 2^36 elements of 4 element sizes, up to 3 matches; numbers of matches from 253 to 260 and 65533 to 65540 (131069 to 131076 thorough) of arbitrary sub-parsers and of real classes and literals over a fixed text; literals of 255 to 300 elements (600 thorough) and classes of 256 to 300 (520 thorough) over every content; joins over gaps of any size up to 2^36',
 'C26': STUBS + 'any one of the first 30 (60 thorough) constructions, copies, moves, calls of callables or of sub-parsers throws, chosen by the solver, one of 3 exception types, or any one of the first 10 (24 thorough) allocations; 80 parsers over all combinators, repetitions of up to 3 matches; result objects',
 'C28': LAWB + 'each parsed and looked ahead with std::is_constant_evaluated() answering false and true over the same unknowns (the constant evaluator of the compiler itself is trusted to follow the language); and 80 parsers whose outcomes the compiler computes in constant expressions for all 121 texts of up to 4 letters out of 3 (364 of up to 5 thorough), compared with the run-time outcome over an unknown such text',
 'C27': '30 pairs of element types, every value of the first element over inputs of any length up to 2^36; combinators over inputs of up to 3 elements (4 thorough); classes of particular shapes against elements of the other type',
}
