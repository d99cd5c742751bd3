#!/usr/bin/env python3
"""Writes tools/design_seeds.md from seeded/*/meta.json (run by hand after adding a seed)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# seeds no check reported when they were written, and what was added
MISSED = {
 'c22-bytes': 'spans over elements with an equality of their own were added', 'c27-narrowed': 'foreign elements were put under the general laws', 'c28-memchr': 'the compile-time question is also answered inside expressions',
 'c27-range': 'classes with a shape (runs, steps, single bits, nearly every value) were added to C03, C05, C27', 'c25-join-int': 'joins over gaps of any size were added to C25 (C11 reported it)'}
MISSED.update(json.load(open(os.path.join(HERE, 'tools', 'missed.json'))) if os.path.exists(os.path.join(HERE, 'tools', 'missed.json')) else {})
o = '\n## Planted bugs and the checks that report them\n\nEach is in `seeded/`, was written from the property\'s text and the code, compiles, passes the 842 tests, and is reported by the quick check\nof its own property with a replayed counterexample. "First missed" tells what was strengthened.\n\n| seed | reported by | what it breaks | first missed |\n|---|---|---|---|\n'
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
    o += '| %s | %s | %s | %s |\n' % (d, m['property'], m['what_it_breaks'].replace('|', '\\|'), MISSED.get(d, ''))
open(os.path.join(HERE, 'tools', 'design_seeds.md'), 'w').write(o)
