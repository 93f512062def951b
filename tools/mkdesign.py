#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and the notes below."""
import glob
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {  # missed by the check as it was -> what was added
    'm05_busy_word': 'no pool had more than 1025 live allocations when it was destroyed; pools with tens of thousands of live allocations and free regions added (M02, M03, M05)',
    't02_sort_alignment': 'no two types had the same size above 16 bytes and different alignments; such types, and lists of few sizes only, added',
    't07_array_sum': 'arrays had at most 100 elements; sizes up to and beyond 2^32 added',
    'm08_empty': 'no empty class had a destructor which counts; empty, final, nested and shared types with destructors of their own added',
    'o01_big': 'the only trivially copyable contents had 12 bytes; contents of 10000 bytes added to the differential programs',
    'a06_cast_large': 'casts covered at most 1000 bytes; casts of 5000 and 140000 bytes added',
    'm05_interior_high': 'misuse was always tried on pools with nothing else live; misuse next to live allocations, behind any block, added',
    't01_far': 'no list was longer than 24 elements; lists of more than 256 elements added',
    'm07_huge_align': 'alignments ended at 4096; alignments up to 2^26 added',
    'a03_fields': 'no field list was longer than a few hundred bytes; field lists of more than 65535 bits added',
    't02_product_order': 'cartesian products of many sequences were too rare; long products added',
    'a01_portable': 'the portable variants were not tested at all: a fallback declaration meant for trees without them hid the real ones; they are now reached through using-directives',
    'm05_busy_byte': 'no generated history ended with 256 live allocations; a target which destroys pools at given live counts added',
    'm08_zero': 'allocations of no objects added',
    't06_wide': 'no padding was as long as 256 bytes; over-aligned aggregates and empty classes added',
    'o01_empty': 'no wrapped type was without data; types of which only some special members do anything, with and without data, added',
    't06_trivial': 'no aggregate had member initializers; these, const members and defaulted or deleted copies added',
    'm09_wipe_elided': 'the compiler dropped the secret together with the wipe, so that nothing was left to find; the secret is now forced into memory (found by automatic mutation)',
}
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
i = s.index('<!-- planted -->')
rows = ['| id | caught by (quick) | needs | effect |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(HERE, 'seeded/*/meta.json'))):
    m = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    rows.append('| %s | %s%s | %s | %s |' % (n, m['property'], ' (missed at first)' if n in MISSED else '', m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
s = s[:i] + '<!-- planted -->\n\n' + '\n'.join(rows) + '\n'
if MISSED:
    s += '\nMissed at first, and what was changed:\n\n' + ''.join('* %s: %s.\n' % x for x in sorted(MISSED.items()))
open(p, 'w').write(s)
