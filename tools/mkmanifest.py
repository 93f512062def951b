#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = 'stateful property-based testing against a reference model (random operation histories, shrinking; libFuzzer in the thorough tier)'
PBT = 'property-based testing against an oracle (random structured inputs, shrinking; libFuzzer in the thorough tier)'
PROG = 'property-based testing of generated programs: random declarations and uses, expectations from an independent model, compiled (and run)'
T = {
    'M01': (MODEL, 'histories on pools of 31 geometries (small, at index type boundaries, above 4 GiB) under ASan/UBSan and optimized; live regions disjoint, aligned, inside the buffer'),
    'M02': (MODEL, 'the same histories; public observers compared with a model after every step'),
    'M03': (MODEL, 'the same histories and adversarial sizes and alignments; a request succeeds exactly when the model has room'),
    'M04': (MODEL, 'histories with a scripted, failing upstream which records every call'),
    'M05': (MODEL, 'misuse injected into histories, each in a child process: must abort with a diagnosis and must not when nothing is wrong'),
    'M06': (MODEL, 'bump allocator histories against an arithmetic model, exhausting and extreme sizes'),
    'M07': (PBT, 'system allocator faults injected, threads replacing the default resource (also under TSan), two translation units'),
    'M08': (MODEL + '; ' + PROG, 'histories of typed allocators over a recording resource, rebinding, generated argument lists'),
    'M09': (PBT + '; generated constant expressions', 'run time against libc on guarded buffers, compile time against a Python model'),
    'A01': (PBT + '; generated constant expressions', '8 and 16 bit types exhaustively, wider ones sampled with structure'),
    'A02': (PBT + '; generated constant expressions', 'small ranges exhaustively, 64 bit values sampled with structure'),
    'A03': (PBT + '; generated constant expressions', 'bit counts, selected widths and field list sizes; 8 and 16 bit domains and all widths exhaustively, the rest sampled'),
    'A04': (PBT + '; generated constant expressions', '128 bit reference arithmetic, 8 bit pairs exhaustively'),
    'A05': (PROG, 'array expressions evaluated by the compiler and at run time'),
    'A06': (PBT + '; ' + PROG, 'shifted values, bytes, iteration order and value categories against Python and C++ models'),
    'T01': (PROG, 'type_list queries against a Python model of sequences'),
    'T02': (PROG, 'type_list transformations against a Python model of sequences'),
    'T03': (PROG, 'value_list against a Python model of typed values'),
    'T04': (PROG, 'signatures rendered from a model of function types'),
    'T05': (PROG, 'generated classes with known members, both compilers'),
    'T06': (PROG, 'generated aggregates with layouts computed by a model'),
    'T07': (PROG, 'generated types, g++ and clang++'),
    'O01': (MODEL + '; ' + PROG, 'lifecycle events of holders compared with the wrapped object, exceptions injected, generated incomplete types'),
    'O02': (MODEL + '; ' + PROG, 'timer histories on a simulated clock, real timers through containers, generated callables and capacities'),
    'O03': (PBT + '; ' + PROG, 'every generated abort in a child process, standard error compared byte by byte'),
    'O04': (PBT.replace('; libFuzzer in the thorough tier', '') + '; ' + PROG, 'calls inside and outside the domains, each in a child process; constants and kinds which must not compile next to neighbours which must'),
    'H01': (PROG, 'generated include sequences and multi-unit programs, both compilers, linked and run'),
}
ps = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='true',
         checks=[dict(property=p['id'], quick_cmd='python3 run.py %s' % p['id'],
                      thorough_cmd='VERIF_TIER=thorough python3 run.py %s --tier thorough' % p['id'],
                      technique=T[p['id']][0], level='exploration', level_note=T[p['id']][1] + '; sampled, not exhaustive beyond what is said')
                 for p in ps],
         not_applicable=[], notes='python3 run.py --replay FILE reruns a replay file; every check builds from /repo into /verif/.build')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
