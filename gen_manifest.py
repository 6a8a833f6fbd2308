#!/usr/bin/env python3
"""writes MANIFEST.json from the registry"""
import json, os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, 'lib')
import registry
TECH = {
 'C16': 'compile-time witnesses (type checking and linking of every configuration)',
 'C19': 'static thread-modular abstract interpretation of the compiler IR: locksets',
 'C20': 'static thread-modular abstract interpretation of the compiler IR: task typestate, locksets, wait predicates',
 'C21': 'static thread-modular abstract interpretation of the compiler IR: termination protocol and ordering',
 'C22': 'static typestate analysis of futures and tasks by abstract interpretation of the compiler IR (normal and unwind edges)',
 'C23': 'static access-set (non-interference) and value analysis by abstract interpretation of the compiler IR',
 'C09': 'static effect analysis by abstract interpretation of the compiler IR',
 'C12': 'static effect analysis by abstract interpretation of the compiler IR',
 'C10': 'static ownership analysis by abstract interpretation of the compiler IR',
 'C07': 'static value-flow analysis (global value numbering) of the compiler IR and compile-time witnesses',
}
DEF = 'static value analysis: abstract interpretation of the compiler IR (global value numbering with polyhedral path facts)'
NOTE = ('Decided without running the program, for every value of the symbolic inputs, on the template instances and sizes listed in the evidence; '
        'an idiom the analysis cannot decide is reported as undecided, never as a violation. Trusts clang 18, the summaries of library calls, and exact real arithmetic in place of rounding.')
NOTES = {
 'C16': 'Complete over the listed matrix of standards, macros, headers and types; a compiler diagnostic is the violation. Trusts g++ 13 and clang 18.',
 'C19': 'All paths of the pool code in IR; sound for the lock/atomic/thread-start idioms it models, anything else is reported as undecided. Assumes std::mutex, condition_variable, thread and future behave as specified.',
}
for k in ('C20', 'C21', 'C22'): NOTES[k] = NOTES['C19']
NA = {
 'C28': 'needs bounds on accumulated floating-point rounding for arbitrary data and conditioning; no sound static bound is in reach (the analysis works in exact arithmetic)',
 'C29': 'a statement about running time; static analysis here decides values and effects, not cost',
 'C30': 'matlab/bspline.cpp needs mex.h (absent here) and is stale against the current headers, so its source cannot be type-checked or analysed',
}
PEND = {k: 'check not built yet' for k in ()}
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
m = dict(version=1, setup_cmd='python3 setup.py', checks=[], not_applicable=[])
for p in ids:
    us = registry.get(p, 'quick')[0] if p not in NA else None
    if us is None:
        m['not_applicable'].append(dict(property=p, reason=NA.get(p, 'check not built yet')))
        continue
    m['checks'].append(dict(property=p, quick_cmd='python3 check.py %s --tier quick' % p, thorough_cmd='python3 check.py %s --tier thorough' % p,
                            technique=TECH.get(p, DEF), level='other', level_note=NOTES.get(p, NOTE)))
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
