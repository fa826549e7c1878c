"""Writes MANIFEST.json from the registered rules (run after adding a property)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
import check        # noqa: E402
import scen         # noqa: E402
check.load_specs()
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
have = {p for s in scen.REG for p in s['props']}
NA = {
    'C31': 'Quantifies over the numeric scores of arbitrary corpora; README.rst pins a value above '
           'the bound for globs (2.179), so the bound is no property of the code as it stands and '
           'no structural clause of it is necessary.',
    'C32': 'Rounding of accumulated single-precision values over any collection size is a numeric '
           'error analysis of runtime quantities; no structural part decides it.',
    'C33': 'Termination within stack and time bounds for every query string: the recursive '
           'descent uses stack proportional to the nesting depth of the query by design, so the '
           'statement is about runtime sizes.',
    'C34': 'Interleavings of two database transactions are decided by BTrees conflict resolution '
           'at run time; what the code itself contributes (counter deltas, persistence) is '
           'decided under C14 and C15.',
}
TECH = {
    'C24': 'abstract interpretation of the Python scorer over rational functions; clang AST '
           'analysis of okascore.c; both compared with the documented formula',
    'C25': 'path-sensitive typestate (reference counts, error state) over the clang AST of '
           'okascore.c',
    'C26': 'abstract interpretation with digit-provenance domain',
    'C27': 'abstract interpretation with digit-provenance domain',
}
DEF = 'path-sensitive abstract interpretation of the source over an abstract heap'
NOTE = ('Decided from the syntax trees of the current tree; all abstract paths of the listed '
        'scenarios; libraries (BTrees, Length, re) by model. Paths that meet an unmodelled '
        'construct are counted as undecided in the evidence, never reported.')
m = {'version': 1,
     'setup_cmd': 'python3 -c "import ast, json; print(1)"',
     'checks': [{'property': p['id'],
                 'quick_cmd': f'python3 /verif/check.py {p["id"]} --tier quick',
                 'thorough_cmd': f'python3 /verif/check.py {p["id"]} --tier thorough',
                 'technique': 'static analysis: ' + TECH.get(p['id'], DEF),
                 'level': 'other', 'level_note': NOTE}
                for p in props if p['id'] in have],
     'not_applicable': [{'property': p['id'], 'reason': NA.get(p['id'], 'check not built yet')}
                        for p in props if p['id'] not in have],
     'notes': 'See DESIGN.md. known_findings.json lists repaired defects ("fixed:") and known '
              'findings.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
