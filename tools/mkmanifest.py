import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import table
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NA = {}
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    note = ('Every obligation generated from the current headers (contracts of spec/*.h on the real functions, compiled by clang to IR; all paths, all input values, no bound) must be discharged. '
            'Trusted: clang front end, tools/vcgen, z3, the ghost contracts of user types. Payload types are represented by the kits in tools/table.py.')
    if i == 'C08':
        note += ' The range function is proved for all values of all integer type pairs; that it guards every spelling is a bounded compile test over boundary constants.'
    if i in ('C09', 'C20', 'C17'):
        note += ' Obligations about types (sizes, traits, noexcept) are constant-folded by the compiler and hold for the enumerated type matrix.'
    tech = 'contract-based deductive verification: contracts on the real functions, VCs generated from clang IR, discharged by z3'
    if i == 'C08':
        tech += ', plus bounded compiler-acceptance cases'
    if i == 'C22':
        tech = 'relational contract over the clang IR of the real headers: for every pair of configurations, versions and dialects, equal link names imply equal definitions; obligations over constants, discharged by evaluation, replayed by linking'
        note = ('The names and definitions are constants of the IR that clang emits from the current header, so each obligation is decided by evaluation, without a solver. '
                'Holds for the enumerated optional types, macro configurations and dialects; the other library version is the header with the number in its version line increased.')
    checks.append(dict(property=i, quick_cmd='python3-vt check.py %s quick' % i, thorough_cmd='python3-vt check.py %s thorough' % i,
                       technique=tech,
                       level='proof', level_note=note))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3" && clang++-18 --version > /dev/null', checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
               notes='No hooks: nothing in /repo is guarded or instrumented. /repo carries four fix: commits, see known-findings.txt.'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
