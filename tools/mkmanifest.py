"""writes MANIFEST.json; properties without a check are listed under not_applicable"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = 'TLA+ state machine of the API (TLC): generated behaviours replayed in the code, recorded traces validated by TLC'
NOTE = ('Every program is a behaviour of the TLA+ generator (random behaviours by TLC simulation, and every behaviour over small '
        'alphabets by breadth-first search). The real code executes it; TLC then consumes the recorded trace and compares each '
        'result with the value the specification assigns to the call (exact arithmetic in GF(p^2), symbols interpreted by random '
        'matrices, confirmed under further interpretations). Assumes: TLC, the exporter of expression trees, and the compiled '
        'matrix primitives (cross-checked against their TLA+ definition on every run). Values of infinite spaces are compared on '
        'a cut-off that is exact for the number of ladder operators in the program.')
MACH = 'TLA+ state machine (TLC): generated behaviours executed by the real code, every recorded observation judged by the machine in TLC'
MNOTE = ('Programs are behaviours of the machine (TLC simulation, or all behaviours within bounds); the real code executes them and '
         'TLC consumes the record and compares every observation with what the machine prescribes. Assumes: TLC and the observation code in lib/.')
C = {
 'C02': (MACH, MNOTE), 'C10': (MACH, MNOTE), 'C12': (MACH, MNOTE), 'C15': (MACH, MNOTE), 'C19': (MACH, MNOTE), 'C25': (MACH, MNOTE), 'C11': (MACH, MNOTE), 'C13': (MACH, MNOTE), 'C22': (MACH, MNOTE), 'C24': (MACH, MNOTE),
 'C01': (TRACE, NOTE), 'C03': (TRACE, NOTE), 'C04': (TRACE, NOTE), 'C05': (TRACE, NOTE), 'C06': (TRACE, NOTE), 'C07': (TRACE, NOTE), 'C08': (TRACE, NOTE), 'C09': (TRACE, NOTE), 'C21': (TRACE, NOTE),
}
try:
    from manifest_extra import EXTRA
    C.update(EXTRA)
except ImportError:
    pass
NA = {}
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='bash bin/setup',
         checks=[dict(property=p, quick_cmd='bash bin/check %s quick' % p, thorough_cmd='bash bin/check %s thorough' % p,
                      technique=C[p][0], level='model_checking', level_note=C[p][1]) for p in props if p in C],
         not_applicable=[dict(property=p, reason=NA.get(p, 'the machine for this property is not built yet')) for p in props if p not in C],
         notes='Specification in TLA+ (spec/), checked and executed with TLC. No hooks in /repo are needed: the public API is driven.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not claimed')
