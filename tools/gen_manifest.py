"""Writes MANIFEST.json: a property is claimed when its check exists."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VG = 'abstract interpretation of MIR to a value graph over all paths; '
NF = VG + 'canonical real-algebra form compared with the reference formula'
T = {
    'C01': VG + 'exhaustive partition of the integer inputs, outcome decided per cell',
    'C02': VG + 'exhaustive partition of the calendar, day number as an affine form per cell',
    'C03': VG + 'partition of the day number over the 400-year cycle, interval and affine forms per cell',
    'C04': VG + 'canonical real-algebra form with floor rules, intervals',
    'C05': VG + 'partition of year and month, outcome compared with the published leap-second table',
    'C06': NF, 'C08': NF, 'C09': NF, 'C10': NF, 'C11': NF, 'C12': NF,
    'C07': 'queries over the type-checked crate (types, impls, signatures) and compile-fail witnesses with compiling twins',
    'C13': NF + ' (oracle: Fortran data files)', 'C14': VG + 'canonical form compared with the symbolic derivative of the position',
    'C15': VG + 'condition of the warning as a canonical form per sign case', 'C16': NF + ', case split over sign facts',
    'C17': NF + ', case split over sign facts', 'C18': NF + ', interval analysis',
    'C19': VG + 'format templates decoded from MIR, values compared as canonical forms',
    'C20': NF + ' with opaque callees', 'C21': 'interval abstract interpretation of MIR of every public item: reachability of panics, overflow checks, bounds checks, loops',
    'C22': 'effect and ownership queries over MIR: callees, statics, unsafe, interior mutability',
    'C23': 'interval abstract interpretation with adaptive cells over the date', 'C24': 'rounding-error dataflow over the value graph',
    'C25': 'abstract interpretation of the value graph with Taylor models that carry rounding, over a cover of the positions',
}
T['C27'] = 'constant evaluation by the compiler compared with the exact values; ' + VG + 'canonical form and component identity'
T['C28'] = 'type-level witness programs accepted or rejected by the compiler (auto traits, bounds, lifetimes)'
T['C29'] = VG + 'orthonormality and determinant in the ring of sines and cosines of the angles; forward rounding analysis'
T['C30'] = VG + 'forward rounding-error analysis (absolute and relative) over intervals'
T['C31'] = VG + 'main functions with the argument reader, the printer and the decided library calls as named unknowns; arguments of each call and texts compared'
T['C32'] = 'witness programs in another crate accepted or rejected by the compiler (names, visibility, types, trait bounds)'
NOTE = {
    'C07': 'Every type, impl and public signature of the time module is inspected; the witnesses are rejected by the compiler with the expected error.',
    'C21': 'Over-approximation of all values: absence of an alarm is absence of the panic for every input. Trusts the models of core functions without MIR.',
    'C22': 'Over-approximation by call graph: every callee reachable from the public items is MIR-inspected or in the list of pure primitives.',
    'C23': 'Sound interval arithmetic with outward rounding; subdivision covers the whole range.',
    'C24': 'Interval bound of each rounding where the parts of the date meet; rounding after that point is not bounded.',
}
NOTE['C25'] = 'Bounds truncation and every rounding of both conversions together (bound found: 4e-12 rad, 6 micrometres); the polar axis and the equator are edges of the cover where relative accuracy is kept. Library functions within an ulp and a half, no underflow.'
NOTE['C28'] = 'The compiler type- and borrow-checks every witness against the current sources; generic over the values. Types are listed by name.'
NOTE['C29'] = 'The identities hold for all angles in the polynomial ring of their sines and cosines; the rounding of each entry is bounded by 1e-11 with the pole within 44 degrees of the reference pole. That the arguments are finite is C23.'
NOTE['C30'] = 'Sound bounds under the standard model of rounding, library functions within an ulp, no underflow; branches are taken to agree where they meet. An evaluation that cannot be bounded is noted in the evidence and not reported.'
NOTE['C31'] = 'Every value is unknown; presence is decided for all options given, none, and each left out alone (for the date tool all combinations); the loop is unrolled for up to four steps with unknown offsets and for the default scan. The argument reader and the library calls are taken at their documented meaning.'
NOTE['C32'] = 'Holds for every value of the types: the compiler resolves and types each witness against the current sources. The operations are listed by name.'
STD = 'Holds for every input in the stated range over the reals (coefficients to 1e-12); trusts rustc MIR lowering, the interpreter and the algebra in engine/.'
NA = {
    'C26': 'Agreement with JPL DE405 is an empirical fact about the published series; no reference ephemeris is available and no static argument reaches it. '
           'That the code is the published series is decided by C13 and C14.',
}
LEVEL = {'C07': 'other', 'C22': 'other', 'C28': 'other', 'C32': 'other'}


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for i in ids:
        if os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
            checks.append({'property': i, 'quick_cmd': 'bash checks/run.sh ' + i, 'thorough_cmd': 'bash checks/run.sh %s --thorough' % i,
                           'evidence_file': 'evidence/%s.json' % i, 'technique': T[i], 'level': LEVEL.get(i, 'proof'), 'level_note': NOTE.get(i, STD)})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'not built yet')})
    m = {'version': 1, 'setup_cmd': 'bash driver/build.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: the checks read the MIR of the unmodified crates.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
