"""writes MANIFEST.json from the list of checks that exist"""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'Symbolic execution of the LLVM IR rustc emits for /repo on this run, z3 verdict over all values within the stated bounds; trusts rustc/LLVM up to that IR, the executor (validated against the compiled code on concrete traces every run) and z3. '
REAL = 'Doubles are exact reals (rounding aside), user right-hand sides uninterpreted functions. '
NOTE = {
    'C01': REAL + 'One step, systems of 1 to 9 user states and thermal networks.',
    'C02': REAL + 'One step of at most 3 trials (more when thorough), systems of 1 to 3 states.',
    'C03': REAL + 'Trial counts up to 3 (more when thorough).',
    'C04': REAL + 'Trial counts up to 3 (more when thorough).',
    'C05': REAL + 'Up to 8 steps to a report time for fixed-step methods and one for adaptive ones under any dynamics, 2100 and 220 at a constant rate, up to 2100 with derivatives that vary in time; rounding of the time variable decided in a linear model of IEEE rounding for up to 3 steps.',
    'C06': REAL + 'Schedules of 1 to 12 report times with bounded numbers of steps between; equally spaced ones of up to 1100 at a constant rate.',
    'C07': 'Time linear, other arithmetic uninterpreted, so the agreement of both ways is exact; schedules of 2 to 4 report times, for adaptive methods with step sizes that adapt (4 steps of time-dependent dynamics).',
    'C08': REAL + 'One step of each method, networks of up to 4 nodes and 7 connections.',
    'C09': 'Arithmetic uninterpreted over bit patterns: agreement is bit for bit. One step, or solving to one report time.',
    'C10': 'Arithmetic uninterpreted over bit patterns: unchanged means bit-identical. One step, or solving to one report time.',
    'C11': REAL + 'Stated family of topologies.',
    'C12': REAL + 'One step from an arbitrary state (inductive), stated family of closed topologies.',
    'C13': REAL + 'One step and solving; prescribed temperature an uninterpreted function of time.',
    'C14': 'Bit patterns, or exact reals where arithmetic is claimed; stated family of layouts.',
    'C16': 'Bit patterns; histories of up to 4 rows (33 when thorough), for some systems up to 1100, up to 2100 saves.',
    'C17': 'Bit patterns; histories of up to 3 rows.',
    'C15': 'Bit patterns; sequences of up to 4 operations on arbitrary sequences of 3 or 4 operations, fixed ones on histories of up to 1025 rows, filling to 1100 and draining, for every state type of the repository and user-defined ones.',
    'C18': 'Bit patterns; objects of every serializable type with histories of up to 3 rows; every strict prefix of their encodings.',
    'C21': REAL + 'linspace and diff of up to 300 elements (4097 when thorough).',
    'C22': 'Comparison of IEEE doubles: + - / abs bit-precise where the solver decides it, otherwise exact reals.',
    'C23': REAL + 'One step of up to 2 trials (3 when thorough) onto histories of up to 2 rows; walks of up to 5 report times.',
    'C24': 'Exact polynomial arithmetic modulo a power of the step size, the right-hand side a Taylor polynomial with arbitrary symbolic coefficients: scalar equations and pairs.',
}
NOTE.update({
    'C19': 'Every serializable type, histories and lists of up to 2 rows (9 when thorough), all numbers symbolic and of one class (normal, power of two, subnormal, zero); the text of a single number is modelled as a token that reads back as that number; serde_json, serde_yaml and the YAML scanner are executed. Finiteness after a step in exact real arithmetic.',
    'C27': 'Comparison of IEEE doubles, copies bit for bit; objects of every type with histories of up to 3 rows (33 when thorough).',
    'C25': 'Rust bodies of the methods behind the Python interface (compiled with --cfg dess_verif as plain functions); the CPython trampolines that convert arguments and results are outside. Bit patterns, histories of up to 3 rows (9 when thorough).',
    'C20': 'File names of up to 7 arbitrary ASCII bytes (8 when thorough) without a slash; files are modelled at the level of system calls; writing may fail at any byte.',
})
exec(open(os.path.join(V, 'tools', 'notes_extra.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'notes_extra.py')) else None
NA = {'C26': 'importing the module, its class registration and the translation of errors happen in the CPython runtime and its FFI: code outside /repo that cannot be encoded within reach'}
NA.update(globals().get('NA_EXTRA', {}))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
hook = '35eda31'
m = dict(version=1, setup_cmd='python3-vt -m vf.build',
         checks=[dict(property=i, quick_cmd='python3-vt run.py %s --tier quick' % i, thorough_cmd='python3-vt run.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
                      technique='symbolic execution of compiled LLVM IR, SMT (z3)', level='model_checking', level_note=BASE + NOTE[i]) for i in ids if i in NOTE],
         hooks=dict(guard='--cfg dess_verif', enable="RUSTFLAGS='--cfg dess_verif' (set by vf/build.py)", source_commits=[hook, '48415d9']),
         not_applicable=[dict(property=i, reason=NA.get(i, 'no check yet')) for i in ids if i not in NOTE],
         notes='Counterexamples are replayed on the natively compiled code before a VIOLATION is reported: python3-vt run.py replay FILE. The hook (plain copies of the Python-facing methods) serves C19, C20 and C25.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
