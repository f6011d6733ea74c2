"""Regenerates MANIFEST.json (run by hand)."""
import json, os
T = 'symbolic execution of the real code + SMT (z3)'
CHECKS = {
 'C01': 'All coefficient values for every signature up to the stated dimension. Trusts z3 and real arithmetic for floats.',
 'C02': 'All coefficient values, signatures and subspaces in bounds; reals for floats.',
 'C03': 'All coefficient values, signatures and subspaces in bounds; reals for floats.',
 'C04': 'All coefficient values, signatures and subspaces in bounds; reals for floats.',
 'C05': 'All coefficient values per configuration; losslessness of typing is decided by existential queries replayed concretely.',
 'C06': 'All coefficient values, signatures and subspaces in bounds; reals for floats.',
 'C07': 'All coefficient values; operators, axes and binding patterns in bounds.',
 'C08': 'numpy and python backends executed directly, jax through its jaxpr, torch through its aten graph, all on symbolic coefficients.',
 'C10': 'All coefficient values in the domain where the divisors are nonzero; reals for floats.',
 'C11': 'All coefficient values in the domain where the divisors are nonzero; motors by the outer exponential; reals for floats.',
 'C12': 'Reals for floats; cos, sin, exp, log uninterpreted up to the axioms stated; four-dimensional Study roots by contract.',
 'C13': 'Motors of nonzero scalar part by the outer exponential; reals for floats.',
 'C14': 'All coefficient values, operand kinds, subspaces and batch shapes in bounds; reals for floats.',
 'C15': 'Every path of the real factory and set code on symbolic blades and metrics within the stated set sizes and dimensions; numpy integer semantics as modelled.',
 'C16': 'All rule outcomes and attribute identities over the stated histories of the real dispatcher and caches; sampled histories of the real operator factory with all coefficients.',
 'C17': 'Every path of the real parsers on strings of arbitrary symbolic characters of bounded length; printed tables per signature with the algebra oracle.',
 'C18': 'All coefficient values of the maps and their arguments; numpy.linalg replaced by its contract; reals for floats.',
 'C19': 'All points, weights and radii; Runge-Kutta steps on truncated power series in the step size with symbolic states and dynamics.',
 'C21': 'All entry values for sampled coordinate patterns, ranks and operation sequences; reals for floats.',
 'C09': 'All versor and argument coefficients in bounds; unit-norm constraints as assumptions.',
}
NA = {'C20': 'Floating-point rounding: the encodings use exact reals; z3 and cvc5 floating-point theories do not decide even one full geometric product within the time of a check, so no verdict on rounding is possible.'}
props = [json.loads(l)['id'] for l in open('properties.jsonl')]
for p in props:
    if p not in CHECKS and p not in NA:
        NA[p] = 'check under construction'
m = dict(version=1, setup_cmd='./setup.sh', checks=[
    dict(property=p, quick_cmd='./run.sh %s --tier quick' % p, thorough_cmd='./run.sh %s --tier thorough' % p,
         technique=T, level='other', level_note=CHECKS[p]) for p in props if p in CHECKS],
    not_applicable=[dict(property=p, reason=NA[p]) for p in props if p in NA],
    notes='No hooks: nothing in /repo is instrumented. See DESIGN.md.')
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
