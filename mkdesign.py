"""Regenerates sections 3 to 5 of DESIGN.md (run by hand)."""
import json,glob,os
s=open('/verif/DESIGN.md').read()
i=s.find('\n## 3. ')
if i>0: s=s[:i]+'\n'
s=s.rstrip()+'\n'
kf=json.load(open('/verif/known_findings.json'))
out=['','## 3. What the checks found','','Genuine defects, each with a failing input replayed on the stock code, repaired by one `fix:` commit and listed in `known_findings.json`:','']
for k in kf:
    if k['kind']=='fixed': out.append('- %s `%s` %s'%(k['property'],k['commit'],k['what'].split(' ',3)[3]))
out+=['','''Recorded and not repaired (files under examples may not be changed): `RK8` of `numga/examples/integrators.py` has -234 where Shanks' tableau has -231, in its
eighth stage. The order check compares the power series of one step with that of the exact flow; on linear, square and cubic dynamics eight coefficients
between h^4 and h^6 differ. Each is listed with its exact deviation at a fixed rational state, so that a different deviation is still reported.

Known limitations of numga that are outside the properties (documented there as unfinished, or refused): `join`, `meet`, `project`, `dual_norm_squared`; zero-dimensional algebras;
`transform` by empty or mixed-parity elements; square roots of nilpotents (no real root exists; zero is returned); reductions over the component axis; selection by lists of grades.

### False alarms, and what was corrected

- *RK8 claimed to be of order eight on nonlinear dynamics*: Shanks' formula is of order seven on those ("almost eighth order"). The claim is order eight on linear dynamics, seven otherwise.
- *C12 dispatch* pinned `exp` of every element to one of the families; now an element for which no method computes the exponential may be refused, and must not be answered.
- *C12 in wholly degenerate signatures*: `motor_log_linear_normalized` refuses; refusing is right.
- *C11 elementwise*: some configurations had no real norm anywhere (bivectors of `+-`): vacuous, and left out.
- *C11 newton* on the bivectors of `+00`: the Jacobian is singular for every value; outside the domain.
- *Fallback replays* of code that cannot be encoded used points outside the domain of a configuration; they now solve the premises first.
- *C18 solve* assumed the shape of the system that is solved; it now looks at the solution.
- *C14 combine* used `sign=3`; the documented meaning of the argument is a sign.
- *C08* demanded an attribute of the operator's generated code to exist under its current name; a harness that refers to an internal name that is gone is inconclusive now.

## 4. Planted bugs

`seeded/<id>`: patch, demonstration and description of each. All compile and pass the 541 tests; each is caught by the quick check of its property.
Those marked * are known to have been missed when they were planted, and led to a stronger check (no record was kept for the earliest ones).
''']
star={'c12-exp-threshold','c14-nan-inplace','c03-cross-swap','c05-concatenate','c05-match','c07-fuse-axis'}
out.append('| bug | caught by | needs | breaks |'); out.append('|---|---|---|---|')
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json')); n=os.path.basename(d)
    out.append('| %s%s | %s | %s | %s |'%(n,'*' if n in star else '',m['property'],m['needs'].replace('|','/'),m['what_it_breaks'].replace('|','/')))
out+=['','''### Mutation campaigns

Besides the planted bugs, random source mutants (operators, constants, comparisons, swapped arguments, dropped clauses and calls, neighbouring attribute names) of all files of numga
outside tests and examples were filtered by the test suite, and the survivors given to the checks. What the checks left were equivalent mutants (commuted additions and multiplications,
clauses implied by others, dead code, layout of printed rules), and a few gaps, closed since (refusals in C05, four-argument operators in C07, `unary_inverse` in C18).

### Edits that keep the behaviour

Three packs of refactorings (helpers extracted, loops turned into comprehensions and numpy expressions, statements reordered, caches written differently, names changed, early returns)
were written for every module and given to every check. The alarms they raised were false and led to the rules on code that cannot be encoded (section 1) and to the corrections above;
all checks are quiet on all three packs now.

## 5. Limits

- Bounds are per check in `META` and in the evidence: dimensions, subspaces, batch shapes, depths and history lengths are finite, and sampled where they are not exhausted.
- Reals for floats everywhere. Thresholds (`a > 1e-20`) are read as exact comparisons.
- jax and torch are decided through the program they trace; what their compilers do with it is not.
- Trigonometry is uninterpreted: a wrong identity between cos and sin other than sin^2 + cos^2 = 1 is not decided, except where both sides are syntactically the same function.
- Four-dimensional Study roots, inverses in five dimensions and `numpy.linalg` enter through contracts; the contracts themselves are checked (C10, C11) or are the library's.
- Cost: all quick checks together ~8 minutes on 8 cores; each thorough one stays below 900 s.
''']
open('/verif/DESIGN.md','w').write(s+'\n'.join(out))
