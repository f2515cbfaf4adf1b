#!/usr/bin/env python3
"""writes MANIFEST.json from the claims below and properties.jsonl"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
import units, lints
NA = {
 'C40': 'global geometric fact about every reachable triangulation (empty circumcircles), by induction over real-valued predicates and unbounded insertion histories; the local steps it rests on are claimed as C13-C15',
 'C41': 'postcondition of a non-structural iteration over geometry (every remaining triangle good): needs a termination and geometry argument no static rule in reach gives; the choice of targets is claimed as C25',
 'C42': "termination rests on Ruppert's packing bound over real coordinates (and does not hold for all parameters); no sound static bound on the iterations exists in reach",
 'C43': 'correctness of the turn-angle boundary walk is a planar-topology theorem over arbitrary polygons, not a dataflow fact; the splitting, classification, choice of pieces and walking rule are claimed as C08-C10 and C33',
 'C44': 'area/topology statement about the union of all triangles at run time; the local include/remove steps are claimed as C12, C16, C17',
 'C45': 'about f64 rounding for specific magnitudes; the analysis treats arithmetic as real, so it cannot bound rounding error',
}
NOTE = ('Each output of each listed function of the current source is proved equal to its specification for every input, over '
        'real arithmetic; called functions are taken at their own specified value where they have one. Trusted: MIR construction, the models of '
        'std/nalgebra/float-cmp calls (engine/models.py), the specification text. No function may abort where its specification completes. Outputs the analysis cannot normalise are reported as undecided '
        'in the evidence and do not alarm.')
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in units.PROPS or i in lints.LINTS:
        t = 'static analysis: value-graph equivalence by dataflow over MIR'
        if i in lints.LINTS:
            t += ' plus rules over the type-checked program' if i in units.PROPS else ''
            if i not in units.PROPS:
                t = 'static analysis: rules over the type-checked program (MIR effects and dataflow)'
        checks.append(dict(property=i, quick_cmd='python3 engine/check.py %s' % i,
                           thorough_cmd='python3 engine/check.py %s --tier thorough' % i,
                           technique=t, level='other', level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not built yet')))
json.dump(dict(version=1, setup_cmd='python3 engine/setup.py', checks=checks, not_applicable=na,
               notes='No hooks: the checks read the unmodified source through a rustc driver (driver/).'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
