#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
T = {
 'C01': 'exhaustive exploration of all star/observer/granulation/planet configurations of a bounded alphabet on the real code',
 'C02': 'exhaustive configurations and all operation histories to a depth, replayed against a reference grid sum',
 'C03': 'all ageing histories to a depth on the real code, each compared with the closed-form life-cycle model',
 'C04': 'all ageing histories to a depth on the real code, each compared with the closed-form life-cycle model',
 'C05': 'explicit-state exploration of all add/birth/age histories to a depth, model and code in lock step',
 'C06': 'all grid hand-over histories to a depth over all grid assignments, model and code in lock step',
 'C07': 'exhaustive enumeration of all spot sets and orders of a bounded alphabet against a reference map',
 'C08': 'exhaustive enumeration of all facula sets, orders and observers of a bounded alphabet against a reference map',
 'C09': 'exhaustive enumeration of all observer/orbit/planet/grid combinations against reference geometry',
 'C10': 'exhaustive enumeration of all phase/orbit/planet/observer combinations against exact circle overlap',
 'C11': 'exhaustive enumeration of all point pairs, observers and circles of a bounded alphabet against 3-D vector geometry',
 'C12': 'exhaustive enumeration of all grid sizes up to a bound and all observers of an alphabet',
 'C13': 'exhaustive enumeration of grid sizes, target rectangles and (basis) data fields',
 'C14': 'exhaustive enumeration of flare parameters and sets against the exact template and its integral',
 'C15': 'exhaustive enumeration of all flare sets x windows x observers against a must/must-not model',
 'C16': 'every answer of the random generator is a nondeterministic choice; all draw sequences within bounds are executed',
 'C17': 'every answer of the random generator is a nondeterministic choice; all draw sequences within bounds are executed',
 'C18': 'every answer of the random generator is a nondeterministic choice; all draw sequences within bounds are executed',
 'C19': 'exhaustive enumeration of parameter, sampling, unit and seed combinations with recovery of the deviates behind each series',
 'C20': 'all query/update histories and all two-star interleavings to a depth on the real code, with state fingerprints',
 'C21': 'all unit assignments with a bounded number of changed arguments, every scenario executed on the real code',
 'C22': 'all operation histories to a depth on stars with every subset of sources on, random answers as choices',
}
NOTE = ("Stateless model checking of the real Python code: a depth-first search over every choice (operation, argument value, random answer, order) "
        "re-executes the code from scratch for each choice sequence and compares every step with an independent reference (mc/ref.py). "
        "Complete within the alphabets and depths stated in DESIGN.md and in the check's docstring; nothing is sampled. "
        "Trusts numpy/astropy/jax/tinygp and the reference model; values outside the alphabets are not covered.")
m = dict(version=1, setup_cmd="bash tools/setup.sh",
         checks=[dict(property=p, quick_cmd=f"./check {p}", thorough_cmd=f"VERIF_TIER=thorough ./check {p}", technique="model checking: " + t,
                      level="model_checking", level_note=NOTE) for p, t in T.items()],
         not_applicable=[],
         notes="No hooks in /repo are needed. known_findings.txt lists the repaired defects; DESIGN.md explains alphabets, bounds and oracles.")
(root / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + "\n")
print(len(T))
