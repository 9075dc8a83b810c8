#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
 'C08': 'seeded simulation of generated expressions evaluated by simulated worker teams, judged against a point-by-point model',
 'C09': 'seeded simulation of split traversals and iterator-move histories by simulated workers, judged against nested loops',
 'C10': 'seeded simulation of stencil-window, dot and offset expressions under simulated teams, judged against a point-by-point model',
 'C12': 'seeded schedule search with a happens-before race detector on the simulated workers',
 'C14': 'seeded simulation of call histories and of several callers interleaved at memory-access granularity',
 'C15': 'seeded simulation of several callers of the Fortran kernels interleaved at memory-access granularity, judged against a reference',
 'C16': 'seeded simulation with crash injection at arbitrary instants and re-execution',
 'C17': 'seeded simulation with allocation-failure injection',
 'C18': 'seeded simulation of operation histories with allocation faults, judged against a plain model of the vectors',
}
D = 'seeded simulation of kernel calls under simulated worker teams, schedules and runtime faults, judged against a frozen reference'
N = 'Sampled: a clean run is evidence for the explored seeds only. Real: all library code and thrust; stub: OpenMP runtime, allocator, locks, clock, LAPACK. Preemption at loads, stores and runtime calls of the instrumented code; sequentially consistent memory.'
checks = []
for i in range(1, 19):
    c = 'C%02d' % i
    checks.append(dict(property=c, quick_cmd='python3 run.py check %s quick' % c, thorough_cmd='python3 run.py check %s thorough' % c,
        evidence_file='evidence/%s.json' % c, technique='deterministic simulation with fault injection: ' + T.get(c, D), level='exploration', level_note=N))
m = dict(version=1, setup_cmd='python3 run.py setup', checks=checks, not_applicable=[])
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'MANIFEST.json'), 'w'), indent=1)
