#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED: property -> (technique, level note)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLA = 'TLA+ model checked with TLC, '
ORACLE = ' Trusted: TLC, the harness (converts floats to integers, rejects anything that is not exact), the driver that generates inputs.'
CLAIMED = {
 'C01': (TLA + 'results of the real solvers validated by TLC against the specified optimum',
   'The enumeration and pruning machine of v0..v6 (BranchBound.tla) is model checked for every instance of up to 4 (thorough: 5) cities with small costs; the real solvers are executed on all those instances and on thousands of larger ones of many families, and TLC judges each result against Held-Karp. Larger sizes are sampled.'),
 'C02': (TLA + 'TLC generated schedules replayed into the real threads, results validated by TLC',
   'Threaded.tla is model checked for all interleavings of small configurations; its schedules are replayed at the lock of the real solver (hook), and free runs cover every thread count up to the number of CPUs. A schedule is a suggestion to the real threads, not a total order of all their steps.'),
 'C05': (TLA + 'trees returned by the real code validated by TLC', 'PrimMachine.tla is model checked for all small graphs, also with missing edges and excluded vertices; the real variants are executed on all small graphs and on random ones of up to 120 vertices, judged by TLC.'),
 'C06': (TLA + '1-trees and bounds returned by the real code validated by TLC', 'OneTreeMachine.tla is model checked for all small instances; every special vertex of thousands of instances is judged by TLC.'),
 'C07': (TLA + 'tours returned by the real code validated by TLC', 'Greedy.tla is model checked for every way to break ties on small instances; real results are judged by TLC for any tie-breaking. The random choice of starts is sampled.'),
 'C08': (TLA + 'matchings returned by the real code validated by TLC', 'MatchingMachine.tla is model checked for every pairing and step on small instances; real results are judged by TLC. The random choices of the real code are sampled.'),
 'C09': (TLA + 'tours and matchings of the real code validated by TLC', 'ChristofidesMachine.tla is model checked for all metric instances with small costs and every matching and every Euler tour; real results with five different matchings are judged by TLC.'),
 'C10': (TLA + 'documents generated by TLC and mutations of larger ones parsed by the real code, verdicts validated by TLC', 'All documents with two cities and up to two edges per vertex come from ParserMachine.tla; larger ones, truncations and text errors are sampled. Whether a document is valid is decided by TLC.'),
 'C11': (TLA + 'sequences visited by the real code validated by TLC', 'Enumerate.tla is model checked (order, completeness, tiling); the real primitives are executed from every small start and from random large ones, every step is judged by TLC.'),
 'C12': (TLA + 'evaluations and matrices of the real code validated by TLC', 'All small matrices and random larger ones; the metric test is judged exactly, distances to three decimal places.'),
 'C15': (TLA + 'verdicts of the real code validated by TLC', 'All sequences over up to four cities (thorough: five) and an unknown one, random longer ones.'),
 'C16': (TLA + 'histories generated by TLC replayed into the real code, every state validated by TLC', 'All histories of two operations on up to four vertices from HistoryMachine.tla, random longer ones.'),
 'C17': (TLA + 'results of all computations on one instance compared by TLC', 'All small instances and random larger ones; each pair of variants is compared.'),
 'C03': (TLA + 'TLC generated message schedules replayed into the real ranks, results validated by TLC', 'MpiStatic.tla (chunks, loop of the helpers, winner, broadcast) is model checked over all message orders of small worlds, with designs that have to fail; its message schedules are replayed into the real ranks, which run as processes of a simulated MPI world that controls delivery, synchronous sends and reduction order and sees every deadlock; some worlds run on the installed Open MPI. Larger worlds and instances are sampled. Workers outnumber prefixes only where the solver promises it.'),
 'C04': (TLA + 'TLC generated message schedules replayed into the real ranks, results validated by TLC', 'MpiDynamic.tla (requests, prefixes on demand, end messages, winner) is model checked over all message orders of small worlds, with designs that have to fail; its schedules are replayed into the real ranks in the simulated MPI world, also with more workers than prefixes; some worlds run on Open MPI. Larger worlds are sampled.'),
 'C13': (TLA + 'real ranks executed under controlled message orders, results validated by TLC', 'MpiReduce.tla (division of the starts, reduction in any order and association) and MpiMatching.tla (improvement in every process, collection, broadcast) are model checked with designs that have to fail; histories of real calls run in the simulated MPI world. The random choices of the matching are sampled.'),
 'C14': (TLA + 'runs of the real program validated by TLC', 'Program.tla (plans of all commands on all processes, valid and invalid files) is model checked with designs that have to fail, and lists the commands; every command is run as the real release binary, or over message passing in the simulated world and on Open MPI, and TLC judges exit status and printed results. Invalid files are sampled from many kinds.'),
 'C18': (TLA + 'generated files and the runs of the program on them validated by TLC', 'Generator.tla is model checked for all choices of points on a small grid, coinciding ones included, with designs that have to fail; those choices replace the random numbers of the real generators, and random ones are added; TLC judges every document exactly by the ranks of its costs, and runs of the program on it up to rounding. Larger sizes are sampled.'),
}
NOT = {p: 'the check is being built' for p in sys.argv[1:]}
checks = []
for p in sorted(CLAIMED):
    if p in NOT:
        continue
    t, note = CLAIMED[p]
    checks.append({'property': p, 'quick_cmd': 'python3 driver/check.py %s quick' % p, 'thorough_cmd': 'python3 driver/check.py %s thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': t, 'level': 'model_checking', 'level_note': (note + ORACLE).strip()})
m = {'version': 1, 'setup_cmd': 'python3 driver/setup.py',
     'hooks': {'guard': 'walky_verif', 'enable': "RUSTFLAGS='--cfg walky_verif'", 'source_commits': ['f655fd189cb04f8f237b5dc4211196a8a316e62a']},
     'checks': checks, 'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NOT.items())],
     'notes': 'Specification in TLA+ (spec/), harness crates with path dependencies on /repo (harness/, harness-mpi/), driver in Python (driver/). Known findings: known_findings.txt.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
