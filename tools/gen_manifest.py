#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'deterministic simulation with fault injection: seeded search over schedules and faults, reference model as oracle'
NOTE = {
 'P01': 'ghost values compared with the owner\'s value in the reference model after every update',
 'P02': 'owner directory, local and global cell lists and lookups of every process compared with the reference partition after every operation',
 'P03': 'arbitrary valid partitions from the partitioner stand-in; cells, owners, data and added/removed lists compared with the model',
 'P04': 'pins as a model map from cell to process; owners after every balance compared',
 'P05': 'committed grids compared with the result of an independent implementation of the refinement rules; unrefines whose outcome the documentation leaves open are not generated',
 'P06': 'data of kept, refined and removed cells compared with the model after every commit',
 'P07': 'lists compared with neighbors computed from the set of all existing cells after every operation',
 'P08': 'cell classes, iterators and counts computed from the model\'s neighbor relations and owners',
 'P09': 'as P07, P08 and P01 per user neighborhood, incl. refusal of invalid ones',
 'P10': 'grids saved by one simulated job and loaded by another with other process count; all other checks continue on the loaded grid',
 'P11': 'bytes of the simulated disk compared with an independent encoder of the documented format',
 'P12': 'I/O errors, partial transfers, full disk, failed opens, truncated, missing and damaged files, job crashes with lost and torn writes',
 'P13': 'simulated MPI reports deadlock, mismatched collectives, illegal calls, leaked requests, messages, datatypes and files after every operation',
 'P14': 'the partitioner stand-in queries every callback and compares with the model',
 'P15': 'start and wait calls in random per-process order with legal changes of data in between; sends read their buffers as late as MPI allows',
 'P16': 'a copy and its original are driven independently and compared with separate models',
 'P17': 'helpers called on random communicators with random inputs, results computed directly',
 'P21': 'all workloads and oracles above with the library compiled with DEBUG, so that its own self checks are on; any difference from the model, exception or abort counts',
 'P22': 'all workloads and oracles above with the library compiled with DCCRG_NO_LB; in the model load balancing, pins and partitioning options do nothing',
 'P23': 'one call of MPI (send, receive, wait, collective, datatype, communicator) fails on one process in a random operation; job end, reported failure or right results are accepted',
 'P18': 'a cell type that verifies every call of its datatype provider against the plan of the operation',
}
m = {
 'version': 1,
 'setup_cmd': 'python3 check.py --setup',
 'checks': [{
   'property': p,
   'quick_cmd': 'python3 check.py %s quick' % p,
   'thorough_cmd': 'python3 check.py %s thorough' % p,
   'evidence_file': 'evidence/%s.json' % p,
   'technique': TECH,
   'level': 'exploration',
   'level_note': n + '. Sampled, not exhaustive; trusts the simulated MPI, partitioner and disk (sim/simcore.cpp, sim/zoltan.cpp) and the reference model (sim/model.cpp).',
 } for p, n in sorted(NOTE.items())],
 'not_applicable': [
  {'property': 'P19', 'reason': 'pure functions of their arguments: no schedule, clock, I/O, fault or second party to simulate'},
  {'property': 'P20', 'reason': 'pure functions of their arguments: no schedule, clock, I/O, fault or second party to simulate'},
 ],
 'notes': 'No hooks in /repo: MPI and Zoltan are the seams, replaced by headers in sim/include. /repo commits are repairs only (known_findings.txt).',
}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
