#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
CLAIMED = ['C%02d' % i for i in range(1, 23)]
WHAT = {
 'C01': 'Happens-before race detector on every instrumented access plus comparison of the result against a serial reference model, under seeded thread schedules with preemption at memory-access granularity, team sizes 1..8 and shrunken teams; lock deadlocks and step-limit hangs are violations.',
 'C02': 'Operation histories on the real code in a simulated OpenMP team and simulated memory, every result compared element by element with a sequential reference matrix model that carries a rounding bound.',
 'C03': 'As C02 for the product family, including aliased operands and non-empty outputs, with the threshold admitted only where the documentation permits a dropped contribution.',
 'C04': 'As C02; the oracle is exact (bit for bit) and the interesting schedules are those of the concurrent row insertions.',
 'C05': 'As C02; scalars are compared with their definition evaluated on the model, and the Gershgorin interval with the spectrum computed by an independent Jacobi solver.',
 'C06': 'Histories of setters, getters and mutators against an executable matrix model; all ways to read a position are compared.',
 'C07': 'Exact comparison after import, export, copy, reorder and conversion chains; independence of storage is checked by re-reading every live matrix after every call.',
 'C08': 'Exact comparison with the threshold rule, including ties; block-sparse storage admitted at block granularity.',
 'C09': 'Exact comparison of submatrices, index lists, adjacency structures and groupings with the model under seeded schedules.',
 'C10': 'Residual, orthonormality and affine-map checks on the model under seeded schedules and memory contents.',
 'C11': 'Every instrumented access is checked against a shadow map of the simulated heap, globals and stacks; each history is executed again with different contents of uninitialised memory and must observe the same results.',
 'C12': 'The simulated heap is empty of library blocks once the caller released what it owns, after every history.',
 'C13': 'One allocation of one operation fails, at every index reached by the seeds; the call must end in a reported error or be right.',
 'C14': 'Write and read histories over a simulated disk, cross-format, with short transfers; the file text is parsed independently.',
 'C15': 'Open, write, flush, close and read failures, full disk, crash while writing, truncated and damaged files on a simulated disk.',
 'C16': 'Ranks run as simulated processes over a simulated message layer with delays, reordering and eager or synchronous sends; the received matrix is compared with the sent one, buffers are guarded while a transfer is pending.',
 'C17': 'Histories of distributed operations on 1..16 simulated ranks, every result gathered and compared with the sequential model.',
 'C18': 'Global progress: with no injected loss, all ranks finish within the step limit under synchronous sends and stalled ranks; leftover messages, active requests, mismatched collectives and misuse of communicators are violations.',
 'C19': 'Reductions, row gathering and rank queries on 1..16 simulated ranks compared with the values computed from all ranks; repeated start and stop.',
 'C20': 'Histories on capacity-limited matrices; an operation must be right when the model needs no more entries than the capacity and must report an error when it does.',
 'C22': 'The same seeded histories are issued through the real Fortran interface (compiled from src/Fortran-interface) by Fortran shims that vary the call form; results, released memory and errors are compared with the reference model.',
 'C21': 'After every call all other matrices and caller arrays are compared bit for bit; invalid calls must end in a reported error.',
}
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 build.py',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                 'technique': 'deterministic simulation with fault injection (seeded search)', 'level': 'exploration',
                 'level_note': WHAT[p['id']] + ' Sampled, not exhaustive. Trusts the simulated OpenMP, MPI, heap and stdio, the reference model, the compiler instrumentation and OpenBLAS.'}
                for p in props if p['id'] in CLAIMED],
     'not_applicable': [{'property': p['id'], 'reason': 'the check exists but is not claimed yet: defects of the library it reports are still being repaired'} for p in props if p['id'] not in CLAIMED],
     'notes': 'No hooks in /repo: the seams are the OpenMP runtime, MPI, libc allocation and stdio calls the library already makes, plus compiler instrumentation of a separate build made by build.py from /repo/src.'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')
