#!/usr/bin/env python3
"""Decides one property by simulation: check.py C01 [--tier quick|thorough] [--seed N] [--repo DIR] [--cases N]
Environment: VERIF_SEED, VERIF_TIER. Exit 0 held on everything explored, 1 with a VIOLATION line, 2 no answer."""
import os, sys, json, subprocess, time
V = os.path.dirname(os.path.abspath(__file__))
# simulated cases per tier: quick is sized for roughly half a minute of 8 cores
QUICK = {'C01': 7700, 'C02': 8400, 'C03': 7700, 'C04': 8800, 'C05': 9800, 'C06': 5600, 'C07': 42000, 'C08': 25200, 'C09': 8400, 'C10': 9100,
         'C11': 5900, 'C12': 5000, 'C13': 9800, 'C14': 12600, 'C15': 21000, 'C16': 4900, 'C17': 84000, 'C18': 25200, 'C19': 42000, 'C20': 6300, 'C22': 28000}
THOROUGH_FACTOR = 20
RULE = {
 'default': 'one case = one seed: a generated workload (ranks, threads, files, operations, rows, faults) executed under a seeded scheduler; '
            'an execution is non-trivial when at least one fiber switch or preemption was decided or at least one fault fired; '
            'distinct = different hash of (scenario, complete event log), counted among the non-trivial ones',
}
FAMILY = {
 'C01': 'random convolutions (limits, orders, calibration, polarisation, rows at poles/grid lines/random) compared row by row with an independent spherical-harmonic evaluation',
 'C02': 'row counts 0..many per rank, ties and duplicates; angles compared bit for bit, order and running index checked',
 'C03': 'two executions per case with the same samples split differently over different rank counts',
 'C04': 'collective histories under eager/synchronous completion, slow and stalled ranks; the simulated MPI matches every call, and detects deadlock and undelivered messages',
 'C05': 'the same case with one thread and with several preempted threads; data races detected between synchronisation points',
 'C06': 'disjoint communicators working at the same time, single ranks, duplicated communicators; also each group against its run alone',
 'C07': 'reads of generated FITS files (row order, sparsity, column type, polarisation) on several ranks with short reads; dumps compared bit for bit',
 'C08': 'reads under open/read/seek/truncation faults and damaged files, then re-read after the fault is gone',
 'C09': 'illegal pointings and limits on arbitrary ranks inside histories, followed by legal calls',
 'C10': 'histories through the C interface with file, argument, allocation and MPI failures, and against the C++ interface',
 'C11': 'allocation failures at adaptively placed points of reads and convolutions, single and persistent, then a repeat',
 'C12': 'MPI error returns at adaptively placed calls with junk data delivered',
 'C13': 'all workloads with bounds, lifetime and use-after-free checking of every access in library code',
 'C14': 'the same case under different fresh-memory contents, clocks and verbosity, compared bit for bit',
 'C15': 'long histories of operations on shared objects against a logical-state model',
 'C16': 'programs written against the Python module, run by an embedded interpreter on every simulated rank: file, argument, allocation and MPI failures must raise; results compared with the C++ interface and the model',
 'C17': 'every operation of the MPI layer for all types, roots and sizes under random schedules',
 'C18': 'rotations and Wigner recursions under thread schedules against an independent evaluation',
 'C19': 'writes with disk faults at every stage, then read back through the library and by the model',
 'C22': 'files of random tables, images and keys written in pieces through the FITS layer under disk faults and read back in other pieces, with requests that must be refused',
 'C20': 'repeated operations with and without failures; census of live blocks and open files afterwards',
}
REAL = ['all library sources of /repo (src, c_utils, libfftpack, cxxsupport, Healpix_cxx), unmodified, compiled with -O2 -fopenmp and access instrumentation', 'cfitsio 4.3.1 (system static library)', 'zlib, libm, libstdc++', 'C16 also: python/libconviqt_wrapper unmodified, CPython 3.12, ctypes, numpy']
STUB = ['MPI (simulated: point-to-point, collectives, communicators, errors)', 'OpenMP runtime (simulated: teams, barriers, locks, loop and section scheduling)', 'file system (in-memory disk)', 'malloc/free and operator new of the library (guarded arena)', 'clocks, sleep, rand, getpid', 'C16 also: mpi4py (a stand-in that carries the communicator handle)']

def main():
    a = sys.argv[1:]; prop = a[0]
    def opt(n, d): return a[a.index(n) + 1] if n in a else d
    tier = opt('--tier', os.environ.get('VERIF_TIER', 'quick')); tier = tier if tier in ('quick', 'thorough') else 'quick'
    try: seed = int(opt('--seed', os.environ.get('VERIF_SEED', '1')))
    except ValueError: seed = 1
    repo = opt('--repo', '/repo'); t0 = time.time()
    b = subprocess.run([sys.executable, V + '/sim/build.py', '--repo', repo], stdout=subprocess.PIPE, text=True)
    if b.returncode: print('ERROR: the simulator or the library does not build'); return 2
    host, lib = b.stdout.split()[-2:]; tb = time.time() - t0
    cases = int(opt('--cases', QUICK[prop] * (THOROUGH_FACTOR if tier == 'thorough' else 1)))
    budget = float(opt('--budget', 240 if tier == 'quick' else 3600 * 2))
    rd = V + '/replay'; ed = V + '/evidence'; os.makedirs(rd, exist_ok=True); os.makedirs(ed, exist_ok=True)
    out = '%s/.%s.%d.json' % (ed, prop, os.getpid())
    print('seed %d tier %s property %s: %d cases' % (seed, tier, prop, cases)); sys.stdout.flush()
    r = subprocess.run([host + '/simhost', '--lib', lib, '--known', V + '/known_findings.txt', '--replaydir', rd, '--prop', prop, '--seed', str(seed), '--cases', str(cases), '--budget', str(budget), '--tier', tier, '--jobs', str(min(8, os.cpu_count() or 8)), '--out', out], stdout=subprocess.PIPE, text=True)
    sys.stdout.write(r.stdout); sys.stdout.flush(); rc = r.returncode if r.returncode in (0, 1) else 2
    try: d = json.load(open(out)); os.unlink(out)
    except Exception as e: print('ERROR: no summary (%s)' % e); return 2
    if rc == 1 and 'VIOLATION property=%s ' % prop not in r.stdout: rc = 2
    w = max(d['wall'], 1e-3)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(time.time() - t0, 2), 'violations': 1 if rc == 1 else 0,
      'coverage': {'evaluations': d['runs'], 'distinct_nontrivial': d['distinct'], 'rule': FAMILY[prop] + '. ' + RULE['default'], 'samples': d['samples'] or ['(none)'],
        'cases': d['cases'], 'seeds_per_hour': int(d['cases'] * 3600 / w), 'runs_per_hour': int(d['runs'] * 3600 / w), 'simulated_seconds': round(d['simns'] * 1e-9, 3), 'build_s': round(tb, 1), 'explore_s': round(w, 2), 'budget_exhausted': d['budget_hit'],
        'trivial_runs': d['trivial'], 'distinct_schedules': d['distinct_schedules'], 'distinct_schedules_measure': 'hash of the sequence of scheduling decisions with more than one candidate',
        'scheduling': {k: d[k] for k in ('switches', 'preempts', 'threads_runs', 'regions', 'barriers', 'eager')} | {'synchronous_sends': d['sync_']},
        'activity': {k: d[k] for k in ('mpicalls', 'colls', 'p2p', 'hooks', 'allocs', 'diskopens', 'diskreads', 'diskwrites', 'shortreads')}, 'operations': d['ops'], 'rank_counts': d['ranks'],
        'faults_fired': d['fired'], 'runs_ended_early_by_a_rank': d['aborted'], 'judged': {'rows_against_model': d['rows'], 'expansions_against_model': d['alms'], 'expected_refusals': d['refusals'], 'largest_error_in_tolerance_units_1e-12': d['maxerr_ppt']},
        'known_finding_hits': d['known_hits'], 'executed_twice_with_equal_hash': d['twice'], 'components_real': REAL, 'components_simulated': STUB, 'violation': d['violation'], 'replay': d['replay']},
      'assumptions': ['sampled, not exhaustive: a clean batch is evidence, not proof', 'the simulated MPI and OpenMP runtimes follow their standards; weak-memory reorderings are not simulated (races are reported instead)', 'band limits and row counts are small (see samples)']}
    json.dump(ev, open('%s/%s.json' % (ed, prop), 'w'), indent=1)
    return rc
if __name__ == '__main__': sys.exit(main())
