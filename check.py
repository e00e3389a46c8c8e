#!/usr/bin/env python3
"""Decides one property by deterministic simulation.

check.py PROPERTY [quick|thorough]   exit 0 held, 1 violated, 2/3 error of the check
check.py --setup                     builds the simulator once
check.py --replay FILE               replays a trace against /repo's current tree
"""
import hashlib, json, os, subprocess, sys, tempfile, shutil, time, fcntl

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('DCCRG_REPO', '/repo')
SIM = os.path.join(VERIF, 'sim')
BUILD = os.path.join(VERIF, '.build')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
UNITS = ['simcore', 'zoltan', 'model', 'harness', 'helpers', 'main',
         'variant_1', 'variant_2', 'variant_3', 'variant_4', 'variant_5']
# uninitialised locals and heap memory always hold the same garbage: a run is a function of its trace
CXX = ['g++', '-std=c++17', '-O1', '-ftrivial-auto-var-init=pattern', '-fno-strict-aliasing', '-w']
ENV = dict(os.environ, MALLOC_PERTURB_='165', MALLOC_ARENA_MAX='1')
JOBS = max(1, min(16, len(os.sched_getaffinity(0))))

# other builds of the library which users can choose
FLAGS = {'P21': ['-DDEBUG'], 'P22': ['-DDCCRG_NO_LB']}
QUICK_RUNS = {'P02': 1600, 'P03': 2000, 'P05': 1400, 'P06': 1800, 'P07': 1800, 'P10': 2000, 'P12': 4000, 'P17': 8000, 'P21': 800, 'P23': 3000}

class CannotCompile(Exception):
    pass

def build(prop=None):
    cxx = CXX + FLAGS.get(prop, [])
    h = hashlib.sha256(' '.join(cxx).encode())
    files = []
    for d, keep in ((SIM, None), (os.path.join(SIM, 'include'), None), (REPO, ('.hpp', '.h'))):
        for f in sorted(os.listdir(d)):
            p = os.path.join(d, f)
            if os.path.isfile(p) and (keep is None or f.endswith(keep)):
                files.append(p)
    for p in files:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    key = h.hexdigest()[:20]
    os.makedirs(BUILD, exist_ok=True)
    target = os.path.join(BUILD, key, 'simrun')
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(target):
            return target, 0.0
        start = time.time()
        for old in os.listdir(BUILD):
            p = os.path.join(BUILD, old)
            if os.path.isdir(p) and time.time() - os.path.getmtime(p) > 6 * 3600:
                shutil.rmtree(p, ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix='tmp.', dir=BUILD)
        try:
            running, queue, bad = [], list(UNITS), None
            # the units that include the grid take longest
            queue.sort(key=lambda u: not u.startswith('variant'))
            while (queue or running) and not bad:
                while queue and len(running) < JOBS:
                    u = queue.pop(0)
                    log = open(os.path.join(tmp, u + '.log'), 'w')
                    running.append((u, subprocess.Popen(
                        cxx + ['-I', os.path.join(SIM, 'include'), '-I', SIM, '-I', REPO,
                               '-c', os.path.join(SIM, u + '.cpp'), '-o', os.path.join(tmp, u + '.o')],
                        stdout=log, stderr=log)))
                u, p = running.pop(0)
                if p.wait() != 0:
                    bad = u
            for u, p in running:
                p.wait()
            if bad:
                raise CannotCompile(bad + ' ' + ' '.join(cxx) + '\n' + open(os.path.join(tmp, bad + '.log')).read()[:4000])
            r = subprocess.run(['g++', '-Wl,--wrap=abort,--wrap=exit']
                               + [os.path.join(tmp, u + '.o') for u in UNITS]
                               + ['-o', os.path.join(tmp, 'simrun')], capture_output=True, text=True)
            if r.returncode != 0:
                print('cannot link', r.stderr[:4000])
                sys.exit(2)
            for u in UNITS:
                os.unlink(os.path.join(tmp, u + '.o'))
            os.rename(tmp, os.path.join(BUILD, key))
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
        return target, time.time() - start

def known_findings(prop):
    """finding lines of known_findings.txt: prop|class|part of message|description"""
    found = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.rstrip('\n')
            if l.startswith(('#', 'fixed:')) or not l.strip():
                continue
            found.append(l.split('|', 3))
    return found

def replay(exe, path):
    r = subprocess.run([exe, '--replay', path], capture_output=True, text=True, env=ENV)
    return json.loads(r.stdout.strip().splitlines()[-1])

def batch(exe, prop, seed, first, runs, seconds, out):
    r = subprocess.run([exe, '--prop', prop, '--seed', str(seed), '--first', str(first), '--runs', str(runs),
                        '--jobs', str(JOBS), '--time', str(seconds), '--min-time', '40', '--recheck', '25',
                        '--out', out, '--known', KNOWN], capture_output=True, text=True, env=ENV)
    lines = r.stdout.strip().splitlines()
    if not lines:
        print('simulator ended with', r.returncode, r.stderr[-2000:])
        sys.exit(2)
    return json.loads(lines[-1])

FAULTS = {
    'messages delivered out of order across pairs': 'reordered_deliveries',
    'messages arriving before the receive was posted': 'unexpected_messages',
    'sends completing only after delivery (rendezvous)': 'rendezvous_sends',
    'sends completing at once (eager)': 'eager_sends',
    'links held back': 'links_held',
    'turns of a stalled process skipped': 'stalled_rank_skips',
    'processes leaving collectives before others arrived': 'early_collective_exits',
    'receive buffers overwritten before delivery': 'scribbled_receives',
    'forced switches at MPI calls': 'preemptions',
    'I/O errors': 'io_errors',
    'I/O errors after partial transfer': 'io_partial_errors',
    'disk full': 'io_no_space',
    'failed opens': 'io_open_failures',
    'writes applied late': 'delayed_writes',
    'job crashes': 'crashes',
    'partitioner failures': 'partitioner_failures',
    'memory handed out gigabytes apart': 'far_allocations',
    'writes lost in crashes': 'lost_writes',
    'writes torn in crashes': 'torn_writes',
}

def main():
    args = sys.argv[1:]
    if args and args[0] == '--setup':
        exe, took = build()
        print('built', exe, 'in %.1f s' % took)
        return 0
    if len(args) == 2 and args[0] == '--replay':
        prop = next((l.split()[1] for l in open(args[1]) if l.startswith('prop ')), None)
        try:
            exe, _ = build(prop)
        except CannotCompile as e:
            print('cannot compile', e)
            return 1
        if args[1].endswith('-compile.trace'):
            return 0
        a = replay(exe, args[1])
        print(json.dumps(a))
        return 1 if a['status'] == 1 else 0
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    start = time.time()
    evidence = os.path.join(VERIF, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    try:
        exe, build_s = build(prop)
    except CannotCompile as e:
        print('cannot compile', e)
        if prop not in FLAGS:
            return 2
        # only this build of the library is broken if the ordinary one compiles
        try:
            build()
        except CannotCompile:
            return 2
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', prop + '-compile.trace')
        with open(path, 'w') as f:
            f.write('prop %s\n%s\n' % (prop, e))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        with open(evidence, 'w') as f:
            json.dump({'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'exploration',
                       'coverage': {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': 'the library does not compile with ' + ' '.join(FLAGS[prop]),
                                    'samples': [str(e)[:500]]},
                       'violations': 1, 'wall_s': round(time.time() - start, 2), 'assumptions': []}, f, indent=1)
        return 1
    if tier == 'thorough':
        runs, seconds = 2000000, float(os.environ.get('VERIF_SECONDS', '1500'))
    else:
        runs, seconds = QUICK_RUNS.get(prop, 2500), 300.0
    out = os.path.join(VERIF, 'replays')
    os.makedirs(out, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='out.', dir=out)
    print('property', prop, 'tier', tier, 'seed', seed, 'runs', runs, 'jobs', JOBS, flush=True)
    try:
        first, confirmed, tried = 0, None, []
        total = None
        while True:
            b = batch(exe, prop, seed, first, runs, seconds, scratch)
            if total is None:
                total = b
            else:
                for k in ('runs', 'clean', 'ended_by_other_property', 'rechecked', 'nondeterministic', 'wall_s',
                          'scheduler_steps', 'distinct_schedules', 'distinct_final_states', 'known'):
                    total[k] += b[k]
                for k in b['counters']:
                    total['counters'][k] += b['counters'][k]
            v = b['violation']
            if not v:
                break
            # gate: fresh processes must see the same violation of the minimised, or else of the full, trace
            for name in (prop + '.trace', prop + '.full.trace'):
                t = os.path.join(scratch, name)
                a, c = replay(exe, t), replay(exe, t)
                if a['status'] == 1 and c['status'] == 1 and a['class'] == c['class'] and a['message'] == c['message']:
                    final = os.path.join(out, '%s-seed%d-run%d.trace' % (prop, seed, v['run']))
                    shutil.copyfile(t, final)
                    confirmed = (v, a, final, a['hash'] == c['hash'])
                    break
            if confirmed:
                break
            tried.append(v['run'])
            if len(tried) >= 5:
                break
            first = v['run'] + 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    c = total['counters']
    wall = time.time() - start
    per_hour = 3600.0 / max(total['wall_s'], 1e-3)
    cov = {
        'evaluations': total['runs'],
        'distinct_nontrivial': total['distinct_schedules'],
        'rule': 'each run is a job (1..8 simulated processes, grid, workload, faults and schedule policy) generated from mix(seed, run); '
                'distinct and non-trivial: number of different hashes of the complete sequence of scheduler decisions of runs that executed at least one operation',
        'samples': ['check.py --replay of: simrun --prop %s --seed %d --only %d (seeds mix(%d, i), i = 0..%d)' % (prop, seed, i, seed, max(0, total['runs'] - 1)) for i in (0, 1, 2)],
        'simulated_runs_per_hour': int(total['runs'] * per_hour),
        'seeds_per_hour': int(total['runs'] * per_hour),
        'simulated_time_in_scheduler_steps': total['scheduler_steps'],
        'distinct_final_states': total['distinct_final_states'],
        'runs_finished_without_any_finding': total['clean'],
        'runs_ended_by_violation_of_other_property': total['ended_by_other_property'],
        'runs_repeated_to_prove_determinism': total['rechecked'],
        'runs_that_differed_when_repeated': total['nondeterministic'],
        'faults_injected': {k: c.get(n, 0) for k, n in FAULTS.items()},
        'reached': {k: n for k, n in c.items() if k not in FAULTS.values() and k != 'reserved'},
        'real_components': ['dccrg.hpp and every dccrg_*.hpp header of /repo, unmodified, compiled into the simulator'],
        'stub_components': ['MPI (point to point, collectives, datatypes, files): sim/simcore.cpp',
                            'Zoltan partitioner (arbitrary valid partitions): sim/zoltan.cpp',
                            'disk: in-memory files with late, lost and torn writes',
                            'user program: sim/harness.cpp', 'cell data classes: sim/cells.hpp'],
        'build_s': round(build_s, 2),
    }
    if total.get('foreign_example'):
        cov['example_of_other_property'] = total['foreign_example']
    if tried:
        cov['unconfirmed_runs'] = tried
    status, violations = 0, 0
    if confirmed:
        v, a, path, same = confirmed
        violations, status = 1, 1
        cov['violation'] = dict(v, replay=path, identical_event_hash=same)
        print('run', v['run'], 'trace seed', v['seed'], 'class', a['class'])
        print('  ', a['message'])
        print('   %d operations minimised to %d, event hash %s, identical on replay: %s'
              % (v['operations'], v['minimised_operations'], a['hash'], same))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    elif tried:
        print('violations seen in runs', tried, 'did not reproduce in a fresh process')
        status = 3
    elif total['nondeterministic']:
        print('repeated runs differed:', total.get('nondet_example'))
        status = 3
    else:
        for i, k in enumerate(known_findings(prop)):
            if k[0] == prop:
                n = next((x['count'] for x in total['known_findings'] if x['index'] == i), 0)
                cov.setdefault('known_findings', []).append({'what': k[3], 'runs': n})
                print('KNOWN-FINDING: property=%s %s' % (prop, k[3]))
        print('held on', total['runs'], 'runs,', total['distinct_schedules'], 'distinct schedules,',
              total['scheduler_steps'], 'scheduler steps,', total['ended_by_other_property'], 'runs ended early by other properties')
    with open(evidence, 'w') as f:
        json.dump({'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'exploration',
                   'coverage': cov, 'violations': violations, 'wall_s': round(wall, 2),
                   'assumptions': ['the MPI and Zoltan stand-ins allow every behaviour of the real libraries that is explored and no others',
                                   'exploration: holds on the sampled runs, not proved for all']}, f, indent=1)
        f.write('\n')
    return status

if __name__ == '__main__':
    sys.exit(main())
