#!/usr/bin/env python3
"""check.py <property> [--thorough] : decides one property by seeded simulation of the code in /repo.

Builds the programs of /repo's working tree against the simulator, searches seeds derived from VERIF_SEED for
runs that violate the property, minimises what it finds, and confirms each finding by replaying the minimised
file in a fresh process.  Exit 0: held on everything explored; 1: violation; 2: the check could not decide."""
import json, os, re, subprocess, sys, time
import build

HERE = os.path.dirname(os.path.abspath(__file__))
COMPONENTS = {
    'real': {'C01': 'blogc', 'C02': 'blogc', 'C03': 'blogc', 'C04': 'blogc, blogc-make', 'C05': 'blogc, blogc-make', 'C06': 'blogc, blogc-make', 'C07': 'blogc, blogc-make',
             'C08': 'blogc, blogc-make', 'C09': 'blogc, blogc-make, blogc-runserver', 'C10': 'blogc-make (blogc is replaced by the reference model)', 'C11': 'blogc, blogc-make', 'C12': 'blogc-runserver', 'C13': 'blogc-runserver',
             'C14': 'blogc-runserver', 'C15': 'blogc, blogc-make, blogc-git-receiver', 'C16': 'blogc, blogc-make, blogc-git-receiver', 'C17': 'blogc-git-receiver', 'C18': 'blogc-git-receiver',
             'C19': 'blogc-git-receiver', 'C20': 'blogc-git-receiver', 'C21': 'blogc, blogc-make, blogc-git-receiver, blogc-runserver', 'C22': 'blogc-git-receiver', 'C23': 'blogc', 'C24': 'blogc-make, blogc'},
    'stub': 'libc I/O, processes, threads, signals, sockets, clock and file system (simulator); /bin/sh, git, tar, make, git-shell and noisy child programs (small models, where the scenario uses them)',
}

def known_classes(prop):
    out = []
    for l in open(HERE + '/known_findings.txt'):
        m = re.match(r'known: property=(\S+) class=(\S+) (.*)', l)
        if m and m.group(1) == prop: out.append((m.group(2), m.group(3).strip()))
    return out

def main():
    prop = sys.argv[1]; tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1); jobs = int(os.environ.get('VERIF_JOBS', str(os.cpu_count() or 8))); t0 = time.time()
    secs = float(os.environ.get('VERIF_SECS', 0)) or (30.0 if tier == 'quick' else 600.0)
    os.makedirs(HERE + '/evidence', exist_ok=True); os.makedirs(HERE + '/replays', exist_ok=True)
    exe, code = build.build_all(); unm = open(code + '/ok').read().split(); tb = time.time() - t0
    known = known_classes(prop); kf = '%s/build/known.%s.%d' % (HERE, prop, os.getpid()); open(kf, 'w').write(''.join(c + '\n' for c, _ in known))
    print('check %s: seed %d, %d jobs, %.0f s search' % (prop, seed, jobs, secs), flush=True)
    r = subprocess.run([exe, 'search', code, '--prop=' + prop, '--seed=%d' % seed, '--secs=%g' % secs, '--jobs=%d' % jobs, '--known=' + kf], capture_output=True, text=True); os.unlink(kf)
    try: d = json.loads(r.stdout)
    except ValueError:
        print('ERROR search failed (status %d): %s' % (r.returncode, r.stderr[-2000:])); return 2
    viol = []; errors = []
    for i, f in enumerate(sorted(d['found'], key=lambda f: -f['count'])):
        base = '%s/replays/%s-%d' % (HERE, prop, i); open(base + '.plan', 'w').write(f['plan']); path = base + '.simreplay'
        if os.path.exists(path): os.unlink(path)
        m = subprocess.run([exe, 'minimise', code, base + '.plan', path, '--secs=%d' % (45 if i < 2 else 10)], capture_output=True, text=True)
        if m.returncode != 1: errors.append('%s: seed %d did not reproduce the same run twice: %s' % (f['cls'], f['seed'], (m.stdout + m.stderr)[-300:])); continue
        p = subprocess.run([exe, 'replay', code, path], capture_output=True, text=True)
        if p.returncode != 1 or 'DIFFERS' in p.stdout: errors.append('%s: replay of %s did not reproduce' % (f['cls'], path)); continue
        viol.append((f['cls'], path)); print('  [%s] seen in %d runs, first with run seed %d\n  %s' % (f['cls'], f['count'], f['seed'], f['msg'][:1200].replace('\n', ' '))); print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
        if i >= 4: break
    for c, what in known: print('KNOWN-FINDING: property=%s %s' % (prop, what))
    ph = lambda x: round(x * 3600.0 / max(d['elapsed'], .001))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
          'coverage': {'evaluations': d['runs'], 'distinct_nontrivial': d['distinct_nontrivial'],
            'rule': 'one evaluation = one simulated execution of the scenario, generated from a run seed derived from VERIF_SEED; distinct = different hash over the full event log (every system call, delivery, fault, scheduling switch); non-trivial = at least one injected fault fired or at least one preemption was forced',
            'samples': d['samples'], 'distinct_executions': d['distinct'], 'runs_per_hour': ph(d['runs']), 'seeds_per_hour': ph(d['runs']), 'search_seconds': d['elapsed'], 'simulated_seconds': d['sim_seconds'],
            'faults_injected': d['faults'], 'probes': d['probes'], 'runs_per_scenario': d['scenarios'], 'system_calls': d['syscalls'], 'context_switches': d['switches'], 'forced_preemptions': d['preemptions'], 'simulated_processes': d['processes'],
            'instrumented_memory_accesses': d['memsteps'], 'code_edge_bits': d['coverage_bits'], 'distinct_scheduler_states': d['sched_states'], 'scheduler_state_measure': 'hash of (per process: next blocked call, live threads) at every switch, counted as bits of a 2^26 bitmap',
            'known_finding_hits': d['known'], 'unusable_runs': d['bad'], 'unmodelled_library_calls': unm, 'components_real': COMPONENTS['real'].get(prop, ''), 'components_stubbed': COMPONENTS['stub'], 'build_seconds': round(tb, 1)},
          'assumptions': ['a simulated crash kills processes; the file system keeps what was written (no power loss)', 'the C compiler and the host libc string/number/date functions are trusted', 'sampling: a clean search is evidence, not proof']}
    json.dump(ev, open('%s/evidence/%s.json' % (HERE, prop), 'w'), indent=1)
    for e in errors: print('ERROR ' + e)
    print('%s: %d runs (%d distinct, %d with faults or forced preemptions), %d simulated seconds, %d violation classes' % (prop, d['runs'], d['distinct'], d['distinct_nontrivial'], d['sim_seconds'], len(viol)))
    if viol: return 1
    if errors: return 2
    if d['runs'] == 0 or d['bad'] > max(2, d['runs'] // 50): print('ERROR %d of %d runs unusable: %s' % (d['bad'], d['runs'], d['badnotes'])); return 2
    return 0

if __name__ == '__main__':
    sys.exit(main())
