#!/usr/bin/env python3
"""Runs the checks.

  check.py C05              the check of one property (tier from VERIF_TIER, default quick)
  check.py C05 --thorough   the deep exploration
  check.py replay FILE      repeats a recorded violation in a fresh process
  check.py setup            builds the simulator (it is also built by every check)

A check builds the simulator against /repo's working tree, explores seeds on all cores, and turns
the first violation into a minimised replay file."""
import array, json, os, re, signal, subprocess, sys, time
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import build as builder
from plan import PLAN, TECHNIQUE, REAL, STUB, ASSUME, RULE

FINDINGS = os.path.join(ROOT, 'known-findings.txt')
CORES = min(8, os.cpu_count() or 1)

def findings(prop):
    """Entries 'finding: property=ID scenario=S class=C match=TEXT :: what fails'."""
    out = []
    for l in open(FINDINGS):
        m = re.match(r'finding: property=(\S+) scenario=(\S+) class=(\S+) match=(.*?) :: (.*)$', l.strip())
        if m and m.group(1) == prop: out.append(m.groups()[1:])
    return out

def replay(path, quiet=False):
    j = json.load(open(path))
    b = j.get('binary', 'z5sim')
    exe = builder.build([b])[b]
    p = subprocess.run([exe, 'replay', path], stdout=subprocess.PIPE)
    t = p.stdout.decode(errors='replace')
    if not quiet: sys.stdout.write(t)
    m = re.search(r'RESULT status=(\S+) class=(\S*) hash=(\S+)', t)
    return p.returncode, m.groups() if m else None

def explore(exe, scen, seed0, seconds, out, known, min_time):
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(out): os.unlink(os.path.join(out, f))
    procs = []
    for i in range(CORES):
        cmd = [exe, 'run', '--scenario', scen, '--seeds', '%d:%d' % (seed0 + i, seed0 + 10**9), '--stride', str(CORES),
               '--time', '%.1f' % seconds, '--min-time', str(min_time), '--max-viol', '1', '--out', out, '--stats', '%s/stats.%d' % (out, i),
               '--hashfile', '%s/h.%d' % (out, i), '--schedfile', '%s/s.%d' % (out, i)]
        if known:
            with open(out + '/known', 'w') as f:
                for k in known: f.write('\t'.join(k[:3]) + '\n')
            cmd += ['--known', out + '/known']
        procs.append(subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open('%s/err.%d' % (out, i), 'w'), start_new_session=True))
    # the first process that finds something ends the search of the others after a grace period
    end = time.time() + seconds + min_time + 120
    grace = None
    while any(p.poll() is None for p in procs):
        time.sleep(0.1)
        if grace is None and any(p.poll() == 1 for p in procs): grace = time.time() + 2
        if time.time() > (grace or end):
            for p in procs:
                if p.poll() is None:
                    try: os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError: pass
                    p.wait(); p.ended = True
    stats = []
    for i, p in enumerate(procs):
        if getattr(p, 'ended', False): continue
        if p.returncode not in (0, 1, 3):
            sys.stderr.write(open('%s/err.%d' % (out, i)).read()[-2000:])
            raise SystemExit('simulator process for %s ended with %s' % (scen, p.returncode))
        stats.append(json.load(open('%s/stats.%d' % (out, i))))
    def union(c):
        s = set()
        for i in range(CORES):
            f = '%s/%s.%d' % (out, c, i)
            if os.path.exists(f):
                a = array.array('Q'); a.frombytes(open(f, 'rb').read()); s.update(a)
        return s
    return stats, union('h'), union('s')

def add(a, b):
    for k, v in b.items(): a[k] = a.get(k, 0) + v

def main():
    if sys.argv[1:2] == ['setup']:
        builder.build(sorted({e[0] for p in PLAN.values() for e in p['runs']}))
        return 0
    if sys.argv[1:2] == ['replay']:
        rc, res = replay(sys.argv[2])
        return rc
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    plan = PLAN[prop]
    t0 = time.time()
    exes = builder.build(sorted({e[0] for e in plan['runs']}))
    built = time.time() - t0
    known = findings(prop)
    for l in open(FINDINGS):
        m = re.match(r'finding: property=(\S+) .*? :: (.*)$', l.strip())
        if m and m.group(1) == prop: print('KNOWN-FINDING: property=%s %s' % (prop, m.group(2)))
    total = float(os.environ.get('VERIF_SECONDS') or (plan.get('quick', 28) if tier == 'quick' else plan.get('thorough', 600)))
    wsum = sum(e[2] for e in plan['runs'])
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    per, allh, allsched = {}, set(), set()
    tot, faults, probes, samples, viols, unrepro = {}, {}, {}, [], [], []
    runs = skipped = reruns = faultruns = 0
    nondet = False
    expl = 0.0
    seed0 = (seed % 10**6) * 10**10 + 1
    for binary, scen, weight in plan['runs']:
        t1 = time.time()
        mine = [k for k in known if k[0] in ('*', scen)]
        st, h, sc = explore(exes[binary], scen, seed0, total * weight / wsum, os.path.join(ROOT, 'evidence', 'run', prop + '-' + scen), mine, 40 if tier == 'quick' else 120)
        expl += time.time() - t1
        pr = {'runs': 0, 'distinct_runs': len(h), 'distinct_schedules': len(sc), 'faults': {}, 'probes': {}, 'ops': 0}
        for d in st:
            runs += d['runs']; skipped += d['skipped']; reruns += d['determinism_reruns']; faultruns += d['runs_with_faults']
            nondet = nondet or d['nondeterminism']
            add(tot, d['counters'] or {}); add(faults, d['faults_fired'] or {}); add(probes, d['probes'] or {})
            pr['runs'] += d['runs']; pr['ops'] += (d['counters'] or {}).get('ops', 0); add(pr['faults'], d['faults_fired'] or {}); add(pr['probes'], d['probes'] or {})
            if len(samples) < 2 * len(plan['runs']): samples += (d['samples'] or [])[:1]
            for v in d['violations']:
                v['scenario'] = scen; v['binary'] = binary
                viols.append(v)
        allh |= {(scen, x) for x in h}; allsched |= {(scen, x) for x in sc}
        per[scen] = pr
        # gate: a violation counts if its replay file fails the same way, exactly, in fresh processes
        good = []
        for v in viols:
            if 'replay' not in v: unrepro.append(v); continue
            j = json.load(open(v['replay'])); j['binary'] = binary; j['property'] = prop
            dst = os.path.join(rdir, '%s-%s' % (prop, os.path.basename(v['replay'])))
            json.dump(j, open(dst, 'w'), indent=1)
            r = [replay(dst, True) for _ in range(2)]
            if all(x[0] == 1 and x[1] and x[1][2].lstrip('0') == j['hash'].lstrip('0') for x in r): v['replay'] = dst; good.append(v)
            else: unrepro.append(v)
        viols = good
        if viols: break
    wall = time.time() - t0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 1), 'violations': len(viols),
          'assumptions': ASSUME + plan.get('assume', []),
          'coverage': {
              'evaluations': runs, 'distinct_nontrivial': len(allh),
              'rule': RULE + ' ' + plan.get('rule', ''),
              'samples': samples or [{'note': 'no run completed before the violation'}],
              'exhaustive': False,
              'first_seed': seed0, 'simulated_runs_per_hour': int(runs / max(expl, 1e-9) * 3600), 'build_s': round(built, 1), 'exploration_s': round(expl, 1),
              'skipped_runs': skipped, 'runs_with_faults': faultruns,
              'simulated_time_s': round(tot.get('virtual_ns', 0) / 1e9, 3),
              'oracle_checks': tot.get('oracle_checks', 0), 'operations': tot.get('ops', 0), 'crash_points_checked': tot.get('crash_points', 0),
              'scheduling_points': tot.get('points', 0), 'context_switches': tot.get('switches', 0), 'preemptions': tot.get('preemptions', 0),
              'threads_started': tot.get('threads', 0), 'io_operations': tot.get('io_ops', 0), 'store_mutations': tot.get('mutations', 0),
              'distinct_interleavings': len(allsched), 'interleaving_measure': 'hash of the sequence of (scheduling point, thread switched to)',
              'faults_injected': faults, 'rare_conditions_reached': probes,
              'determinism_reruns': reruns, 'nondeterminism_seen': nondet, 'unreproducible_reports': len(unrepro),
              'per_scenario': per, 'real_code': plan.get('real', REAL), 'simulated': plan.get('stub', STUB)}}
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d runs (%d distinct, %d interleavings, %d with faults) in %.0f s, %d violations' % (prop, runs, len(allh), len(allsched), faultruns, wall, len(viols)))
    for v in unrepro: print('note: a report of scenario %s seed %s could not be repeated and is not counted: %s' % (v['scenario'], v['seed'], v['message'][:300]))
    for v in viols[:1]:
        print('scenario %s seed %s: %s: %s' % (v['scenario'], v['seed'], v['class'], v['message'][:1500]))
        if v.get('ops_text'): print(v['ops_text'][:3000])
        print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
    return 1 if viols else 0

if __name__ == '__main__': sys.exit(main())
