#!/usr/bin/env python3
"""Run the check of one property: check.py ID [quick|thorough].
Builds the simulator from /repo's working tree, runs a seeded search over
simulated histories, schedules and faults, replays every violation in a fresh
process and writes /verif/evidence/ID.json."""
import json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
from checks import CHECKS, COMMON_REAL, COMMON_STUB

def known_findings(prop):
    rv = []
    fn = os.path.join(HERE, 'known-findings.txt')
    for line in open(fn):
        m = re.match(r'finding: property=(\S+) class=(\S+) (.*)', line.strip())
        if m and m.group(1) == prop:
            rv.append((m.group(2), m.group(3)))
    return rv

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    chk = CHECKS[prop]
    t0 = time.time()
    rv = B.build()
    if rv is None:
        return 3
    exe, rtso = rv
    tbuild = time.time() - t0
    runs, tmax = chk[tier]
    # the scratch directory has a fixed name so that every path, hence every
    # run, is the same
    out = os.path.join(B.BUILD, 'run-%s' % prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    env = dict(os.environ, DIFFPYRUNTIME=os.path.join(B.REPO, 'src/runtime'),
               VSIM_RTSO=rtso, VSIM_RUNTIME=os.path.join(B.REPO, 'src/runtime'),
               VSIM_SCRATCH=os.path.join(out, 'scratch'))
    env.pop('VSIM_REEXEC', None)
    jobs = str(os.cpu_count() or 4)
    t1 = time.time()
    r = subprocess.run([exe, 'search', '--prop', prop, '--seed', str(seed), '--runs', str(runs),
                        '--time', str(tmax), '--jobs', jobs, '--tier', tier, '--out', out],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    sys.stderr.write(r.stderr[-4000:])
    if r.returncode not in (0, 1):
        print('ERROR: simulator ended with status %d' % r.returncode)
        return 3
    wall = time.time() - t1
    info, counts, viols = {}, {}, []
    for line in open(os.path.join(out, 'summary.txt')):
        w = line.rstrip('\n').split(' ')
        if w[0] == 'count':
            counts[' '.join(w[1:-1])] = int(w[-1])
        elif w[0] == 'violation':
            viols.append((w[1], ' '.join(w[2:])))
        else:
            info[w[0]] = float(w[1])
    known = known_findings(prop)
    bad = []
    unrepeated = 0
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    for fn, cls in viols:
        text = open(fn).read()
        m = re.search(r'^# hash (\w+)', text, re.M)
        # a replay in a fresh process must give exactly the same execution
        q = subprocess.run([exe, 'replay', fn], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        got = re.search(r'^REPRODUCED class=(.*) hash=(\w+)', q.stdout, re.M)
        if not got or got.group(1) != cls or got.group(2) != m.group(1):
            print('ERROR: violation %s was not reproduced by its replay: %s' % (cls, q.stdout[-500:]))
            unrepeated += 1
            continue
        dst = os.path.join(HERE, 'replays', '%s-%s.txt' % (prop, m.group(1)))
        shutil.copy(fn, dst)
        kf = [w for c, w in known if re.fullmatch(c, cls)]
        if kf:
            print('KNOWN-FINDING: property=%s %s' % (prop, kf[0]))
        else:
            bad.append((dst, cls, text))
    for c, w in known:
        if not any(re.fullmatch(c, cls) for _, cls in viols):
            print('KNOWN-FINDING: property=%s %s (not reached in this run)' % (prop, w))
    samples = []
    for k in range(3):
        fn = os.path.join(out, 'sample%d.txt' % k)
        if os.path.exists(fn):
            samples.append(open(fn).read()[:2500])
    nruns = int(info.get('runs', 0))
    faults = {k[6:]: v for k, v in counts.items() if k.startswith('fault.')}
    cov = {
        'evaluations': nruns,
        'distinct_nontrivial': int(info.get('hashes', 0)),
        'rule': chk['rule'],
        'samples': samples or ['none'],
        'simulated_runs_per_hour': int(nruns / max(info.get('wall', wall), 1e-3) * 3600),
        'seed_of_search': seed,
        'run_seeds': 'derived from (VERIF_SEED, property, run index 0..%d)' % max(0, nruns - 1),
        'simulated_time': chk.get('time', 'the code has no clock; simulated events are counted instead'),
        'simulated_events': int(info.get('steps', 0)),
        'distinct_states': int(info.get('feats', 0)),
        'distinct_states_measure': chk.get('states', 'abstract state at every operation: operation and outcome, kind of '
            'calculator, evaluator requested and used, dirty flag, number of sites'),
        'distinct_interleavings': int(info.get('hashes', 0)),
        'distinct_interleavings_measure': 'hash of the complete event log of a non-trivial run',
        'faults_injected': faults if faults else 'none in this run',
        'counters': {k: v for k, v in counts.items() if not k.startswith('fault.')},
        'runs_repeated_to_confirm_determinism': int(info.get('audited', 0)),
        'components_real': chk.get('real', COMMON_REAL),
        'components_stub': chk.get('stub', COMMON_STUB),
        'build_s': round(tbuild, 1),
    }
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': chk.get('level', 'exploration'),
        'coverage': cov, 'assumptions': chk['assumptions'],
        'wall_s': round(time.time() - t0, 1), 'violations': len(bad),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', prop + '.json.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.rename(tmp, tmp[:-4])
    shutil.rmtree(out, ignore_errors=True)
    for dst, cls, text in bad:
        m = re.search(r'^# detail (.*)', text, re.M)
        print('%s: %s' % (cls, m.group(1)[:600] if m else ''))
    if bad:
        print('VIOLATION property=%s replay=%s' % (prop, bad[0][0]))
        print('(replay with: %s/replay.sh %s)' % (HERE, bad[0][0]))
        return 1
    if unrepeated:
        return 3
    if nruns == 0 or int(info.get('hashes', 0)) == 0:
        print('ERROR: nothing was explored')
        return 3
    print('OK property=%s: %d simulated runs, %d distinct non-trivial, %.0f s' % (
        prop, nruns, int(info.get('hashes', 0)), time.time() - t0))
    return 0

if __name__ == '__main__':
    sys.exit(main())
