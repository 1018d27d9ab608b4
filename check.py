#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property by deterministic simulation of /repo's current tree.
Exit 0: held on everything explored (known findings are reported). Exit 1: VIOLATION line. Exit 3: no answer."""
import json, os, re, subprocess, sys, time, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, REAL, STUB
SIM = os.path.join(HERE, 'sim')

def build():
    r = subprocess.run([sys.executable, os.path.join(SIM, 'build.py')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    lines = r.stdout.strip().split('\n')
    if r.returncode != 0 or len(lines) < 2:
        sys.stderr.write(r.stdout[-4000:])
        print('ERROR build failed')
        sys.exit(3)
    return lines[0], lines[1]

def known_for(pid):
    """known-findings.txt: 'finding: property=ID class=CLASS match=TEXT -- description' (fixed: lines suppress nothing)"""
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) class=(\S+) match=(.*?) -- (.*)$', l.strip())
            if m:
                out.append((m.group(1), m.group(2), m.group(3), m.group(4)))
    return out

def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--tier' in sys.argv and sys.argv[sys.argv.index('--tier') + 1] == 'thorough' else 'quick'
    P = PROPS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    lib, exe = build()
    tb = time.time() - t0
    base = (seed - 1) * 50000000 + 1 + 1000000 * int(re.sub(r'\D', '', pid))
    limit = P.get('quick_s', 25) if tier == 'quick' else P.get('thorough_s', 780)
    runs = P.get('quick_runs', 1000000) if tier == 'quick' else 10000000
    if os.environ.get('CHECK_TIME'):
        limit = float(os.environ['CHECK_TIME'])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'build', 'run'), exist_ok=True)
    out = os.path.join(HERE, 'build', 'run', pid + '.json')
    replay = os.path.join(HERE, 'replays', pid + '.json')
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    if os.path.exists(replay):
        os.unlink(replay)
    known = known_for(pid)
    kf = os.path.join(HERE, 'build', 'run', pid + '.known')
    with open(kf, 'w') as f:
        for k in known:
            f.write(k[1] + '\t' + k[2] + '\n')
    skip, problems, total = [], [], None
    rc = 2
    for attempt in range(6):
        left = max(5.0, limit - (time.time() - t0 - tb)) if attempt else limit
        cmd = [exe, '--lib', lib, '--prop', pid, '--scen', P['scen'] if tier == 'quick' else P.get('scen_thorough', P['scen']), '--seed', str(base), '--time', str(left), '--runs', str(runs), '--out', out,
               '--known', kf, '--replay', replay, '--min-time', '20' if tier == 'quick' else '60', '--workers', os.environ.get('SIM_WORKERS', str(os.cpu_count() or 8))]
        if P.get('classes'):
            cmd += ['--classes', ','.join(P['classes'])]
        if skip:
            cmd += ['--skip', ','.join(skip)]
        if tier == 'thorough':
            cmd.append('--thorough')
        if os.path.exists(out):
            os.unlink(out)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        txt = r.stdout
        rc = r.returncode
        try:
            total = json.load(open(out))
        except Exception:
            total = None
        if rc in (0, 1) and total is not None:
            break
        problems.append(txt.strip()[-600:])
        m = re.findall(r'seed (\d+)', txt)
        if not m:
            break
        skip.append(m[-1])
        rc = 2
    sys.stdout.write(txt[-3000:])
    if rc not in (0, 1) or total is None:
        print('ERROR no answer: ' + ' | '.join(problems)[:1500])
        sys.exit(3)
    violations = 0
    if rc == 1:
        # the replay file is run again in a fresh process and has to give exactly the same execution
        j = json.load(open(replay))
        rr = subprocess.run(replay_cmd(exe, lib, j), stdout=subprocess.PIPE, text=True, errors='replace')
        try:
            got = json.loads(rr.stdout.strip().split('\n')[-1])
        except Exception:
            got = {}
        same = got.get('hash') == j['hash'] and got.get('status') == 1
        print('replay in a fresh process: %s' % ('identical' if same else 'DIFFERS (%s)' % rr.stdout[-300:]))
        violations = 1
    for k in known:
        if k[0] != pid:
            continue
        n = sum(x[1] for x in total['known'] if x[0] == k[1] + '\t' + k[2])
        print('KNOWN-FINDING: property=%s %s (met %d times in this run)' % (pid, k[3], n))
    wall = time.time() - t0
    rt = max(total['wall'], 1e-6)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': P.get('level', 'exploration'), 'wall_s': round(wall, 2), 'violations': violations,
          'coverage': {
              'evaluations': total['runs'], 'distinct_nontrivial': total['nontrivial'],
              'rule': P.get('rule', 'One case is one simulated execution: a seeded list of client operations, environment events and faults run against the real broker code under a seeded scheduler. '
                      'It counts as distinct and non-trivial when the hash over its sequence of thread switches (which thread continued at which kind of scheduling point) is new, more than 100 context switches happened and the broker sent bytes to a client.'),
              'samples': total['samples'],
              'runs_per_hour': round(total['runs'] / rt * 3600), 'seeds_per_hour': round(total['runs'] / rt * 3600), 'first_seed': base,
              'simulated_seconds': total['sim_seconds'], 'simulated_per_wall_second': round(total['sim_seconds'] / rt, 1),
              'distinct_interleavings': total['distinct_interleavings'], 'interleaving_measure': 'hash over the sequence of (thread, scheduling point kind) choices of a run',
              'scheduling_points': total['points'], 'context_switches': total['switches'], 'simulated_system_calls': total['syscalls'], 'bytes_to_broker': total['bytes_in'], 'bytes_from_broker': total['bytes_out'],
              'faults_injected': total['faults'], 'reached': total['probes'], 'scenario_runs': total['scenarios'], 'runs_cut_by_point_limit': total['limits'],
              'skipped_after_harness_problem': problems, 'violations_of_other_properties_seen': total.get('foreign', {}),
              'components_real': REAL, 'components_stubbed': STUB},
          'assumptions': P.get('assumptions', []) + ['Threads are interleaved at synchronisation, atomic-free shared-memory and system-call points under sequential consistency; data races inside straight-line code between two such points are not explored.',
                                                   'The simulated kernel (sockets, epoll, eventfd, timerfd-less clocks, files) stands for the real one; its behaviour is described in DESIGN.md.']}
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    if total.get('foreign'):
        print('note: violations of other properties were seen: %s e.g. %s' % (total['foreign'], total.get('foreign_example', '')[:300]))
    if rc == 1:
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        sys.exit(1)
    print('%s held: %d runs, %d distinct interleavings, %.0f simulated s, %.1f s wall' % (pid, total['runs'], total['distinct_interleavings'], total['sim_seconds'], wall))
    sys.exit(0)

def replay_cmd(exe, lib, j):
    cmd = [exe, '--lib', lib, '--prop', j['property'], '--scen', j['scenario'], '--seed', str(j['seed']), '--single']
    if j['masked_ops']:
        cmd += ['--mask', ','.join(map(str, j['masked_ops']))]
    if j['disabled']:
        cmd += ['--off', ','.join(j['disabled'])]
    if j['preempt_off_after']:
        cmd += ['--preempt-off', str(j['preempt_off_after'])]
    if j.get('tier') == 'thorough':
        cmd.append('--thorough')
    return cmd

def replay_main(path):
    lib, exe = build()
    j = json.load(open(path))
    r = subprocess.run(replay_cmd(exe, lib, j) + ['--ops', '--trace'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    sys.stdout.write(r.stdout)
    m = [l for l in r.stdout.split('\n') if l.startswith('{"status"')]
    got = json.loads(m[-1]) if m else {}
    print('recorded hash %s, replayed hash %s: %s' % (j['hash'], got.get('hash'), 'identical' if j['hash'] == got.get('hash') else 'DIFFERENT'))
    sys.exit(1 if got.get('status') == 1 else 0)

if __name__ == '__main__':
    if sys.argv[1] == 'replay':
        replay_main(sys.argv[2])
    main()
