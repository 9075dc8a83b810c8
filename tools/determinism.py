#!/usr/bin/env python3
"""Runs the same cases in different processes, worker counts and with address randomisation on, and compares every run's step count and event hash."""
import os, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')); import run
N = int(os.environ.get('N', '1200')); bad = 0
for p in sys.argv[1:] or sorted(run.CASES):
    d = tempfile.mkdtemp(prefix='det_'); drv = run.build(d, p)
    def go(procs, env, huge='400'):
        ps = [subprocess.Popen([drv, '--prop', p, '--seed', '7', '--start', str(w), '--stride', str(procs), '--cases', str((N + procs - 1) // procs), '--secs', '600', '--trace', '1', '--huge', huge, '--out', d + '/o%d' % w], stdout=subprocess.PIPE, text=True, env=dict(os.environ, **env)) for w in range(procs)]
        ls = []
        for q in ps: ls += [l for l in q.communicate()[0].split('\n') if l.startswith('case ') and int(l.split()[1]) < N]
        return sorted(ls)
    a = go(1, {}); rest = [go(1, {}), go(5, {}), go(13, {}), go(3, {'SIM_NOASLR': '1'}), go(8, {'SIM_NOASLR': '1', 'X' * 37: 'y' * 991})]
    ok = all(x == a for x in rest); bad += not ok
    print(p, 'runs', len(a), 'x', 1 + len(rest), 'executions:', 'identical' if ok else 'DIFFERENT ' + str([next((u, v) for u, v in zip(a, x) if u != v) for x in rest if x != a][:1]), flush=True)
    shutil.rmtree(d)
sys.exit(bad > 0)
