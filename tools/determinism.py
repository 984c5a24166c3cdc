#!/usr/bin/env python3
"""Every run again in other processes, with other hash seeds and orders: the
digests of all that happened have to be the same.

    determinism.py [n]      n runs of every property
"""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
n = sys.argv[1] if len(sys.argv) > 1 else '60'
bad = 0
todo = [f'C{i:02d}' for i in range(1, 16)]
procs = {}
for p in todo:
    for seed in ('0', '1', '4242'):
        env = dict(os.environ, PYTHONHASHSEED=seed)
        procs[p, seed] = subprocess.Popen([sys.executable, '-m', 'sim.run', 'digests', p, n],
                                          cwd=HERE, env=env, stdout=subprocess.PIPE, text=True)
    outs = [procs[p, s].communicate()[0].splitlines() for s in ('0', '1', '4242')]
    diff = [i for i, x in enumerate(zip(*outs)) if len(set(x)) > 1]
    ok = not diff and len(set(map(len, outs))) == 1 and len(outs[0]) >= int(n)
    print(p, 'same' if ok else f'DIFFERENT in {diff[:5]} of {[len(o) for o in outs]}', flush=True)
    bad += not ok
sys.exit(bad > 0)
