#!/usr/bin/env python3
"""Takes each repair (KNOWN_FINDINGS.md) back, in a scratch copy of /repo, and
runs the check of its property: it has to report the defect again."""
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True,
                          env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **env))


for line in open(os.path.join(HERE, 'KNOWN_FINDINGS.md')):
    m = re.match(r'fixed: property=(C\d\d) (\w+)', line)
    if not m or sys.argv[1:] and m[2] not in sys.argv[1:]:
        continue
    d = f'/tmp/revert_{m[2]}'
    shutil.rmtree(d, ignore_errors=True)
    sh(f'cp -a /repo {d}', '/')
    try:
        r = sh(f'git revert -n {m[2]}', d)
        if r.returncode:
            print(m[1], m[2], 'cannot be reverted by itself', flush=True)
            continue
        c = sh(f'python3 -m sim.run check {m[1]}', HERE, VERIF_REPO=d)
        last = [x for x in c.stdout.splitlines() if x.startswith(('run ', 'harness', 'Traceback'))]
        print(m[1], m[2], 'CATCHES' if c.returncode == 1 else f'MISSES {c.returncode}',
              last[:1], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
