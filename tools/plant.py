#!/usr/bin/env python3
"""Plants a bug: makes /verif/seeded/<id>/ from a description, and confirms it
in a scratch copy of /repo.

    plant.py DESCRIPTIONS.py [id ...]     each description: see below
    plant.py --recheck [id ...]           the committed ones again

DESCRIPTIONS.py has BUGS = [dict(id, prop, edits=[(file, old, new)], demo,
needs, breaks)]; `demo` is a Python program that runs in the repository.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
SCRATCH = '/tmp/plant'
DEMO_SH = '''#!/bin/bash
# Exit 0 on the unchanged tree, nonzero with the change.
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec timeout 120 python3 "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **(env or {}))
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True,
                          timeout=timeout)


def copy(name):
    d = os.path.join(SCRATCH, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(SCRATCH, exist_ok=True)
    sh(f'cp -a /repo {d}')
    return d


def base_lines(rel):
    """Line numbers (from 1) of a file that are from the original commit."""
    out = sh(f'git blame -s HEAD -- {rel}', '/repo').stdout.splitlines()
    return {i for i, x in enumerate(out, 1) if x.lstrip('^').startswith('aca4e03')
            or x.startswith('^')}


def confirm(bug, checks=True):
    d = os.path.join(SEEDED, bug)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    w = copy(bug)
    try:
        r = sh(f'git apply {d}/patch.diff', w)
        if r.returncode:
            return f'does not apply: {r.stderr}'
        diff = open(os.path.join(d, 'patch.diff')).read()
        rel = None
        orig = changed = 0
        for line in diff.splitlines():
            if line.startswith('--- a/'):
                rel, base = line[6:], base_lines(line[6:])
            elif line.startswith('@@'):
                n = int(line.split()[1][1:].split(',')[0])
            elif rel and line.startswith('-') and not line.startswith('---'):
                changed += 1
                orig += n in base
                n += 1
            elif rel and line.startswith(' '):
                n += 1
        if not orig:
            return 'changes no original line'
        t = sh('PYTHONHASHSEED=0 PYTHONPYCACHEPREFIX=/opt/vp/nocache /opt/venv/bin/python -m pytest -q '
               '--no-cov -p no:cacheprovider --timeout=300 2>&1 | tail -4', w)
        if '85 passed' not in t.stdout or 'failed' in t.stdout:
            return f'tests: {t.stdout}'
        good = sh(f'bash {d}/demo.sh', '/repo')
        bad = sh(f'bash {d}/demo.sh', w)
        if good.returncode:
            return f'demo fails on the unchanged tree: {good.stdout}{good.stderr}'
        if not bad.returncode:
            return 'demo passes with the change'
        text = f'ok ({orig} of {changed} lines original)'
        if checks:
            c = sh(f"python3 -m sim.run check {meta['property']}", HERE, {'VERIF_REPO': w})
            last = [x for x in c.stdout.splitlines() if x.startswith(('run ', 'harness'))]
            text += f"; {meta['property']} {'CATCHES' if c.returncode == 1 else 'MISSES'} "
            text += f'{c.returncode} {last[:1]}'
        return text
    finally:
        shutil.rmtree(w, ignore_errors=True)


def plant(b):
    w = copy(b['id'])
    for f, old, new in b['edits']:
        p = os.path.join(w, 'structured', f)
        s = open(p).read()
        if s.count(old) != 1:
            return f'{f}: {s.count(old)} times {old!r}'
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', w).stdout
    d = os.path.join(SEEDED, b['id'])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
    open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip())
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    shutil.rmtree(w, ignore_errors=True)
    r = confirm(b['id'], not os.environ.get('PLANT_ONLY'))
    if not r.startswith('ok'):
        shutil.rmtree(d, ignore_errors=True)
        sh('true')
    return r


def main(argv):
    if argv[:1] == ['--recheck']:
        for bug in argv[1:] or sorted(os.listdir(SEEDED)):
            print(bug, confirm(bug), flush=True)
        return
    want = argv[1:]
    for b in runpy.run_path(argv[0])['BUGS']:
        if want and b['id'] not in want:
            continue
        print(b['id'], plant(b), flush=True)


main(sys.argv[1:])
