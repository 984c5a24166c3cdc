"""Runs, minimises and replays simulations.

    python3 -m sim.run check <property>          one check, as in MANIFEST.json
    python3 -m sim.run replay <file>             a reported violation again
    python3 -m sim.run one <property> <number>   one run, in full
    python3 -m sim.run digests <property> <n>    digests of n runs

A run is decided by (VERIF_SEED, property, number) alone and takes place in a
process of its own, forked from one that has only imported the library.
"""

import hashlib
import importlib
import json
import os
import random
import resource
import select
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU = 120           # seconds of processor time for one run
WALL = 300          # seconds until a run counts as blocked
MEMORY = 6 << 30


def load(prop):
    from . import lib
    lib.load()
    return importlib.import_module(f'sim.checks.{prop.lower()}')


def rng_for(seed, prop, i):
    h = hashlib.sha256(f'{seed}/{prop}/{i}'.encode()).digest()
    return random.Random(int.from_bytes(h[:16], 'big'))


def plan_for(mod, prop, seed, i, tier):
    plan = mod.gen(rng_for(seed, prop, i), i, tier)
    plan['property'] = prop
    plan['run'] = [seed, i]
    return json.loads(json.dumps(plan))


class Args(dict):
    """Part of a plan: what is missing makes the plan invalid (while
    minimising), rather than an error."""

    def __missing__(self, key):
        from .layout import Invalid
        raise Invalid(f'no {key}')


class Result:
    """What came out of executing a plan."""

    def __init__(self):
        self.violation = None
        self.counts = {}
        self.faults = {}
        self.probes = {}
        self.sig = None         # what makes the run distinct; None: trivial
        self.inter = None       # the interleaving, where there are threads
        self.schedule = None    # recorded decisions
        self.places = []
        self.events = 0

    def violate(self, kind, what, **more):
        if self.violation is None:
            kind += getattr(what, 'suffix', '')
            self.violation = {'kind': kind, 'what': what, **more}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def fault(self, k, n=1):
        self.faults[k] = self.faults.get(k, 0) + n

    def probe(self, k, n=1):
        self.probes[k] = self.probes.get(k, 0) + n

    def merge(self, d, into):
        t = getattr(self, into)
        for k, v in d.items():
            t[k] = t.get(k, 0) + v

    def out(self):
        d = dict(self.__dict__)
        d['digest'] = hashlib.sha256(json.dumps(d, sort_keys=True).encode()).hexdigest()[:16]
        d['sig'] = digest(self.sig)
        d['inter'] = digest(self.inter)
        return d


def tail_of_traceback():
    return ''.join(traceback.format_exc().splitlines(True)[-16:])


def digest(x):
    if x is None:
        return None
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()[:12]


def execute(mod, plan):
    """In this process.  Returns the outcome as a dictionary."""
    from .layout import Invalid
    from .ops import Rejected, blame, exc
    r = Result()
    sys.setrecursionlimit(3000)
    plan = json.loads(json.dumps(plan), object_hook=Args)
    try:
        mod.execute(plan, r)
    except Rejected as e:
        r.violate('define', str(e))
    except Invalid as e:
        return {'invalid': str(e)}
    except BaseException as e:
        # On a sound library nothing gets here: it did not behave as any
        # sound one would, even if the exception is not its own
        r.violate(f'unexpected {type(e).__name__} at {at(e)}{blame(e)}',
                  f'unexpected {exc(e)} at {at(e)}', traceback=tail_of_traceback())
    return r.out()


def at(e):
    """Where in the library an exception comes from (or else in here)."""
    from . import lib
    out = other = '?'
    tb = e.__traceback__
    while tb is not None:
        c = tb.tb_frame.f_code
        other = f'{os.path.basename(c.co_filename)}:{c.co_qualname}'
        if lib.is_lib(c.co_filename):
            out = other
        tb = tb.tb_next
    return other if out == '?' else out


def fork_execute(mod, plan, wall=WALL):
    """In a process forked for it."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        status = 3
        try:
            os.close(rfd)
            import gc
            gc.disable()
            resource.setrlimit(resource.RLIMIT_CPU, (CPU, CPU + 5))
            resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            try:
                out = execute(mod, plan)
            except BaseException:
                out = {'error': tail_of_traceback()}
            data = json.dumps(out).encode()
            while data:
                data = data[os.write(wfd, data):]
            status = 0
        finally:
            os._exit(status)
    os.close(wfd)
    data = b''
    end = time.monotonic() + wall
    timeout = False
    while True:
        left = end - time.monotonic()
        if left <= 0 or not select.select([rfd], [], [], left)[0]:
            timeout = True
            os.kill(pid, signal.SIGKILL)
            break
        chunk = os.read(rfd, 1 << 16)
        if not chunk:
            break
        data += chunk
    os.close(rfd)
    _, st = os.waitpid(pid, 0)
    if timeout or (os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGXCPU):
        return {'violation': {'kind': 'hang', 'what': 'the run did not end: ' + (
            'blocked' if timeout else f'{CPU} s of processor time used')},
            'counts': {}, 'faults': {}, 'probes': {}, 'sig': None, 'inter': None,
            'schedule': None, 'places': [], 'events': 0, 'digest': 'hang'}
    try:
        return json.loads(data)
    except ValueError:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) != signal.SIGKILL:
            return {'violation': {'kind': 'crash', 'what': f'the process of the run was ended by '
                                  f'signal {os.WTERMSIG(st)}'},
                    'counts': {}, 'faults': {}, 'probes': {}, 'sig': None, 'inter': None,
                    'schedule': None, 'places': [], 'events': 0, 'digest': 'crash'}
        return {'error': f'run process ended with status {st}'}


# ----------------------------------------------------------------- exploring
def worker(mod, prop, seed, tier, first, step, total, deadline, out, jobs):
    """Runs every step-th run; reports each as a line."""
    i = first
    f = os.fdopen(out, 'w')
    if hasattr(mod, 'zygote'):
        mod.zygote()
    while i < total and time.monotonic() < deadline:
        try:
            plan = plan_for(mod, prop, seed, i, tier)
        except Exception:
            f.write(json.dumps({'i': i, 'error': tail_of_traceback()}) + '\n')
            break
        res = fork_execute(mod, plan)
        res['i'] = i
        res.pop('schedule', None) if not res.get('violation') else None
        res.pop('places', None)
        if i < 3 * step and hasattr(mod, 'sample'):
            res['sample'] = mod.sample(plan)
        f.write(json.dumps(res) + '\n')
        f.flush()
        if res.get('violation') or res.get('error') or res.get('invalid'):
            break
        i += step
    f.close()
    os._exit(0)


def explore(mod, prop, seed, tier, total, jobs, cap):
    """All runs.  Yields results as they come."""
    deadline = time.monotonic() + cap
    pipes = {}
    for w in range(jobs):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            for p in pipes:
                os.close(p)
            os.close(rfd)
            os.setpgid(0, 0)
            try:
                worker(mod, prop, seed, tier, w, jobs, total, deadline, wfd, jobs)
            finally:
                os._exit(3)
        os.close(wfd)
        pipes[rfd] = [pid, b'']
    try:
        while pipes:
            ready, _, _ = select.select(list(pipes), [], [], 5)
            for fd in ready:
                data = os.read(fd, 1 << 18)
                if not data:
                    os.close(fd)
                    os.waitpid(pipes.pop(fd)[0], 0)
                    continue
                pipes[fd][1] += data
                *lines, pipes[fd][1] = pipes[fd][1].split(b'\n')
                for line in lines:
                    yield json.loads(line)
    finally:
        for fd, (pid, _) in pipes.items():
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            os.waitpid(pid, 0)
            os.close(fd)


# ---------------------------------------------------------------- minimising
def shrink(mod, plan, kind, limit=40.0):
    """Smaller plans with the same kind of violation."""
    from . import shrinking
    end = time.monotonic() + limit
    tried = 0
    best = plan
    best_res = fork_execute(mod, plan)

    def fails(cand):
        nonlocal tried, best, best_res
        if time.monotonic() > end:
            raise TimeoutError
        tried += 1
        res = fork_execute(mod, cand, wall=30)
        v = res.get('violation')
        if v and v['kind'] == kind:
            best, best_res = cand, res
            return True
        return False

    if kind == 'hang':
        return best, best_res, 0
    try:
        changed = True
        while changed:
            changed = False
            for cand in shrinking.candidates(best, best_res, mod):
                if shrinking.size(cand) < shrinking.size(best) and fails(cand):
                    changed = True
                    break
    except TimeoutError:
        pass
    return best, best_res, tried


def write_replay(prop, plan, res, tried, original):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    doc = {'property': prop, 'violation': res['violation'],
           'seed': plan['run'][0], 'run': plan['run'][1],
           'minimised_in': tried, 'preemptions': res.get('places', []),
           'plan': plan}
    if original is not plan:
        doc['original_size'] = len(json.dumps(original))
    name = f"{prop}-{digest([plan, res['violation']['kind']])}.json"
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')
    return path


def replay(path, quiet=False):
    with open(path) as f:
        doc = json.load(f)
    mod = load(doc['property'])
    res = fork_execute(mod, doc['plan'])
    v = res.get('violation')
    if not quiet:
        if res.get('error'):
            print(res['error'])
        for p in res.get('places', []):
            print('  switch', p)
        print('violation:', json.dumps(v))
    return v, doc, res


def replays_alike(path, kind):
    """In a fresh process."""
    out = subprocess.run([sys.executable, '-m', 'sim.run', 'replay', path], cwd=HERE,
                         capture_output=True, text=True, timeout=400)
    return out.returncode == 1 and f'"kind": "{kind}"' in out.stdout, out.stdout + out.stderr


# ------------------------------------------------------------------ checking
def known_findings():
    path = os.path.join(HERE, 'KNOWN_FINDINGS.md')
    out = []
    try:
        with open(path) as f:
            for line in f:
                if line.startswith('known: '):
                    head, _, text = line[7:].partition(' -- ')
                    d = dict(x.split('=', 1) for x in head.split())
                    d['text'] = text.strip()
                    out.append(d)
    except FileNotFoundError:
        pass
    return out


def check(prop):
    t0 = time.time()
    m0 = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    mod = load(prop)
    total = mod.RUNS[tier] if 'VERIF_RUNS' not in os.environ else int(os.environ['VERIF_RUNS'])
    jobs = int(os.environ.get('VERIF_JOBS', min(8, os.cpu_count() or 1)))
    cap = 200 if tier == 'quick' else 6 * 3600
    cap = float(os.environ.get('VERIF_CAP', cap))
    print(f'{prop}: seed {seed}, {tier}, {total} runs, {jobs} workers', flush=True)
    agg = {'counts': {}, 'faults': {}, 'probes': {}}
    sigs, inters = set(), set()
    n = events = 0
    samples = []
    found = None
    for res in explore(mod, prop, seed, tier, total, jobs, cap):
        if res.get('error') or res.get('invalid'):
            print(f"harness error in run {res['i']}: {res.get('error') or res['invalid']}")
            return 2
        n += 1
        events += res.get('events', 0)
        for k in agg:
            for a, b in res[k].items():
                agg[k][a] = agg[k].get(a, 0) + b
        if res['sig']:
            sigs.add(res['sig'])
        if res['inter']:
            inters.add(res['inter'])
        if 'sample' in res and len(samples) < 3:
            samples.append(res['sample'])
        if res['violation']:
            known = [k for k in known_findings() if k.get('property') == prop
                     and k.get('sig') == digest(res['violation'])]
            if known:
                continue
            found = res
            break
    for k in known_findings():
        if k.get('property') == prop:
            print(f"KNOWN-FINDING: property={prop} {k['text']}")
    wall = time.monotonic() - m0
    code = 0
    if found:
        i = found['i']
        kind = found['violation']['kind']
        print(f"run {i}: {kind}: {found['violation']['what']}", flush=True)
        plan = plan_for(mod, prop, seed, i, tier)
        if kind.startswith('unexpected') and kind.endswith('-outer'):
            best, bres, tried = plan, found, 0      # (any nonsense could be like it)
        else:
            best, bres, tried = shrink(mod, plan, kind)
        code = 2
        for p, r in ((best, bres), (plan, found)):
            if not r.get('violation'):
                continue
            path = write_replay(prop, p, r, tried, plan)
            same, text = replays_alike(path, kind)
            if same:
                code = 1
                print(f"minimised ({tried} candidates): {r['violation']['what']}")
                print(f'VIOLATION property={prop} replay={path}', flush=True)
                break
            print('replay did not reproduce:', text[-2000:])
    evidence(prop, mod, tier, seed, n, events, sigs, inters, agg, samples, wall,
             1 if found else 0)
    print(f'{prop}: {n} runs in {time.time() - t0:.1f} s, '
          f"{'violated' if found else 'held'}")
    return code


def evidence(prop, mod, tier, seed, n, events, sigs, inters, agg, samples, wall, bad):
    cov = {
        'evaluations': n,
        'distinct_nontrivial': len(sigs),
        'rule': mod.RULE,
        'samples': samples,
        'operations': dict(sorted(agg['counts'].items())),
        'faults_fired': dict(sorted(agg['faults'].items())),
        'probes': dict(sorted(agg['probes'].items())),
        'runs_per_hour': round(n / wall * 3600) if wall else 0,
        'seeds': f'VERIF_SEED={seed}, run numbers 0 to {n - 1}',
        'library_events': events,
        'simulated_time': 'none: the library has no clock or timer; progress is counted in '
                          'library events',
        'real_components': 'the whole library (package structured of the working tree), '
                           'CPython and its struct, io, typing and threading modules',
        'stubbed_components': mod.STUBS,
    }
    if inters:
        cov['distinct_interleavings'] = len(inters)
        cov['interleaving_measure'] = 'distinct sequences of (place in the code, next task)'
    doc = {'property': prop, 'tier': tier, 'seed': seed,
           'level': getattr(mod, 'LEVEL', 'exploration'),
           'coverage': cov, 'assumptions': mod.ASSUMES, 'wall_s': round(wall, 2),
           'violations': bad}
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f'.{prop}.tmp')
    with open(tmp, 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')
    os.replace(tmp, os.path.join(d, f'{prop}.json'))


def main(argv):
    if argv[:1] == ['check']:
        return check(argv[1])
    if argv[:1] == ['replay']:
        v, doc, _ = replay(argv[1])
        if v:
            print(f"VIOLATION property={doc['property']} replay={argv[1]}")
            return 1
        return 0
    if argv[:1] == ['one']:
        mod = load(argv[1])
        plan = plan_for(mod, argv[1], int(os.environ.get('VERIF_SEED', '1')), int(argv[2]),
                        os.environ.get('VERIF_TIER', 'quick'))
        from .layout import describe_cls
        for i, s in enumerate(plan.get('classes', [])):
            print(describe_cls(s, i))
        print(json.dumps({k: v for k, v in plan.items() if k != 'classes'})[:6000])
        res = fork_execute(mod, plan)
        print(res.pop('error', ''))
        print(json.dumps(res, indent=1)[:6000])
        return 0
    if argv[:1] == ['digests']:
        mod = load(argv[1])
        seed = int(os.environ.get('VERIF_SEED', '1'))
        for i in range(int(argv[2])):
            plan = plan_for(mod, argv[1], seed, i, 'quick')
            print(i, digest(plan), fork_execute(mod, plan).get('digest'))
        return 0
    print(__doc__)
    return 2


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') is None:
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-m', 'sim.run'] + sys.argv[1:])
    sys.exit(main(sys.argv[1:]))
