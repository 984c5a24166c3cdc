"""Lists of operations in threads, under a seeded schedule."""

import json

from . import ops, sched
from .layout import Invalid
from .realize import Hooks


class Points(Hooks):
    """Callbacks are places where another thread may go on."""

    def call(self, kind, *args):
        sched.point(kind)


GRANS = ('breaker', 'breaker', 'line', 'line', 'instr')
PS = (0.001, 0.005, 0.02, 0.1, 0.3, 0.6)


def gen_schedule(rng, plan):
    size = len(json.dumps(plan['objs']))
    plan['gran'] = rng.choice(GRANS if size < 1500 else GRANS[:2] if size > 6000 else GRANS[:4])
    schedule(rng, plan)


def schedule(rng, plan):
    size = len(json.dumps(plan['objs']))
    plan['schedule'] = {'seed': rng.randrange(1 << 30),
                        'p': rng.choice(PS if size < 2000 else PS[:3])}
    x = rng.random()
    if x < 0.2:
        plan['schedule'].update(stall=1, p=rng.choice((0.0003, 0.001, 0.003, 0.01)))
    elif x < 0.5:
        plan['schedule'].update(focus=rng.choice((0.01, 0.03, 0.1)), p=rng.choice((0.1, 0.5, 0.9)),
                                stall=rng.randrange(2))


def run(case, plan, r, do=ops.run, setup=None, aborts=None):
    """Carry out plan['tasks'].  Returns what is wrong, or None."""
    if plan.get('gran') not in sched.GRANS:
        raise Invalid('granularity')
    sim = sched.Sim(plan['schedule'], plan['gran'])
    sim.aborts = aborts or {}
    problems = []

    def job(view, todo, tid):
        def go():
            for n, op in enumerate(todo):
                bad = do(view, op)
                if bad:
                    problems.append((tid, n, op, bad))
                    return
        return go
    for tid, todo in enumerate(plan['tasks']):
        view = case.view()
        if setup is not None:
            setup(view, tid)
        sim.spawn(job(view, todo, tid))
    sim.run()
    r.events += sim.k
    r.schedule, r.places = sim.switches, sim.places
    r.inter = [p.split(': ', 1)[1] for p in sim.places]
    if sim.places:
        r.fault('preemption', len(sim.places))
    for e, _ in sim.fired:
        r.fault(f'{type(e).__name__} in a thread')
    for t in sim.tasks:
        if isinstance(t.error, Invalid):
            raise t.error
    if problems:
        tid, n, op, bad = problems[0]
        return ops.within(bad, f'thread {tid}, operation {n} ({op[0]} {op[1]}): %s')
    for t in sim.tasks:
        if t.error is not None:
            return ops.raised(f'thread {t.tid}', t.error)
    if sim.deadlock:
        return 'deadlock: no thread can go on'
    if sim.exhausted:
        return f'no end after {sim.k} events'
    return None
