"""C08: operations on distinct objects in several threads."""

from .. import layout, nesting, ops, threads

RUNS = {'quick': 12000, 'thorough': 200000}
RULE = ('A run lets 2 to 4 threads pack and unpack objects of their own, of the same generated '
        'classes, on buffers and streams of their own, with a seeded scheduler deciding at every '
        'eval-breaker point, line or instruction of the library which thread goes on; in some, '
        'callbacks and streams carry out further operations in their thread; every result is '
        'compared with that of the operation alone.  Distinct by layouts and operations; non-trivial if a thread was preempted inside the library.')
STUBS = 'thread scheduling (real threads, one at a time), streams, locks made by the library'
ASSUMES = ['a switch between threads happens at instruction boundaries of the interpreter (GIL)']
LISTS = ('tasks',)
KINDS = ops.PACK + ops.UNPACK + ops.UNPACK + ('bo', 'mix', 'bad_pack', 'odd', 'bad_unpack', 'junk')


def gen(rng, i, tier):
    many = rng.random() < 0.2
    nested = rng.random() < 0.3
    if many:
        # Many sizes of the same
        plan, g = ops.gen_case(rng, (5, 10), big=0.02, classes=(1, 1), fields=(1, 2),
                               depth=rng.choice([1, 2]), weights={'arr': 80, 'dyn': 30, 'uni': 20},
                               big_max=rng.choice([0, 2]))
        if rng.random() < 0.6:
            ci = ops.array_class(rng, g, 0.9)
            plan['objs'] = [layout.v2j(g.obj(ci)) for _ in range(rng.randint(6, 14))]
    else:
        few = not nested and rng.random() < 0.5
        plan, g = ops.gen_case(rng, (2, 4), big=0.02, classes=(1, 2) if few else (1, 4),
                               fields=(1, 4), depth=rng.choice([2, 3]))
    n = rng.choice([2, 2, 2, 3, 4])
    plan['tasks'] = [[ops.gen_op(rng, plan, KINDS) for _ in range(rng.randint(3, 10) if many else
                                                             rng.randint(1, 4))]
                     for _ in range(n)]
    if nested:
        # Callbacks and streams of a thread's operations carry out others
        for task in plan['tasks']:
            for op in task:
                if rng.random() < 0.7:
                    op.append(nesting.gen_nested(rng, plan, KINDS))
    threads.gen_schedule(rng, plan)
    if nested and rng.random() < 0.5:
        # Other threads go on in the middle of callbacks and streams only
        plan['gran'] = 'none'
        plan['schedule'] = {'seed': rng.randrange(1 << 30), 'p': rng.choice((0.1, 0.3, 0.6, 0.9))}
    return plan


def sample(plan):
    return {'classes': [layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])],
            'tasks': plan['tasks'], 'granularity': plan['gran'], 'schedule': plan['schedule']}


def execute(plan, r):
    nest = nesting.Threads()
    case = nesting.NestCase(plan, nest)
    case.counts = r.counts
    case.prime()
    bad = threads.run(case, plan, r, do=nesting.in_thread)
    for k, n in nest.ran.items():
        r.fault(f'operation nested by {k}', n)
    if bad:
        r.violate('thread', bad)
        return
    if r.places:
        r.sig = [[layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])],
                 plan['tasks']]
    # Afterwards, everything is as ever
    for i in range(len(case.objs)):
        bad = ops.run(case, ['pack', {'o': i}]) or ops.run(case, ['cu', {'o': i}])
        if bad:
            r.violate('after', bad)
            return
