"""C09: operations nested in others."""

from .. import layout, nesting, ops

RUNS = {'quick': 13000, 'thorough': 250000}
RULE = ('A run carries out operations during which callbacks (conditions, deciders, encoders, '
        'decoders, factories, initializers, user-written serializers) and streams carry out '
        'others, at chosen calls and nested up to six deep; all are compared with their results '
        'alone.  Distinct by layouts and operations; non-trivial if an operation ran within '
        'another.')
STUBS = 'callbacks and streams (simulated)'
ASSUMES = ['user code does not unpack onto the very object that is being packed or unpacked']
LISTS = ('ops',)
KINDS = ops.PACK + ops.UNPACK + ops.UNPACK + ('bo', 'mix', 'bad_pack', 'odd', 'bad_unpack', 'junk')


def gen(rng, i, tier):
    plan, g = ops.gen_case(rng, (2, 5), big=0.02, classes=rng.choice([(1, 2), (1, 4)]),
                           fields=rng.choice([(1, 4), (1, 6)]))
    plan['ops'] = [[ops.gen_op(rng, plan), nesting.gen_nested(rng, plan, KINDS)]
                   for _ in range(rng.randint(1, 6))]
    return plan


def sample(plan):
    return {'classes': [layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])],
            'ops': plan['ops'][:2]}


def execute(plan, r):
    nest = nesting.Nest()
    case = nesting.NestCase(plan, nest)
    case.counts = r.counts
    if plan['ops'] and plan.get('prime', True):
        case.prime()
    for item in plan['ops']:
        if len(item) != 2:
            raise layout.Invalid('operation')
        op, todo = item
        bad = nesting.run(case, op, todo)
        if bad:
            r.violate('nested', bad)
            break
    for k, n in nest.ran.items():
        r.fault(f'operation nested by {k}', n)
    if nest.deepest:
        r.probe(f'depth {nest.deepest}')
        r.sig = [[layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])],
                 plan['ops']]
