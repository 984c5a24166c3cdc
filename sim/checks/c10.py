"""C10: operations and definitions ended by an exception at any instant."""

from .. import layout, nesting, ops, sched, threads
from ..layout import Invalid
from ..ops import Rejected

RUNS = {'quick': 4000, 'thorough': 150000}
RULE = ('A run ends operations, nested operations, class definitions and operations in threads '
        'with an exception at many chosen events inside the library (an interrupt where the '
        'interpreter delivers signals, a failed allocation or recursion at a call), or by '
        'callbacks, streams, values or data, and carries out others after each.  Distinct by '
        'layouts, operations and events; non-trivial if an exception was raised inside the '
        'library.')
STUBS = 'asynchronous exceptions, thread scheduling, callbacks and streams (simulated)'
ASSUMES = ['interrupts arrive where CPython looks for signals: at function starts, generator '
           'resumptions, backward jumps and after calls of C functions',
           'user code that catches the exception of an operation leaves its own objects alone']
LISTS = ('define', 'aborts', 'after', 'tasks')
KINDS = ops.PACK + ops.UNPACK + ops.UNPACK + ('bo', 'mix')
EXCS = {'breaker': (KeyboardInterrupt, SystemExit),
        'call': (MemoryError, RecursionError)}


def gen(rng, i, tier):
    plan, g = ops.gen_case(rng, (2, 5), big=0.01, classes=rng.choice([(1, 2), (1, 4)]),
                           fields=rng.choice([(1, 4), (1, 6)]), depth=rng.choice([2, 3]))
    plan['define'] = []
    if rng.random() < 0.5:
        for ci in range(len(plan['classes'])):
            for _ in range(rng.choice([0, 1, 1, 3])):
                plan['define'].append({'ci': ci, 'at': round(rng.random(), 4),
                                       'gran': rng.choice(['breaker', 'call']),
                                       'exc': rng.randrange(2)})
    plan['aborts'] = []
    for _ in range(rng.randint(1, 4)):
        a = {'op': ops.gen_op(rng, plan, KINDS), 'gran': rng.choice(['breaker', 'call']),
             'exc': rng.randrange(2)}
        if rng.random() < 0.5:
            a['cold'] = 1
        if rng.random() < 0.3:
            a['nested'] = nesting.gen_nested(rng, plan, KINDS)
            a['catch'] = rng.random() < 0.5
        a['at'] = sorted(round(rng.random(), 4) for _ in range(rng.randint(2, 12)))
        plan['aborts'].append(a)
    plan['after'] = [ops.gen_op(rng, plan, KINDS + ('bad_pack', 'odd', 'bad_unpack', 'junk'))
                     for _ in range(rng.randint(2, 6))]
    plan['tasks'] = []
    if rng.random() < 0.25:
        plan['tasks'] = [[ops.gen_op(rng, plan, KINDS) for _ in range(rng.randint(1, 4))]
                         for _ in range(rng.choice([2, 2, 3]))]
        plan['gran'] = 'breaker'
        threads.schedule(rng, plan)
        plan['kill'] = sorted(rng.sample(range(1, 400), rng.randint(1, 8)))
    return plan


def sample(plan):
    return {'classes': [layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])],
            'define': plan['define'], 'aborts': plan['aborts'][:2], 'after': plan['after'][:3]}


def exception(a):
    return EXCS[a['gran']][a.get('exc', 0) % 2]('injected')


def direct(case, op):
    """Without looking at exceptions."""
    return ops.HANDLERS[op[0]](case, op[1])


def execute(plan, r):
    nest = nesting.Nest()
    case = nesting.NestCase(plan, nest, define=False)
    case.counts = r.counts
    bad = define(case, plan, r)
    if bad:
        r.violate('define', bad)
        return
    if plan['aborts'] or plan['tasks']:
        case.prime()
    n = 0
    for a in plan['aborts']:
        if a['gran'] not in EXCS:
            raise Invalid('granularity')
        bad = abort(case, a, r, nest, plan['after'])
        if bad:
            r.violate('after', bad)
            return
    if plan.get('tasks'):
        bad = kill(case, plan, r)
        if bad:
            r.violate('threads', bad)
            return
    for i in range(len(case.objs)):
        for k in ('pack', 'cu', 'cuf', 'cur', 'pack_write'):
            bad = ops.run(case, [k, {'o': i}])
            if bad:
                r.violate('last', ops.within(bad, 'at last: %s'))
                return
    if r.faults:
        r.sig = [[layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])],
                 plan['define'], plan['aborts'], plan['tasks']]


def define(case, plan, r):
    """Define all classes, with definitions aborted and repeated."""
    counts = {}

    def count(gran):
        out = []
        with sched.Aborter(gran) as ab:
            for ci in range(len(case.specs)):
                ab.arm(0, None)
                try:
                    case.w.define(ci)
                except Exception:
                    break
                finally:
                    ab.disarm()
                out.append(ab.n)
        return out
    if plan['define']:
        # How many events a definition has
        for gran in ('breaker', 'call'):
            for ci, n in enumerate(ops.in_child(lambda: count(gran))):
                counts[gran, ci] = n
    for ci in range(len(case.specs)):
        for d in plan['define']:
            if d['ci'] != ci:
                continue
            exc = exception(d)
            fired = None
            with sched.Aborter(d['gran']) as ab:
                ab.arm(1 + int(d['at'] * counts.get((d['gran'], ci), 1)), exc)
                try:
                    case.w.define(ci)
                except (Exception, KeyboardInterrupt, SystemExit) as e:
                    fired = ab.disarm()
                    if not fired:
                        raise
                fired = ab.disarm() or fired
            if fired:
                r.fault(f'{type(exc).__name__} in a definition')
                last = fired
        try:
            case.w.define(ci)
        except Invalid:
            raise
        except Exception as e:
            return ops.raised(f'definition {ci} (after aborting it)', e)
    return None


def abort(case, a, r, nest, after):
    """Abort an operation at several of its events."""
    todo = a.get('nested') or {}
    op = a['op']
    case.real(op[1]['o'])
    caught = [0]

    def catching(c, inner):
        try:
            return direct(c, inner)
        except (Exception, KeyboardInterrupt, SystemExit) as e:
            if e is not exc:
                return ops.raised('nested operation', e)
            caught[0] += 1
            return None

    def go(do):
        nest.do = do
        nest.problems = []
        nest.begin(case, todo)
        try:
            return direct(case, op)
        finally:
            nest.end()
    inner = catching if a.get('catch') else direct
    exc = None

    def count():
        with sched.Aborter(a['gran']) as ab:
            ab.arm(0, None)
            try:
                bad = go(inner)
            except (Exception, KeyboardInterrupt, SystemExit) as e:
                ab.disarm()
                return ops.raised(f'{op} before any abort', e), 0
            ab.disarm()
            if bad or nest.problems:
                bad = ops.within(bad or nest.problems[0][2], f'{op} before any abort: %s')
        return bad, ab.n
    # What is ended may be the first operation there ever was
    bad, total = ops.plain(a.get('cold'), count)
    if bad:
        return bad
    r.events += total
    for at in a['at']:
        exc = exception(a)
        caught[0] = 0
        error = bad = None
        with sched.Aborter(a['gran']) as ab:
            ab.arm(1 + int(at * total), exc)
            try:
                bad = go(inner)
            except (Exception, KeyboardInterrupt, SystemExit) as e:
                error = e
            fired = ab.disarm()
        if isinstance(error, Invalid):
            raise error
        if fired:
            r.fault(f'{type(exc).__name__} in an operation')
            if todo:
                r.probe('aborted with operations nested')
            del exc
        if not fired or caught[0]:
            # It went on (or was not interrupted): it has to be right
            if error is not None:
                return ops.raised(f'{op} (nested operation aborted at {fired})', error)
            if bad or nest.problems:
                return ops.within(bad or nest.problems[0][2],
                                  f'{op} (nested operation aborted at {fired}): %s')
        error = None
        exc = None
        for n, x in enumerate(after):
            bad = ops.run(case, x)
            if bad:
                return ops.within(bad, f'after {op[0]} {op[1]} aborted at {fired} by '
                                  f'{EXCS[a["gran"]][a.get("exc", 0) % 2].__name__}: %s')
        bad = ops.run(case, op)
        if bad:
            return ops.within(bad, f'repeated after being aborted at {fired}: %s')
    return None


def kill(case, plan, r):
    """Operations aborted in some threads while others go on."""
    plan['gran'] = 'breaker'
    excs = {k: KeyboardInterrupt('injected') for k in plan.get('kill', ())}
    ids = {id(e) for e in excs.values()}

    def do(view, op):
        try:
            return direct(view, op)
        except KeyboardInterrupt as e:
            if id(e) in ids:
                return None
            raise
        except Invalid:
            raise
        except Exception as e:
            return ops.raised(f'{op[0]} of {ops.what(view, op[1])}', e)
    bad = threads.run(case, plan, r, do, aborts=excs)
    return bad
