"""C03: streams that return fewer bytes than asked for."""

from .. import layout, ops, streams
from ..ops import Case

RUNS = {'quick': 5000, 'thorough': 200000}
RULE = ('A run unpacks generated values from simulated streams, with a short, empty or '
        'would-block read injected at every read call in turn (up to 40) and at random '
        'combinations of them.  Distinct by layouts and faults; non-trivial if a fault fired.')
STUBS = 'streams (simulated raw file, also below io.BufferedReader and BufferedRandom)'
ASSUMES = ['read() without a limit is not shortened: nothing tells its result from the whole',
           'a stream that is not positioned is read with read() only where the layout allows']
KINDS = ('raw', 'raw', 'raw', 'reader', 'random', 'reader-small', 'random-small')
LISTS = ('reads',)


def fault(rng):
    x = rng.random()
    if x < 0.6:
        return ['short', rng.choice([1, 1, 2, 3, 5])]
    return ['empty'] if x < 0.85 else ['none']


def gen(rng, i, tier):
    plan, g = ops.gen_case(rng, (1, 4), big=rng.choice([0.03, 0.03, 0.3]), huge=0.05)
    plan['reads'] = []
    same = ops.same_class(plan)
    for _ in range(rng.randint(1, 4)):
        o = rng.randrange(len(plan['objs']))
        a = {'o': o, 'how': rng.choice(['cur', 'ur']), 'h': rng.choice(KINDS),
             'from': rng.choice(same[layout.ckey(plan['objs'][o]['o'])]),
             'off': rng.choice([0, 0, 1, 3]), 'tail': rng.choice([0, 0, 1, 8]),
             'sweep': [fault(rng) for _ in range(rng.choice([1, 2, 3]))],
             'combos': []}
        if rng.random() < 0.2:
            a['cold'] = 1
        for _ in range(rng.randint(0, 6)):
            n = rng.choice([6, 15, 40])
            a['combos'].append({str(k): fault(rng) for k in range(n) if rng.random() < 0.4})
        if rng.random() < 0.3:
            # everything comes one byte at a time
            a['combos'].append({str(k): ['short', 1] for k in range(200)})
        plan['reads'].append(a)
    return plan


def sample(plan):
    return {'classes': [layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])],
            'reads': plan['reads'][:2]}


def execute(plan, r):
    case = Case(plan)
    case.counts = r.counts
    for a in plan['reads']:
        i = a['o']
        enc = case.enc[i]
        # What comes up short may be the first operation there ever was
        bad, n = ops.plain(a.get('cold'), lambda: once(case, a, {}, r))
        if bad:
            r.violate('plain', bad)
            return
        todo = [{str(k): f} for f in a['sweep'] for k in range(min(n, 40))] + list(a['combos'])
        # Fewer where there are thousands of reads
        most = max(8, 300_000 // (n + len(enc) + 1))
        if len(todo) > most:
            todo = [todo[j * len(todo) // most] for j in range(most)]
        for faults in todo:
            bad, _ = once(case, a, faults, r)
            if bad:
                r.violate('short', ops.within(bad, f'%s, with {streams_used(faults)} of value '
                                              f'{i} (class {case.objs[i].ck})'))
                return
    if sum(r.faults.values()):
        r.sig = [[layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])],
                 plan['reads']]


def streams_used(faults):
    return 'read faults ' + str(dict(list(faults.items())[:6]))


def once(case, a, faults, r):
    i = a['o']
    enc = case.enc[i]
    off = a.get('off', 0)
    data = ops.PRE[:off] + ops.source(case, a)
    log = streams.Log()
    h = streams.Handle(a['h'], streams.Disk(data), off, {'read': streams.valid(faults)}, log)
    how = a.get('how', 'cur')
    obj = None if how == 'cur' else ops.target(case, a)
    r.count(how)
    try:
        if obj is None:
            obj = case.cls(i).create_unpack_read(h.f)
        else:
            obj.unpack_read(h.f)
    except Exception as e:
        r.merge(log.fired, 'faults')
        if not log.fired:
            return ops.raised(f'{how} without a fault', e), 0
        r.count('exception')
        return None, h.raw.count['read']
    n = h.raw.count['read']
    r.merge(log.fired, 'faults')
    bad = case.w.diff(obj, case.objs[i])
    if bad:
        return f'wrong value: {bad}', n
    pos = h.pos()
    if pos != off + len(enc):
        return f'stream left at {pos}, not {off + len(enc)}', n
    if log.fired:
        r.count('right value in spite of a fault')
    return None, n
