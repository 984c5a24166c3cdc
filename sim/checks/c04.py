"""C04: calls on the stream being read that fail."""

from .. import layout, ops, streams
from ..ops import Case

RUNS = {'quick': 3500, 'thorough': 200000}
RULE = ('A run unpacks generated values from simulated streams whose reads, seeks and tells raise, '
        'at every call in turn (up to 20 of each), onto new and existing objects, retries after '
        'each failure, and operates on other objects and streams meanwhile.  Distinct by layouts, '
        'exceptions and calls; non-trivial if an exception was injected.')
STUBS = 'streams (simulated raw file, also below io.BufferedReader and BufferedRandom)'
ASSUMES = ['io.BufferedReader and BufferedRandom pass on exceptions of the stream below']
KINDS = ('raw', 'raw', 'raw', 'reader', 'random', 'reader-small', 'random-small')
LISTS = ('reads',)


def gen(rng, i, tier):
    plan, g = ops.gen_case(rng, (2, 4), big=rng.choice([0.03, 0.03, 0.2]), huge=0.05)
    plan['reads'] = []
    same = ops.same_class(plan)
    names = sorted(streams.EXC)
    for _ in range(rng.randint(1, 4)):
        o = rng.randrange(len(plan['objs']))
        a = {'o': o, 'how': rng.choice(['cur', 'ur', 'ur']), 'h': rng.choice(KINDS),
             'from': rng.choice(same[layout.ckey(plan['objs'][o]['o'])]),
             'off': rng.choice([0, 0, 1, 3]), 'tail': rng.choice([0, 0, 1, 8]),
             'raises': rng.sample(names, rng.choice([1, 2])),
             'dead': rng.choice(names) if rng.random() < 0.25 else None,
             'other': ops.gen_op(rng, plan)}
        if rng.random() < 0.3:
            a['cold'] = 1
        if rng.random() < 0.3:
            # after a short read, another way through the code
            a['with'] = {str(rng.randint(0, 6)): ['short', 1] for _ in range(2)}
        plan['reads'].append(a)
    return plan


def sample(plan):
    return {'classes': [layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])],
            'reads': plan['reads'][:2]}


def execute(plan, r):
    case = Case(plan)
    case.counts = r.counts
    for a in plan['reads']:
        # What fails may be the first operation there ever was
        bad, counts = ops.plain(a.get('cold'), lambda: once(case, a, {}, r))
        if bad:
            r.violate('plain', bad)
            return
        cost = sum(counts.values()) + len(case.enc[a['o']])
        for name in a['raises'][:1 if cost > 40_000 else None]:
            if name not in streams.EXC:
                raise layout.Invalid(name)
            for call in ('read', 'seek', 'tell'):
                for k in places(counts[call], cost):
                    faults = {call: {str(k): ['raise', name] + [x for x in [a.get('dead')] if x]}}
                    if a.get('with') and call != 'read':
                        faults['read'] = a['with']
                    elif a.get('with'):
                        faults['read'] = {**a['with'], **faults['read']}
                    bad, _ = once(case, a, faults, r)
                    if bad:
                        r.violate('fail', ops.within(bad, f"{a['how']} of value {a['o']} (class "
                                  f"{case.objs[a['o']].ck}) with {faults}: %s"))
                        return
        if a.get('other'):
            bad = ops.run(case, a['other'])
            if bad:
                r.violate('other', bad)
                return
    if sum(r.faults.values()):
        r.sig = [[layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])],
                 plan['reads']]


def places(n, cost):
    """Which of the calls are to fail: fewer where there are thousands."""
    n = min(n, 20)
    most = max(1, 100_000 // (cost + 1))
    return range(n) if n <= most else sorted({j * n // most for j in range(most)})


def once(case, a, faults, r):
    i = a['o']
    enc = case.enc[i]
    off = a.get('off', 0)
    disk = streams.Disk(ops.PRE[:off] + ops.source(case, a))
    before = bytes(disk.data)
    for f in faults.values():
        streams.valid(f)
    log = streams.Log()
    h = streams.Handle(a['h'], disk, off, faults, log)
    other = streams.Handle(a['h'], disk, off)
    how = a.get('how', 'cur')
    cls = case.cls(i)
    obj = old = model = None
    if how == 'ur':
        obj = ops.target(case, a)
        model = case.objs[a.get('from', i)]
        old = {n: getattr(obj, n) for n in type(obj).attrs}
    r.count(how)
    got = None
    error = None
    try:
        if how == 'cur':
            got = cls.create_unpack_read(h.f)
        else:
            obj.unpack_read(h.f)
    except BaseException as e:
        error = e
    counts = dict(h.raw.count)
    raised = h.raw.raised
    r.merge(log.fired, 'faults')
    if error is None:
        if raised:
            return f'{raised[-1]!r} raised by the stream did not come out', counts
        short = log.fired
        bad = case.w.diff(got or obj, case.objs[i])
        return bad and f'wrong value: {bad}' + (' (after a short read)' if short else ''), counts
    if not raised:
        if log.fired:
            return None, counts     # a short read may be answered by an exception
        return ops.raised('without a fault it', error), counts
    if error is not raised[0]:
        return f'{raised[0]!r} raised by the stream came out as {error!r}', counts
    if obj is not None:
        bad = torn(case, obj, old, model, case.objs[i])
        if bad:
            return bad, counts
    # again, from the start of the record
    h.raw.faults = {}
    h.raw.broken = None
    h.f.seek(off)
    if how == 'cur':
        got = cls.create_unpack_read(h.f)
    else:
        obj.unpack_read(h.f)
        got = obj
    bad = case.w.diff(got, case.objs[i])
    if bad:
        return f'reading again: {bad}', counts
    if h.pos() != off + len(enc):
        return f'reading again: stream left at {h.pos()}, not {off + len(enc)}', counts
    r.count('read again after a failure')
    if bytes(disk.data) != before:
        return 'the source was modified', counts
    # another stream on the same file
    if other.pos() != off:
        return 'another stream moved', counts
    got = cls.create_unpack_read(other.f)
    bad = case.w.diff(got, case.objs[i])
    if bad:
        return f'reading from another stream: {bad}', counts
    return None, counts


def torn(case, obj, old, model, new):
    """Is there an attribute that is neither the old one nor the new one?"""
    c = case.w.L.cls(new.ck)
    for n, t in c.fields:
        if t['k'] == 'pad':
            continue
        try:
            got = getattr(obj, n)
        except AttributeError:
            return f'attribute {n} is gone'
        if got is old[n] or t['k'] in ('int', 'float', 'bool', 'char'):
            d = case.w.vdiff(got, model.v[n], t, model, f'.{n}')
            if not d:
                continue
            if got is old[n] and case.w.vdiff(got, new.v[n], t, new, '') is not None:
                return f'attribute was changed in place: {d}'
        d = case.w.vdiff(got, new.v[n], t, new, f'.{n}')
        if d:
            return f'attribute is neither the old nor the new value: {d}'
    return None
