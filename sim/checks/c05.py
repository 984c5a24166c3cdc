"""C05: calls on the stream being written that fail."""

import io

from .. import layout, ops, streams
from ..ops import Case, short

RUNS = {'quick': 4000, 'thorough': 200000}
RULE = ('A run packs generated values to simulated write-only streams whose writes raise or are '
        'torn, at every call in turn (up to 14), packs again to the same and to another stream, '
        'and checks at the end that nothing handed to a stream has changed.  Distinct by layouts, '
        'exceptions and calls; non-trivial if an exception was injected.')
STUBS = 'streams (write-only sinks, and simulated raw files also below io.BufferedWriter)'
ASSUMES = ['a stream takes all bytes it is given, or raises']
LISTS = ('writes',)


def gen(rng, i, tier):
    plan, g = ops.gen_case(rng, (2, 4), big=rng.choice([0.03, 0.03, 0.2]), huge=0.05)
    plan['writes'] = []
    names = sorted(streams.EXC)
    for _ in range(rng.randint(1, 4)):
        o = rng.randrange(len(plan['objs']))
        a = {'o': o, 'raises': rng.sample(names, rng.choice([1, 2])),
             'torn': rng.sample([0, 1, 2, 3, 7], 1), 'ret': rng.choice(['n', 'n', 'none']),
             'before': rng.choice([0, 0, 1, 2]), 'w': rng.choice(['sink', 'sink', 'raw', 'writer']),
             'other': ops.gen_op(rng, plan)}
        if rng.random() < 0.3:
            a['cold'] = 1
        plan['writes'].append(a)
    return plan


def sample(plan):
    return {'classes': [layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])],
            'writes': plan['writes'][:2]}


def execute(plan, r):
    case = Case(plan)
    case.counts = r.counts
    kept = []
    for a in plan['writes']:
        # What fails may be the first operation there ever was
        bad, n = ops.plain(a.get('cold'), lambda: once(case, a, {}, r, kept))
        if bad:
            r.violate('plain', bad)
            return
        todo = []
        for name in a['raises']:
            if name not in streams.EXC:
                raise layout.Invalid(name)
            for k in range(min(n, 14)):
                todo.append({str(k): ['raise', name]})
                if k < 4:
                    todo.append({str(k): ['torn', 1, name], str(k + 1): ['raise', name]})
                todo += [{str(k): ['torn', m, name]} for m in a['torn']]
        for faults in todo:
            bad, _ = once(case, a, faults, r, kept)
            if bad:
                r.violate('fail', ops.within(bad, f"pack_write of value {a['o']} (class "
                          f"{case.objs[a['o']].ck}) with {faults}: %s"))
                return
        if a.get('other'):
            bad = ops.run(case, a['other'])
            if bad:
                r.violate('other', bad)
                return
    for data, was in kept:
        if bytes(data) != was:
            r.violate('kept', f'{short(was)} handed to a stream has since become '
                      f'{short(bytes(data))}')
            return
    r.count('chunks kept by the stream', len(kept))
    if sum(r.faults.values()):
        r.sig = [[layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])],
                 plan['writes']]


def once(case, a, faults, r, kept):
    i = a['o']
    enc = case.enc[i]
    real = case.real(i)
    attrs = [getattr(real, n) for n in type(real).attrs]
    serializer = real.serializer
    streams.valid(faults)
    log = streams.Log()
    pre = ops.PRE[:a.get('before', 0)]
    w = a.get('w', 'sink')
    r.count(f'pack_write to {w}')
    if w == 'sink':
        s = raw = streams.Sink(faults, log, ret=a.get('ret', 'n'))
        raw.got += pre

        def got():
            return bytes(raw.got)
    else:
        disk = streams.Disk(pre)
        s = raw = streams.SimFile(disk, len(pre), {'write': faults}, log)
        if w == 'writer':
            raw.buffered = True
            s = io.BufferedWriter(raw, 8)
            log.calls.clear()

        def got():
            return bytes(disk.data)
    error = None
    try:
        real.pack_write(s)
        if w == 'writer':
            s.flush()
    except BaseException as e:
        error = e
    n = raw.n if w == 'sink' else raw.count['write']
    raised = raw.raised
    r.merge(log.fired, 'faults')
    others = sorted(set(log.calls) - {'write'})
    if others:
        return f'other calls than write on the stream: {others}', n
    for x, y in zip(attrs, [getattr(real, k) for k in type(real).attrs]):
        if x is not y:
            return 'an attribute of the packed object was replaced', n
    if real.serializer is not serializer:
        return 'the serializer of the packed object was replaced', n
    bad = case.w.diff(real, case.objs[i])
    if bad:
        return f'the packed object was changed: {bad}', n
    out = got()
    if error is None:
        if raised:
            return f'{raised[-1]!r} raised by the stream did not come out', n
        if out != pre + enc:
            return f'{short(out)} written, not {short(pre + enc)}', n
    else:
        if not raised:
            return ops.raised('without a fault it', error), n
        if error is not raised[0]:
            return f'{raised[0]!r} raised by the stream came out as {error!r}', n
        if not (pre + enc).startswith(out) or len(out) < len(pre):
            return f'{short(out)} written, which is no prefix of {short(pre + enc)}', n
        if w == 'sink' and len(out) < len(pre) + len(enc) and log.fired and n <= 0:
            return 'nothing was tried', n
        # again, to the same stream and to another
        if w != 'writer':
            raw.faults = {}
            real.pack_write(raw)
            if got() != out + enc:
                return f'packing again wrote {short(got()[len(out):])}, not {short(enc)}', n
        s2 = streams.Sink()
        real.pack_write(s2)
        if bytes(s2.got) != enc:
            return f'packing to another stream wrote {short(bytes(s2.got))}, not {short(enc)}', n
        r.count('packed again after a failure')
    if w == 'sink':
        kept.extend(raw.chunks)
        for data, was in raw.chunks:
            if bytes(data) != was:
                return f'{short(was)} handed to the stream has become {short(bytes(data))}', n
        if error is None:
            # delivered in order, with no bytes twice
            if b''.join(was for _, was in raw.chunks) != enc:
                return 'the pieces written do not make up the encoding', n
    return None, n
