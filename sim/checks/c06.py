"""C06: packing into regions of a buffer."""

import threading

from .. import layout, ops, sched, streams, threads
from ..layout import Invalid
from ..ops import Case, short
from ..realize import Hooks

RUNS = {'quick': 9000, 'thorough': 200000}
RULE = ('A run packs generated values into arenas of every kind of buffer at chosen offsets: with '
        'room, with too little of it, with values that cannot be packed, with callbacks that '
        'raise at a chosen call, and by several threads into disjoint regions under a seeded '
        'schedule.  Distinct by layouts and operations; non-trivial if an operation failed inside '
        'an arena or threads shared one.')
STUBS = 'buffers are real; threads run under the simulated scheduler'
ASSUMES = ['offsets are not negative', 'a value that cannot be packed replaces one that can: the '
           'region of a failed operation is that of the value that was replaced, or anything from '
           'the offset on if the bad value is longer']
LISTS = ('into', 'tasks')


class Boom(Exception):
    pass


class Raiser(Hooks, threading.local):
    """Raises in the n-th callback, and packs something else in the m-th (each
    thread for itself)."""

    n = 0
    at = exc = nest = None

    def arm(self, at, exc=None, nest=None):
        self.n, self.at, self.exc, self.nest = 0, at, exc, nest

    def call(self, kind, *args):
        sched.point(kind)
        self.n += 1
        nest = self.nest
        if nest is not None and self.n == nest[0]:
            state = self.n, self.at, self.exc
            self.arm(None)
            try:
                nest[1]()
            finally:
                self.arm(state[1], state[2])
                self.n = state[0]
        if self.n == self.at:
            raise self.exc


def gen(rng, i, tier):
    some = rng.random() < 0.3
    plan, g = ops.gen_case(rng, (2, 5), big=rng.choice([0.03, 0.03, 0.2]))
    n = len(plan['objs'])
    plan['into'] = []
    for _ in range(rng.randint(2, 10)):
        a = {'o': rng.randrange(n), 'buf': rng.choice(streams.WRITE_KINDS),
             'off': rng.choice([0, 0, 1, 2, 3, 7, 20]), 'slack': rng.choice([0, 1, 5, 9])}
        x = rng.random()
        if x < 0.3:
            a['cut'] = rng.choice([1, 1, 2, 3, rng.randint(1, 60), 1000])
        elif x < 0.7:
            a['bad'] = [rng.randint(0, 40), rng.choice(BADS)]
            fixed = fixed_arrays(g.L, layout.j2v(plan['objs'][a['o']]).ck)
            if fixed and rng.random() < 0.5:
                a['bad'] = [rng.choice(fixed), rng.choice(['twice', 'items', 'fewer'])]
        elif x < 0.9:
            a['raise'] = rng.randint(1, 8)
        if rng.random() < 0.35:
            # another value packed into the same buffer by a callback
            a['nest'] = {'n': rng.choice([1, 1, 2, 3, rng.randint(1, 8)]),
                         'o': rng.randrange(n), 'gap': rng.choice([0, 0, 1, 4]),
                         'before': rng.random() < 0.5}
        if rng.random() < 0.1 and 'cut' not in a:
            a['bo'] = rng.choice(layout.ORDERS)
        plan['into'].append(a)
    plan['tasks'] = []
    if some:
        for _ in range(rng.randint(2, 4)):
            plan['tasks'].append([])
            for _ in range(rng.randint(1, 4)):
                a = {'o': rng.randrange(n), 'gap': rng.choice([0, 0, 1, 3])}
                x = rng.random()
                if x < 0.2:
                    a['bad'] = [rng.randint(0, 40), rng.choice(SMALL_BADS)]
                elif x < 0.4:
                    a['raise'] = rng.randint(1, 8)
                if x < 0.4:
                    a['again'] = rng.random() < 0.5
                plan['tasks'][-1].append(a)
        plan['arena'] = rng.choice(streams.WRITE_KINDS)
        plan['gran'] = rng.choice(['line', 'line', 'breaker'])
        threads.schedule(rng, plan)
    return plan


def fixed_arrays(L, ck):
    return [n for n, t in L.cls(ck).fields if t['k'] == 'arr' and isinstance(t['count'], int)
            and t['count']]


def sample(plan):
    return {'classes': [layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])],
            'into': plan['into'][:3], 'tasks': plan['tasks']}


BADS = ('object', 'none', 'long', 'huge', 'negative', 'str', 'float', 'list', 'items', 'twice',
        'fewer',
        'attr')
SMALL_BADS = ('object', 'none', 'fewer', 'attr')    # pack into no more than the sound value


class Evil:
    def __repr__(self):
        return 'Evil'

    def __eq__(self, other):
        return False

    __hash__ = None


def spoil(value, how):
    """A value that should not be packable in place of the given one."""
    if how == 'object':
        return Evil()
    if how == 'none':
        return None
    if how == 'long':
        if isinstance(value, (bytes, str)):
            return value + (b'x' * 70000 if isinstance(value, bytes) else 'x' * 70000)
        return Evil()
    if how == 'huge':
        return 1 << 200 if not isinstance(value, (bytes, str)) else 17
    if how == 'negative':
        return -(1 << 70)
    if how == 'str':
        return 'text' if not isinstance(value, str) else b'text'
    if how == 'float':
        return 0.5 if not isinstance(value, float) else 'text'
    if isinstance(value, tuple) and value and how in ('list', 'items', 'twice'):
        # Not more values than there should be: which serializers mind is up to them
        return type(value)(list(value[:-1]) + [Evil()])
    if how == 'list':
        return [1, 2, 3, None]
    if how == 'items' and isinstance(value, (list, tuple)):
        return type(value)(list(value) + [Evil()])
    if how == 'twice' and isinstance(value, (list, tuple, bytes, str)):
        return value * 2
    if how == 'fewer' and isinstance(value, (list, tuple)):
        return value[:-1]
    return Evil()


def places(real, seen=None):
    """All places in an object where a value can be replaced: (get, set)."""
    out = []
    for n in type(real).attrs:
        out.append((real, n))
    for n in type(real).attrs:
        deeper(getattr(real, n), out, lambda v, real=real, n=n: setattr(real, n, v))
    return out


def deeper(v, out, put):
    if isinstance(v, list):
        for k in range(len(v)):
            out.append((v, k))
        for k, x in enumerate(list(v)):
            deeper(x, out, lambda y, v=v, k=k: v.__setitem__(k, y))
    elif isinstance(v, tuple):
        w = list(v)
        for k, x in enumerate(w):
            out.append((TupleCell(v, k, put), 0))
            deeper(x, out, lambda y, v=v, k=k, put=put: put(v[:k] + (y,) + v[k + 1:]))
    elif hasattr(type(v), 'attrs') and hasattr(type(v), 'serializer'):
        out.extend(places(v))


class TupleCell:
    def __init__(self, v, k, put):
        self.v, self.k, self.put = v, k, put

    def __getitem__(self, i):
        return self.v[self.k]

    def __setitem__(self, i, x):
        self.put(self.v[:self.k] + (x,) + self.v[self.k + 1:])


def execute(plan, r):
    hooks = Raiser()
    case = Case(plan, hooks)
    case.counts = r.counts
    for n, a in enumerate(plan['into']):
        bad = into(case, a, r, hooks)
        if bad:
            r.violate('into', ops.within(bad, f'pack_into {n} of value {a["o"]} ({a}): %s'))
            return
    if plan.get('tasks'):
        bad = together(case, plan, r, hooks)
        if bad:
            r.violate('threads', bad)
            return
    if r.faults or plan['tasks']:
        r.sig = [[layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])],
                 plan['into'], plan['tasks']]


def fill(n):
    return bytes((j * 37 + 11) & 255 for j in range(n))


def into(case, a, r, hooks):
    i = a['o']
    hooks.arm(None)
    enc = case.enc[i]
    real = case.real(i, fresh=True)
    off = a.get('off', 0)
    if a.get('bo') is not None:
        from ..realize import ORDER
        try:
            enc = case.w.L.encode_as(case.objs[i], a['bo'])
        except Invalid:
            return None
        real = real.with_byte_order(ORDER[a['bo']])
    size = off + len(enc) + a.get('slack', 0)
    fits = True
    if a.get('cut') and enc:
        size = max(0, off + len(enc) - a['cut'])
        fits = False
    want_fail = not fits
    spoiled = bool(a.get('bad'))
    if spoiled:
        spoil_in(real, a['bad'])
    # Another value in the same buffer, next to this one
    nest = a.get('nest')
    inner = None
    if nest is not None:
        j = nest['o']
        there = case.real(j, fresh=True)
        gap, m = nest.get('gap', 0), len(case.enc[j])
        if nest.get('before'):
            inner = off
            off += m + gap
            size = max(size + m + gap, inner + m)
        elif fits:
            inner = off + len(enc) + gap
            size = max(size, inner + m)
    before = fill(size)
    b = streams.Buffer(a.get('buf', 'bytearray'), before)
    around = b.around()
    boom = Boom('raised by a callback')
    packed = []

    def pack_there():
        there.pack_into(b.obj, inner)
        packed.append(b.bytes()[inner:inner + m])
    hooks.arm(a.get('raise'), boom, None if inner is None else (nest['n'], pack_there))
    error = None
    try:
        real.pack_into(b.obj, off)
    except Exception as e:
        error = e
    fired = hooks.at is not None and hooks.n >= hooks.at
    hooks.arm(None)
    r.count('pack_into')
    after = b.bytes()
    if len(after) != len(before):
        return f'the buffer has {len(after)} bytes, not {len(before)}'
    if b.around() != around:
        return 'bytes of the underlying buffer outside of the view were changed'
    if packed:
        r.count('packed into the same buffer by a callback')
        if packed[0] != case.enc[j]:
            return f'nested: {short(packed[0])} in the buffer, not {short(case.enc[j])}'
        before = before[:inner] + packed[0] + before[inner + m:]
    if error is None:
        if want_fail and not spoiled:
            return f'the record does not fit ({size} bytes), but packing it raised nothing'
        if fired:
            return 'the exception raised by a callback did not come out'
        if spoiled:
            try:
                enc = real.pack()
            except Exception as e:
                return ops.within(ops.raised('pack', e), 'pack_into raised nothing, but %s')
            r.count('bad value that can be packed')
            if off + len(enc) > size:
                return 'packed more than fits'
            if packed and inner > off and off + len(enc) > inner:
                return None     # (which of them was first is not known)
        want = before[:off] + enc + before[off + len(enc):]
        if after != want:
            return f'{short(after)} in the buffer, not {short(want)}'
        return None
    if fired and error is not boom:
        return f'{boom!r} raised by a callback came out as {error!r}'
    if not (want_fail or spoiled or fired):
        return ops.raised('it', error)
    r.fault('buffer too small' if want_fail else 'value that cannot be packed' if spoiled
            else 'callback raises')
    end = min(off + len(enc), size)
    wrong_length = spoiled and a['bad'][0] in fixed_arrays(case.w.L, case.objs[i].ck)
    if spoiled and not wrong_length and a['bad'][1] not in ('object', 'none', 'attr', 'fewer'):
        end = size      # the bad value may be longer, or select something longer
    if after[:off] != before[:off] or after[end:] != before[end:]:
        d = next(j for j in range(size) if after[j] != before[j] and not off <= j < end)
        return f'byte {d} outside of {off}..{end} was changed by the failed operation ({error!r})'
    # The same again, as it should be
    if not spoiled and not want_fail:
        real.pack_into(b.obj, off)
        want = before[:off] + enc + before[off + len(enc):]
        if b.bytes() != want:
            return f'again: {short(b.bytes())} in the buffer, not {short(want)}'
    return None


def spoil_in(real, bad):
    if isinstance(bad[0], str):
        box, key = real, bad[0]
        if key not in type(real).attrs:
            raise Invalid('attribute')
    else:
        cells = places(real)
        box, key = cells[bad[0] % len(cells)]
    if isinstance(key, str):
        if bad[1] == 'attr':
            delattr(real if box is real else box, key)
        else:
            setattr(box, key, spoil(getattr(box, key), bad[1]))
    else:
        box[key] = spoil(box[key], bad[1])


def together(case, plan, r, hooks):
    """Threads packing into regions of one arena."""
    off = 5
    jobs = []
    for t in plan['tasks']:
        mine = []
        for a in t:
            off += a.get('gap', 0)
            real = case.real(a['o'], fresh=True)
            bad = a.get('bad')
            if bad:
                if bad[1] not in SMALL_BADS:
                    raise Invalid('bad value')
                spoil_in(real, bad)
            mine.append((a, real, off))
            off += len(case.enc[a['o']])
        jobs.append(mine)
    before = fill(off + 7)
    b = streams.Buffer(plan['arena'], before)
    want = bytearray(before)
    loose = set()       # bytes of failed operations
    for mine in jobs:
        for a, real, at in mine:
            enc = case.enc[a['o']]
            want[at:at + len(enc)] = enc
    sim = sched.Sim(plan['schedule'], plan['gran'])

    def job(mine):
        def go():
            for a, real, at in mine:
                boom = Boom('raised by a callback')
                hooks.arm(a.get('raise'), boom)
                try:
                    real.pack_into(b.obj, at)
                except Exception as e:
                    if e is not boom and not a.get('bad'):
                        raise
                else:
                    if hooks.at is not None and hooks.n >= hooks.at:
                        raise AssertionError('the exception of a callback did not come out')
                    if not a.get('bad'):
                        continue
                r.fault('value that cannot be packed' if a.get('bad') else 'callback raises')
                hooks.arm(None)
                if a.get('again'):
                    case.real(a['o'], fresh=True).pack_into(b.obj, at)
                else:
                    loose.update(range(at, at + len(case.enc[a['o']])))
        return go
    for mine in jobs:
        sim.spawn(job(mine))
    sim.run()
    r.events += sim.k
    r.schedule, r.places = sim.switches, sim.places
    r.inter = [p.split(': ', 1)[1] for p in sim.places]
    r.fault('preemption', len(sim.places))
    r.count('threads packing into one buffer', len(jobs))
    for t in sim.tasks:
        if t.error is not None:
            return ops.raised(f'thread {t.tid}', t.error)
    got = b.bytes()
    if len(got) != len(want):
        return f'the buffer has {len(got)} bytes, not {len(want)}'
    for d in range(len(want)):
        if got[d] != want[d] and d not in loose:
            return f'byte {d} of the arena is wrong after all threads have packed'
    return None
