"""C12: the size reported after an operation."""

import io
import types
import typing

from .. import layout, nesting, ops, streams, threads
from ..layout import Invalid
from ..realize import S, Structured

RUNS = {'quick': 12000, 'thorough': 250000}
RULE = ('A run reads the size of the serializer right after each of a history of operations '
        '(packing, unpacking, derived byte orders, failing ones), with others nested in them, or '
        'in 2 to 4 threads under the seeded scheduler.  Distinct by layouts and operations; '
        'non-trivial if another operation was nested, failed, or preempted the one measured.  Some runs wrap all members of a class in conditions on '
        'something outside of the object, so that it has any part of them, or none, at times.')
STUBS = 'callbacks, streams, thread scheduling (simulated)'
ASSUMES = ['the serializer used is the one of the class, or of the object where it was derived']
LISTS = ('ops', 'tasks', 'masks')
KINDS = ops.PACK + ops.UNPACK + ops.UNPACK + ('bo', 'mix', 'bad_pack', 'odd', 'bad_unpack', 'junk')


class SizeCase(nesting.NestCase):
    pass


def gen(rng, i, tier):
    plan, g = ops.gen_case(rng, (2, 5), big=0.02, classes=rng.choice([(1, 2), (1, 4)]),
                           fields=rng.choice([(1, 2), (1, 5)]))
    x = rng.random()
    plan['ops'] = []
    plan['tasks'] = []
    plan['masks'] = []
    if x < 0.12:
        plan['masks'] = gen_masks(rng, plan)
    elif x < 0.6:
        for _ in range(rng.randint(2, 10)):
            todo = nesting.gen_nested(rng, plan, KINDS) if rng.random() < 0.6 else {}
            plan['ops'].append([ops.gen_op(rng, plan, KINDS), todo])
    else:
        plan['tasks'] = [[ops.gen_op(rng, plan, KINDS) for _ in range(rng.randint(1, 5))]
                         for _ in range(rng.choice([2, 2, 3, 4]))]
        threads.gen_schedule(rng, plan)
    return plan


def gen_masks(rng, plan):
    out = []
    for _ in range(rng.randint(2, 12)):
        mask = rng.choice([0, 0, -1, rng.getrandbits(8), 1 << rng.randrange(4)])
        out.append([rng.randrange(len(plan['objs'])), mask,
                    rng.choice(['pack', 'pack_into', 'pack_write', 'cu', 'cuf', 'cur', 'u',
                                'ur', 'fail'])])
    return out


SWITCHABLE = ('int', 'float', 'bool', 'char', 'pascal', 'dyn', 'net', 'term', 'uni', 'tup', 'arr',
              'st', 'gen')


class Switched:
    """A class with the members of another, each there or not by a mask."""

    def __init__(self, case, ck):
        w, c = case.w, case.w.L.cls(ck)
        self.w, self.c = w, c
        self.mask = 0
        self.default = object()
        self.fields = [(n, t) for n, t in c.fields if t['k'] in SWITCHABLE
                       and not w.L.find(t, lambda u: u['k'] in ('self', 'lb', 'cond', 'la'))]
        if not self.fields:
            raise Invalid('nothing to switch')
        hints = {n: typing.Annotated[w.hint(t, None), S.Condition(
            lambda o, j=j: bool(self.mask >> j & 1), self.default)]
            for j, (n, t) in enumerate(self.fields)}
        order = next(o for o in S.ByteOrder if o.value == c.bo)
        self.cls = types.new_class('Switched', (Structured,), {'byte_order': order}, lambda ns: (
            ns.__setitem__('__module__', __name__), ns['__annotations__'].update(hints)))

    def there(self):
        return [f for j, f in enumerate(self.fields) if self.mask >> j & 1]

    def run(self, obj, kind):
        w = self.w
        enc = b''.join(w.L.enc(t, obj.v[n], self.c.bo, obj) for n, t in self.there())
        real = self.cls(*(w.value(obj.v[n], t, obj) for n, t in self.fields))
        ser = self.cls.serializer
        n = len(enc)
        got = enc
        tail = b'' if any(w.L.final(t) for _, t in self.fields) else b'tail'
        if kind == 'pack':
            got = real.pack()
        elif kind == 'pack_into':
            got = bytearray(n + 3)
            real.pack_into(got, 2)
            got = bytes(got[2:2 + n])
        elif kind == 'pack_write':
            s = streams.Sink()
            real.pack_write(s)
            got = bytes(s.got)
        elif kind == 'fail':
            try:
                real.pack_into(bytearray(n), 1)
            except Exception:
                pass
            return None
        elif kind == 'cu':
            real = self.cls.create_unpack(enc)
        elif kind == 'cuf':
            real = self.cls.create_unpack_from(b'ab' + enc + tail, 2)
        elif kind == 'cur':
            real = self.cls.create_unpack_read(io.BytesIO(enc + tail))
        elif kind == 'u':
            real.unpack(enc)
        elif kind == 'ur':
            real.unpack_read(io.BytesIO(enc + tail))
        else:
            raise Invalid(kind)
        size = ser.size
        if got != enc:
            return f'{kind} gave {got!r}, not {enc!r}'
        if size != n:
            return f'{kind}: size is {size!r}, not {n}'
        there = {n for n, _ in self.there()}
        for n, t in self.fields:
            bad = None
            if n in there:
                bad = w.vdiff(getattr(real, n), obj.v[n], t, obj, n)
            elif kind in ('cu', 'cuf', 'cur', 'u', 'ur'):
                bad = getattr(real, n) is not self.default and f'{n} is not the default'
            if bad:
                return f'{kind}: {bad}'
        return None


def switched(case, plan, r):
    made = {}
    for item in plan['masks']:
        if len(item) != 3:
            raise Invalid('mask')
        i, mask, kind = item
        obj = case.objs[i]
        key = layout.ckey(obj.ck)
        if key not in made:
            try:
                made[key] = Switched(case, obj.ck)
            except Invalid:
                made[key] = None
        s = made[key]
        if s is None:
            continue
        s.mask = mask
        r.count('operation on switched members')
        if not s.there():
            r.probe('operation on no bytes')
        try:
            bad = s.run(obj, kind)
        except Invalid:
            raise
        except Exception as e:
            bad = ops.raised(f'{kind} of switched members', e)
        if bad:
            return ops.within(bad, f'members of value {i} there by {mask:b}: %s')
    return None


def sample(plan):
    return {'classes': [layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])],
            'ops': plan['ops'][:2], 'tasks': plan['tasks']}


def execute(plan, r):
    nest = nesting.Nest()
    case = SizeCase(plan, nest)
    case.counts = r.counts
    case.prime()
    case.sizes = True
    for item in plan['ops']:
        if len(item) != 2:
            raise Invalid('operation')
        bad = nesting.run(case, *item)
        if bad:
            r.violate('size', bad)
            break
    for k, n in nest.ran.items():
        r.fault(f'operation nested by {k}', n)
    if r.violation is None and plan.get('masks'):
        bad = switched(case, plan, r)
        if bad:
            r.violate('size', bad)
    if r.violation is None and plan.get('tasks'):
        bad = threads.run(case, plan, r)
        if bad:
            r.violate('size', bad)
    if nest.ran or r.places or r.probes or r.counts.get('failed pack') or r.counts.get('failed unpack'):
        r.sig = [[layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])],
                 plan['ops'], plan['tasks'], plan['masks']]
