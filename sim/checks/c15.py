"""C15: unpacking damaged bytes."""

import io
import struct
import tracemalloc

from .. import layout, lib, ops, sched, streams
from ..layout import BITS, Invalid
from ..realize import Hooks, S

RUNS = {'quick': 2500, 'thorough': 250000}
RULE = ('A run damages stored bytes of generated records many times (bit flips, overwritten '
        'stretches, numbers in any width set to small, large and extreme values, cuts, repeated, '
        'removed and exchanged stretches), and unpacks each with any call from any kind of '
        'source, counting the events in the library and the peak of memory, compares with the '
        'other ways of unpacking the same bytes, and unpacks and packs '
        'sound data in between.  Distinct by layouts and damage; non-trivial if damage changed '
        'the bytes that were unpacked.')
STUBS = 'sources (simulated files and buffers), stored-byte faults'
ASSUMES = ['array items take at least one byte', 'work is counted in function starts, lines and '
           'jumps of the library; work inside C functions shows only as memory']
LISTS = ('damage', 'after')
WORK = (20_000, 800)            # events: fixed, and per byte
MEMORY = (3_000_000, 4_000)    # bytes: fixed, and per byte
COPIED = (30_000, {'r': 700, 'u': 60, 'f': 60})    # bytes: fixed, and per byte (a terminated
#                                                  string is read in chunks of 256)
CALLS = ('cu', 'cuf', 'cur', 'u', 'uf', 'ur')


WILD = (RecursionError, MemoryError, sched.Stuck)      # these depend on how it is called
LONG = (30_000, 20, 3_000_000, 30)     # the same, for a single long string


def gen(rng, i, tier):
    if rng.random() < 0.05:
        return gen_long(rng)
    many = rng.random() < 0.3
    plan, g = ops.gen_case(rng, (1, 3), big=0.01, classes=rng.choice([(1, 2), (1, 4)]),
                           fields=rng.choice([(1, 3), (1, 6)]), zero_items=False,
                           depth=2 if many else 3,
                           weights={'arr': 12, 'char': 4, 'pascal': 3} if many else None)
    L = layout.Layout(plan['classes'])
    if many:
        add_array(rng, plan, g)
        for o in plan['objs']:
            lengthen(rng, L, o)
    lens = [len(L.encode(layout.j2v(o))) for o in plan['objs']]
    plan['damage'] = []
    for _ in range(rng.choice([4, 8, 16])):
        o = rng.randrange(len(lens))
        a = {'o': o, 'how': rng.choice(CALLS), 'faults': [
            gen_fault(rng, lens[o]) for _ in range(rng.choice([1, 1, 1, 2, 3]))]}
        if rng.random() < 0.3:
            a['tail'] = rng.choice([1, 8, 100, 3000])
        if a['how'][-1] in 'fr' and rng.random() < 0.5:
            a['off'] = rng.randint(1, 7)
        if a['how'][-1] == 'r':
            a['h'] = rng.choice(streams.Handle.KINDS)
        else:
            a['buf'] = rng.choice(streams.READ_KINDS + ('counted',) * 5)
        plan['damage'].append(a)
    plan['after'] = [ops.gen_op(rng, plan) for _ in range(rng.choice([1, 2]))]
    return plan


def gen_long(rng):
    """A single string of up to some 100 kB."""
    k = rng.choice(['term', 'term', 'dyn', 'net', 'rest', 'uni'])
    of = {'term': {'k': 'term', 'b': rng.choice(['00', '0a'])}, 'net': {'k': 'net'},
          'dyn': {'k': 'dyn', 't': 'uint32'}, 'rest': {'k': 'rest'}}
    ty = of.get(k) or {'k': 'uni', 'of': rng.choice([of['term'], of['dyn'], of['rest']]),
                       'enc': 'utf8'}
    unit = rng.choice([b'x', b'ab', b'abc'])
    n = 0x7FFF if k == 'net' else rng.choice([50_000, 100_000, 200_000])
    v = unit * (n // len(unit))
    fields = [['f1', ty]]
    if rng.random() < 0.5:
        fields.insert(0, ['f0', {'k': 'int', 't': 'uint8'}])
    value = {'f0': 1, 'f1': layout.v2j(v.decode() if k == 'uni' else v)}
    plan = {'classes': [{'bo': rng.choice(layout.ORDERS), 'base': None, 'fields': fields,
                         'form': 'plain'}],
            'objs': [{'o': 0, 'v': {n: value[n] for n, _ in fields}}], 'long': 1, 'damage': [],
            'after': []}
    for _ in range(2):
        how = rng.choice(CALLS + ('cur', 'ur'))
        a = {'o': 0, 'how': how, 'faults': [rng.choice([
            ['cut', rng.randrange(n)], ['flip', rng.randrange(n), rng.randrange(8)],
            ['set', rng.randint(0, 4), 'ffff'], ['set', 0, '']])]}
        if how[-1] == 'r':
            a['h'] = 'raw'
        else:
            a['buf'] = 'counted'
        plan['damage'].append(a)
    return plan


def add_array(rng, plan, g):
    """A class with an array and a value of it that is to be made long."""
    ci = ops.array_class(rng, g)
    for _ in range(3):
        try:
            o = g.obj(ci)
        except layout.Retry:
            continue
        if o.v['items']:
            plan['objs'].append(layout.v2j(o))
            return


def lengthen(rng, L, o):
    """Repeats the items of an array of the value many times."""
    obj = layout.j2v(o)
    c = L.cls(obj.ck)
    names = [n for n, t in c.fields if t['k'] == 'arr' and obj.v[n]
             and not isinstance(t['count'], int) and t['count'] != 'uint8']
    if not names:
        return
    n = rng.choice(names)
    items = obj.v[n]
    obj.v[n] = (items * 1000)[:rng.randint(300, 1000)]
    try:
        L.check(obj)
        if len(L.encode(obj)) < 20_000:
            o.clear()
            o.update(layout.v2j(obj))
    except Invalid:
        pass


def gen_fault(rng, n):
    pos = rng.choice([rng.randint(0, 8), rng.randrange(n + 1)])
    x = rng.random()
    if x < 0.50:
        w = rng.choice([1, 2, 4, 8])
        top = 1 << (8 * w)
        v = rng.choice([top - 1, top // 2, top // 2 - 1, 0, 1, 2, n, n + 1, rng.randrange(top),
                        top // 256 or 1, top // 16 - 1, 10**6, 1 << 24, 1 << 31, 1 << 40]) % top
        return ['set', pos, v.to_bytes(w, rng.choice(['big', 'little'])).hex()]
    if x < 0.62:
        return ['flip', pos, rng.randrange(8)]
    if x < 0.70:
        return ['set', pos, rng.randbytes(rng.randint(1, 12)).hex()]
    if x < 0.78:
        return ['cut', pos]
    a, b = sorted([pos, rng.randrange(n + 1)])
    if x < 0.86:
        return ['del', a, b]
    if x < 0.94:
        return ['dup', a, b, rng.choice([1, 1, 2, 10])]
    return ['swap', a, b, rng.randint(1, 6)]


def apply(data, f):
    d = bytearray(data)
    if f[0] == 'set':
        new = bytes.fromhex(f[2])
        if len(new) > 64:
            raise Invalid('fault')
        d[f[1]:f[1] + len(new)] = new
    elif f[0] == 'flip':
        if f[1] < len(d):
            d[f[1]] ^= 1 << (f[2] & 7)
    elif f[0] == 'cut':
        del d[f[1]:]
    elif f[0] == 'del':
        del d[f[1]:f[2]]
    elif f[0] == 'dup':
        d[f[1]:f[1]] = d[f[1]:f[2]] * min(f[3], 10)
    elif f[0] == 'swap':
        a, b, n = f[1], f[2], f[3]
        if b >= a + n:
            d[a:a + n], d[b:b + n] = d[b:b + n], d[a:a + n]
    else:
        raise Invalid('fault')
    return bytes(d)


def sample(plan):
    return {'classes': [layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])],
            'damage': plan['damage'][:4]}


def execute(plan, r):
    case = ops.Case(plan, Hooks())
    case.counts = r.counts
    case.prime()
    lib.meter_regex(streams.Counted.more)
    L = case.w.L
    for i in range(len(plan['classes'])):
        ops.zero_items(L, i, plan['classes'])
    tracemalloc.start()
    for a in plan['damage']:
        bad = damaged(case, a, r, LONG if plan.get('long') else None)
        if bad:
            r.violate('contained' if 'sound' in bad else 'agree' if 'of the same' in bad
                      else 'bounded', bad)
            break
        for op in plan['after']:
            bad = ops.run(case, op)
            if bad:
                r.violate('after', ops.within(bad, f'after unpacking damaged data {a}: %s'))
                return
    tracemalloc.stop()
    if r.faults:
        r.sig = [[layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])],
                 plan['damage']]


def damaged(case, a, r, long):
    i = a['o']
    data = sound = case.enc[i]
    if len(sound) > (60_000 if long is None else 250_000):
        return None
    for f in a['faults']:
        data = apply(data, f)
    if data != sound:
        r.fault('+'.join(sorted(f[0] for f in a['faults'])))
    data += bytes((j * 7 + 3) & 255 for j in range(min(a.get('tail', 0), 4000)))
    off = a.get('off', 0)
    whole = ops.PRE[:off] + data
    how = a['how']
    cls = case.cls(i)
    obj = None if how[0] == 'c' else case.real(i, fresh=True)
    if how[-1] == 'r':
        disk = streams.Disk(whole)
        src = streams.Handle(a.get('h', 'raw'), disk, off).f
        if isinstance(src, streams.SimFile):
            src.counted = True
    else:
        buf = streams.Buffer(a.get('buf', 'bytes'), whole if how[-1] == 'f' else data)
        src = buf.obj
    work = WORK[0] + WORK[1] * len(data)
    error = value = None
    if how == 'cu':
        def go(): return cls.create_unpack(src)
    elif how == 'cuf':
        def go(): return cls.create_unpack_from(src, off)
    elif how == 'cur':
        def go(): return cls.create_unpack_read(src)
    elif how == 'u':
        def go(): return obj.unpack(src)
    elif how == 'uf':
        def go(): return obj.unpack_from(src, off)
    else:
        def go(): return obj.unpack_read(src)
    with sched.Budget() as budget:
        tracemalloc.reset_peak()
        start = tracemalloc.get_traced_memory()[0]
        streams.Counted.total = 0
        budget.begin(work)
        try:
            value = go()
        except Invalid:
            raise
        except BaseException as e:
            error = e
        n = budget.end()
        copied = streams.Counted.total
        peak = tracemalloc.get_traced_memory()[1] - start
    r.events += n
    r.count('damaged ' + how)
    where = f"{how} of damaged {ops.what(case, a)} ({len(data)} bytes)"
    if isinstance(error, sched.Stuck):
        return f'{where}: more than {work} events in the library (at {error})'
    if isinstance(error, MemoryError):
        return f'{where}: MemoryError'
    if error is not None and not isinstance(error, Exception):
        return f'{where} raised {ops.exc(error)}'
    copy, copy_per, mem, mem_per = long or (COPIED[0], COPIED[1][how[-1]]) + MEMORY
    if peak > mem + mem_per * len(data):
        return f'{where}: {peak} bytes of memory'
    if copied > copy + copy_per * len(data):
        return f'{where}: {copied} bytes copied or looked through'
    r.peak_n = max(getattr(r, 'peak_n', 0), n / (10 + len(data)))
    r.peak_c = max(getattr(r, 'peak_c', 0), copied / (100 + len(data)))
    r.peak_m = max(getattr(r, 'peak_m', 0), peak / (10 + len(data)))
    if error is None:
        r.probe('damaged data accepted')
    else:
        r.probe(f'{type(error).__name__}')
    if how[-1] == 'r':
        if bytes(disk.data) != whole:
            return f'{where}: the source was changed (sound: {whole.hex()[:60]})'
    else:
        if buf.bytes() != (whole if how[-1] == 'f' else data):
            return f'{where}: the source was changed'
    if not long and len(data) < 5000 and n < 60_000:
        given = value if how[0] == 'c' else obj
        return agree(case, a, data, off, how, error, given, where, r)
    del value, error
    return None


def agree(case, a, data, off, how, error, given, where, r):
    """The other ways of unpacking the same bytes come to the same end."""
    if isinstance(error, WILD):
        return None
    cls = case.cls(a['o'])
    size = cls.serializer.size if error is None else None
    first = 'an exception' if error is not None else (dump(given), size)
    for other in ('cu', 'cuf', 'cur'):
        if how in (other, other[1:]):
            continue
        pos = None
        with sched.Budget() as budget:
            budget.begin(WORK[0] + WORK[1] * len(data))
            try:
                if other == 'cu':
                    value = cls.create_unpack(data)
                elif other == 'cuf':
                    value = cls.create_unpack_from(ops.PRE[:off] + data, off)
                else:
                    src = io.BytesIO(ops.PRE[:off] + data)
                    src.seek(off)
                    value = cls.create_unpack_read(src)
                    pos = src.tell() - off
                end = None
            except WILD as e:
                if isinstance(e, sched.Stuck):
                    return f'{where}, {other}: more than {budget.limit} events in the library'
                continue
            except Invalid:
                raise
            except Exception as e:
                end = 'an exception'
            finally:
                budget.end()
        if end is None:
            end = (dump(value), cls.serializer.size)
            if pos is not None and pos != end[1]:
                return f'{where}, {other}: {end[1]} bytes used, but position after {pos}'
        if end != first:
            return (f'{where} gave {short(first)}, but {other} of the same bytes '
                    f'gave {short(end)}')
    r.count('agreed')
    return None


def short(x):
    x = str(x)
    return x if len(x) < 200 else x[:150] + '...'


def dump(v):
    """All of a value, as something that can be compared."""
    if isinstance(v, S.Structured):
        return type(v).__name__, tuple((n, dump(getattr(v, n))) for n in type(v).attrs)
    if isinstance(v, (list, tuple)):
        return type(v).__name__, tuple(dump(x) for x in v)
    if type(v) is float:
        return 'float', struct.pack('>d', v)
    if type(v) is streams.Counted:
        return 'bytes', bytes(v)
    if type(v) in (int, bool, bytes, bytearray, str):
        return type(v).__name__, v
    if hasattr(v, 'value'):
        return type(v).__name__, dump(v.value)
    return type(v).__name__, repr(v)
