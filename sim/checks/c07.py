"""C07: what becomes of the source after (and before) unpacking."""

import gc
import sys

from .. import layout, ops, streams
from ..layout import Invalid
from ..ops import Case

RUNS = {'quick': 9000, 'thorough': 250000}
RULE = ('A run unpacks generated values from pools of buffers of every kind and from simulated '
        'files, and then overwrites, reuses, resizes, releases, truncates or closes the source '
        'before looking at the values, for many unpacked objects at a time.  Distinct by layouts, '
        'buffers and histories; non-trivial if a source was overwritten while values unpacked '
        'from it were alive.')
STUBS = 'files (simulated); buffers are real (bytes, bytearray, memoryview, array, mmap, ctypes)'
ASSUMES = ['strings and bytes of an immutable source may be shared with it']
LISTS = ('steps',)


def gen(rng, i, tier):
    plan, g = ops.gen_case(rng, (2, 5), big=rng.choice([0.03, 0.03, 0.2]), huge=0.05)
    n = len(plan['objs'])
    bounded = no_zero_items(plan, g.L)
    same = ops.same_class(plan)
    plan['steps'] = []
    for _ in range(rng.randint(4, 16)):
        x = rng.random()
        o = rng.randrange(n)
        if x < 0.6:
            a = {'o': o, 'how': rng.choice(['cu', 'cuf', 'u', 'uf']),
                 'from': rng.choice(same[layout.ckey(plan['objs'][o]['o'])]),
                 'buf': rng.choice(streams.READ_KINDS), 'off': rng.choice([0, 1, 3, 4]),
                 'tail': rng.choice([0, 0, 1, 8]), 'now': rng.random() < 0.6,
                 'pool': rng.random() < 0.3}
            if rng.random() < 0.15:
                a['cut'] = rng.randint(0, 30)
            elif bounded and rng.random() < 0.15:
                a['hit'] = [rng.randint(0, 20), rng.choice([0xff, 0xfe, 0x80, rng.randrange(256)])]
            plan['steps'].append(['buffer', a])
        elif x < 0.85:
            plan['steps'].append(['file', {
                'o': o, 'how': rng.choice(['cur', 'ur']), 'h': rng.choice(streams.Handle.KINDS),
                'from': rng.choice(same[layout.ckey(plan['objs'][o]['o'])]),
                'off': rng.choice([0, 1, 3]), 'tail': rng.choice([0, 0, 1, 8]),
                'then': rng.choice(['overwrite', 'truncate', 'close', 'rewind'])}])
        else:
            plan['steps'].append(['look', {}])
    return plan


def no_zero_items(plan, L):
    try:
        for i in range(len(plan['classes'])):
            ops.zero_items(L, i, plan['classes'])
    except Invalid:
        return False
    return True


def sample(plan):
    return {'classes': [layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])],
            'steps': plan['steps'][:6]}


def execute(plan, r):
    case = Case(plan)
    case.counts = r.counts
    if any(a.get('hit') for _, a in plan['steps']) and not no_zero_items(plan, case.w.L):
        raise Invalid('items of no bytes')
    alive = []      # (object, value index, what was done to its source)
    later = []      # buffers still to be disturbed
    pool = bytearray(4096)
    for n, (kind, a) in enumerate(plan['steps']):
        r.count(f'step {kind}')
        try:
            if kind == 'buffer':
                bad = from_buffer(case, a, r, alive, later, pool)
            elif kind == 'file':
                bad = from_file(case, a, r, alive)
            else:
                bad = disturb(later, r) or look(case, alive)
        except Invalid:
            raise
        except Exception as e:
            bad = ops.raised('it', e)
        if bad:
            r.violate(kind, ops.within(bad, f'step {n} ({kind} {a}): %s'))
            return
    bad = disturb(later, r) or look(case, alive)
    if bad:
        r.violate('look', bad)
        return
    if r.faults:
        r.sig = [[layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])],
                 plan['steps']]


def look(case, alive):
    for obj, i, what in alive:
        bad = case.w.diff(obj, case.objs[i])
        if bad:
            return f'value {i} unpacked from a source that has since been {what}: {bad}'
        if obj.pack() != case.enc[i]:
            return f'value {i} unpacked from a source that has since been {what} packs differently'
    return None


def disturb(later, r):
    for b, how in later:
        try:
            for d in b.scribble():
                r.fault(f'source {d}')
        except BufferError as e:
            return f'{how} from a {b.kind} kept a reference to it: {e}'
    later.clear()
    return None


def from_buffer(case, a, r, alive, later, pool):
    i = a['o']
    how = a['how']
    off = a.get('off', 0) if how[-1] == 'f' else 0
    data = ops.PRE[:off] + ops.source(case, a)
    cls = case.cls(i)
    obj = None if how[0] == 'c' else ops.target(case, a)
    cut = a.get('cut')
    if cut is not None:
        data = data[:cut]
    hit = a.get('hit')
    if hit is not None:
        at = off + hit[0] % (len(data) - off or 1)
        data = data[:at] + bytes([hit[1]]) + data[at + 1:]
    if a.get('pool') and len(data) <= len(pool) and not case.final[i] and cut is hit is None:
        # A receive buffer used over and over
        pool[:] = b'\xcd' * len(pool)
        pool[:len(data)] = data
        b = None
        src = pool if how[-1] == 'f' or a['buf'] == 'bytearray' else memoryview(pool)
        before = bytes(pool)
    else:
        b = streams.Buffer(a['buf'], data)
        src = b.obj
        before = b.bytes()
    refs = sys.getrefcount(src)
    failed = False
    try:
        if how == 'cu':
            obj = cls.create_unpack(src)
        elif how == 'u':
            obj.unpack(src)
        elif how == 'cuf':
            obj = cls.create_unpack_from(src, off)
        else:
            obj.unpack_from(src, off)
    except Exception as e:
        if cut is hit is None:
            raise
        failed = True
        e = None
    if sys.getrefcount(src) > refs and type(src) is not bytes:
        gc.collect()    # what is only kept by cycles is not kept
        if sys.getrefcount(src) > refs:
            return 'a reference to the source is kept'
    now = bytes(pool) if b is None else b.bytes()
    if now != before:
        return 'the source was modified'
    if failed:
        r.count('failed unpack')
        if b is not None:
            del src
            later.append((b, how))
            return disturb(later, r)
        return None
    if hit is None and (cut is None or
                        len(data) >= off + len(case.enc[i]) and not case.final[i]):
        alive.append((obj, i, 'disturbed'))
    if b is None:
        del src
        pool[:] = b'\xee' * len(pool)
        pool.append(0)      # BufferError if it is still in use
        pool.pop()
        r.fault('receive buffer reused')
        return None
    del src
    later.append((b, how))
    if a.get('now'):
        return disturb(later, r)
    return None


def from_file(case, a, r, alive):
    i = a['o']
    off = a.get('off', 0)
    data = ops.PRE[:off] + ops.source(case, a)
    disk = streams.Disk(data)
    h = streams.Handle(a['h'], disk, off)
    f = h.f
    refs = sys.getrefcount(f)
    cls = case.cls(i)
    obj = None
    if a['how'] == 'cur':
        obj = cls.create_unpack_read(f)
    else:
        obj = ops.target(case, a)
        obj.unpack_read(f)
    if sys.getrefcount(f) > refs:
        gc.collect()
        if sys.getrefcount(f) > refs:
            return 'a reference to the stream is kept'
    if bytes(disk.data) != data:
        return 'the source was modified'
    if f.closed:
        return 'the stream was closed'
    then = a['then']
    if then == 'truncate':
        disk.data.clear()
    elif then == 'rewind':
        f.seek(0)
        f.read(3)
    disk.data[:] = b'\xee' * len(disk.data)
    if then == 'close':
        f.close()
    r.fault(f'file {then}')
    alive.append((obj, i, then))
    return None
