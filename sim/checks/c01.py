"""C01: histories of records in files and buffers."""

from .. import layout, ops, streams
from ..layout import Invalid
from ..ops import Case

RUNS = {'quick': 12000, 'thorough': 400000}
RULE = ('A run is a history of packs, appends, seeks, re-reads, scans and buffer operations over '
        'generated classes and values on simulated files with several handles.  Distinct by the '
        'layouts, operations and handle kinds; non-trivial if at least one record was read back '
        'from a file that has other bytes before or after it.')
STUBS = 'files (simulated disk and handles, also below io.BufferedReader and BufferedRandom)'
ASSUMES = ['the reference codec (sim/layout.py) states the documented layout',
           'NaN values and strings that end in their own terminator are not generated']
WRITERS = ('pack', 'pack_write', 'pack_into', 'ser_pack')


def gen(rng, i, tier):
    big = 0.2 if rng.random() < 0.15 else 0.03
    plan, g = ops.gen_case(rng, (1, 6), big=big, depth=rng.choice([2, 3, 3, 4]),
                           huge=0.05)
    if rng.random() < 0.4:
        ops.add_twins(rng, plan, g)
    nh = rng.randint(1, 4)
    nd = rng.randint(1, 2)
    steps = [['open', {'h': h, 'kind': rng.choice(streams.Handle.KINDS[:-1]),
                       'd': rng.randrange(nd)}] for h in range(nh)]
    n = len(plan['objs'])
    for _ in range(rng.randint(6, 24)):
        x = rng.random()
        h = rng.randrange(nh)
        if x < 0.35:
            steps.append(['append', {'h': h, 'o': rng.randrange(n), 'gap': rng.choice([0, 0, 0, 1, 3, 9]),
                                     'how': rng.choice(WRITERS)}])
        elif x < 0.55:
            steps.append(['read', {'h': h, 'rec': rng.randint(0, 30),
                                   'inplace': rng.random() < 0.3}])
        elif x < 0.7:
            steps.append(['next', {'h': h, 'inplace': rng.random() < 0.3}])
        elif x < 0.78:
            steps.append(['scan', {'h': h}])
        elif x < 0.83:
            steps.append(['open', {'h': h, 'kind': rng.choice(streams.Handle.KINDS[:-1]),
                                   'd': rng.randrange(nd)}])
        elif x < 0.9:
            steps.append(['buffer', {'d': rng.randrange(nd), 'rec': rng.randint(0, 30),
                                     'buf': rng.choice(streams.READ_KINDS),
                                     'how': rng.choice(['cu', 'cuf', 'u', 'uf'])}])
        elif x < 0.92:
            steps.append(['cut', {'d': rng.randrange(nd), 'rec': rng.randint(0, 30)}])
        elif x < 0.95:
            steps.append(['replace', {'h': h, 'rec': rng.randint(0, 30), 'o': rng.randrange(n)}])
        elif x < 0.96:
            steps.append(['flip', {'o': rng.randrange(n), 'attr': rng.randint(0, 9)}])
        else:
            kinds = rng.choice([ops.PACK + ops.UNPACK, ('odd',)])
            steps.append(['op', {'op': ops.gen_op(rng, plan, kinds, big=True)}])
    if rng.random() < 0.15:
        steps += [['op', {'op': ops.gen_op(rng, plan, ('odd',), big=rng.random() < 0.2)}]
                  for _ in range(rng.randint(8, 24))]
    steps.append(['scan', {'h': 0}])
    plan['steps'] = steps
    return plan


def sample(plan):
    return {'classes': [layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])],
            'steps': plan['steps'][:12]}


class State:
    def __init__(self, case, r):
        self.c = case
        self.r = r
        self.disks = {}
        self.recs = {}
        self.handles = {}

    def disk(self, d):
        if d not in self.disks:
            self.disks[d] = streams.Disk()
            self.recs[d] = []
        return self.disks[d]


def execute(plan, r):
    case = Case(plan)
    case.counts = r.counts
    st = State(case, r)
    for n, (kind, a) in enumerate(plan['steps']):
        r.count(f'step {kind}')
        try:
            bad = STEPS[kind](st, a)
        except Invalid:
            raise
        except Exception as e:
            bad = ops.raised('it', e)
        if bad:
            r.violate(KIND.get(kind, 'record') + getattr(bad, 'suffix', ''),
                      f'step {n} ({kind} {a}): {bad}')
            break
    if r.probes.get('record between other bytes'):
        r.sig = [sorted(case.kinds()), [s[0] for s in plan['steps']],
                 [layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])]]


KIND = {'append': 'bytes', 'op': 'op'}


def handle(st, a):
    if a['h'] not in st.handles:
        raise Invalid('handle')
    return st.handles[a['h']]


def do_open(st, a):
    st.handles[a['h']] = (streams.Handle(a['kind'], st.disk(a['d'])), a['d'])


def do_append(st, a):
    h, d = handle(st, a)
    case, recs, disk = st.c, st.recs[d], st.disk(d)
    i = a['o']
    if not 0 <= i < len(case.objs):
        raise Invalid('object')
    if recs and case.final[recs[-1][1]]:
        return None     # nothing can follow it
    gap = bytes((7 * j + 1) & 255 for j in range(a.get('gap', 0)))
    disk.data += gap
    start = len(disk.data)
    how = a.get('how', 'pack_write')
    before = bytes(disk.data)
    real = case.real(i)
    enc = case.enc[i]
    if how == 'pack_write':
        w = streams.SimFile(disk, start)
        if h.kind.startswith('random'):
            h.f.seek(start)
            real.pack_write(h.f)
            if h.f.tell() != start + len(enc):
                return f'stream at {h.f.tell()} after pack_write, not {start + len(enc)}'
            h.f.flush()
        elif h.kind == 'raw':
            h.f.seek(start)
            real.pack_write(h.f)
            if h.f.tell() != start + len(enc):
                return f'stream at {h.f.tell()} after pack_write, not {start + len(enc)}'
        else:
            real.pack_write(w)
    elif how == 'pack_into':
        b = bytearray(b'\xcc' * (len(enc) + 4))
        real.pack_into(b, 2)
        if b[:2] != b'\xcc\xcc' or b[2 + len(enc):] != b'\xcc\xcc':
            return 'pack_into wrote outside of the record'
        disk.data += b[2:2 + len(enc)]
    elif how == 'ser_pack':
        s = type(real).serializer.prepack(real)
        disk.data += s.pack(*(getattr(real, n) for n in real.attrs))
    else:
        disk.data += real.pack()
    if bytes(disk.data) != before + enc:
        return (f'value {i}: the file has {ops.short(bytes(disk.data[start:]))} for the record, '
                f'not {ops.short(enc)}')
    recs.append((start, i))
    return None


def read_at(st, h, d, rec, inplace, seek=True):
    case = st.c
    start, i = st.recs[d][rec]
    end = start + len(case.enc[i])
    if seek:
        h.f.seek(start)
    cls = case.cls(i)
    if inplace:
        obj = case.real(i, fresh=True)
        obj.unpack_read(h.f)
    else:
        obj = cls.create_unpack_read(h.f)
    bad = case.w.diff(obj, case.objs[i])
    if bad:
        return f'record {rec} (value {i}): {bad}'
    pos = h.f.tell()
    if pos != end:
        return f'record {rec} (value {i}): stream left at {pos}, not {end}'
    plain = type(obj).__eq__ is case.w.S.Structured.__eq__ and not any(
        # A dataclass's own __eq__ misses attributes removed by a subclass
        t is None for s in case.specs for _, t in s['fields'])
    if not inplace and plain and not case.w.ba and not (obj == case.real(i)):
        return f'record {rec} (value {i}): does not equal what was packed'
    case.w.spoil(obj, case.objs[i])
    if start or end < len(st.disk(d).data):
        st.r.probe('record between other bytes')
    return None


def do_read(st, a):
    h, d = handle(st, a)
    n = len(st.recs[d])
    if not n:
        return None
    return read_at(st, h, d, a['rec'] % n, a.get('inplace'))


def do_next(st, a):
    """Go on from where the handle is, if that is a record's start."""
    h, d = handle(st, a)
    pos = h.f.tell()
    for rec, (start, i) in enumerate(st.recs[d]):
        if start == pos:
            st.r.probe('sequential read')
            return read_at(st, h, d, rec, a.get('inplace'), seek=False)
    return None


def do_scan(st, a):
    h, d = handle(st, a)
    end = None
    for rec, (start, i) in enumerate(st.recs[d]):
        bad = read_at(st, h, d, rec, False, seek=start != end)
        if bad:
            return bad
        end = start + len(st.c.enc[i])
    return None


def stale(st, d):
    """Buffered handles would not see a change of what they have read."""
    for n, (h, hd) in st.handles.items():
        if hd == d and h.kind != 'raw':
            st.handles[n] = streams.Handle(h.kind, st.disk(d)), d


def do_cut(st, a):
    """The file is truncated to some of its records."""
    d = a['d']
    disk = st.disk(d)
    recs = st.recs[d]
    if recs:
        rec = a['rec'] % len(recs)
        del disk.data[recs[rec][0]:]
        del recs[rec:]
        stale(st, d)
    return None


def do_replace(st, a):
    """A record is overwritten with another of its length."""
    h, d = handle(st, a)
    recs = st.recs[d]
    case = st.c
    if not recs:
        return None
    rec = a['rec'] % len(recs)
    start, i = recs[rec]
    same = [j for j in range(len(case.objs)) if j != i and len(case.enc[j]) == len(case.enc[i])
            and case.final[j] == case.final[i]]
    if not same:
        return None
    j = same[a['o'] % len(same)]
    data = st.disk(d).data
    want = bytes(data[:start]) + case.enc[j] + bytes(data[start + len(case.enc[j]):])
    if h.kind == 'raw' or h.kind.startswith('random'):
        h.f.seek(start)
        case.real(j).pack_write(h.f)
        if h.kind != 'raw':
            h.f.flush()
    else:
        case.real(j).pack_into(data, start)
    if bytes(data) != want:
        return f'record {rec} replaced by value {j}: the file has {ops.short(bytes(data))}, ' \
               f'not {ops.short(want)}'
    recs[rec] = start, j
    st.r.probe('record replaced')
    stale(st, d)
    return read_at(st, *st.handles[a['h']], rec, False)


def do_buffer(st, a):
    case = st.c
    disk = st.disk(a['d'])
    recs = st.recs[a['d']]
    if not recs:
        return None
    start, i = recs[a['rec'] % len(recs)]
    how = a['how']
    cls = case.cls(i)
    obj = case.real(i, fresh=True)
    data = bytes(disk.data)
    if how[-1] == 'f':
        b = streams.Buffer(a['buf'], data)
        if how == 'cuf':
            obj = cls.create_unpack_from(b.obj, start)
        else:
            obj.unpack_from(b.obj, start)
    else:
        b = streams.Buffer(a['buf'], data[start:])
        if how == 'cu':
            obj = cls.create_unpack(b.obj)
        else:
            obj.unpack(b.obj)
    bad = case.w.diff(obj, case.objs[i])
    if bad:
        return f'record at {start} (value {i}): {bad}'
    if b.bytes() != (data if how[-1] == 'f' else data[start:]):
        return 'unpacking changed the buffer'
    case.w.spoil(obj, case.objs[i])
    return None


def do_flip(st, a):
    """Change an attribute there and back: packing goes by current values."""
    case = st.c
    i = a['o']
    if not 0 <= i < len(case.objs):
        raise Invalid('object')
    real = case.real(i)
    name = real.attrs[a['attr'] % len(real.attrs)]
    keep = getattr(real, name)
    setattr(real, name, ops.BAD)
    try:
        real.pack()
    except Exception:
        st.c.count('failed pack')
    setattr(real, name, keep)
    if real.pack() != case.enc[i]:
        return f'value {i}: pack gave {ops.short(real.pack())}, not {ops.short(case.enc[i])}'
    return None


def do_op(st, a):
    return ops.run(st.c, a['op'])


STEPS = {'open': do_open, 'append': do_append, 'read': do_read, 'next': do_next,
         'scan': do_scan, 'cut': do_cut, 'replace': do_replace, 'buffer': do_buffer, 'flip': do_flip, 'op': do_op}
