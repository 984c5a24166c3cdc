"""Operations on generated classes, each with its full expected outcome.

An operation is a JSON list [kind, {arguments}].  Its outcome (values, bytes,
stream positions, sizes) depends on nothing but the operation itself, so the
same oracle holds alone, nested, in threads, and after failures.
"""

import io
import json
import os

from . import layout, lib, streams
from .layout import Invalid, MObj, j2v, type_ck, v2j
from .realize import World, short

PACK = ('pack', 'pack_into', 'pack_write', 'ser_pack')
CREATE = ('cu', 'cuf', 'cur')
INPLACE = ('u', 'uf', 'ur')
UNPACK = CREATE + INPLACE
PRE = b'\x11\x22\x33\x44\x55\x66\x77'
POST = b'\x99\x00\x88\x01\x77\xff\x00\x66'
EVERY = ('int', 'float', 'bool', 'char', 'pascal', 'pad', 'sas', 'dyn', 'net', 'term',
         'rest', 'uni', 'tup', 'arr', 'st', 'self', 'cond', 'lb', 'la', 'gen', 'user')


class Objs(list):
    def __getitem__(self, i):
        if not isinstance(i, int) or not 0 <= i < len(self):
            raise Invalid('value')
        return list.__getitem__(self, i)


class Case:
    """Classes, values and what is needed to run operations on them."""

    def __init__(self, plan, hooks=None, define=True, prefix='K'):
        self.plan = plan
        self.specs = plan['classes']
        self.objs = Objs(j2v(o) for o in plan['objs'])
        self.w = World(self.specs, hooks, define=False, prefix=prefix)
        self.w.ba = int(plan.get('ba') or 0)
        for o in self.objs:
            if not isinstance(o, MObj):
                raise Invalid('value')
            self.w.L.check(o)
        self.enc = [self.w.L.encode(o) for o in self.objs]
        self.final = [self.w.L.cls_final(o.ck) for o in self.objs]
        self.sizes = False       # check sizes too
        self.counts = {}
        self.reals = {}
        if define:
            self.define()

    def define(self):
        for i in range(len(self.specs)):
            try:
                self.w.define(i)
            except Invalid:
                raise
            except Exception as e:
                if blame(e):
                    raise
                raise Rejected(f'definition of class {i} raised {exc(e)}') from e

    def cls(self, i):
        return self.w.real_cls(self.objs[i].ck)

    def real(self, i, fresh=False):
        """The (persistent) real object for a value."""
        if fresh:
            return self.w.real(self.objs[i])
        r = self.reals.get(i)
        if r is None:
            r = self.reals[i] = self.w.real(self.objs[i])
        return r

    def view(self):
        """The same classes, with real objects of its own: what one thread
        works on."""
        v = object.__new__(type(self))
        v.__dict__.update(self.__dict__)
        v.reals = {}
        return v

    def prime(self):
        """Have every class looked up and every value built once."""
        for i in range(len(self.objs)):
            self.real(i, fresh=True)

    def kinds(self):
        out = set()

        def note(t):
            out.add(t['k'])
            return False
        for o in self.objs:
            self.w.L.cls_find(o.ck, note)
        return out

    def count(self, what):
        self.counts[what] = self.counts.get(what, 0) + 1


def in_child(fn):
    """What fn() returns in a copy of this process, which sees nothing of it."""
    rd, wr = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.write(wr, json.dumps(fn()).encode())
        except BaseException:
            os.write(wr, b'null')
        finally:
            os._exit(0)
    os.close(wr)
    with open(rd, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data or b'null')


def plain(cold, fn):
    """What is wrong without faults, and what there is to count; if `cold`,
    without anything having happened yet."""
    out = in_child(fn) if cold else None
    return fn() if out is None or out[0] else out


def blame(e):
    """'' if the library was involved in raising e, else '-outer'."""
    tb = e.__traceback__
    while tb is not None:
        if lib.is_lib(tb.tb_frame.f_code.co_filename):
            return ''
        tb = tb.tb_next
    return '-outer'


class Bad(str):
    """What is wrong, with a suffix for its kind."""
    suffix = ''


def raised(text, e):
    b = Bad(f'{text} raised {exc(e)}')
    b.suffix = '-raised' + blame(e)
    return b


def within(bad, text):
    """The same, with text around it ("%s" for it)."""
    b = Bad(text.replace('%s', bad))
    b.suffix = getattr(bad, 'suffix', '')
    return b


class Rejected(Exception):
    """The library refused a valid definition: a violation."""


def exc(e):
    return f'{type(e).__name__}: {short(str(e))}'


def run(case, op):
    """Carry out an operation.  Returns what is wrong, or None."""
    kind, a = op
    case.count(kind)
    try:
        return HANDLERS[kind](case, a)
    except Invalid:
        raise
    except streams.sched.Killed:
        raise
    except Exception as e:
        if a.get('abort'):
            raise
        return raised(f'{kind} of {what(case, a)}', e)


def what(case, a):
    return f"value {a['o']} (class {case.objs[a['o']].ck})"


def size_is(case, ser, n, kind, a):
    if case.sizes:
        try:
            got = ser.size
        except Exception as e:
            return f'{kind} of {what(case, a)}: size raised {exc(e)}'
        case.count('size read')
        if got != n:
            return f'{kind} of {what(case, a)}: size is {got!r}, not {n}'
    return None


def mem(case, i):
    """The real object of a value and its attributes (as packed)."""
    return case.real(i)


def h_pack(case, a):
    i = a['o']
    r = case.real(i)
    got = r.pack()
    d = size_is(case, r.serializer, len(case.enc[i]), 'pack', a)
    if d:
        return d
    if type(got) is not bytes or got != case.enc[i]:
        return f'pack of {what(case, a)} gave {short(got)}, not {short(case.enc[i])}'
    return unchanged(case, i, r, 'pack', a)


def unchanged(case, i, r, kind, a):
    if a.get('diff'):
        d = case.w.diff(r, case.objs[i])
        if d:
            return f'{kind} of {what(case, a)} changed the object: {d}'
    return None


def h_pack_into(case, a):
    i = a['o']
    enc = case.enc[i]
    off, slack = a.get('off', 0), a.get('slack', 0)
    fill = bytes((j * 37 + 11) & 255 for j in range(off + len(enc) + slack))
    b = streams.Buffer(a.get('buf', 'bytearray'), fill)
    r = case.real(i)
    if off or a.get('explicit'):
        r.pack_into(b.obj, off)
    else:
        r.pack_into(b.obj)
    d = size_is(case, r.serializer, len(enc), 'pack_into', a)
    if d:
        return d
    got = b.bytes()
    want = fill[:off] + enc + fill[off + len(enc):]
    if got != want:
        return f'pack_into of {what(case, a)} at {off} gave {short(got)}, not {short(want)}'
    return unchanged(case, i, r, 'pack_into', a)


def h_pack_write(case, a):
    i = a['o']
    enc = case.enc[i]
    s = streams.Sink(hook=case.stream_hook() if hasattr(case, 'stream_hook') else None)
    r = case.real(i)
    r.pack_write(s)
    d = size_is(case, r.serializer, len(enc), 'pack_write', a)
    if d:
        return d
    if bytes(s.got) != enc:
        return f'pack_write of {what(case, a)} wrote {short(bytes(s.got))}, not {short(enc)}'
    return unchanged(case, i, r, 'pack_write', a)


def h_ser_pack(case, a):
    """Packing through the serializer, as a custom serializer would."""
    i = a['o']
    enc = case.enc[i]
    r = case.real(i)
    s = type(r).serializer.prepack(r)
    got = s.pack(*(getattr(r, n) for n in r.attrs))
    d = size_is(case, s, len(enc), 'serializer.pack', a)
    if d:
        return d
    if got != enc:
        return f'serializer.pack of {what(case, a)} gave {short(got)}, not {short(enc)}'
    return None


def source(case, a):
    """Bytes to unpack from: the encoding and what follows it."""
    i = a['o']
    return case.enc[i] + (b'' if case.final[i] else POST[: a.get('tail', 0)])


def target(case, a):
    """The object to unpack in place onto."""
    j = a.get('from', a['o'])
    if case.objs[j].ck != case.objs[a['o']].ck:
        raise Invalid('target class')
    return case.real(j, fresh=True)


def h_u(case, a, kind='u'):
    i = a['o']
    data = source(case, a)
    off = 0
    pos = None
    if kind[-1] == 'f':
        off = a.get('off', 0)
        data = PRE[:off] + data
    elif kind[-1] == 'r':
        off = a.get('off', 0)
        data = PRE[:off] + data
    create = kind[0] == 'c'
    cls = case.cls(i)
    obj = None if create else target(case, a)
    old = None if create else dict(vars(obj))
    if kind[-1] == 'r':
        h = streams.Handle(a.get('h', 'raw'), streams.Disk(data), off,
                           hook=case.stream_hook() if hasattr(case, 'stream_hook') else None)
        if create:
            obj = cls.create_unpack_read(h.f)
        else:
            obj.unpack_read(h.f)
    else:
        src = streams.Buffer(a.get('buf', 'bytes'), data).obj
        if kind == 'cu':
            obj = cls.create_unpack(src)
        elif kind == 'u':
            obj.unpack(src)
        elif kind == 'cuf':
            obj = cls.create_unpack_from(src, off) if off else cls.create_unpack_from(src)
        else:
            obj.unpack_from(src, off) if off else obj.unpack_from(src)
    d = size_is(case, cls.serializer, len(case.enc[i]), kind, a)
    if d:
        return d
    if kind[-1] == 'r':
        pos = h.pos()
    d = case.w.diff(obj, case.objs[i])
    if d:
        return f'{kind} of {what(case, a)}: {d}'
    if pos is not None and pos != off + len(case.enc[i]):
        return (f'{kind} of {what(case, a)}: stream left at {pos}, '
                f'not {off + len(case.enc[i])}')
    if old:
        # Others may hold what the object had
        was = case.objs[a.get('from', i)]
        for n, t in case.w.L.cls(was.ck).fields:
            if t['k'] != 'pad' and n in old:
                d = case.w.vdiff(old[n], was.v[n], t, was, n)
                if d:
                    return f'{kind} of {what(case, a)} changed what was in the object before: {d}'
    case.w.spoil(obj, case.objs[i])
    return None


def h_bo(case, a):
    """An object derived with another byte order packs in it; the original in
    its own."""
    from .realize import ORDER
    i = a['o']
    r = case.real(i)
    try:
        want = case.w.L.encode_as(case.objs[i], a['bo'])
        want2 = case.w.L.encode_as(case.objs[i], a.get('bo2', a['bo']))
    except Invalid:
        return None
    d = r.with_byte_order(ORDER[a['bo']])
    e = packs(case, d, want, a, f"(derived {a['bo']!r})")
    if e:
        return e
    if d.byte_order is not ORDER[a['bo']]:
        return f"with_byte_order({a['bo']!r}) of {what(case, a)} has {d.byte_order}"
    if 'bo2' in a:
        # Another one derived from that
        case.count('derived from derived')
        e = packs(case, d.with_byte_order(ORDER[a['bo2']]), want2, a,
                  f"(derived {a['bo']!r}, then {a['bo2']!r})") or packs(
                      case, d, want, a, f"(derived {a['bo']!r}, and something else from it)")
        if e:
            return e
    if a.get('un'):
        # It reads in its own order, too
        case.count('unpacked by derived')
        getattr(d, {'u': 'unpack', 'uf': 'unpack_from', 'ur': 'unpack_read'}[a['un']])(
            io.BytesIO(want) if a['un'] == 'ur' else want)
        e = size_is(case, d.serializer, len(want), f"{a['un']} (derived)", a)
        if e:
            return e
    x = case.w.diff(d, case.objs[i])
    if x:
        return f'with_byte_order of {what(case, a)}: {x}'
    if r.pack() != case.enc[i]:
        return f'with_byte_order changed {what(case, a)}'
    back = type(r).create_unpack(case.enc[i])
    x = case.w.diff(back, case.objs[i])
    if x:
        return f'with_byte_order of {what(case, a)} changed the class: {x}'
    return None


def packs(case, r, want, a, note):
    """Packing `r` gives what is wanted, by the call chosen."""
    how = a.get('how', 'pack')
    if how == 'pack':
        got = r.pack()
    elif how == 'pack_into':
        off = a.get('off', 0)
        fill = bytes((j * 37 + 11) & 255 for j in range(off + len(want) + 9))
        b = bytearray(fill)
        r.pack_into(b, off)
    else:
        s = streams.Sink(hook=case.stream_hook() if hasattr(case, 'stream_hook') else None)
        r.pack_write(s)
    e = size_is(case, r.serializer, len(want), f'{how} {note}', a)
    if e:
        return e
    if how == 'pack_into':
        got = bytes(b)
        want = fill[:off] + want + fill[off + len(want):]
    elif how != 'pack':
        got = bytes(s.got)
    if got != want:
        return f'{how} of {what(case, a)} {note} gave {short(got)}, not {short(want)}'
    return None


def h_mix(case, a):
    """An object holding objects derived for another byte order."""
    from .realize import ORDER, Structured
    i = a['o']
    try:
        want = case.w.L.encode_mixed(case.objs[i], a['bo'])
    except Invalid:
        return None

    def derive(x):
        if isinstance(x, Structured):
            new = type(x)(*(derive(getattr(x, n)) for n in x.attrs))
            return new.with_byte_order(ORDER[a['bo']])
        if type(x) in (list, tuple):
            return type(x)(map(derive, x))
        return x
    r = case.real(i, fresh=True)
    r = type(r)(*(derive(getattr(r, n)) for n in r.attrs))
    return packs(case, r, want, a, f"(holding {a['bo']!r})")


def h_bad_pack(case, a):
    """A value that cannot be packed makes packing fail."""
    i = a['o']
    r = case.real(i, fresh=True)
    names = [n for n in r.attrs]
    n = names[a.get('attr', 0) % len(names)]
    setattr(r, n, BAD)
    try:
        how = a.get('how', 'pack')
        if how == 'pack':
            r.pack()
        elif how == 'pack_into':
            r.pack_into(bytearray(len(case.enc[i]) + 8), 0)
        else:
            r.pack_write(streams.Sink())
    except Exception:
        case.count('failed pack')
        return None
    # A bad value behind a condition that is false is not looked at
    return None


def odd(v, path, k, big=False):
    """`v` with an odd value in place of the part the path leads to."""
    from .realize import Structured
    n = path[0] if path else None
    if n is not None and n >= 0:
        if isinstance(v, Structured) and v.attrs:
            name = v.attrs[n % len(v.attrs)]
            setattr(v, name, odd(getattr(v, name), path[1:], k, big))
            return v
        if type(v) in (list, tuple) and v:
            new = list(v)
            new[n % len(v)] = odd(v[n % len(v)], path[1:], k, big)
            return type(v)(new)
    if type(v) is int:
        return (v + 1, -1 - v, v + (1 << 15), v | 1 << 70, float(v & 0xFF), None)[k % 6]
    if type(v) in (bytes, str, bytearray):
        one = v[:1] or ('x' if type(v) is str else b'x')
        return (v + one, v[:-1], v + one * 200, v + one * (70_000 if big else 300), bytearray(b'ab'), 'ab',
                b'ab', v[:0], None, '\ud800')[k % 10]
    if type(v) is tuple:
        # Not another number of values: which serializers mind is up to them
        return (list(v), None)[k % 2]
    if type(v) is list:
        return (v + v[:1], v[:-1], v * 2, (v + v[:1]) * (300 if big and len(v) < 4 else 3), tuple(v), None)[k % 6]
    if type(v) is float:
        return (v * 1e300, -v, 1, None)[k % 4]
    return BAD


def h_odd(case, a):
    """A value that has perhaps no encoding: all packing calls refuse it or none,
    and give the same bytes for it."""
    i = a['o']
    r = odd(case.real(i, fresh=True), [abs(a.get('attr', 0))] + list(a.get('path', ())),
            a.get('k', 0), a.get('big'))
    ends = {}
    for how in (('pack', 'pack_into', 'pack_write') if a.get('turn', 0) % 2 else
                ('pack', 'pack_write', 'pack_into')):
        room = bytearray(b'\xa5' * (9 + len(ends.get('pack') or case.enc[i] + bytes(1000))))
        sink = streams.Sink()
        try:
            if how == 'pack':
                got = r.pack()
            elif how == 'pack_into':
                r.pack_into(room, 3)
                got = room
            else:
                r.pack_write(sink)
                got = bytes(sink.got)
        except RecursionError:
            return None
        except Exception as e:
            ends[how] = None
            continue
        n = r.serializer.size
        if how == 'pack_into':
            rest = bytes(room[3 + n:])
            if bytes(room[:3]) != b'\xa5' * 3 or rest != b'\xa5' * len(rest):
                return f'pack_into of {what(case, a)} made odd: bytes written are not its {n}'
            got = bytes(room[3:3 + n])
        ends[how] = bytes(got)
        if n != len(got):
            return f'{how} of {what(case, a)} made odd: size {n} after {len(got)} bytes'
    case.count('odd value refused' if None in ends.values() else 'odd value taken')
    if len(set(ends.values())) != 1:
        return f'{what(case, a)} made odd: ' + ', '.join(
            f'{how} ' + ('raises' if e is None else f'gives {short(e)}')
            for how, e in ends.items())
    return None


class _Bad:
    def __repr__(self):
        return 'BAD'


BAD = _Bad()


def h_bad_unpack(case, a):
    """Cut data: an exception, unless the layout takes what there is."""
    i = a['o']
    enc = case.enc[i]
    if not enc:
        return None
    cut = a.get('cut', 0) % len(enc)
    data = enc[:cut]
    how = a.get('how', 'cu')
    cls = case.cls(i)
    try:
        if how == 'cu':
            cls.create_unpack(data)
        elif how == 'cuf':
            cls.create_unpack_from(data, 0)
        elif how == 'cur':
            cls.create_unpack_read(io.BytesIO(data))
        elif how == 'u':
            target(case, a).unpack(data)
        elif how == 'uf':
            target(case, a).unpack_from(data, 0)
        else:
            target(case, a).unpack_read(io.BytesIO(data))
    except Exception:
        case.count('failed unpack')
        return None
    if case.final[i]:
        return None
    return f'{how} of {what(case, a)} cut to {cut} of {len(enc)} bytes gave a value'


def h_junk(case, a):
    """Damaged data: a result or an exception, and no trace of it."""
    i = a['o']
    cls = case.cls(i)
    bounded = case.__dict__.setdefault('bounded', {})
    key = layout.ckey(case.objs[i].ck)
    if key not in bounded:
        try:
            zero_items(case.w.L, case.objs[i].ck, case.specs)
            bounded[key] = True
        except Invalid:
            bounded[key] = False
    if not bounded[key]:
        return None     # a damaged count could make any number of items
    data = bytearray(case.enc[i])
    for pos, byte in a.get('edits', ()):
        if data:
            data[pos % len(data)] = byte & 255
    if a.get('bom'):
        # Texts in the other byte order, and not well-formed in that
        at = data.find(b'\xff\xfe')
        if at >= 0:
            data[at:at + 3] = b'\xfe\xff\xd8'
    if a.get('cut') and data:
        del data[-(a['cut'] % len(data)):]
    data = bytes(data)
    how = a.get('how', 'cu')
    try:
        if how[0] != 'c':
            cls = target(case, a)
        do = getattr(cls, {'cu': 'create_unpack', 'cuf': 'create_unpack_from',
                           'cur': 'create_unpack_read', 'u': 'unpack', 'uf': 'unpack_from',
                           'ur': 'unpack_read'}[how])
        do(io.BytesIO(data) if how[-1] == 'r' else data)
        case.count('junk taken')
    except Exception:
        case.count('junk refused')
    return None


HANDLERS = {'junk': h_junk, 'pack': h_pack, 'pack_into': h_pack_into, 'pack_write': h_pack_write,
            'ser_pack': h_ser_pack, 'bo': h_bo, 'mix': h_mix, 'bad_pack': h_bad_pack,
            'odd': h_odd, 'bad_unpack': h_bad_unpack}
for _k in UNPACK:
    HANDLERS[_k] = (lambda k: lambda case, a: h_u(case, a, k))(_k)


# ---------------------------------------------------------------- generation
def gen_case(rng, nobj=(2, 5), **kw):
    """Random classes and values of them."""
    for _ in range(20):
        g = layout.Gen(rng, **kw)
        specs = g.gen()
        cks = g.concrete()
        if not cks:
            continue
        objs = []
        n = rng.randint(*nobj)
        # Concentrate on few classes, the later (composed) ones preferred
        pool = [rng.choice(cks), cks[-1], rng.choice(cks)]
        for _ in range(n * 3):
            if len(objs) >= n:
                break
            try:
                objs.append(v2j(g.obj(rng.choice(pool))))
            except layout.Retry:
                continue
        if objs:
            plan = {'classes': specs, 'objs': objs}
            if rng.random() < 0.14:
                plan['ba'] = rng.choice([1, 1, 2, 2, 3])
            return plan, g
    raise RuntimeError('no case')


def add_twins(rng, plan, g):
    """Values of the same length as others, with their strings reversed."""
    def turn(j):
        if isinstance(j, dict):
            if set(j) == {'b'} and isinstance(j['b'], str):
                return {'b': bytes.fromhex(j['b'])[::-1].hex()}
            if set(j) == {'s'} and isinstance(j['s'], str):
                return {'s': j['s'][::-1]} if not j['s'].startswith('\0') else j
            return {k: turn(v) for k, v in j.items()}
        if isinstance(j, list):
            return [turn(x) for x in j]
        return j
    for j in list(plan['objs']):
        if g.L.cls_find(j['o'], lambda t: t['k'] == 'la') or rng.random() < 0.4:
            continue        # (what is looked ahead at decides what it is)
        new = turn(j)
        if new == j:
            continue
        try:
            g.L.check(j2v(new))
            if len(g.L.encode(j2v(new))) == len(g.L.encode(j2v(j))):
                plan['objs'].append(new)
        except Exception:
            continue    # where it was looked ahead at, or decided by


def array_class(rng, g, simple=0.5):
    """Adds a class with an array, of simple items mostly."""
    g.big = 0
    spec = {'bo': rng.choice(layout.ORDERS), 'base': None, 'fields': [], 'form': 'plain'}
    item = None
    if rng.random() > simple:
        item = g.ty(1, [], False, spec, item=True, no=('cond', 'lb', 'self', 'la'))
    if item is None or item['k'] == 'pad' or g.L.min_size(item) < 1:
        item = rng.choice([{'k': 'char', 'n': rng.randint(1, 5)}, {'k': 'pascal', 'n': 3},
                           {'k': 'int', 't': rng.choice(list(layout.INTS))}, {'k': 'bool'},
                           {'k': 'term', 'b': '00'}, {'k': 'dyn', 't': 'uint8'}, {'k': 'net'}])
    arr = {'k': 'arr', 'count': rng.choice(['uint16', 'uint32', 'uint64']),
           'dsize': rng.choice([None, None, 'uint32']), 'item': item}
    if rng.random() < 0.3:
        spec['fields'].append(['before', {'k': 'int', 't': 'uint8'}])
    spec['fields'].append(['items', arr])
    if rng.random() < 0.5:
        spec['fields'].append(['after', rng.choice([item, {'k': 'int', 't': 'uint32'}])])
    g.push(spec)
    return len(g.classes) - 1


def zero_items(L, ci, specs):
    """Refuses a class with arrays of items that may take no bytes: a number
    in damaged data could make any number of them."""
    if isinstance(ci, int) and specs[ci].get('tv'):
        return

    c = L.cls(ci)

    def pred(t):
        return t['k'] == 'arr' and L.min_size(unself(t['item'])) < 1
    if L.cls_find(ci, pred):
        raise Invalid('items of no bytes')
    if any(unself(t) != t for _, t in c.fields) and not any(
            t['k'] == 'int' for _, t in c.fields):
        # Without a key, a class taking no bytes could be an item of itself
        if sum(L.min_size(t) for _, t in c.fields) < 1:
            raise Invalid('items of no bytes')


def unself(t):
    if isinstance(t, dict):
        if t.get('k') == 'self':
            return {'k': 'bool'}
        return {k: unself(v) for k, v in t.items()}
    if isinstance(t, list):
        return [unself(x) for x in t]
    return t


def same_class(plan):
    """Indices of values by class."""
    out = {}
    for i, o in enumerate(plan['objs']):
        out.setdefault(layout.ckey(o['o']), []).append(i)
    return out


def gen_op(rng, plan, kinds=PACK + UNPACK, objs=None, big=False):
    n = len(plan['objs'])
    i = rng.choice(objs) if objs else rng.randrange(n)
    kind = rng.choice(kinds)
    a = {'o': i}
    if kind in INPLACE or kind in ('bad_unpack', 'junk'):
        a['from'] = rng.choice(same_class(plan)[layout.ckey(plan['objs'][i]['o'])])
    if kind == 'pack_into':
        if rng.random() < 0.7:
            a['off'] = rng.randint(0, 9)
        if rng.random() < 0.7:
            a['slack'] = rng.randint(0, 9)
        a['buf'] = rng.choice(streams.WRITE_KINDS)
    if kind in UNPACK:
        if rng.random() < 0.7:
            a['tail'] = rng.randint(0, 8)
        if kind[-1] in 'fr' and rng.random() < 0.7:
            a['off'] = rng.randint(1, 7)
        if kind[-1] == 'r':
            a['h'] = rng.choice(streams.Handle.KINDS)
        else:
            a['buf'] = rng.choice(streams.READ_KINDS)
    if kind in ('bo', 'mix'):
        a['bo'] = rng.choice(layout.ORDERS)
        a['how'] = rng.choice(['pack', 'pack', 'pack_into', 'pack_write'])
        if a['how'] == 'pack_into' and rng.random() < 0.5:
            a['off'] = rng.randint(1, 9)
        if kind == 'bo' and rng.random() < 0.3:
            a['bo2'] = rng.choice(layout.ORDERS)
        if kind == 'bo' and rng.random() < 0.5:
            a['un'] = rng.choice(INPLACE)
    if kind == 'bad_unpack':
        a['cut'] = rng.choice([0, 1, 2, 3, rng.randint(0, 400), rng.randint(0, 50)])
        a['how'] = rng.choice(UNPACK)
    if kind == 'junk':
        a['how'] = rng.choice(UNPACK)
        a['edits'] = [[rng.choice([rng.randrange(16), rng.randrange(400)]),
                       rng.choice([0, 1, 0x7F, 0x80, 0xFF, 0xD8, rng.randrange(256)])]
                      for _ in range(rng.choice([0, 1, 1, 2, 5]))]
        if rng.random() < 0.3:
            a['cut'] = rng.randint(1, 9)
        if rng.random() < 0.4:
            a['bom'] = 1
    if kind == 'odd':
        a['attr'] = rng.randint(0, 7)
        a['path'] = [rng.choice([0, 0, 1, 2, 3, -1]) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        a['k'] = rng.randrange(60)
        a['turn'] = rng.randrange(3)
        if big:
            a['big'] = 1
    if kind == 'bad_pack':
        a['attr'] = rng.randint(0, 7)
        a['how'] = rng.choice(['pack', 'pack_into', 'pack_write'])
    return [kind, a]
