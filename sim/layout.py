"""Class layouts as data: generation, values, and an independent reference
codec for them.  Nothing in here uses the library under test.

A type is a JSON object {"k": kind, ...}; a class is
{"bo": byte order, "base": index or null, "args": [types] (generic base),
 "tv": number of type variables, "form": how it is written,
 "fields": [[name, type], ...]}.
"""

import json
import math
import struct

INTS = {'int8': 'b', 'uint8': 'B', 'int16': 'h', 'uint16': 'H', 'int32': 'i',
        'uint32': 'I', 'int64': 'q', 'uint64': 'Q'}
FLOATS = {'float16': 'e', 'float32': 'f', 'float64': 'd'}
UINTS = {'uint8': 8, 'uint16': 16, 'uint32': 32, 'uint64': 64}
BITS = {t: struct.calcsize('=' + c) * 8 for t, c in INTS.items()}
ORDERS = ['', '<', '>', '=', '@', '!']


class Invalid(Exception):
    """The plan does not describe a valid layout or value (only while
    minimising)."""


# --------------------------------------------------------------------- values
class MObj:
    """Model of an instance: class key and values by attribute name."""

    __slots__ = ('ck', 'v')

    def __init__(self, ck, v):
        self.ck = ck
        self.v = v

    def __repr__(self):
        return f'<{self.ck} {self.v}>'


def ckey(ck):
    """Hashable form of a class key (an index, or [generic index, args])."""
    return ck if isinstance(ck, int) else json.dumps(ck)


def v2j(v):
    if isinstance(v, (bool, int)) or v is None:
        return v
    if isinstance(v, float):
        return {'f': v.hex()}
    if isinstance(v, (bytes, str)):
        b, tag = (v, 'b') if isinstance(v, bytes) else (v, 's')
        enc = (lambda x: x.hex()) if tag == 'b' else (lambda x: x)
        if len(b) > 40:
            for p in (1, 2, 3, 5, 7, 11, 13):
                unit = b[:p]
                if (unit * (len(b) // p + 1))[: len(b)] == b:
                    return {tag + 'x': [enc(unit), len(b)]}
        return {tag: enc(b)}
    if isinstance(v, list):
        if len(v) > 40:
            for p in (1, 2, 3, 7):
                if all(v[i] is v[i % p] for i in range(p, len(v))):
                    return {'lx': [[v2j(x) for x in v[:p]], len(v)]}
        return [v2j(x) for x in v]
    if isinstance(v, tuple):
        return {'t': [v2j(x) for x in v]}
    if isinstance(v, MObj):
        return {'o': v.ck, 'v': {n: v2j(x) for n, x in v.v.items()}}
    raise TypeError(v)


def j2v(j):
    if isinstance(j, (bool, int)) or j is None:
        return j
    if isinstance(j, list):
        return [j2v(x) for x in j]
    if 'f' in j:
        return float.fromhex(j['f'])
    if 'b' in j:
        return bytes.fromhex(j['b'])
    if 's' in j:
        return j['s']
    if 'bx' in j:
        u, n = bytes.fromhex(j['bx'][0]), j['bx'][1]
        return (u * (n // len(u) + 1))[:n]
    if 'sx' in j:
        u, n = j['sx']
        return (u * (n // len(u) + 1))[:n]
    if 'lx' in j:
        u, n = [j2v(x) for x in j['lx'][0]], j['lx'][1]
        return (u * (n // len(u) + 1))[:n]
    if 't' in j:
        return tuple(j2v(x) for x in j['t'])
    if 'o' in j:
        return MObj(j['o'], {n: j2v(x) for n, x in j['v'].items()})
    raise TypeError(j)


# -------------------------------------------------------------------- classes
def subst(ty, args):
    """Replace type variables by their arguments."""
    if isinstance(ty, dict):
        if ty.get('k') == 'tv':
            return args[ty['i']]
        out = {}
        for key, val in ty.items():
            if isinstance(val, dict) and set(val) == {'tv'}:
                arg = args[val['tv']]
                # a size parameter: either an unsigned type, or another variable
                out[key] = {'tv': arg['i']} if arg['k'] == 'tv' else arg['t']
            else:
                out[key] = subst(val, args)
        return out
    if isinstance(ty, list):
        return [subst(x, args) for x in ty]
    return ty


def has_tv(ty):
    if isinstance(ty, dict):
        if ty.get('k') == 'tv' or set(ty) == {'tv'}:
            return True
        return any(has_tv(x) for x in ty.values())
    if isinstance(ty, list):
        return any(has_tv(x) for x in ty)
    return False


class Cls:
    """A resolved class: all fields, in order, with its byte order."""

    def __init__(self, ck, bo, fields):
        self.ck = ck
        self.bo = bo
        self.fields = fields  # [(name, type)], pads included

    @property
    def attrs(self):
        return [n for n, t in self.fields if t['k'] != 'pad']

    def ty(self, name):
        for n, t in self.fields:
            if n == name:
                return t
        raise Invalid(name)


class Layout:
    mixed = None    # byte order of objects within others (encode_mixed)

    def __init__(self, classes):
        self.specs = classes
        self._cache = {}

    def cls(self, ck):
        key = ckey(ck)
        got = self._cache.get(key)
        if got is None:
            got = self._cache[key] = self._resolve(ck)
        return got

    def _resolve(self, ck):
        if isinstance(ck, int):
            if not 0 <= ck < len(self.specs):
                raise Invalid('class index')
            spec = self.specs[ck]
            fields = self.raw_fields(ck)
            return Cls(ck, spec['bo'], [(n, t) for n, t in fields.items()
                                        if t is not None and not has_tv(t)])
        g, args = ck
        fields = self.raw_fields(g)
        return Cls(ck, self.specs[g]['bo'],
                   [(n, subst(t, args)) for n, t in fields.items() if t is not None])

    def raw_fields(self, ci):
        spec = self.specs[ci]
        fields = {}
        if spec['base'] is not None:
            if not 0 <= spec['base'] < ci:
                raise Invalid('base')
            base = self.raw_fields(spec['base'])
            args = spec.get('args')
            for n, t in base.items():
                fields[n] = subst(t, args) if args is not None and t is not None else t
        for n, t in spec['fields']:
            fields[n] = t
        return fields

    # ------------------------------------------------------------ attributes
    def final(self, ty):
        k = ty['k']
        if k == 'rest':
            return True
        if k == 'uni':
            return self.final(ty['of'])
        if k == 'tup':
            return bool(ty['items']) and self.final(ty['items'][-1])
        if k in ('st', 'gen'):
            c = self.cls(type_ck(ty))
            return bool(c.fields) and self.final(c.fields[-1][1])
        if k in ('lb', 'la'):
            return any(self.final(t) for t in union_types(ty))
        return False

    def find(self, ty, pred, seen=frozenset()):
        """Does any type within ty (nested classes included) match?"""
        if pred(ty):
            return True
        k = ty['k']
        if k == 'tup':
            subs = ty['items']
        elif k == 'arr':
            subs = [ty['item']]
        elif k in ('cond', 'uni'):
            subs = [ty['of']]
        elif k in ('lb', 'la'):
            subs = union_types(ty)
            if k == 'la':
                subs = subs + [ty['ahead']]
        elif k in ('st', 'gen'):
            key = ckey(type_ck(ty))
            if key in seen:
                return False
            seen = seen | {key}
            subs = [t for _, t in self.cls(type_ck(ty)).fields]
        else:
            return False
        return any(self.find(t, pred, seen) for t in subs)

    def cls_find(self, ck, pred):
        return any(self.find(t, pred) for _, t in self.cls(ck).fields)

    def cls_final(self, ck):
        f = self.cls(ck).fields
        return bool(f) and self.final(f[-1][1])

    def length_determined(self, ck):
        return not self.cls_find(ck, lambda t: t['k'] in ('net', 'term', 'rest', 'la', 'user'))

    def min_size(self, ty, env=None, seen=()):
        k = ty['k']
        if k in STRUCTISH:
            return struct.calcsize('=' + fmt(ty))
        if k == 'dyn':
            return BITS[ty['t']] // 8
        if k in ('net', 'term', 'user'):
            return 1
        if k == 'rest':
            return 0
        if k == 'uni':
            return self.min_size(ty['of'], env, seen)
        if k == 'tup':
            return sum(self.min_size(t, env, seen) for t in ty['items'])
        if k == 'arr':
            n = 0
            if ty['dsize']:
                n += BITS[ty['dsize']] // 8
            if isinstance(ty['count'], int):
                return n + ty['count'] * self.min_size(ty['item'], env, seen)
            return n + BITS[ty['count']] // 8
        if k in ('st', 'gen'):
            key = ckey(type_ck(ty))
            if key in seen:
                return 0
            return sum(self.min_size(t, None, seen + (key,))
                       for _, t in self.cls(type_ck(ty)).fields)
        if k in ('lb', 'la'):
            return min(self.min_size(t, env, seen) for t in union_types(ty))
        return 0  # cond, self

    # -------------------------------------------------------- reference codec
    def encode(self, obj):
        """The bytes of an object, by the documented layout."""
        c = self.cls(obj.ck)
        return self._seq([(t, obj.v.get(n)) for n, t in c.fields], c.bo, obj)

    def encode_as(self, obj, bo):
        """As encode, with another byte order for the object itself (but not for
        objects within it)."""
        c = self.cls(obj.ck)
        return self._seq([(t, obj.v.get(n)) for n, t in c.fields], bo, obj)

    def encode_mixed(self, obj, bo):
        """As encode, with all objects within this one derived for that byte
        order: objects go by their own."""
        self.mixed = bo
        try:
            c = self.cls(obj.ck)
            return self._seq([(t, obj.v.get(n)) for n, t in c.fields], c.bo, obj)
        finally:
            self.mixed = None

    def _seq(self, items, bo, env):
        out = []
        f, vals = '', []
        for ty, v in items:
            if ty['k'] in STRUCTISH:
                f += fmt(ty)
                if ty['k'] != 'pad':
                    vals.append(raw(ty, v))
                continue
            if f:
                out.append(pack(bo + f, vals))
                f, vals = '', []
            out.append(self.enc(ty, v, bo, env))
        if f:
            out.append(pack(bo + f, vals))
        return b''.join(out)

    def enc(self, ty, v, bo, env):
        k = ty['k']
        if k in STRUCTISH:
            return pack(bo + fmt(ty), [raw(ty, v)] if k != 'pad' else [])
        if k == 'dyn':
            return pack(bo + INTS[ty['t']], [len(v)]) + v
        if k == 'net':
            n = len(v)
            if n < 128:
                return bytes([n]) + v
            if n > 0x7FFF:
                raise Invalid('net length')
            return pack('H', [0x80 | n & 0x7F | (n & 0xFF80) << 1]) + v
        if k == 'term':
            t = bytes.fromhex(ty['b'])
            return v if v.endswith(t) else v + t
        if k == 'rest':
            return v
        if k == 'uni':
            b = codec_encode(ty['enc'], v)
            if ty['of']['k'] == 'char':
                if len(b) > ty['of']['n']:
                    raise Invalid('unicode too long')
                b = b.ljust(ty['of']['n'], b'\0')
            return self.enc(ty['of'], b, bo, env)
        if k == 'user':
            return vlq(v)
        if k == 'tup':
            if len(v) != len(ty['items']):
                raise Invalid('tuple')
            return self._seq(list(zip(ty['items'], v)), bo, env)
        if k == 'arr':
            body = b''.join(self.enc(ty['item'], x, bo, env) for x in v)
            if isinstance(ty['count'], int):
                if len(v) != ty['count']:
                    raise Invalid('array length')
                head = pack(bo + INTS[ty['dsize']], [len(body)]) if ty['dsize'] else b''
            elif ty['dsize']:
                head = pack(bo + INTS[ty['count']] + INTS[ty['dsize']], [len(v), len(body)])
            else:
                head = pack(bo + INTS[ty['count']], [len(v)])
            return head + body
        if k in ('st', 'gen', 'self'):
            return self.encode(v) if self.mixed is None else self.encode_as(v, self.mixed)
        if k == 'cond':
            return self.enc(ty['of'], v, bo, env) if cond_true(ty, env) else b''
        if k == 'lb':
            return self.enc(self.choose(ty, v, env), v, bo, env)
        if k == 'la':
            out = self.enc(self.choose(ty, v, env), v, bo, env)
            if not out.startswith(self.enc(ty['ahead'], self.head(v), bo, env)):
                raise Invalid('what is looked at is not what was packed')
            return out
        raise Invalid(k)

    def choose(self, ty, v, env):
        """The alternative of a union used for v."""
        if ty['k'] == 'lb':
            try:
                r = keyval(ty, env) % ty['mod']
            except (KeyError, TypeError):
                raise Invalid('union key') from None
            for key, t in ty['alts']:
                if key == r:
                    return t
        else:
            h = self.head(v)
            for key, t in ty['alts']:
                if j2v(key) == h:
                    return t
        if ty['default'] is None:
            raise Invalid('unmapped union value')
        return ty['default']

    def head(self, v):
        if isinstance(v, tuple):
            return v[0]
        if isinstance(v, MObj):
            return v.v[self.cls(v.ck).attrs[0]]
        raise Invalid('lookahead value')

    # --------------------------------------------------------------- checking
    def check(self, obj):
        """Raise Invalid unless obj is a canonical value of its class."""
        for _ in self.sites(obj):
            pass
        self.encode(obj)

    def sites(self, obj, path=()):
        """Every callback invocation expected while obj is processed:
        (class key, field, object, number of attributes before)."""
        c = self.cls(obj.ck)
        before = []
        for n, t in c.fields:
            if t['k'] == 'pad':
                continue
            if n not in obj.v:
                raise Invalid(f'missing {n}')
            yield from self._sites(t, obj.v[n], obj, n, tuple(before))
            before.append(n)

    def _sites(self, ty, v, env, field, before):
        k = ty['k']
        if k == 'cond':
            yield ('cond', env, field, before)
            if cond_true(ty, env):
                yield from self._sites(ty['of'], v, env, field, before)
            elif v != j2v(ty['default']):
                raise Invalid('not the default')
        elif k == 'lb':
            yield ('lb', env, field, before)
            yield from self._sites(self.choose(ty, v, env), v, env, field, before)
        elif k == 'la':
            yield ('la', env, field, before)
            yield from self._sites(self.choose(ty, v, env), v, env, field, before)
        elif k == 'tup':
            for t, x in zip(ty['items'], v):
                yield from self._sites(t, x, env, field, before)
        elif k == 'arr':
            for x in v:
                yield from self._sites(ty['item'], x, env, field, before)
        elif k in ('st', 'gen', 'self'):
            yield from self.sites(v)
        elif k == 'user' and ty.get('pre'):
            yield ('pre%d' % ty['pre'], env, field, before)


STRUCTISH = {'int', 'float', 'bool', 'char', 'pascal', 'pad', 'sas'}


def type_ck(ty):
    return ty['cls'] if ty['k'] == 'st' else [ty['cls'], ty['args']]


def union_types(ty):
    out = [t for _, t in ty['alts']]
    if ty['default'] is not None:
        out.append(ty['default'])
    return out


def fmt(ty):
    k = ty['k']
    if k in ('int',):
        return INTS[ty['t']]
    if k == 'float':
        return FLOATS[ty['t']]
    if k == 'bool':
        return '?'
    if k == 'char':
        return f"{ty['n']}s"
    if k == 'pascal':
        return f"{ty['n']}p"
    if k == 'pad':
        return f"{ty['n']}x"
    if k == 'sas':
        return fmt(ty['of'])
    raise Invalid(k)


def raw(ty, v):
    return v


def pack(f, vals):
    try:
        return struct.pack(f, *vals)
    except (struct.error, OverflowError, TypeError) as e:
        raise Invalid(f'{f}: {e}') from None


def keyval(ty, env):
    """What a decider or condition goes by: an attribute, or always the same."""
    k = ty['key']
    return k if type(k) is int else env.v[k]


def cond_true(ty, env):
    try:
        return keyval(ty, env) % ty['mod'] in ty['when']
    except (KeyError, TypeError):
        raise Invalid('condition key') from None


def vlq(n):
    out = bytearray()
    if n < 0:
        raise ValueError('negative')
    while True:
        b = n & 0x7F
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def codec_encode(enc, s):
    if enc == 'custom':
        return bytes(b ^ 0x55 for b in s.encode('utf8'))
    try:
        return s.encode(enc)
    except UnicodeError:
        raise Invalid('encoding') from None


def codec_decode(enc, b):
    if enc == 'custom':
        return bytes(x ^ 0x55 for x in b).decode('utf8')
    return b.decode(enc)


# ----------------------------------------------------------------- generation
DEFAULT_WEIGHTS = {
    'int': 6, 'float': 2, 'bool': 1, 'char': 2, 'pascal': 1, 'pad': 1, 'sas': 1,
    'dyn': 4, 'net': 2, 'term': 3, 'rest': 1, 'uni': 4, 'tup': 3, 'arr': 4,
    'st': 4, 'self': 2, 'cond': 3, 'lb': 3, 'la': 2, 'gen': 1, 'user': 1,
}
BASIC = {'int', 'float', 'bool', 'char'}


class Gen:
    """Random layouts and values.  `only`/`without` restrict the kinds."""

    def __init__(self, rng, *, without=(), classes=(1, 4), fields=(1, 6), depth=3,
                 big=0.03, swarm=True, big_max=2, generics=True, inherit=True,
                 zero_items=True, sink=None, weights=None, huge=0):
        self.r = rng
        self.w = dict(DEFAULT_WEIGHTS)
        self.w.update(weights or {})
        for k in without:
            self.w[k] = 0
        if swarm:
            for k in self.w:
                if k in BASIC:
                    continue
                if rng.random() < 0.35:
                    self.w[k] = 0
                elif rng.random() < 0.2:
                    self.w[k] *= 4
        if not generics:
            self.w['gen'] = 0
        self.without = set(without)
        self.nclasses = classes
        self.nfields = fields
        self.depth = depth
        self.big = big
        self.nodes = 0
        self.big_left = big_max
        # One string of 64 kB or more, the sizes in which things are often done
        self.huge = rng.random() < huge
        # Now and then, classes with many members, and long chains of Self
        self.wide = rng.random() < 0.015
        self.chain = rng.randint(8, 24) if rng.random() < 0.02 else 0
        self.inherit = inherit
        self.zero_items = zero_items
        self.classes = []
        self.L = Layout(self.classes)
        self.fid = 0
        self.spec_args = {}     # by generic class
        self.def_bo = ''
        # Names that code handling classes and values may use itself
        self.odd = ['cls', 'size', 'values', 'value', 'obj', 'item', 'self_', 'buffer', 'offset',
                    'data', 'proxy']
        rng.shuffle(self.odd)

    # ---- classes
    def gen(self):
        r = self.r
        n = r.randint(*self.nclasses)
        common = r.choice(ORDERS) if r.random() < 0.5 else None
        while len(self.concrete()) < n:
            self.add_class(common)
            if len(self.classes) > 3 * n + 3:
                break
        return self.classes

    def concrete(self):
        return [i for i in range(len(self.classes)) if self.usable(i)]

    def usable(self, ci):
        return not self.classes[ci].get('tv') and bool(self.L.cls(ci).attrs)

    def name(self):
        self.fid += 1
        if self.odd and self.r.random() < 0.08:
            return self.odd.pop()
        return f'f{self.fid}'

    def add_class(self, common):
        r = self.r
        bo = common if common is not None and r.random() < 0.8 else r.choice(ORDERS)
        bases = [i for i in range(len(self.classes)) if not self.classes[i].get('tv')
                 and not self.L.cls_final(i)]
        gens = [i for i in range(len(self.classes)) if self.classes[i].get('tv')]
        spec = {'bo': bo, 'base': None, 'fields': [], 'form': 'plain'}
        x = r.random()
        inherited = []
        if self.w['gen'] and x < 0.15:
            self.generic(spec)
            self.push(spec)
            return
        elif self.w['gen'] and gens and x < 0.35:
            g = r.choice(gens)
            spec['base'] = g
            spec['args'] = self.gen_args(g)
            spec['bo'] = self.classes[g]['bo'] if r.random() < 0.8 else bo
            raw_ = Layout(self.classes + [spec]).raw_fields(len(self.classes))
            inherited = list(raw_.items())
        elif self.inherit and bases and x < 0.6:
            b = r.choice(bases)
            spec['base'] = b
            spec['bo'] = self.classes[b]['bo'] if r.random() < 0.7 else bo
            inherited = list(self.L.raw_fields(b).items())
        fields = [(n, t) for n, t in inherited if t is not None]
        self.def_bo = spec['bo']
        if any(self.L.final(t) for n, t in fields):
            self.push(spec)
            return
        # override some inherited member
        if inherited and self.zero_items and r.random() < 0.4:
            used = self.keys_used(fields)
            cand = [i for i, (n, t) in enumerate(fields)
                    if n not in used and t['k'] != 'pad']
            if cand:
                i = r.choice(cand)
                env = fields[:i]
                if r.random() < 0.15 and len([1 for _, t in fields if t['k'] != 'pad']) > 1:
                    spec['fields'].append([fields[i][0], None])  # removed
                    fields.pop(i)
                else:
                    ty = self.ty(0, env, last=False, owner=spec)
                    if ty['k'] != 'pad':
                        spec['fields'].append([fields[i][0], ty])
                        fields[i] = (fields[i][0], ty)
        lo = 0 if inherited else 1
        nf = r.randint(*self.nfields)
        if inherited:
            nf = max(lo, nf - 2)
        if self.wide and r.random() < 0.5:
            nf = r.randint(12, 50)
        alone = not inherited and r.random() < 0.1
        if alone:
            nf = 1      # its serializer is that of the class
        for j in range(nf):
            if alone:
                ty = self.ty(0, fields, last=True, owner=spec,
                             no=('int', 'float', 'bool', 'char', 'pascal', 'pad'))
            elif nf > 8 and r.random() < 0.7:
                ty = self.basic()
            else:
                ty = self.ty(0, fields, last=j == nf - 1, owner=spec)
            n = self.name()
            if ty['k'] == 'pad' and r.random() < 0.7:
                n = '_'
            spec['fields'].append([n, ty])
            fields.append((n, ty))
        # '_' pads get unique names in the model too
        out = []
        for n, t in spec['fields']:
            out.append([f'_pad{self.name()}' if n == '_' else n, t])
        spec['fields'] = out
        if not any(t is not None and t['k'] != 'pad' for _, t in fields):
            spec['fields'].append([self.name(), self.basic()])
        x = r.random()
        if x < 0.15:
            spec['form'] = 'init'
        elif x < 0.25:
            spec['form'] = 'postinit'
        elif x < 0.32 and spec['base'] is None and not any(
                t['k'] == 'pad' for _, t in spec['fields']):
            spec['form'] = 'dataclass'
        self.push(spec)
        if self.L.cls_final(len(self.classes) - 1) and any(
                t['k'] == 'self' or self.L.find(t, lambda u: u['k'] == 'self', frozenset(
                    map(ckey, range(len(self.classes) - 1))))
                for _, t in self.L.cls(len(self.classes) - 1).fields):
            # It would take everything in the middle of itself
            self.classes.pop()
            self.L._cache.clear()

    def keys_used(self, fields):
        used = set()

        def walk(t):
            if t['k'] in ('cond', 'lb'):
                used.add(t['key'])
            for x in t.values():
                if isinstance(x, dict) and 'k' in x:
                    walk(x)
                elif isinstance(x, list):
                    for y in x:
                        if isinstance(y, dict) and 'k' in y:
                            walk(y)
                        elif isinstance(y, list):
                            for z in y:
                                if isinstance(z, dict) and 'k' in z:
                                    walk(z)
        for _, t in fields:
            walk(t)
        return used

    def push(self, spec):
        self.classes.append(spec)
        self.L._cache.clear()

    def generic(self, spec):
        """A generic class: parameters 0 and 2 are any type, parameter 1 a size."""
        r = self.r
        spec['tv'] = n = r.choice([1, 1, 2, 2, 2, 3, 3])
        forms = ['tv', 'tup', 'arrany']
        if n > 1:
            forms += ['arrsize', 'dyn', 'uni', 'arrboth']
        size = {'tv': 1}
        gens = [i for i in range(len(self.classes)) if self.classes[i].get('tv')]
        if gens:
            forms.append('gen')
        used = set()

        def any_():
            i = 2 if n > 2 and r.random() < 0.5 else 0
            used.add(i)
            return {'k': 'tv', 'i': i}

        def some_args(g):
            return [{'k': 'tv', 'i': 1} if i == 1 and n > 1 else
                    {'k': 'int', 't': r.choice(list(UINTS))} if i == 1 else
                    any_() if not i or r.random() < 0.7 else self.basic()
                    for i in range(self.classes[g]['tv'])]
        if gens and r.random() < 0.4:
            # Derived from another one, some of its parameters given
            spec['base'] = g = r.choice(gens)
            if r.random() < 0.8:
                spec['bo'] = self.classes[g]['bo']
            spec['args'] = some_args(g)
        for _ in range(r.randint(1, 3)):
            f = r.choice(forms)
            if f == 'tv':
                t = any_()
            elif f == 'tup':
                t = {'k': 'tup', 'items': [any_(), self.basic()]}
                if r.random() < 0.4:
                    t['items'].insert(r.randint(0, 2), {
                        'k': 'arr', 'count': size if n > 1 and r.random() < 0.5 else 'uint8',
                        'dsize': None, 'item': any_()})
            elif f == 'arrany':
                t = {'k': 'arr', 'count': r.choice([2, 'uint8', 'uint16']),
                     'dsize': size if n > 1 and r.random() < 0.3 else None, 'item': any_()}
            elif f == 'arrsize':
                t = {'k': 'arr', 'count': size, 'dsize': r.choice([None, None, size, 'uint16']),
                     'item': self.basic()}
            elif f == 'arrboth':
                t = {'k': 'arr', 'count': size, 'dsize': r.choice([None, None, size, 'uint16']),
                     'item': any_()}
            elif f == 'dyn':
                t = {'k': 'dyn', 't': size}
            elif f == 'uni':
                t = {'k': 'uni', 'of': {'k': 'dyn', 't': size}, 'enc': 'utf8'}
            else:
                g = r.choice(gens)
                t = {'k': 'gen', 'cls': g, 'args': some_args(g)}
            spec['fields'].append([self.name(), t])
        if 0 not in used:
            spec['fields'].append([self.name(), {'k': 'tv', 'i': 0}])
        if n > 2 and 2 not in used:
            spec['fields'].append([self.name(), {'k': 'tv', 'i': 2}])
        if r.random() < 0.4:
            spec['fields'].append([self.name(), self.basic()])

    def gen_args(self, g):
        r = self.r
        n = self.classes[g]['tv']
        had = self.spec_args.setdefault(g, [])
        if had and r.random() < 0.45:
            # Much like an earlier one
            args = list(r.choice(had))
            x = r.random()
            if x < 0.5 and n > 1 and args[0]['k'] == 'int' and args[0]['t'] in UINTS:
                args[0], args[1] = args[1], args[0]
            elif x < 0.8 and n > 2:
                args[0], args[2] = args[2], args[0]
            had.append(args)
            return args
        args = [{'k': 'int', 't': r.choice(['uint8', 'uint16', 'uint32'])} if i == 1 or
                n > 1 and r.random() < 0.2 else self.generic_arg() for i in range(n)]
        had.append(args)
        return args

    def generic_arg(self):
        """An argument for an `any` parameter: hashable as a hint, not final."""
        for _ in range(20):
            t = self.ty(self.depth - 1, [], last=False, owner=None)
            if t['k'] in ('pad', 'cond', 'lb', 'la', 'self', 'gen', 'rest', 'tup', 'sas'):
                continue
            if self.L.final(t):
                continue
            return t
        return self.basic()

    # ---- types
    def basic(self):
        r = self.r
        x = r.random()
        if x < 0.65:
            return {'k': 'int', 't': r.choice(list(INTS))}
        if x < 0.8:
            return {'k': 'float', 't': r.choice(list(FLOATS))}
        if x < 0.88:
            return {'k': 'bool'}
        return {'k': 'char', 'n': r.choice([1, 1, 2, 3, 5, 8])}

    def ty(self, depth, env, last, owner, item=False, no=()):
        """A random type.  `env` are the fields before it (for keys); `last`
        allows final types; `owner` is the class being defined (for Self)."""
        r = self.r
        keys = [n for n, t in env if t is not None and t['k'] == 'int' and n[0] != '_']
        always = r.randint(0, 5) if r.random() < 0.3 else None
        for _ in range(50):
            w = dict(self.w)
            if depth >= self.depth:
                for k in ('tup', 'arr', 'st', 'self', 'lb', 'la', 'gen', 'cond'):
                    w[k] = 0
            if depth > 0:
                w['pad'] = 0
            if not last:
                w['rest'] = 0
            elif depth == 0 and w['rest']:
                w['rest'] *= 3
            if not keys and (always is None or not self.zero_items):
                w['cond'] = w['lb'] = 0
            if item:
                w['cond'] = 0
            if owner is None or owner.get('tv'):
                w['self'] = 0
            if not self.concrete():
                w['st'] = 0
            if not any(c.get('tv') for c in self.classes):
                w['gen'] = 0
            for k in no:
                w[k] = 0
            kinds = [k for k in w if w[k]]
            k = r.choices(kinds, [w[k] for k in kinds])[0]
            if k in ('cond', 'lb') and not keys:
                t = self.make(k, depth, env, [always], last, owner)
            else:
                t = self.make(k, depth, env, keys, last, owner)
            if t is not None and (last or not self.L.final(t)):
                return t
        return self.basic()

    def make(self, k, depth, env, keys, last, owner):
        r = self.r
        if k in ('int', 'float', 'bool', 'char'):
            if k == 'int':
                return {'k': 'int', 't': r.choice(list(INTS))}
            if k == 'float':
                return {'k': 'float', 't': r.choice(list(FLOATS))}
            if k == 'bool':
                return {'k': 'bool'}
            n = r.choice([1, 1, 2, 3, 4, 7, 16, 0 if self.zero_items else 6, 33])
            return {'k': 'char', 'n': n}
        if k == 'pascal':
            return {'k': 'pascal', 'n': r.choice([1, 2, 5, 10, 40, 256, 300]
                                                 if self.zero_items else [2, 5, 10, 40])}
        if k == 'pad':
            return {'k': 'pad', 'n': r.choice([1, 1, 2, 3, 4, 7, 12])}
        if k == 'sas':
            of = self.basic()
            how = r.choice(['class', 'factory', 'factory2', 'enum'])
            if of['k'] not in ('int', 'float'):
                of = {'k': 'int', 't': r.choice(list(INTS))}
            if of['k'] == 'float' and how == 'enum':
                how = 'factory'
            return {'k': 'sas', 'of': of, 'how': how}
        if k == 'dyn':
            return {'k': 'dyn', 't': r.choice(['uint8', 'uint8', 'uint16', 'uint32', 'uint64'])}
        if k == 'net':
            return {'k': 'net'}
        if k == 'term':
            return {'k': 'term', 'b': r.choice(['00', '00', '00', '0a', '7c', 'ff', '80', '41'])}
        if k == 'rest':
            return {'k': 'rest'}
        if k == 'user':
            return {'k': 'user', 'pre': r.choice([1, 2, 3])} if r.random() < 0.6 else {'k': 'user'}
        if k == 'uni':
            return self.uni(last)
        if k == 'tup':
            n = r.choice([1, 2, 2, 3, 4])
            return {'k': 'tup', 'items': [
                self.ty(depth + 1, env, last and i == n - 1, owner) for i in range(n)]}
        if k == 'arr':
            # The decider for packing a lookahead finds its value by position
            la, self.w['la'] = self.w['la'], 0
            try:
                item = self.basic() if r.random() < 0.3 else self.ty(
                               depth + 1, env, False, owner, item=not self.zero_items,
                               no=() if self.zero_items else
                               ('cond', 'lb') if keys else ('cond', 'lb', 'self'))
            finally:
                self.w['la'] = la
            if item['k'] == 'pad':
                return None
            if not self.zero_items and self.L.min_size(item) < 1 and item['k'] != 'self':
                return None     # (the class itself has a key)
            x = r.random()
            if x < 0.3:
                count = r.choice([0, 1, 2, 3, 5])
                dsize = r.choice([None, None, 'uint16', 'uint32', 'uint8'])
            else:
                count = r.choice(['uint8', 'uint8', 'uint16', 'uint32', 'uint64'])
                dsize = r.choice([None, None, None, 'uint8', 'uint16', 'uint32', 'uint64'])
            if isinstance(count, int) and count == 0 and not self.zero_items:
                count = 1
            if item['k'] == 'self' and isinstance(count, int):
                count = 'uint8'
            return {'k': 'arr', 'count': count, 'dsize': dsize, 'item': item}
        if k == 'st':
            cands = [i for i in self.concrete() if last or not self.L.cls_final(i)]
            return {'k': 'st', 'cls': r.choice(cands)} if cands else None
        if k == 'gen':
            g = r.choice([i for i in range(len(self.classes)) if self.classes[i].get('tv')])
            return {'k': 'gen', 'cls': g, 'args': self.gen_args(g)}
        if k == 'self':
            # Needs a way to end: a counted array, or a condition
            if keys and r.random() < 0.4:
                return {'k': 'cond', 'of': {'k': 'self'}, 'key': r.choice(keys), 'mod': 3,
                        'when': [1], 'default': 0}
            item = {'k': 'self'}
            if keys and r.random() < 0.4:
                other = self.basic()
                item = {'k': 'lb', 'key': r.choice(keys), 'mod': 3,
                        'alts': [[0, {'k': 'self'}], [1, other]],
                        'default': {'k': 'dyn', 't': 'uint8'}}
            elif r.random() < 0.25:
                item = {'k': 'tup', 'items': [self.basic(), item]}
            return {'k': 'arr', 'count': r.choice(['uint8', 'uint16']),
                    'dsize': r.choice([None, None, 'uint16', 'uint32']), 'item': item}
        if k == 'cond':
            of = self.ty(depth + 1, env, False, owner, no=('pad', 'rest'))
            if of['k'] in ('pad', 'cond', 'self'):
                return None
            mod = r.choice([2, 2, 3, 4])
            when = sorted(r.sample(range(mod), r.randint(1, mod - 1)))
            t = {'k': 'cond', 'of': of, 'key': r.choice(keys), 'mod': mod, 'when': when}
            t['default'] = self.default_for(of)
            return t if t['default'] is not NOVAL else None
        if k == 'lb':
            n = r.choice([2, 2, 3, 4])
            mod = r.choice([n, n, n + 1])
            types = []
            for _ in range(n):
                for _ in range(5):
                    t = self.ty(depth + 1, env, last, owner, no=('cond', 'pad', 'self'))
                    if all(json.dumps(t) != json.dumps(u) for u in types):
                        types.append(t)
                        break
            if len(types) < 2:
                return None
            n = len(types)
            mod = max(mod, n)
            alts = [[i, t] for i, t in enumerate(types)]
            default = None
            if mod > n:
                default = self.ty(depth + 1, env, last, owner, no=('cond', 'pad', 'self'))
            elif r.random() < 0.3:
                default = alts.pop()[1]
            return {'k': 'lb', 'key': r.choice(keys), 'mod': mod, 'alts': alts,
                    'default': default}
        if k == 'la':
            return self.lookahead(depth, env, last, owner)
        raise AssertionError(k)

    def uni(self, last):
        r = self.r
        x = r.random()
        enc = r.choice(['utf8', 'utf8', 'ascii', 'latin-1', 'utf-16-le', 'utf-16-be', 'custom',
                        'utf-16', 'utf-8-sig'])
        kinds = [k for k in ('char', 'dyn', 'net', 'term', 'rest')
                 if k in ('char', 'dyn') and k not in self.without or self.w[k]]
        if not last and 'rest' in kinds:
            kinds.remove('rest')
        k = r.choice(kinds or ['dyn'])
        of = self.make(k, 0, [], [], last, None)
        if k == 'char':
            of = {'k': 'char', 'n': r.choice([1, 2, 4, 10, 32])}
            if enc == 'custom':
                enc = 'utf8'
            if enc.startswith('utf-16'):
                of['n'] = max(2, of['n'] // 2 * 2)
            if enc in ('utf-16', 'utf-8-sig'):
                of['n'] = max(4, of['n'])
        if k == 'term':
            t = bytes.fromhex(of['b'])[0]
            if enc.startswith('utf-16') or enc == 'custom':
                enc = 'utf8'
            if t >= 0x80:
                enc = 'ascii'
        return {'k': 'uni', 'of': of, 'enc': enc}

    def default_for(self, ty):
        """JSON value of a condition's default."""
        k = ty['k']
        if k in ('st', 'gen', 'self'):
            return {'t': []} if False else 0
        if k in ('lb', 'la'):
            return 0
        if k == 'int' or k == 'sas' or k == 'user':
            return 0 if k != 'sas' else NOVAL
        if k == 'float':
            return {'f': (0.0).hex()}
        if k == 'bool':
            return False
        if k in ('char', 'pascal', 'dyn', 'net', 'term'):
            return {'b': self.r.choice(['', '00', '616263'])}
        if k == 'uni':
            return {'s': ''}
        if k == 'tup':
            return {'t': []}
        if k == 'arr':
            return []
        return 0

    def lookahead(self, depth, env, last, owner):
        """Alternatives are tuples or classes that start with the value looked
        at."""
        r = self.r
        n = r.choice([2, 2, 3])
        bo = self.def_bo
        x = r.random()
        if x < 0.4:
            ahead = {'k': 'int', 't': r.choice(['uint8', 'int8', 'uint16', 'uint32'])}
        elif x < 0.65:
            ahead = {'k': 'char', 'n': r.choice([1, 2, 4])}
        elif x < 0.85 and self.w['dyn']:
            ahead = {'k': 'dyn', 't': r.choice(['uint8', 'uint16'])}
        elif self.w['term']:
            ahead = {'k': 'term', 'b': '00'}
        else:
            ahead = {'k': 'uni', 'of': {'k': 'dyn', 't': 'uint8'}, 'enc': 'utf8'}
        heads = []
        for _ in range(n + 1):
            for _ in range(8):
                h = self.small(ahead)
                if h not in heads:
                    heads.append(h)
                    break
        types = []
        sts = [i for i in self.concrete() if self.L.cls(i).fields[0][1] == ahead
               and self.L.cls(i).bo == bo and not self.L.cls_final(i)]
        for i in range(len(heads)):
            if sts and r.random() < 0.5:
                types.append({'k': 'st', 'cls': r.choice(sts)})
            else:
                m = r.choice([0, 1, 1, 2])
                types.append({'k': 'tup', 'items': [ahead] + [
                    self.ty(max(depth + 1, self.depth - 1), env, False, None,
                            no=('cond', 'pad', 'self')) for _ in range(m)]})
        uniq = []
        for t in types:
            if all(json.dumps(t) != json.dumps(u) for u in uniq):
                uniq.append(t)
        if len(uniq) < 2 or len(heads) < len(uniq):
            return None
        default = uniq.pop() if len(uniq) > 2 and r.random() < 0.5 else None
        if len(uniq) < 1 or len(uniq) + (default is not None) < 2:
            return None
        alts = [[v2j(h), t] for h, t in zip(heads, uniq)]
        t = {'k': 'la', 'ahead': ahead, 'alts': alts, 'default': default}
        if default is not None:
            spare = heads[len(uniq)] if len(heads) > len(uniq) else None
            if spare is None:
                return None
            t['spare'] = v2j(spare)
        elif r.random() < 0.4:
            # There to be used only by mistake: shorter than what is looked at
            t['default'] = r.choice([{'k': 'int', 't': 'uint8'}, {'k': 'char', 'n': 1},
                                     {'k': 'char', 'n': 0}])
        return t

    # ---- values
    def small(self, ty):
        """A short value for a basic or string type."""
        b, self.big = self.big, 0
        try:
            return self.val(ty, None, 0)
        finally:
            self.big = b

    def length(self, limit=None):
        r = self.r
        if self.big_left > 0 and r.random() < self.big:
            self.big_left -= 1
            n = r.choice([126, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 511, 512,
                          513, 700, 1023, 1024, 1025, 2000, 4097])
        elif r.random() < 0.15:
            n = r.randint(7, 40)
        else:
            n = r.choice([0, 1, 1, 2, 3, 4, 5, 6])
        return n if limit is None else min(n, limit)

    def strlen(self, limit=None):
        if self.huge and self.big and (limit is None or limit > 255):
            if self.r.random() < 0.4:
                self.huge = False
                n = self.r.choice([65534, 65535, 65536, 65537, 70000, 131072, 131073, 1 << 20,
                                   (1 << 20) + 1, (1 << 20) + 40000])
                return n if limit is None else min(n, limit)
        return self.length(limit)

    def data(self, n, avoid=None):
        r = self.r
        if n > 40:
            unit = bytes(r.randrange(256) for _ in range(r.choice([1, 2, 3, 5, 7, 13])))
            if avoid is not None:
                unit = bytes(b if b != avoid else (b + 1) % 256 for b in unit)
            return (unit * (n // len(unit) + 1))[:n]
        pool = r.choice(['all', 'all', 'ascii', 'zero'])
        out = bytearray()
        for _ in range(n):
            if pool == 'all':
                b = r.randrange(256)
            elif pool == 'ascii':
                b = r.randrange(32, 127)
            else:
                b = r.choice([0, 0, 255, 1, 0x80])
            if b == avoid:
                b = (b + 1) % 256
            out.append(b)
        return bytes(out)

    def text(self, n, enc, avoid=None):
        r = self.r
        if enc == 'ascii':
            chars = 'abcXYZ 019~|\n'
        elif enc == 'latin-1':
            chars = 'abcXYZ 0\xe9\xff~|\n'
        else:
            chars = 'abcXYZ 0~|\n\xe9\u20ac\U0001f600'
        if avoid is not None:
            chars = ''.join(c for c in chars if ord(c) != avoid)
        if n > 40:
            unit = ''.join(r.choice(chars) for _ in range(r.choice([1, 2, 3, 5, 7])))
            s = (unit * (n // len(unit) + 1))[:n]
        else:
            s = ''.join(r.choice(chars) for _ in range(n))
        if n > 1 and avoid != 0 and r.random() < 0.08:
            # Only those at the end are not part of it
            i = r.randrange(n - 1) if r.random() < 0.4 else 0
            s = s[:i] + '\0' + s[i + 1:]
        return s

    def val(self, ty, env, depth):
        r = self.r
        k = ty['k']
        if k == 'int':
            return self.int_val(ty['t'])
        if k == 'sas':
            if ty['how'] == 'enum':
                return r.choice([0, 1, 2, 7])
            return self.val(ty['of'], env, depth)
        if k == 'float':
            f = FLOATS[ty['t']]
            n = struct.calcsize('=' + f)
            if r.random() < 0.3:
                return r.choice([0.0, -0.0, 1.0, -1.5, math.inf, -math.inf, 0.25])
            while True:
                v = struct.unpack('<' + f, r.randbytes(n))[0]
                if not math.isnan(v):
                    return v
        if k == 'bool':
            return r.random() < 0.5
        if k == 'char':
            return self.data(ty['n'])
        if k == 'pascal':
            return self.data(r.randint(0, min(ty['n'] - 1, 255)))
        if k == 'dyn':
            return self.data(self.strlen({'uint8': 255, 'uint16': 65535}.get(ty['t'])))
        if k == 'net':
            n = self.length()
            if self.big and r.random() < 0.004:
                n = r.choice([0x7FFF, 0x7FFE, 16384, 16383])
            return self.data(n)
        if k == 'term':
            return self.data(self.length(), int(ty['b'], 16))
        if k == 'rest':
            return self.data(self.strlen())
        if k == 'user':
            return r.choice([0, 1, 127, 128, 300, 16384, 2**31, 2**63])
        if k == 'uni':
            return self.uni_val(ty)
        if k == 'tup':
            return tuple(self.val(t, env, depth) for t in ty['items'])
        if k == 'arr':
            if isinstance(ty['count'], int):
                n = ty['count']
            else:
                n = self.length(255 if ty['count'] == 'uint8' else None)
                if self.huge and ty['count'] != 'uint8' and ty['item']['k'] in ('int', 'char') \
                        and r.random() < 0.1:
                    self.huge = False
                    n = r.choice([65535, 65536, 65537]) if ty['count'] != 'uint16' else 65535
                selfish = self.L.find(ty['item'], lambda t: t['k'] == 'self')
                if selfish and self.chain:
                    n = int(depth < self.chain)
                elif selfish:
                    n = 0 if depth >= 3 else min(n, max(0, r.randint(0, 3 - depth)))
                elif ty['item']['k'] not in STRUCTISH:
                    n = min(n, 300 if n > 40 and depth == 0 and r.random() < 0.3 else
                            6 if depth < 2 else 2)
                if n > 40:
                    unit = [self.val(ty['item'], env, depth) for _ in range(r.choice([1, 2, 3, 7]))]
                    v = (unit * (n // len(unit) + 1))[:n]
                    if ty['dsize'] in ('uint8', 'uint16'):
                        size = sum(len(self.L.enc(ty['item'], x, self.cur_bo, env)) for x in unit)
                        if size * (n // len(unit) + 1) >= 1 << BITS[ty['dsize']]:
                            raise Retry
                    return v
            for _ in range(4):
                v = [self.val(ty['item'], env, depth) for _ in range(n)]
                if ty['dsize'] in ('uint8', 'uint16'):
                    size = sum(len(self.L.enc(ty['item'], x, self.cur_bo, env)) for x in v)
                    if size >= 1 << BITS[ty['dsize']]:
                        if isinstance(ty['count'], int):
                            self.big_left = 0
                        n = n if isinstance(ty['count'], int) else 0
                        continue
                return v
            raise Retry
        if k == 'st':
            return self.obj(ty['cls'], depth + 1)
        if k == 'gen':
            return self.obj(type_ck(ty), depth + 1)
        if k == 'self':
            return self.obj(env.ck, depth + 1)
        if k == 'cond':
            if not cond_true(ty, env):
                return j2v(ty['default'])
            return self.val(ty['of'], env, depth)
        if k == 'lb':
            try:
                t = self.L.choose(ty, None, env)
            except Invalid:
                raise Retry from None
            return self.val(t, env, depth)
        if k == 'la':
            opts = [(j2v(h), t) for h, t in ty['alts']]
            if ty['default'] is not None and 'spare' in ty:
                opts.append((j2v(ty['spare']), ty['default']))
            h, t = r.choice(opts)
            v = self.val(t, env, depth)
            if isinstance(v, tuple):
                return (h,) + v[1:]
            # The head may be the key of a condition: make the rest anew
            return self.obj(v.ck, depth + 1, {self.L.cls(v.ck).attrs[0]: h})
        raise AssertionError(k)

    def int_val(self, t):
        r = self.r
        bits = BITS[t]
        lo, hi = (0, 2**bits - 1) if t[0] == 'u' else (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1)
        x = r.random()
        if x < 0.45:
            return r.randint(0, 8)
        if x < 0.55:
            return r.choice([lo, hi, hi - 1, lo + 1])
        return r.randint(lo, hi)

    def uni_val(self, ty):
        of, enc = ty['of'], ty['enc']
        k = of['k']
        avoid = int(of['b'], 16) if k == 'term' else None
        n = self.strlen() if k in ('dyn', 'rest') and of.get('t') != 'uint16' else self.length()
        if k == 'char':
            n = min(n, of['n'])
        s = self.text(n, enc, avoid)
        limit = {'char': of.get('n'), 'net': 0x7FFF}.get(k)
        if k == 'dyn' and of['t'] == 'uint8':
            limit = 255
        while limit is not None and len(codec_encode(enc, s)) > limit:
            s = s[: -max(1, len(s) // 8)].rstrip('\0')
        return s

    def obj(self, ck, depth=0, fixed=None):
        if depth:
            return self._obj(ck, depth, fixed)
        for _ in range(12):
            try:
                self.nodes = 0
                o = self._obj(ck, depth, fixed)
                self.L.check(o)
                return o
            except (Retry, Invalid):
                self.big_left = 0
        raise Retry

    def _obj(self, ck, depth, fixed=None):
        self.nodes += 1
        if depth > max(9, self.chain + 5) or self.nodes > 300:
            raise Retry     # a class within itself that does not come to an end
        c = self.L.cls(ck)
        o = MObj(ck, {})
        selfcond = {t['key'] for _, t in c.fields if t['k'] == 'cond' and t['of']['k'] == 'self'}
        for n, t in c.fields:
            if t['k'] == 'pad':
                continue
            self.cur_bo = c.bo
            if fixed and n in fixed:
                o.v[n] = fixed[n]
                continue
            v = self.val(t, o, depth)
            if n in selfcond and depth < self.chain and v % 3 != 1 and -4 < v < 100:
                v = 1
            if n in selfcond and depth >= (self.chain or 3) and depth >= 3 and v % 3 == 1:
                v += 1 if v + 1 < 100 else -1
            o.v[n] = v
            self.cur_bo = c.bo
        return o


class Retry(Exception):
    pass


NOVAL = object()


def describe(ty):
    k = ty['k']
    if k in ('int', 'float'):
        return ty['t']
    if k in ('char', 'pascal', 'pad'):
        return f"{k}[{ty['n']}]"
    if k == 'dyn':
        return f"char[{ty['t']}]"
    if k == 'term':
        return f"char[x{ty['b']}]"
    if k == 'uni':
        return f"unicode[{describe(ty['of'])},{ty['enc']}]"
    if k == 'tup':
        return 'tuple[' + ','.join(map(describe, ty['items'])) + ']'
    if k == 'arr':
        return f"array[{ty['count']}{',' + ty['dsize'] if ty['dsize'] else ''};{describe(ty['item'])}]"
    if k == 'st':
        return f"K{ty['cls']}"
    if k == 'gen':
        return f"K{ty['cls']}[" + ','.join(map(describe, ty['args'])) + ']'
    if k == 'cond':
        return f"({describe(ty['of'])} if {ty['key']}%{ty['mod']} in {ty['when']})"
    if k in ('lb', 'la'):
        on = f"{ty['key']}%{ty['mod']}" if k == 'lb' else describe(ty['ahead'])
        d = f"|else:{describe(ty['default'])}" if ty['default'] else ''
        return f"{{{on}: " + '|'.join(f'{a}:{describe(t)}' for a, t in ty['alts']) + d + '}'
    if k == 'sas':
        return f"as[{describe(ty['of'])}]"
    return k


def describe_cls(spec, i):
    base = '' if spec['base'] is None else f"(K{spec['base']})"
    fields = ', '.join(f'{n}: {describe(t) if t else None}' for n, t in spec['fields']
                       if t is None or not has_tv(t))
    return f"K{i}{base}<{spec['bo'] or 'default'}> {fields}"
