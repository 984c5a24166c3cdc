"""Makes real classes and values of the library from layout descriptions."""

import dataclasses
import enum
import json
import math
import types
import typing

from . import lib
from .layout import (Invalid, Layout, MObj, ckey, codec_decode, codec_encode, cond_true, has_tv, j2v,
                     type_ck, vlq)

lib.load()

import structured as S  # noqa: E402
from structured import Structured  # noqa: E402

try:
    Self = typing.Self
except AttributeError:  # pragma: no cover
    from typing_extensions import Self

ANY = typing.TypeVar('ANY')
SIZE = typing.TypeVar('SIZE')
TVARS = (ANY, SIZE, typing.TypeVar('ALSO'))
ORDER = {o.value: o for o in S.ByteOrder}


class Level(enum.IntEnum):
    ZERO = 0
    ONE = 1
    TWO = 2
    SEVEN = 7


class Hooks:
    """What user code called by the library does; replaced by the checks."""

    def call(self, kind, *args):
        return None


STRINGS = ('char', 'pascal', 'dyn', 'net', 'term', 'rest')


def looks_ahead(ty):
    if ty['k'] == 'cond':
        return looks_ahead(ty['of'])
    return ty['k'] == 'la' or ty['k'] == 'lb' and any(
        looks_ahead(t) for t in [t for _, t in ty['alts']] + [ty['default']] if t)


class World:
    """The real classes of a layout.  Definition may be done one by one."""

    S = S

    def __init__(self, specs, hooks=None, define=True, prefix='K'):
        self.L = Layout(specs)
        self.specs = specs
        self.hooks = hooks or Hooks()
        VLQ.hooks = self.hooks
        self.cls = {}
        self.prefix = prefix
        self.gencls = {}
        self.sas = {}
        self.names = None       # of the classes, not necessarily distinct
        self.shared = None      # hints by description, where classes share them
        self.racy = False       # classes are being defined by several threads
        self.ba = 0     # give 1: bytearrays where strings are packed; 2: terminated
                        # strings with their terminator
        if define:
            for i in range(len(specs)):
                self.define(i)

    # ------------------------------------------------------------ definitions
    def define(self, ci):
        spec = self.specs[ci]
        name = self.names[ci % len(self.names)] if self.names else f'{self.prefix}{ci}'
        hooks = self.hooks
        kwds = {'byte_order': ORDER[spec['bo']]}
        if spec.get('tv'):
            bases = (typing.Generic[TVARS[: spec['tv']]],)
            if spec['base'] is None:
                bases += (Structured,)
            else:
                bases = (self.cls[spec['base']][tuple(
                    self.hint(a, None) for a in spec['args'])],) + bases
                if self.specs[spec['base']]['bo'] != spec['bo']:
                    kwds['byte_order_mode'] = S.ByteOrderMode.OVERRIDE
        elif spec['base'] is not None:
            base = self.cls[spec['base']]
            if spec.get('args') is not None:
                bases = (base[tuple(self.hint(a, None) for a in spec['args'])],)
            else:
                bases = (base,)
            if self.specs[spec['base']]['bo'] != spec['bo']:
                kwds['byte_order_mode'] = S.ByteOrderMode.OVERRIDE
        else:
            bases = (Structured,)
        form = spec.get('form', 'plain')
        if form in ('init', 'dataclass'):
            kwds['init'] = False
        hints = [(n, None if t is None else self.hint(t, (ci, n, ())))
                 for n, t in spec['fields']]

        def body(ns):
            ns['__module__'] = __name__
            ann = ns['__annotations__']
            for n, h in hints:
                ann['_' if n.startswith('_pad') else n] = h
            if form == 'init':
                def __init__(self, *args):
                    for n, a in zip(type(self).attrs, args, strict=True):
                        setattr(self, n, a)
                    hooks.call('init', self)
                ns['__init__'] = __init__
            elif form == 'postinit':
                def __post_init__(self):
                    hooks.call('post_init', self)
                ns['__post_init__'] = __post_init__

        cls = types.new_class(name, bases, kwds, body)
        if form == 'dataclass':
            cls = dataclasses.dataclass(cls)
        self.cls[ci] = cls
        return cls

    def hint(self, ty, site):
        """The type hint for a type.  `site` = (class index, field, path)."""
        if self.shared is None:
            return self.make_hint(ty, site)
        key = json.dumps([ty, site and site[1:]], sort_keys=True)
        got = self.shared.get(key)
        if got is None:
            got = self.shared[key] = self.make_hint(ty, site)
        return got

    def fork(self, prefix=None, hints=True):
        """A world with the same classes so far, defining its own from now;
        its hints remain those of this one, or become its own."""
        w = object.__new__(type(self))
        w.__dict__.update(self.__dict__)
        for k in ('cls', 'gencls') if hints else ('cls', 'gencls', 'sas', 'shared'):
            if w.__dict__[k] is not None:
                w.__dict__[k] = dict(w.__dict__[k])
        if prefix is not None:
            w.prefix = prefix
        return w

    def make_hint(self, ty, site):
        k = ty['k']
        if k in ('int', 'float'):
            return getattr(S, ty['t'])
        if k == 'bool':
            return S.bool8
        if k == 'char':
            return S.char[ty['n']]
        if k == 'pascal':
            return S.pascal[ty['n']]
        if k == 'pad':
            return S.pad[ty['n']]
        if k in ('dyn', 'net', 'term', 'rest'):
            return S.char[self.strarg(ty)]
        if k == 'uni':
            return S.unicode[self.strarg(ty['of']), self.encoding(ty['enc'])]
        if k == 'user':
            return PREPARING[ty['pre']] if ty.get('pre') else VLQ_HINT
        if k == 'sas':
            return self.custom(ty)
        if k == 'tup':
            return tuple[tuple(self.hint(t, sub(site, i)) for i, t in enumerate(ty['items']))]
        if k == 'arr':
            count = ty['count'] if isinstance(ty['count'], int) else self.size(ty['count'])
            head = S.Header[count] if not ty['dsize'] else S.Header[count, self.size(ty['dsize'])]
            return S.array[head, self.hint(ty['item'], sub(site, None))]
        if k == 'st':
            return self.cls[ty['cls']]
        if k == 'gen':
            return self.cls[ty['cls']][tuple(self.hint(a, None) for a in ty['args'])]
        if k == 'self':
            return Self
        if k == 'tv':
            return TVARS[ty['i']]
        if k == 'cond':
            inner = self.hint(ty['of'], site)
            return typing.Annotated[inner, S.Condition(
                self.condition(ty, site), self.value(j2v(ty['default']), ty['of']))]
        if k == 'lb':
            alts = {key: self.hint(t, site) for key, t in ty['alts']}
            default = None if ty['default'] is None else self.hint(ty['default'], site)
            union = self.union(alts, default)
            return typing.Annotated[union, S.LookbackDecider(
                self.lookback(ty, site), alts, default)]
        if k == 'la':
            alts = {j2v(key): self.hint(t, site) for key, t in ty['alts']}
            default = None if ty['default'] is None else self.hint(ty['default'], site)
            union = self.union(alts, default)
            return typing.Annotated[union, S.LookaheadDecider(
                self.hint(ty['ahead'], None), self.write_decider(ty, site), alts, default)]
        raise Invalid(k)

    @staticmethod
    def union(alts, default):
        members = list(alts.values())
        if default is not None:
            members.append(default)
        return typing.Union[tuple(members)]

    def size(self, t):
        return TVARS[t['tv']] if isinstance(t, dict) else getattr(S, t)

    def strarg(self, ty):
        k = ty['k']
        if k == 'char':
            return ty['n']
        if k == 'dyn':
            return self.size(ty['t'])
        if k == 'net':
            return S.NET
        if k == 'term':
            return bytes.fromhex(ty['b'])
        if k == 'rest':
            return math.inf
        raise Invalid(k)

    def encoding(self, enc):
        if enc != 'custom':
            return enc
        try:
            return self._codec
        except AttributeError:
            hooks = self.hooks

            class Codec(S.EncoderDecoder):
                @classmethod
                def encode(cls, strng):
                    hooks.call('encode', strng)
                    return codec_encode('custom', strng)

                @classmethod
                def decode(cls, byts):
                    hooks.call('decode', byts)
                    return codec_decode('custom', byts)

            self._codec = Codec
            return Codec

    # -------------------------------------------------------------- callbacks
    def condition(self, ty, site):
        hooks, key, mod, when = self.hooks, ty['key'], ty['mod'], frozenset(ty['when'])
        always = type(key) is int

        def condition(obj):
            hooks.call('cond', obj, site)
            return (key if always else getattr(obj, key)) % mod in when
        return condition

    def lookback(self, ty, site):
        hooks, key, mod = self.hooks, ty['key'], ty['mod']
        always = type(key) is int

        def decider(obj):
            hooks.call('lb', obj, site)
            return (key if always else getattr(obj, key)) % mod
        return decider

    def write_decider(self, ty, site):
        hooks, (_, field, path) = self.hooks, site

        def decider(obj):
            hooks.call('la', obj, site)
            value = getattr(obj, field)
            for i in path:
                value = value[i]
            if isinstance(value, tuple):
                return value[0]
            return getattr(value, type(value).attrs[0])
        return decider

    def custom(self, ty):
        hooks = self.hooks
        key = (ty['of']['t'], ty['how'])
        try:
            return self.sas[key][1]
        except KeyError:
            pass
        # One for all custom types that are serialized as this
        as_ = self.sas.get((key[0], 'as'))
        if as_ is None:
            as_ = self.sas[key[0], 'as'] = S.SerializeAs(self.hint(ty['of'], None))
        if ty['how'] == 'enum':
            self.sas[key] = (Level, typing.Annotated[Level, as_])
            return self.sas[key][1]

        class Custom:
            __slots__ = ('value',)

            def __init__(self, value):
                hooks.call('custom', value)
                self.value = value

            def __index__(self):
                return self.value

            def __float__(self):
                return float(self.value)

            def __eq__(self, other):
                return type(self) is type(other) and self.value == other.value

            def __hash__(self):
                return hash(self.value)

        if ty['how'] == 'class':
            hint = typing.Annotated[Custom, as_]
        else:
            def factory(value):
                return Custom(value)
            hint = typing.Annotated[Custom, as_.with_factory(factory)]
        self.sas[key] = (Custom, hint)
        return hint

    # ----------------------------------------------------------------- values
    def real_cls(self, ck):
        if isinstance(ck, int):
            if ck not in self.cls:
                raise Invalid('class not defined')
            return self.cls[ck]
        key = ckey(ck)
        got = self.gencls.get(key)
        if got is None:
            # The class made by the library for a generic hint is found the way
            # a user gets at it: from what is unpacked by a class using it.
            g, args = ck
            ty = {'k': 'gen', 'cls': g, 'args': args}
            hint = self.hint(ty, None)
            probe = types.new_class('Probe', (Structured,), {}, lambda ns: (
                ns.__setitem__('__module__', __name__),
                ns['__annotations__'].__setitem__('x', hint)))
            zero = zero_obj(self.L, ck)
            got = type(probe.create_unpack(self.L.encode(zero)).x)
            self.gencls[key] = got
        return got

    def real(self, obj, ba=None):
        """A real object for a model object; with `ba`, byte strings are given
        otherwise (but what unions look at has to be hashable)."""
        c = self.L.cls(obj.ck)
        ba = self.ba if ba is None else ba
        args = [self.value(obj.v[n], t, obj, ba) for n, t in c.fields if t['k'] != 'pad']
        return self.real_cls(obj.ck)(*args)

    def value(self, v, ty, env=None, ba=0):
        k = ty['k']
        if isinstance(v, MObj):
            return self.real(v, 0 if looks_ahead(ty) else ba)
        if ba and k in STRINGS and type(v) is bytes:
            if ba & 2 and k == 'term':
                v += bytes.fromhex(ty['b'])
            return bytearray(v) if ba & 1 else v
        if k == 'tup' and isinstance(v, tuple) and len(v) == len(ty['items']):
            return tuple(self.value(x, t, env, ba) for x, t in zip(v, ty['items']))
        if k == 'arr' and isinstance(v, list):
            return [self.value(x, ty['item'], env, ba) for x in v]
        if k == 'cond':
            return self.value(v, ty['of'], env, ba) if env is None or cond_true(ty, env) else v
        if k == 'sas':
            if ty['how'] == 'enum':
                return Level(v)
            self.custom(ty)
            return self.sas[ty['of']['t'], ty['how']][0](v)
        if k in ('lb', 'la') and env is not None:
            try:
                return self.value(v, self.L.choose(ty, v, env), env, ba if k == 'lb' else 0)
            except (Invalid, TypeError):
                return v
        return v

    # ------------------------------------------------------------- comparison
    def diff(self, real, obj, path=''):
        """First difference between a real object and its model, or None."""
        c = self.L.cls(obj.ck)
        want = self.real_cls(obj.ck)
        if type(real) is not want and not self.twin(type(real), want, obj.ck):
            return f'{path or "object"}: type {type(real).__name__}, not {want.__name__}'
        for n, t in c.fields:
            if t['k'] == 'pad':
                continue
            try:
                got = getattr(real, n)
            except AttributeError:
                return f'{path}.{n}: missing'
            d = self.vdiff(got, obj.v[n], t, obj, f'{path}.{n}')
            if d:
                return d
        return None

    def twin(self, got, want, ck):
        """Threads that write down the same string or array hint at the same
        time may get two hints, and so two specializations for it."""
        return (self.racy and not isinstance(ck, int)
                and any(a['k'] not in ('int', 'float', 'bool', 'st') for a in ck[1])
                and got.__bases__ == want.__bases__)

    def vdiff(self, got, v, ty, env, path):
        k = ty['k']
        if k == 'cond':
            if cond_true(ty, env):
                return self.vdiff(got, v, ty['of'], env, path)
            return self.plain(got, v, path)
        if k in ('lb', 'la'):
            return self.vdiff(got, v, self.L.choose(ty, v, env), env, path)
        if isinstance(v, MObj):
            return self.diff(got, v, path)
        if k == 'tup' and isinstance(v, tuple):
            if type(got) is not tuple or len(got) != len(v):
                return f'{path}: {short(got)} is not a tuple of {len(v)}'
            for i, (g, x, t) in enumerate(zip(got, v, ty['items'])):
                d = self.vdiff(g, x, t, env, f'{path}[{i}]')
                if d:
                    return d
            return None
        if k == 'arr' and isinstance(v, list):
            if type(got) is not list or len(got) != len(v):
                return f'{path}: {short(got)} is not a list of {len(v)}'
            for i, (g, x) in enumerate(zip(got, v)):
                d = self.vdiff(g, x, ty['item'], env, f'{path}[{i}]')
                if d:
                    return d
            return None
        if k == 'sas':
            want = Level if ty['how'] == 'enum' else self.sas[ty['of']['t'], ty['how']][0]
            if type(got) is not want:
                return f'{path}: type {type(got).__name__}, not {want.__name__}'
            got = int(got) if ty['how'] == 'enum' else got.value
        if self.ba and k in STRINGS:
            if self.ba & 1 and type(got) is bytearray:
                got = bytes(got)
            if self.ba & 2 and k == 'term' and type(got) is bytes and got != v:
                got = got.removesuffix(bytes.fromhex(ty['b']))
        return self.plain(got, v, path)

    def spoil(self, real, obj):
        """What a program may do to a value it unpacked: change all lists and
        objects in it.  Those of other values are others."""
        for n, t in self.L.cls(obj.ck).fields:
            if t['k'] != 'pad':
                self.vspoil(getattr(real, n), obj.v[n], t, obj)

    def vspoil(self, got, v, ty, env):
        k = ty['k']
        if k == 'cond':
            # Defaults are those given by the class
            if cond_true(ty, env):
                self.vspoil(got, v, ty['of'], env)
        elif k in ('lb', 'la'):
            self.vspoil(got, v, self.L.choose(ty, v, env), env)
        elif isinstance(v, MObj):
            self.spoil(got, v)
            for n, t in self.L.cls(v.ck).fields:
                if t['k'] != 'pad':
                    setattr(got, n, 'spoilt')
        elif k == 'tup' and isinstance(v, tuple):
            for g, x, t in zip(got, v, ty['items']):
                self.vspoil(g, x, t, env)
        elif k == 'arr' and isinstance(v, list):
            for g, x in zip(got, v):
                self.vspoil(g, x, ty['item'], env)
            got.append('spoilt')

    @staticmethod
    def plain(got, v, path):
        if type(got) is not type(v):
            return f'{path}: {short(got)} ({type(got).__name__}), not {short(v)}'
        if isinstance(v, float):
            same = got.hex() == v.hex()
        else:
            same = got == v
        return None if same else f'{path}: {short(got)}, not {short(v)}'


def short(x):
    try:
        r = repr(x)
    except Exception:       # a dataclass's own, for an attribute removed
        r = object.__repr__(x)
    return r if len(r) < 80 else r[:60] + f'...({len(r)})'


def sub(site, i):
    return None if site is None else (site[0], site[1], site[2] + (i,))


def zero_obj(L, ck):
    """The simplest value of a class."""
    c = L.cls(ck)
    o = MObj(ck, {})
    for n, t in c.fields:
        if t['k'] != 'pad':
            o.v[n] = zero(L, t, o)
    return o


def zero(L, ty, env):
    k = ty['k']
    if k in ('int', 'user'):
        return 0
    if k == 'sas':
        return 0 if ty['of']['k'] == 'int' else 0.0
    if k == 'float':
        return 0.0
    if k == 'bool':
        return False
    if k == 'char':
        return bytes(ty['n'])
    if k in ('pascal', 'dyn', 'net', 'term', 'rest'):
        return b''
    if k == 'uni':
        return ''
    if k == 'tup':
        return tuple(zero(L, t, env) for t in ty['items'])
    if k == 'arr':
        return [zero(L, ty['item'], env) for _ in range(ty['count'])] if isinstance(
            ty['count'], int) else []
    if k in ('st', 'gen'):
        return zero_obj(L, type_ck(ty))
    if k == 'cond':
        return zero(L, ty['of'], env) if cond_true(ty, env) else j2v(ty['default'])
    if k == 'lb':
        return zero(L, L.choose(ty, None, env), env)
    if k == 'la':
        key, t = ty['alts'][0]
        v = zero(L, t, env)
        if isinstance(v, tuple):
            return (j2v(key),) + v[1:]
        v.v[L.cls(v.ck).attrs[0]] = j2v(key)
        return v
    raise Invalid(k)


class VLQ(S.Serializer):
    """A serializer written by a user: variable-length integers."""

    num_values = 1
    hooks = Hooks()

    def __init__(self):
        self.size = 0

    def pack(self, value):
        self.hooks.call('user', 'pack')
        data = vlq(value)
        self.size = len(data)
        return data

    def pack_into(self, buffer, offset, value):
        self.hooks.call('user', 'pack_into')
        data = vlq(value)
        if offset + len(data) > memoryview(buffer).nbytes:
            raise ValueError('buffer too small')
        with memoryview(buffer) as view:
            with view.cast('B') as bview:
                bview[offset:offset + len(data)] = data
        self.size = len(data)

    def pack_write(self, writable, value):
        self.hooks.call('user', 'pack_write')
        data = vlq(value)
        writable.write(data)
        self.size = len(data)

    def unpack(self, buffer):
        return self.unpack_from(buffer, 0)

    def unpack_from(self, buffer, offset=0):
        self.hooks.call('user', 'unpack_from')
        value = shift = n = 0
        with memoryview(buffer) as view:
            while True:
                if offset + n >= len(view):
                    raise ValueError('truncated integer')
                b = view[offset + n]
                n += 1
                value |= (b & 0x7F) << shift
                shift += 7
                if not b & 0x80:
                    break
        self.size = n
        return (value,)

    def unpack_read(self, readable):
        self.hooks.call('user', 'unpack_read')
        value = shift = n = 0
        while True:
            b = readable.read(1)
            if not b:
                raise ValueError('truncated integer')
            n += 1
            value |= (b[0] & 0x7F) << shift
            shift += 7
            if not b[0] & 0x80:
                break
        self.size = n
        return (value,)


VLQ_HINT = typing.Annotated[int, VLQ()]


class Preparing(VLQ):
    """The same, but it wants to know the object it is used for beforehand."""

    def prepack(self, obj):
        self.hooks.call('pre', obj, None)
        return Prepared(self, ('pack', 'pack_into', 'pack_write'))

    def preunpack(self, obj):
        self.hooks.call('pre', obj, None)
        return Prepared(self, ('unpack', 'unpack_from', 'unpack_read'))

    allowed = ()


class Prepared(VLQ):
    """Made for one operation; the size is also that of what it was made from."""

    def __init__(self, origin, allowed):
        super().__init__()
        self.origin = origin
        self.allowed = allowed


def _only(name):
    base = getattr(VLQ, 'unpack_from' if name == 'unpack' else name)

    def method(self, *args):
        if name not in self.allowed:
            raise RuntimeError(f'{name} by a serializer not prepared for that')
        result = base(self, *args)
        self.origin.size = self.size
        return result
    return method


for _n in ('pack', 'pack_into', 'pack_write', 'unpack', 'unpack_from', 'unpack_read'):
    setattr(Preparing, _n, _only(_n))
    setattr(Prepared, _n, _only(_n))


class PreparingPack(VLQ):
    prepack = Preparing.prepack
    for _n in ('pack', 'pack_into', 'pack_write'):
        locals()[_n] = getattr(Preparing, _n)
    allowed = ()


class PreparingUnpack(VLQ):
    preunpack = Preparing.preunpack
    for _n in ('unpack', 'unpack_from', 'unpack_read'):
        locals()[_n] = getattr(Preparing, _n)
    allowed = ()


PREPARING = {n: typing.Annotated[int, t()] for n, t in
             ((1, Preparing), (2, PreparingPack), (3, PreparingUnpack))}
