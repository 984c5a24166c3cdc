"""C14: definitions and derivations leave existing classes and objects alone."""

import copy
import gc
import inspect
import json
import math
import types
import typing

from .. import layout, nesting, ops, sched, threads
from ..layout import Invalid
from ..realize import ANY, ORDER, S, SIZE, Structured
from ..shrinking import retype

RUNS = {'quick': 5000, 'thorough': 200000}
RULE = ('A run defines classes one at a time (twins of each other with the same hints in other '
        'byte orders, subclasses, specializations, ones that are rejected, definitions aborted '
        'inside the library or carried out by callbacks of operations) in a history with '
        'operations on all classes and objects existing by then, or in threads under the seeded '
        'scheduler; every class and object has to be as its own description says, at any time '
        'later.  Distinct by layouts and history; non-trivial if something was defined or derived '
        'after the first use of a class.')
STUBS = 'thread scheduling, asynchronous exceptions, callbacks and streams (simulated)'
ASSUMES = ['whether an invalid definition is rejected is not looked at here, only what it leaves '
           'behind']
LISTS = ('steps', 'tasks', 'early')
KINDS = ops.PACK + ops.UNPACK + ('bo', 'mix', 'bad_pack', 'odd', 'bad_unpack', 'junk')
REJECTS = ('two', 'final', 'override_final', 'unindexed', 'order', 'decider', 'args', 'user',
           'raw', 'condition', 'header', 'size', 'nested_generic')


# ----------------------------------------------------------------- generation
def gen(rng, i, tier):
    plan, g = ops.gen_case(rng, (3, 6), big=0.01, classes=rng.choice([(1, 3), (2, 5)]),
                           fields=rng.choice([(1, 3), (1, 6)]), depth=rng.choice([2, 3]))
    twins(rng, plan)
    plan['share'] = rng.random() < 0.6
    plan['names'] = rng.choice([None, ['Record'], ['A', 'B'], ['A', 'B', 'A.B']])
    specs = plan['classes']
    order = topological(rng, specs)
    plan['early'] = []
    plan['tasks'] = []
    plan['steps'] = []
    if rng.random() < 0.3:
        early = closed(specs, rng.sample(order, rng.randint(0, len(order))))
        plan['early'] = [c for c in order if c in early]
        rest = [c for c in order if c not in early]
        for _ in range(rng.choice([2, 2, 3, 4])):
            have = set(early)
            mine = closed(specs, [c for c in rest if rng.random() < 0.6]) - have
            todo = []
            for c in [c for c in order if c in mine]:
                gen_steps(rng, plan, todo, have, rng.choice([0, 1, 2]))
                todo.append(['def', {'ci': c}])
                have.add(c)
            gen_steps(rng, plan, todo, have, rng.randint(1, 3))
            plan['tasks'].append(todo)
        threads.gen_schedule(rng, plan)
    else:
        have = set()
        todo = []
        for c in order:
            todo.append([gen_def(rng, c), {}])
            have.add(c)
            one = []
            gen_steps(rng, plan, one, have, rng.choice([0, 1, 2, 4]))
            for s in one:
                inner = {}
                if s[0] in KINDS and rng.random() < 0.4:
                    for n in range(1, rng.choice([3, 12, 40])):
                        if rng.random() < 0.3:
                            inner[str(n)] = []
                            gen_steps(rng, plan, inner[str(n)], have, 1)
                    inner = {k: v for k, v in inner.items() if v}
                todo.append([s, inner])
        plan['steps'] = todo
    return plan


def gen_def(rng, c):
    a = {'ci': c}
    if rng.random() < 0.15:
        a['abort'] = [round(rng.random(), 4), rng.choice(['breaker', 'call'])]
    return ['def', a]


def gen_steps(rng, plan, todo, have, n):
    specs = plan['classes']
    objs = [i for i, o in enumerate(plan['objs']) if needs_obj(specs, o) <= have]
    usable = [c for c in have]
    for _ in range(n):
        x = rng.random()
        if usable and x < 0.22:
            c = rng.choice(usable)
            todo.append(['reject', {'ci': c, 'cj': rng.choice(usable),
                                    'how': rng.choice(REJECTS), 'copy': rng.random() < 0.6}])
        elif usable and x < 0.37:
            todo.append(['again', {'ci': rng.choice(usable), 'o': rng.randrange(8),
                                   'bo': rng.choice([None, *layout.ORDERS])}])
        elif objs and x < 0.50:
            todo.append(['keep', {'o': rng.choice(objs), 'bo': rng.choice(layout.ORDERS)}])
        elif x < 0.52:
            todo.append(['gc', {}])
        elif usable and x < 0.60:
            todo.append(['sub', {'ci': rng.choice(usable), 'bo': rng.choice(layout.ORDERS),
                                 'over': rng.randint(0, 5)}])
        elif objs:
            todo.append(ops.gen_op(rng, plan, KINDS, objs))
            if 'from' in todo[-1][1] and todo[-1][1]['from'] not in objs:
                todo[-1][1]['from'] = todo[-1][1]['o']


def refs(doc, out):
    if isinstance(doc, dict):
        if doc.get('k') in ('st', 'gen'):
            out.add(doc['cls'])
        for v in doc.values():
            refs(v, out)
    elif isinstance(doc, list):
        for x in doc:
            refs(x, out)


def needs(specs, c):
    out = set()
    s = specs[c]
    refs([s['fields'], s.get('args')], out)
    if s['base'] is not None:
        out.add(s['base'])
    return out


def closed(specs, cs):
    out = set()
    todo = list(cs)
    while todo:
        c = todo.pop()
        if c not in out:
            out.add(c)
            todo.extend(needs(specs, c))
    return out


def needs_obj(specs, o):
    out = set()

    def walk(d):
        if isinstance(d, dict):
            if 'o' in d and 'v' in d:
                if isinstance(d['o'], int):
                    out.add(d['o'])
                else:
                    out.add(d['o'][0])
                    refs(d['o'][1], out)
                for v in d['v'].values():
                    walk(v)
            else:
                for v in d.values():
                    walk(v)
        elif isinstance(d, list):
            for x in d:
                walk(x)
    walk(o)
    return closed(specs, out)


def topological(rng, specs):
    left = list(range(len(specs)))
    done = []
    while left:
        ready = [c for c in left if needs(specs, c) <= set(done)]
        c = rng.choice(ready)
        left.remove(c)
        done.append(c)
    return done


def twins(rng, plan):
    """Classes with the hints of others, in another byte order."""
    specs = plan['classes']
    n = len(specs)
    for c in range(n):
        if rng.random() > 0.45:
            continue
        s = copy.deepcopy(specs[c])
        if s.get('tv') and any(c in needs(specs, d) for d in range(n) if specs[d].get('tv')):
            continue        # values deep inside others would have to change, too
        s['bo'] = rng.choice(layout.ORDERS)
        new = len(specs)
        try:
            L = layout.Layout(specs + [s])
            if not s.get('tv'):
                L.cls(new)
        except Exception:
            continue
        specs.append(s)
        if s.get('tv'):
            # Uses of the generic class, with the twin in its place
            for d in range(n):
                t = copy.deepcopy(specs[d])
                if c in needs(specs, d) and not t.get('tv'):
                    if t['base'] == c:
                        t['base'] = new
                    swap(t['fields'], c, new)
                    specs.append(t)
                    add_values(rng, plan, d, len(specs) - 1, {c: new})
                    break
        else:
            add_values(rng, plan, c, new, {})


def swap(doc, c, new):
    if isinstance(doc, dict):
        if doc.get('k') in ('st', 'gen') and doc['cls'] == c:
            doc['cls'] = new
        for v in doc.values():
            swap(v, c, new)
    elif isinstance(doc, list):
        for x in doc:
            swap(x, c, new)


def add_values(rng, plan, c, new, gens):
    def move(d):
        if isinstance(d, dict):
            if 'o' in d and 'v' in d:
                if d['o'] == c:
                    d['o'] = new
                elif isinstance(d['o'], list):
                    if d['o'][0] in gens:
                        d['o'][0] = gens[d['o'][0]]
                    for g in gens:
                        swap(d['o'][1], g, gens[g])
                for v in d['v'].values():
                    move(v)
            else:
                for v in d.values():
                    move(v)
        elif isinstance(d, list):
            for x in d:
                move(x)
    got = 0
    for o in list(plan['objs']):
        if o['o'] == c and got < 2:
            o = copy.deepcopy(o)
            move(o)
            try:
                L = layout.Layout(plan['classes'])
                L.check(layout.j2v(o))
                L.encode(layout.j2v(o))
            except Invalid:
                continue    # what is looked ahead at means something else
            plan['objs'].append(o)
            got += 1


def sample(plan):
    return {'classes': [layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])],
            'shared hints': plan['share'], 'steps': plan['steps'][:8], 'tasks': plan['tasks']}


# ------------------------------------------------------------------ execution
class Defs:
    """What steps other than operations do."""

    def __init__(self, r):
        self.r = r
        self.used = False

    def do(self, case, op):
        kind, a = op
        h = getattr(self, 'do_' + kind, None)
        if h is None:
            if kind not in ops.HANDLERS:
                raise Invalid('operation')
            self.used = True
            return ops.run(case, op)
        if self.used:
            self.r.probe(f'{kind} after use')
        try:
            bad = h(case, a)
        except (Invalid, sched.Killed):
            raise
        except Exception as e:
            return ops.raised(f'{kind} {a}', e)
        return bad or looks(case)

    def do_def(self, case, a):
        ci = a['ci']
        w = case.w
        if not 0 <= ci < len(w.specs) or not needs(w.specs, ci) <= set(w.cls) or ci in w.cls:
            raise Invalid('definition')
        ab = a.get('abort')
        if ab and sched.tracer.gran is None:
            aborted(lambda: w.fork('Aborted').define(ci), ab, self.r)
        w.define(ci)
        case.snaps[ci] = snapshot(w.cls[ci])
        if not w.specs[ci].get('tv'):
            want = tuple(w.L.cls(ci).attrs)
            if w.cls[ci].attrs != want:
                return f'class {ci} has attributes {w.cls[ci].attrs}, not {want}'
        return None

    def do_again(self, case, a):
        """A class like an existing one, with the same hints; used once."""
        ci = a['ci']
        self.known(case, ci)
        w = case.w.fork(f'Again{ci}_')
        spec = w.specs[ci]
        if a.get('bo') is not None and not spec.get('tv'):
            w.specs = list(w.specs)
            w.specs[ci] = dict(spec, bo=a['bo'])
            w.L = layout.Layout(w.specs)
        if spec.get('tv'):
            return self.again_generic(case, w, ci, a.get('o', 0))
        w.define(ci)
        for obj in case.objs:
            if obj.ck == ci and not spec.get('tv'):
                # Members that are of the class itself are of the new one
                try:
                    enc = w.L.encode(obj)
                except Invalid:
                    continue
                new = w.real_cls(ci).create_unpack(enc)
                bad = w.diff(new, obj)
                if bad:
                    return f'unpacking a new class like {ci}: {bad}'
                if new.pack() != enc:
                    return f'packing a new class like {ci} gave {new.pack()!r}, not {enc!r}'
                break
        return None

    def again_generic(self, case, w, ci, nth):
        """A generic class like an existing one, but for its last member,
        specialized as that one is."""
        # Its hints are not those of the other one
        w.shared, w.gencls = None, {}
        w.specs = list(w.specs)
        spec = w.specs[ci]
        w.specs[ci] = dict(spec, fields=spec['fields'] + [['extra', {'k': 'int', 't': 'uint16'}]])
        w.L = layout.Layout(w.specs)
        w.define(ci)
        found = {}
        for o in case.objs:
            part_of(o, ci, found)
        found = list(found.values())
        if not found:
            return None
        o = found[nth % len(found)]
        refd = set()
        refs(o.ck[1], refd)
        if ci in closed(w.specs, refd) or not closed(w.specs, refd) <= set(w.cls):
            return None
        new = layout.MObj(o.ck, {**o.v, 'extra': 513})
        try:
            w.L.check(new)
            enc = w.L.encode(new)
        except Invalid:
            return None
        got = w.real_cls(new.ck).create_unpack(enc)
        bad = w.diff(got, new)
        if bad:
            return f'unpacking a generic class like {ci}: {bad}'
        if got.pack() != enc:
            return f'packing a generic class like {ci} gave {got.pack()!r}, not {enc!r}'
        self.r.count('generic class like another, specialized')
        return None

    def do_gc(self, case, a):
        gc.collect()
        return None

    def do_sub(self, case, a):
        """Subclasses of a class, overriding its members."""
        ci = a['ci']
        self.known(case, ci)
        w = case.w
        spec = w.specs[ci]
        base = w.cls[ci]
        kwds = {'byte_order': ORDER[a['bo']], 'byte_order_mode': S.ByteOrderMode.OVERRIDE}
        if spec.get('tv'):
            base = base[(S.uint16, S.uint8, S.bool8)[: spec['tv']]]
        names = [n for n, t in w.L.raw_fields(ci).items() if t is not None and t['k'] != 'pad']
        over = names[a['over'] % len(names)] if names else 'x'

        def body(ns):
            ns['__module__'] = __name__
            ns['__annotations__'][over] = S.int64
            if not case.w.L.cls_final(ci) if not spec.get('tv') else True:
                ns['__annotations__']['added'] = S.char[S.uint16]
        try:
            types.new_class('Sub', (base,), kwds, body)
        except Exception:
            self.r.count('subclass rejected')
        return None

    def do_keep(self, case, a):
        i, bo = a['o'], a['bo']
        try:
            want = case.w.L.encode_as(case.objs[i], bo)
        except Invalid:
            return None
        d = case.real(i).with_byte_order(ORDER[bo])
        case.kept.append((i, d, want, bo))
        return kept(case)

    def do_reject(self, case, a):
        self.known(case, a['ci'])
        self.known(case, a['cj'])
        try:
            reject(case, a)
            self.r.count(f"{a['how']} accepted")
        except Exception:
            self.r.fault('definition rejected')
        return None

    @staticmethod
    def known(case, ci):
        if ci not in case.w.cls:
            raise Invalid('class')


def part_of(v, ci, out):
    """Values of specializations of a generic class within a value."""
    if isinstance(v, layout.MObj):
        if not isinstance(v.ck, int) and v.ck[0] == ci:
            out.setdefault(layout.ckey(v.ck), v)
        for x in v.v.values():
            part_of(x, ci, out)
    elif isinstance(v, (list, tuple)):
        for x in v:
            part_of(x, ci, out)


def aborted(define, ab, r):
    """A definition, ended by an exception inside the library."""
    at, gran = ab
    if gran not in ('breaker', 'call'):
        raise Invalid('granularity')
    with sched.Aborter(gran) as x:
        x.arm(0, None)
        try:
            define()
        finally:
            x.disarm()
        n = x.n
        exc = KeyboardInterrupt('injected') if gran == 'breaker' else MemoryError('injected')
        x.arm(1 + int(at * n), exc)
        try:
            define()
        except (KeyboardInterrupt, MemoryError) as e:
            if e is not exc and not isinstance(e, MemoryError):
                raise
            r.fault(f'{type(exc).__name__} in a definition')
        finally:
            x.disarm()


def reject(case, a):
    """Definitions that the library refuses."""
    w = case.w
    ci, cj, how = a['ci'], a['cj'], a['how']
    fields = [(n, t) for n, t in w.specs[ci]['fields'] if t is not None]
    bases, kwds, after = (Structured,), {'byte_order': ORDER[w.specs[ci]['bo']]}, None
    ann = {}
    if a.get('copy') and not w.specs[ci].get('tv'):
        ann = {n: w.hint(t, (ci, n, ())) for n, t in fields}
    tv = w.specs[ci].get('tv')
    bad = None
    if how == 'two':
        bases = (w.cls[ci], w.cls[cj])
    elif how == 'final':
        ann = {'first': S.char[math.inf], **ann, 'last': S.uint8}
    elif how == 'override_final':
        bases = (w.cls[ci] if not tv else w.cls[ci][(S.int8, S.uint8, S.int16)[:tv]],)
        ann = {fields[0][0] if fields else 'x': S.char[math.inf], 'last': S.uint8}
    elif how == 'unindexed':
        ann['last'] = [S.array, S.char, S.unicode, S.pad][len(ann) % 4]
    elif how == 'order':
        bases = (w.cls[ci] if not tv else w.cls[ci][(S.int8, S.uint8, S.int16)[:tv]],)
        kwds['byte_order'] = next(o for o in ORDER.values() if o.value != w.specs[ci]['bo'])
    elif how == 'decider':
        ann['last'] = typing.Annotated[typing.Union[S.int8, S.char[2]], S.LookbackDecider(
            lambda x: 0, {0: S.int8, 1: int})]
    elif how == 'args':
        bases = (w.cls[ci][S.int8, S.uint8, S.int8],)
    elif how == 'user':
        class Refusing(w.cls[ci] if not tv else w.cls[ci][(S.int8, S.uint8, S.int16)[:tv]],
                       byte_order=ORDER[w.specs[ci]['bo']]):
            def __init_subclass__(cls, **kw):
                super().__init_subclass__(**kw)
                raise ValueError('refused')
        bases = (Refusing,)
        ann = {'added': S.uint8}
    elif how == 'raw':
        ann['last'] = 'NoSuchName'
    elif how == 'condition':
        ann['last'] = typing.Annotated[S.array[S.Header[2], S.int8], S.Condition(
            lambda x: True)]
    elif how == 'header':
        ann['last'] = S.array[S.Header[S.int8, S.float32], S.int8]
    elif how == 'size':
        ann['last'] = S.char[S.int8]
    elif how == 'nested_generic':
        ann['last'] = tuple[ANY, S.array[S.Header[SIZE], ANY]]
        ann['more'] = S.array[S.Header[S.uint8], S.char[math.inf]]
    else:
        raise Invalid('how')
    kwds.setdefault('byte_order_mode', S.ByteOrderMode.STRICT)
    types.new_class('Refused', bases, kwds, lambda ns: (
        ns.__setitem__('__module__', __name__), ns['__annotations__'].update(ann)))
    return bad


# ------------------------------------------------------------- what must hold
def snapshot(cls):
    return (cls.attrs, dict(cls.__annotations__), list(inspect.signature(cls).parameters),
            cls.byte_order, cls.__qualname__, cls.__mro__,
            getattr(cls.__init__, '__qualname__', None))


def looks(case):
    """All classes look as when they were defined."""
    for ci, old in case.snaps.items():
        cls = case.w.cls.get(ci)
        if cls is None:
            continue
        new = snapshot(cls)
        names = ('attributes', 'annotations', 'parameters', 'byte order', 'name', 'bases',
                 'name of the initializer')
        for n, a, b in zip(names, old, new):
            if n == 'annotations':
                same = list(a) == list(b) and all(a[k] is b[k] for k in a)
            else:
                same = a == b
            if not same:
                return f'{n} of class {ci} changed from {a} to {b}'
    return None


def kept(case):
    """Derived objects pack as derived, and are as they were."""
    for i, d, want, bo in case.kept:
        got = d.pack()
        if got != want:
            return (f'object derived from {ops.what(case, {"o": i})} as {bo!r} packs to '
                    f'{got!r}, not {want!r}')
        bad = case.w.diff(d, case.objs[i])
        if bad:
            return f'object derived from {ops.what(case, {"o": i})} as {bo!r}: {bad}'
    return None


def everything(case):
    for i, o in enumerate(case.objs):
        if not needs_obj(case.specs, case.plan['objs'][i]) <= set(case.w.cls):
            continue
        for k in ('pack', 'cu', 'cuf', 'cur', 'u', 'ser_pack'):
            bad = ops.run(case, [k, {'o': i, 'diff': 1}])
            if bad:
                return ops.within(bad, 'in the end: %s')
    return looks(case) or kept(case)


def execute(plan, r):
    nest = nesting.Nest()
    case = nesting.NestCase(plan, nest, define=False)
    if plan.get('share'):
        case.w.shared = {}
    case.w.names = plan.get('names')
    case.counts = r.counts
    case.snaps = {}
    case.kept = []
    defs = Defs(r)
    for ci in plan.get('early', ()):
        bad = defs.do(case, ['def', {'ci': ci}])
        if bad:
            r.violate('define', bad)
            return
    for item in plan['steps']:
        if len(item) != 2:
            raise Invalid('step')
        op, todo = item
        bad = nesting.run(case, op, todo, do=defs.do)
        bad = bad or looks(case) or kept(case)
        if bad:
            r.violate('changed', bad)
            return
    for k, n in nest.ran.items():
        r.fault(f'operation nested by {k}', n)
    views = [case]
    if plan.get('tasks'):
        def setup(view, tid):
            view.w = case.w.fork(f'T{tid}K', hints=False)
            view.w.racy = True
            view.snaps = dict(case.snaps)
            view.kept = []
            views.append(view)
        for i, o in enumerate(plan['objs']):
            if needs_obj(case.specs, o) <= set(case.w.cls):
                case.real(i, fresh=True)
        bad = threads.run(case, plan, r, defs.do, setup)
        if bad:
            r.violate('thread', bad)
            return
    for v in views:
        bad = everything(v)
        if bad:
            r.violate('changed', bad)
            return
    if r.probes or r.places:
        r.sig = [[layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])],
                 plan['steps'], plan['tasks']]
