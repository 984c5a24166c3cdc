"""C13: what callbacks see."""

import _thread
import io

from .. import layout, nesting, ops, threads
from ..layout import Invalid, MObj
from ..realize import ORDER

RUNS = {'quick': 6000, 'thorough': 250000}
RULE = ('A run carries out operations on classes with conditions and deciders, each of whose '
        'calls looks at the object it is given: all attributes before the governed one, the '
        'absence of those after it, the identity of the object; with operations nested in them, '
        'failing, or in threads under the seeded scheduler.  Distinct by layouts and operations; '
        'non-trivial if a callback was called while another operation was in progress or after '
        'one that failed.')
STUBS = 'callbacks, streams, thread scheduling (simulated)'
ASSUMES = ['a callback may be called more than once for the same attribute']
LISTS = ('ops', 'tasks')
KINDS = ops.PACK + ops.UNPACK + ops.UNPACK + ('bad_pack', 'bad_unpack', 'bo')


def gen(rng, i, tier):
    for _ in range(30):
        plan, g = ops.gen_case(rng, (2, 5), big=0.01, classes=rng.choice([(1, 2), (1, 4)]),
                               fields=rng.choice([(2, 5), (2, 7)]))
        text = str(plan['classes'])
        if "'cond'" in text or "'lb'" in text or "'la'" in text or "'pre'" in text:
            break
    x = rng.random()
    plan['ops'] = []
    plan['tasks'] = []
    if x < 0.6:
        for _ in range(rng.randint(2, 8)):
            todo = nesting.gen_nested(rng, plan, KINDS) if rng.random() < 0.6 else {}
            plan['ops'].append([ops.gen_op(rng, plan, KINDS), todo])
    else:
        plan['tasks'] = [[ops.gen_op(rng, plan, KINDS) for _ in range(rng.randint(1, 4))]
                         for _ in range(rng.choice([2, 2, 3]))]
        threads.gen_schedule(rng, plan)
    return plan


def sample(plan):
    return {'classes': [layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])],
            'ops': plan['ops'][:2], 'tasks': plan['tasks']}


class View:
    """What the callbacks of one operation are to see."""

    def __init__(self, case, op, top=None):
        self.case = case
        kind, a = op
        self.kind = kind
        self.create = kind[0] == 'c'
        self.packing = kind in ops.PACK
        self.ignore = kind not in ops.PACK and kind not in ops.UNPACK
        self.bad = None
        self.at = {-1}      # calls made so far: the positions they can be at
        self.seen = 0
        self.reals = None
        if self.ignore:
            return
        obj = self.obj = case.objs[a['o']]
        sites = []
        for s in case.w.L.sites(obj):
            if s[0] == 'la' and not self.packing:
                continue    # unpacking looks at the data instead
            if s[0] in ('pre2', 'pre3'):
                if (s[0] == 'pre2') is not self.packing:
                    continue
            if s[0][:3] == 'pre':
                s = ('pre',) + s[1:]
            if not sites or not same(sites[-1], s):
                sites.append(s)
        self.sites = sites
        self.hit = [False] * len(sites)
        if self.packing:
            self.reals = {}
            real = case.real(a['o'])
            self.map(real, obj)
            if top is not None:
                # Derived from that, and with the same attributes
                del self.reals[id(real)]
                self.reals[id(top)] = (top, obj)

    def map(self, real, model):
        if isinstance(model, MObj):
            self.reals[id(real)] = (real, model)
            for n in self.case.w.L.cls(model.ck).attrs:
                self.map(getattr(real, n), model.v[n])
        elif isinstance(model, (list, tuple)) and isinstance(real, (list, tuple)):
            for x, y in zip(real, model):
                self.map(x, y)

    def call(self, kind, obj, site):
        if self.ignore or self.bad:
            return
        self.seen += 1
        field = None if site is None else site[1]
        if self.packing:
            got = self.reals.get(id(obj))
            if got is None:
                self.bad = f'{kind} for {field}: not given the object being packed'
                return
            any_ = False
            for n, (k, env, f, before) in enumerate(self.sites):
                if k == kind and env is got[1] and field in (None, f):
                    self.hit[n] = any_ = True
            if not any_:
                self.bad = f'{kind} for {field}: not expected for that object'
            return
        why = 'no such call expected any more'
        at = set()
        for p in sorted(self.at | {p + 1 for p in self.at}):
            if not 0 <= p < len(self.sites):
                continue
            k, env, f, before = self.sites[p]
            if k != kind or field not in (None, f):
                bad = f'expected {k} for {f}'
            else:
                bad = self.look(obj, env, f, before)
            if bad is None:
                at.add(p)
            else:
                why = bad
        self.at = at
        if not at:
            self.bad = f'{kind} for {field}: {why}'

    def look(self, obj, env, field, before):
        w = self.case.w
        c = w.L.cls(env.ck)
        after = False
        for n, t in c.fields:
            if t['k'] == 'pad':
                continue
            if n == field:
                after = True
            if not after:
                try:
                    got = getattr(obj, n)
                except AttributeError:
                    return f'attribute {n}, which precedes it, is missing'
                bad = w.vdiff(got, env.v[n], t, env, f'.{n}')
                if bad:
                    return bad
            elif self.create or env is not self.obj:
                try:
                    getattr(obj, n)
                except AttributeError:
                    continue
                return f'attribute {n}, which does not precede it, is there'
        return None

    def end(self):
        if self.ignore:
            return None
        if self.bad:
            return self.bad
        if self.packing:
            missing = [n for n, hit in enumerate(self.hit) if not hit]
        else:
            missing = list(range(max(self.at) + 1, len(self.sites)))
        for n in missing:
            return f'{self.sites[n][0]} for {self.sites[n][2]} was not called'
        return None


def same(a, b):
    return a[0] == b[0] and a[1] is b[1] and a[2] == b[2]


class Watch(nesting.Nest):
    """Keeps the views of the operations in progress in each thread."""

    def __init__(self, r):
        super().__init__()
        self.views = {}
        self.r = r

    def stack(self):
        return self.views.setdefault(_thread.get_ident(), [])

    def call(self, kind, *args):
        s = self.stack()
        if kind in ('cond', 'lb', 'la', 'pre') and s:
            s[-1].call(kind, *args)
            self.r.count(f'{kind} called')
            if len(s) > 1:
                self.r.probe('called in a nested operation')
            if len(self.views) > 1:
                self.r.probe('called in a thread among others')
        super().call(kind, *args)

    def watched(self, case, op, top=None, do=None):
        if op[0] == 'bo' and top is None:
            return self.derived(case, op[1])
        s = self.stack()
        view = View(case, op, top)
        s.append(view)
        try:
            bad = (do or ops.run)(case, op)
        finally:
            s.pop()
        if bad:
            return bad
        bad = view.end()
        if bad:
            self.r.violate('view', f'{op[0]} of {ops.what(case, op[1])}: {bad}')
        return bad

    def derived(self, case, a):
        """Operations of an object with another byte order."""
        i = a['o']
        try:
            want = case.w.L.encode_as(case.objs[i], a['bo'])
        except Invalid:
            return None

        def pack(case, op):
            try:
                return ops.packs(case, d, want, a, f"(derived {a['bo']!r})")
            except Exception as e:
                if a.get('abort'):
                    raise
                return ops.raised(f'packing what was derived from {ops.what(case, a)}', e)

        def unpack(case, op):
            try:
                getattr(d, {'u': 'unpack', 'uf': 'unpack_from', 'ur': 'unpack_read'}[a['un']])(
                    io.BytesIO(want) if a['un'] == 'ur' else want)
            except Exception as e:
                if a.get('abort'):
                    raise
                return ops.raised(f'unpacking what was derived from {ops.what(case, a)}', e)

        d = case.real(i).with_byte_order(ORDER[a['bo']])
        bad = self.watched(case, [a.get('how', 'pack'), a], d, pack)
        if not bad and a.get('un') and d is not case.real(i):
            bad = self.watched(case, [a['un'], a], d, unpack) or case.w.diff(d, case.objs[i])
            self.r.count('derived object unpacked')
        return bad


def execute(plan, r):
    nest = Watch(r)
    case = nesting.NestCase(plan, nest)
    case.counts = r.counts
    case.prime()
    for item in plan['ops']:
        if len(item) != 2:
            raise Invalid('operation')
        bad = nesting.run(case, *item, do=nest.watched)
        if bad:
            r.violate('result', bad)
            break
    for k, n in nest.ran.items():
        r.fault(f'operation nested by {k}', n)
    if r.violation is None and plan.get('tasks'):
        bad = threads.run(case, plan, r, nest.watched)
        if bad:
            r.violate('result', bad)
    if r.probes or r.counts.get('failed pack') or r.counts.get('failed unpack'):
        r.sig = [[layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])],
                 plan['ops'], plan['tasks']]
