"""C11: peers exchanging records over blocking streams."""

import json

from .. import layout, ops, sched, streams, threads
from ..layout import Invalid
from ..ops import Case

RUNS = {'quick': 2500, 'thorough': 250000}
RULE = ('A run lets 1 to 3 pairs of peers exchange requests and responses (records of generated '
        'classes whose layout determines their length) over bounded blocking pipes that deliver '
        'seeded segments, each peer a thread under the seeded scheduler; bytes taken, calls on '
        'the streams and progress are checked after every record.  Distinct by layouts, '
        'exchanges, capacities and segments; non-trivial if a reader had to wait within a '
        'record.')
STUBS = 'streams (bounded pipes), thread scheduling, closing of connections'
ASSUMES = ['a blocking stream returns as many bytes as were asked for, unless it was closed']
LISTS = ('links',)
WITHOUT = ('net', 'term', 'rest', 'la', 'user')


def gen(rng, i, tier):
    plan, g = ops.gen_case(rng, (2, 5), big=rng.choice([0.02, 0.02, 0.2]), huge=0.1,
                           without=WITHOUT)
    n = len(plan['objs'])
    plan['links'] = []
    long = len(json.dumps(plan['objs'])) > 1500
    caps = [50, 64, 4096] if long else [1, 2, 3, 7, 16, 64, 4096]
    segs = [20, 33, 50, 100] if long else [1, 1, 2, 3, 5, 100]
    if max(len(e) for e in Case(plan, define=False).enc) > 10000:
        caps = [100, 4096, 65536, 100000]
        segs = [100, 65536, 5000, 30000]
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        link = {'caps': [rng.choice(caps) for _ in 'ab'],
                'segs': [[rng.choice(segs) for _ in range(rng.randint(1, 4))]
                         for _ in 'ab'],
                'rounds': []}
        for _ in range(rng.randint(1, 5)):
            link['rounds'].append([[rng.randrange(n) for _ in range(rng.choice([1, 1, 1, 2, 4]))],
                                   [rng.randrange(n) for _ in range(rng.choice([0, 1, 1, 2]))],
                                   rng.random() < 0.3])
        if rng.random() < 0.2:
            link['close'] = [rng.randrange(n), rng.randint(0, 40)]
        plan['links'].append(link)
    plan['gran'] = rng.choice(['breaker', 'line', 'none', 'none'])
    threads.schedule(rng, plan)
    return plan


def sample(plan):
    return {'classes': [layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])],
            'links': plan['links']}


class Peer:
    """One end of a connection."""

    def __init__(self, case, name, out, inp, r):
        self.case = case
        self.name = name
        self.w = streams.PipeWriter(out)
        self.rd = streams.PipeReader(inp)
        self.sent = self.got = 0
        self.r = r
        self.bad = None
        self.at = 'start'

    def fail(self, text):
        if self.bad is None:
            self.bad = ops.within(text, f'{self.name}, {self.at}: %s')
        raise Stop

    def send(self, i):
        self.at = f'sending value {i} (class {self.case.objs[i].ck})'
        self.case.real(i).pack_write(self.w)
        self.sent += len(self.case.enc[i])
        self.r.count('record sent')
        if self.w.p.sent != self.sent:
            self.fail(f'{self.w.p.sent} bytes sent, not {self.sent}')
        if self.w.other:
            self.fail(f'other calls than write on the stream: {self.w.other}')

    def receive(self, i, inplace):
        case = self.case
        self.at = f'receiving value {i} (class {case.objs[i].ck})'
        if inplace:
            obj = case.real(i, fresh=True)
            obj.unpack_read(self.rd)
        else:
            obj = case.cls(i).create_unpack_read(self.rd)
        self.got += len(case.enc[i])
        self.r.count('record received')
        if self.rd.p.taken != self.got:
            self.fail(f'{self.rd.p.taken} bytes taken from the stream, not {self.got}')
        if self.rd.other:
            self.fail(f'other calls than read on the stream: {self.rd.other}')
        bad = case.w.diff(obj, case.objs[i])
        if bad:
            self.fail(bad)
        self.at = 'between records'

    def broken(self, i):
        """The connection is closed within this record."""
        self.at = f'receiving value {i} on a connection that is closed within it'
        try:
            self.case.cls(i).create_unpack_read(self.rd)
        except Exception:
            self.r.count('exception for a closed connection')
            return
        self.fail('gave a value')


class Stop(Exception):
    pass


def execute(plan, r):
    case = Case(plan, threads.Points())
    case.counts = r.counts
    for o in case.objs:
        if not case.w.L.length_determined(o.ck):
            raise Invalid('layout')
    case.prime()
    gran = plan['gran']
    if gran != 'none' and gran not in sched.GRANS:
        raise Invalid('granularity')
    sim = sched.Sim(plan['schedule'], None if gran == 'none' else gran)
    peers = []
    logs = []
    for n, link in enumerate(plan['links']):
        if len(link['caps']) != 2 or len(link['segs']) != 2 or min(link['caps']) < 1 or any(
                s < 1 for x in link['segs'] for s in x):
            raise Invalid('link')
        for x in link['rounds']:
            if len(x) != 3:
                raise Invalid('round')
        log = streams.Log()
        logs.append(log)
        ab = streams.Pipe(link['caps'][0], link['segs'][0], log, 'ab')
        ba = streams.Pipe(link['caps'][1], link['segs'][1], log, 'ba')
        a = Peer(case.view(), f'client {n}', ab, ba, r)
        b = Peer(case.view(), f'server {n}', ba, ab, r)
        sim.spawn(client(a, link))
        sim.spawn(server(b, link))
        peers += [a, b]
    sim.run()
    r.events += sim.k
    r.schedule, r.places = sim.switches, sim.places
    r.inter = [p.split(': ', 1)[1] for p in sim.places]
    for log in logs:
        r.merge(log.fired, 'faults')
    r.fault('preemption', len(sim.places))
    for p in peers:
        if p.bad:
            r.violate('peer', p.bad)
            return
    for t, p in zip(sim.tasks, peers):
        if isinstance(t.error, Invalid):
            raise t.error
        if t.error is not None:
            r.violate('peer', ops.within(ops.raised('it', t.error), f'{p.name}, {p.at}: %s'))
            return
    if sim.deadlock:
        r.violate('deadlock', 'no peer can go on: ' + '; '.join(
            f'{p.name} {p.at} ({p.rd.p.taken} bytes taken, {len(p.rd.p.buf)} waiting)'
            for p in peers))
        return
    if sim.exhausted:
        r.violate('stuck', f'no end after {sim.k} events')
        return
    if r.faults.get('reader blocks') and r.faults.get('segment boundary within a read'):
        r.sig = [[layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])],
                 plan['links']]


def client(p, link):
    def go():
        for req, resp, inplace in link['rounds']:
            for i in req:
                p.send(i)
            for i in resp:
                p.receive(i, inplace)
        if link.get('close'):
            i, cut = link['close']
            enc = p.case.enc[i]
            if enc:
                p.w.write(enc[:cut % len(enc)])
                p.w.p.closed = True
    return go


def server(p, link):
    def go():
        for req, resp, inplace in link['rounds']:
            for i in req:
                p.receive(i, inplace)
            for i in resp:
                p.send(i)
        if link.get('close') and p.case.enc[link['close'][0]]:
            p.broken(link['close'][0])
    return go
