"""C02: records cut short, and the recovery of a log after a crash."""

import io

from .. import layout, ops, streams
from ..layout import Invalid
from ..ops import Case

RUNS = {'quick': 7000, 'thorough': 250000}
RULE = ('A run cuts the encodings of generated values at every byte (at up to 48 bytes of long '
        'ones) and unpacks them in all six ways, then writes a log of records to a simulated file '
        'in which the process crashes at a chosen write or loses unsynced bytes, scans what is '
        'left, truncates, resumes and scans again.  Distinct by layouts, cut points and crash; '
        'non-trivial if a record was cut in its middle.')
STUBS = 'files (simulated disk and handles, also below io.BufferedReader, Writer and Random)'
ASSUMES = ['layouts ending in a consume-to-end string are excepted, as the property says',
           'an application scans its log knowing the class of each record']


class Crash(BaseException):
    pass


def gen(rng, i, tier):
    without = ['rest'] if rng.random() < 0.9 else []
    plan, g = ops.gen_case(rng, (1, 4), without=without, big=rng.choice([0.03, 0.03, 0.2]))
    n = len(plan['objs'])
    plan['cuts'] = []
    for o in range(n):
        plan['cuts'].append(['cut', {'o': o, 'how': rng.sample(ops.UNPACK, rng.choice([1, 2, 6])),
                                     'h': rng.choice(streams.Handle.KINDS),
                                     'buf': rng.choice(streams.READ_KINDS),
                                     'off': rng.choice([0, 0, 3]), 'seed': rng.randrange(1000)}])
    log = {'recs': [rng.randrange(n) for _ in range(rng.randint(1, 8))],
           'w': rng.choice(['raw', 'buffered', 'random']), 'size': rng.choice([1, 8, 64, 4096]),
           'r': rng.choice(['raw', 'reader', 'random', 'reader-small', 'mmap', 'bytes']),
           'inplace': rng.random() < 0.3}
    x = rng.random()
    if x < 0.4:
        log['crash'] = [rng.randint(0, 30), rng.randint(0, 12)]   # write call, torn bytes
    elif x < 0.6:
        log['crash'] = [rng.randint(0, 5), rng.randint(0, 300)]
    if rng.random() < 0.6:
        log['lost'] = rng.choice([rng.randint(0, 6), rng.randint(0, 60), rng.randint(0, 600)])
    plan['logs'] = [log]
    return plan


LISTS = ('cuts', 'logs')


def sample(plan):
    return {'classes': [layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])],
            'cuts': plan['cuts'], 'logs': plan['logs']}


def execute(plan, r):
    case = Case(plan)
    case.counts = r.counts
    for kind, a in plan['cuts']:
        bad = cut(case, a, r)
        if bad:
            r.violate('cut', bad)
            return
    for log in plan['logs']:
        try:
            bad = recover(case, log, r)
        except (Invalid, Crash):
            raise
        except Exception as e:
            bad = ops.raised('the log', e)
        if bad:
            r.violate('log', bad)
            return
    if r.faults.get('record cut'):
        r.sig = [[layout.describe_cls(s, i) for i, s in enumerate(plan['classes'])],
                 plan['cuts'], plan['logs']]


def points(enc, seed):
    n = len(enc)
    if n <= 48:
        return range(n)
    pts = set(range(12)) | {n - 1, n - 2, n // 2}
    x = seed
    while len(pts) < 48:
        x = (x * 1103515245 + 12345) % (1 << 31)
        pts.add((x >> 8) % n)
    return sorted(pts)


def cut(case, a, r):
    i = a['o']
    enc = case.enc[i]
    if case.final[i]:
        r.count('excepted (consumes to the end)')
        return None
    cls = case.cls(i)
    off = a.get('off', 0)
    for at in points(enc, a.get('seed', 0)):
        for how in a['how']:
            create = how[0] == 'c'
            obj = None if create else case.real(i, fresh=True)
            r.fault('record cut')
            r.count(f'{how} of a cut record')
            pre = ops.PRE[:off] if how[-1] != 'u' else b''
            data = pre + enc[:at]
            try:
                if how[-1] == 'r':
                    h = streams.Handle(a['h'], streams.Disk(data), len(pre))
                    got = cls.create_unpack_read(h.f) if create else obj.unpack_read(h.f)
                else:
                    b = streams.Buffer(a['buf'], data).obj
                    if how == 'cu':
                        got = cls.create_unpack(b)
                    elif how == 'u':
                        obj.unpack(b)
                    elif how == 'cuf':
                        got = cls.create_unpack_from(b, len(pre))
                    else:
                        obj.unpack_from(b, len(pre))
            except Exception:
                continue
            return (f'{how} of value {i} (class {case.objs[i].ck}) cut to {at} of {len(enc)} '
                    'bytes gave a value')
    return None


class CrashFile(streams.SimFile):
    """Crashes in a given write, after some of its bytes."""

    def __init__(self, disk, pos, crash, r):
        super().__init__(disk, pos)
        self.crash = crash
        self.r = r
        self.dead = False

    def write(self, data):
        n = self.count['write']
        if self.dead:
            raise Crash
        if self.crash is not None and n == self.crash[0]:
            b = bytes(data)[:self.crash[1]]
            self.dead = True
            self.r.fault('crash in a write')
            super().write(b)
            raise Crash
        return super().write(data)


def writer(log, disk, crash, r):
    raw = CrashFile(disk, len(disk.data), crash, r)
    if log['w'] == 'buffered':
        return raw, io.BufferedWriter(raw, log['size'])
    if log['w'] == 'random':
        f = io.BufferedRandom(raw, log['size'])
        f.seek(len(disk.data))
        return raw, f
    return raw, raw


def recover(case, log, r):
    recs = [i for i in log['recs']]
    for i in recs[:-1]:
        if case.final[i]:
            return None
    for i in recs:
        if not 0 <= i < len(case.objs):
            raise Invalid('value')
    if log.get('crash') is not None and len(log['crash']) != 2:
        raise Invalid('crash')
    disk = streams.Disk()
    raw, f = writer(log, disk, log.get('crash'), r)
    reals = [case.real(i) for i in recs]
    try:
        for x in reals:
            x.pack_write(f)
        f.flush()
    except Crash:
        r.count('crashed while writing')
    raw.dead = True     # what is still in the buffer is lost
    whole = b''.join(case.enc[i] for i in recs)
    if log.get('lost'):
        keep = max(0, len(disk.data) - log['lost'])
        if keep < len(disk.data):
            r.fault('unsynced bytes lost')
        del disk.data[keep:]
    if bytes(disk.data) != whole[:len(disk.data)]:
        return 'the file does not start with the encodings of the records'
    bad, done, end = scan(case, log, recs, disk, r)
    if bad:
        return bad
    if done < len(recs):
        r.probe('recovered part of a log')
    # Resume at the end of the last whole record
    del disk.data[end:]
    raw2, f2 = writer(log, disk, None, r)
    for x in reals[done:]:
        x.pack_write(f2)
    f2.flush()
    if bytes(disk.data) != whole:
        return 'after resuming, the file does not hold the records'
    bad, done, end = scan(case, log, recs, disk, r)
    if bad:
        return 'after resuming: ' + bad
    if done != len(recs):
        return f'after resuming: {done} of {len(recs)} records found'
    return None


def scan(case, log, recs, disk, r):
    """Read records until one fails.  (problem, records found, their end)"""
    size = len(disk.data)
    pos = 0
    kind = log['r']
    h = None
    buf = None
    if kind in ('mmap', 'bytes'):
        buf = streams.Buffer(kind, bytes(disk.data)).obj
    else:
        h = streams.Handle(kind, disk)
    for k, i in enumerate(recs):
        end = pos + len(case.enc[i])
        if case.final[i] and end > size:
            return None, k, pos     # takes what there is
        obj = case.real(i, fresh=True) if log['inplace'] else None
        try:
            if h is not None:
                if obj is None:
                    obj = case.cls(i).create_unpack_read(h.f)
                else:
                    obj.unpack_read(h.f)
            elif obj is None:
                obj = case.cls(i).create_unpack_from(buf, pos)
            else:
                obj.unpack_from(buf, pos)
        except Exception as e:
            if end <= size:
                b = ops.raised(f'record {k} (value {i}) is there completely, but unpacking it', e)
                return b, k, pos
            return None, k, pos
        if end > size:
            return (f'record {k} (value {i}) has {size - pos} of {end - pos} bytes, but unpacking '
                    'it gave a value'), k, pos
        bad = case.w.diff(obj, case.objs[i])
        if bad:
            return f'record {k} (value {i}): {bad}', k, pos
        if h is not None and h.f.tell() != end:
            return f'record {k}: stream left at {h.f.tell()}, not {end}', k, pos
        r.count('record recovered')
        pos = end
    return None, len(recs), pos
