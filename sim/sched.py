"""Deterministic scheduler for threads running library code.

Tasks are real threads, but only the one holding the baton runs; it can lose
the baton at events inside the library's code (from sys.monitoring), at points
the simulator's streams and callbacks announce, at simulated locks, and when it
ends.  Which task goes on is decided by the schedule:

    {"seed": n, "p": probability of a switch at an event}     - chosen, recorded
    {"explicit": [[event number, task], ...]}                 - replayed

The same event stream is used to raise an exception at the n-th event of an
operation (`arm`), and to bound the work of an operation (`budget`).
"""

import _thread
import math
import random
import sys
import threading

from . import lib

allocate = _thread.allocate_lock
_real_rlock = threading.RLock
MON = sys.monitoring
EV = MON.events
TOOL = 3
GRANS = {
    # Where the interpreter itself may switch threads or deliver a signal:
    # function starts, generator resumptions, jumps and returns of C calls
    'breaker': EV.PY_START | EV.PY_RESUME | EV.JUMP | EV.CALL,
    'line': EV.LINE,
    'instr': EV.INSTRUCTION,
    # For exceptions as by a failing allocation in a call
    'call': EV.PY_START | EV.CALL,
    # Switches at the points of callbacks, streams and locks only
    'none': 0,
    'work': EV.PY_START | EV.PY_RESUME | EV.JUMP | EV.LINE,
}

MAX_SWITCHES = 6000   # preemptions in one run; after them threads go on until they block
current = None  # the Sim being run


class Stuck(BaseException):
    """The step budget of an operation is used up."""


class Killed(BaseException):
    """Ends tasks of a simulation that is over."""


class Tracer:
    """Delivers events of library code to one consumer."""

    def __init__(self):
        self.gran = None
        self.sink = None

    def start(self, gran, sink):
        """sink(code, where) is called at every event in library code."""
        self.sink = sink
        self.gran = gran
        MON.use_tool_id(TOOL, 'sim')
        isl = lib.is_lib
        known = {}
        DISABLE = MON.DISABLE

        def mine(code):
            r = known.get(code)
            if r is None:
                r = known[code] = isl(code.co_filename)
            return r

        def two(code, a):
            if mine(code):
                return sink(code, a)
            return DISABLE

        def jump(code, a, b):
            if mine(code):
                # Only jumps back look for signals and other threads
                return sink(code, a) if b < a or gran == 'work' else DISABLE
            return DISABLE

        def c_return(code, a, f, x):
            if mine(code):
                return sink(code, a)

        def call(code, a, f, x):
            if mine(code):
                return None
            return DISABLE

        def callsink(code, a, f, x):
            if mine(code):
                return sink(code, a)
            return DISABLE

        ev = GRANS[gran]
        for e, cb in ((EV.LINE, two), (EV.INSTRUCTION, two), (EV.PY_START, two),
                      (EV.PY_RESUME, two), (EV.JUMP, jump),
                      (EV.CALL, callsink if gran == 'call' else call),
                      (EV.C_RETURN, c_return)):
            MON.register_callback(TOOL, e, cb if ev & e or e == EV.C_RETURN and
                                  gran == 'breaker' else None)
        MON.set_events(TOOL, ev)

    def stop(self):
        if self.gran is not None:
            MON.set_events(TOOL, 0)
            for e in (EV.LINE, EV.INSTRUCTION, EV.PY_START, EV.PY_RESUME, EV.JUMP, EV.CALL,
                      EV.C_RETURN):
                MON.register_callback(TOOL, e, None)
            MON.free_tool_id(TOOL)
            # Locations disabled for this use are wanted again by the next
            MON.restart_events()
            self.gran = None


tracer = Tracer()


def place(code, where, gran):
    """Human-readable place of an event."""
    line = where
    if gran != 'line':
        line = code.co_firstlineno
        for lo, hi, ln in code.co_lines():
            if lo <= where < hi and ln is not None:
                line = ln
                break
    return f'{code.co_filename[len(lib.LIBDIR):]}:{code.co_qualname}:{line}'


# ------------------------------------------------------------- one operation
class Aborter:
    """Raises `exc` at the n-th event (from 1) after being armed."""

    def __init__(self, gran='breaker'):
        self.gran = gran
        self.n = 0
        self.at = 0
        self.exc = None
        self.fired = None

    def __enter__(self):
        tracer.start(self.gran, self.event)
        MON.set_events(TOOL, 0)
        return self

    def __exit__(self, *a):
        tracer.stop()

    def arm(self, at, exc):
        self.n, self.at, self.exc, self.fired = 0, at, exc, None
        MON.set_events(TOOL, GRANS[self.gran])

    def disarm(self):
        MON.set_events(TOOL, 0)
        return self.fired

    def event(self, code, where):
        self.n += 1
        if self.n == self.at:
            self.fired = place(code, where, self.gran)
            raise self.exc


class Budget:
    """Raises Stuck once an operation has had too many events."""

    def __init__(self):
        self.n = 0
        self.limit = 0

    def __enter__(self):
        tracer.start('work', self.event)
        MON.set_events(TOOL, 0)
        return self

    def __exit__(self, *a):
        tracer.stop()

    def begin(self, limit):
        self.n, self.limit = 0, limit
        MON.set_events(TOOL, GRANS['work'])

    def end(self):
        MON.set_events(TOOL, 0)
        return self.n

    def event(self, code, where):
        self.n += 1
        if self.n > self.limit:
            raise Stuck(place(code, where, 'work'))


# -------------------------------------------------------------------- threads
class Task:
    def __init__(self, sim, tid, fn):
        self.sim = sim
        self.tid = tid
        self.fn = fn
        self.gate = allocate()
        self.gate.acquire()
        self.done = False
        self.wait = None  # predicate, while blocked
        self.error = None

    def __repr__(self):
        return f'task {self.tid}'


class Sim:
    """A simulation of some threads."""

    def __init__(self, schedule, gran='line', max_events=20_000_000):
        self.tasks = []
        self.byident = {}
        self.gran = gran
        self.k = 0
        self.switches = []      # [event, task], every decision taken
        self.places = []        # where the preemptions were
        self.aborts = {}        # event number: exception to raise
        self.fired = []         # (exception, where)
        self.explicit = None
        self.stall = False
        self.stalled = set()
        self.focus = 0
        self.hot = {}
        self.deadlock = False
        self.exhausted = False
        self.max_events = max_events
        self.over = False
        if 'explicit' in schedule:
            self.explicit = {k: t for k, t in schedule['explicit']}
            self.next = min(self.explicit, default=0)
            self.order = sorted(self.explicit)
            self.oi = 0
        else:
            self.rng = random.Random(schedule['seed'])
            self.p = schedule['p']
            # Threads that were preempted wait until the others are done
            self.stall = bool(schedule.get('stall'))
            # Preempt at some places of the code only, with this probability
            self.focus = schedule.get('focus', 0)
            self._draw()
        self.main = allocate()
        self.main.acquire()

    def _draw(self):
        if self.p <= 0 or len(self.switches) > MAX_SWITCHES:
            self.next = 0
            return
        if self.focus:
            self.next = -1
            return
        u = 1.0 - self.rng.random()
        self.next = self.k + 1 + (int(math.log(u) / math.log(1 - self.p)) if self.p < 1 else 0)

    def spawn(self, fn):
        t = Task(self, len(self.tasks), fn)
        self.tasks.append(t)
        return t

    # -- running
    def run(self):
        global current
        current = self
        if GRANS.get(self.gran):
            tracer.start(self.gran, self.event)
        try:
            for t in self.tasks:
                _thread.start_new_thread(self._body, (t,))
            first = self._choose([t for t in self.tasks])
            first.gate.release()
            self.main.acquire()
        finally:
            self.over = True
            if GRANS.get(self.gran):
                tracer.stop()
            current = None
        return self

    def _body(self, t):
        t.gate.acquire()
        self.byident[_thread.get_ident()] = t
        self.running = t
        try:
            if not self.over:
                t.fn()
        except Killed:
            return
        except BaseException as e:
            t.error = e
        t.done = True
        self._leave(t)

    def _runnable(self):
        return [t for t in self.tasks if not t.done and (t.wait is None or t.wait())]

    def _leave(self, t):
        """The running task cannot go on: let another."""
        if all(x.done for x in self.tasks):
            self.main.release()
            return
        self.k += 1
        ready = self._runnable()
        if not ready:
            self.deadlock = True
            self.over = True
            self.main.release()
        else:
            n = self._choose(ready)
            n.wait = None
            self.running = n
            n.gate.release()
            if n is t:
                t.gate.acquire()
                return
        if not t.done:
            t.gate.acquire()
            if self.over:
                raise Killed

    def _choose(self, ready):
        if self.explicit is not None:
            want = self.explicit.get(self.k)
            for t in ready:
                if t.tid == want:
                    break
            else:
                t = ready[0]
            self._advance()
        else:
            t = self.rng.choice([t for t in ready if t not in self.stalled] or ready)
            self.stalled.discard(t)
            self._draw()
        if len(ready) > 1:
            self.switches.append([self.k, t.tid])
        return t

    def _advance(self):
        while self.oi < len(self.order) and self.order[self.oi] <= self.k:
            self.oi += 1
        self.next = self.order[self.oi] if self.oi < len(self.order) else 0

    def task(self):
        return self.byident.get(_thread.get_ident())

    # -- events
    def event(self, code, where):
        self.k = k = self.k + 1
        if k in self.aborts:
            e = self.aborts[k]
            self.fired.append((e, place(code, where, self.gran)))
            if k == self.next:
                self._advance() if self.explicit is not None else self._draw()
            raise e
        if k != self.next:
            if k > self.max_events:
                self._exhaust()
            if self.next != -1 or not self._hot(code, where):
                return
        t = self.byident.get(_thread.get_ident())
        if t is None:
            return
        self._preempt(t, code, where)

    def point(self, label):
        """A place outside library code where another task may go on."""
        t = self.byident.get(_thread.get_ident())
        if t is None or self.over:
            return
        self.k += 1
        if self.k == self.next or self.next == -1 and self._hot(None, label):
            self._preempt(t, None, label)

    def _hot(self, code, where):
        key = code, where
        p = self.hot.get(key)
        if p is None:
            p = self.hot[key] = self.p if self.rng.random() < self.focus else 0
        return p and self.rng.random() < p

    def _exhaust(self):
        self.exhausted = True
        self.over = True
        self.main.release()
        allocate_forever()

    def _preempt(self, t, code, where):
        ready = self._runnable()
        others = [x for x in ready if x is not t]
        if self.explicit is not None:
            want = self.explicit.get(self.k)
            self._advance()
            n = next((x for x in others if x.tid == want), None)
        else:
            if self.stall:
                others = [x for x in others if x not in self.stalled]
            n = self.rng.choice(others) if others else None
            self._draw()
            if self.stall and n is not None:
                self.stalled.add(t)
        if n is None:
            return
        self.switches.append([self.k, n.tid])
        self.places.append(f'{self.k}: task {t.tid} -> {n.tid} at ' + (
            where if code is None else place(code, where, self.gran)))
        n.wait = None
        self.running = n
        n.gate.release()
        t.gate.acquire()
        if self.over:
            raise Killed

    def block(self, ready, label):
        """Wait until ready() holds."""
        t = self.byident[_thread.get_ident()]
        while not ready():
            t.wait = ready
            self._leave(t)
            t.wait = None


def allocate_forever():
    l = allocate()
    l.acquire()
    l.acquire()


def point(label):
    if current is not None:
        current.point(label)


# ---------------------------------------------------------------------- locks
class SimLock:
    """A lock that tells the scheduler when a task has to wait for it."""

    def __init__(self):
        self._l = allocate()
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        s = current
        t = s.task() if s is not None else None
        if t is None:
            return self._l.acquire(blocking, timeout)
        s.point('acquire')
        if self._l.acquire(False):
            return True
        if not blocking or timeout >= 0:
            return False
        s.block(lambda: not self._l.locked(), 'lock')
        return self._l.acquire(False)

    def release(self):
        self._l.release()
        point('release')

    def locked(self):
        return self._l.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = allocate()


class SimRLock(SimLock):
    def __init__(self):
        super().__init__()
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._n += 1
            return True
        if not super().acquire(blocking, timeout):
            return False
        self._owner = me
        self._n = 1
        return True

    __enter__ = acquire

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._n -= 1
        if not self._n:
            self._owner = None
            super().release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        n, self._n, self._owner = self._n, 0, None
        SimLock.release(self)
        return n

    def _acquire_restore(self, n):
        SimLock.acquire(self)
        self._n, self._owner = n, _thread.get_ident()


def install_locks():
    threading.Lock = SimLock
    threading.RLock = SimRLock
