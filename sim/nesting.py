"""Operations carried out by callbacks and streams of other operations."""

import _thread

from . import ops, sched
from .layout import Invalid
from .realize import Hooks

DEPTH = 6


class Nest(Hooks):
    """Runs operations at the n-th call of user code (callbacks and streams,
    counted together from the start of the enclosing operation)."""

    def __init__(self):
        self.case = None
        self.todo = {}
        self.n = 0
        self.on = False
        self.depth = 0
        self.deepest = 0
        self.ran = {}
        self.problems = []
        self.do = ops.run

    def mine(self):
        return self

    def begin(self, case, todo):
        self.case, self.todo, self.n = case, dict(todo), 0
        self.on, self.depth = True, 0

    def end(self):
        self.on = False

    def call(self, kind, *args):
        sched.point(kind)
        if not self.on:
            return
        self.n += 1
        todo = self.todo.pop(str(self.n), None)
        if todo is None or self.depth >= DEPTH:
            return
        self.depth += 1
        self.deepest = max(self.deepest, self.depth)
        for op in todo:
            self.ran[kind] = self.ran.get(kind, 0) + 1
            bad = self.do(self.case, op)
            if bad:
                self.problems.append((kind, op, bad))
        self.depth -= 1


class Threads(Hooks):
    """A Nest for every thread."""

    def __init__(self):
        self.nests = {}

    def mine(self):
        me = _thread.get_ident()
        nest = self.nests.get(me)
        if nest is None:
            nest = self.nests[me] = Nest()
        return nest

    def call(self, kind, *args):
        self.mine().call(kind, *args)

    @property
    def ran(self):
        out = {}
        for nest in list(self.nests.values()):
            for k, n in nest.ran.items():
                out[k] = out.get(k, 0) + n
        return out


class NestCase(ops.Case):
    def stream_hook(self):
        nest = self.w.hooks
        return lambda kind: nest.call(f'stream {kind}')


def gen_nested(rng, plan, kinds):
    """Operations by number of the call of user code."""
    out = {}
    for n in range(1, rng.choice([4, 10, 30, 80])):
        if rng.random() < rng.choice([0.1, 0.5]):
            out[str(n)] = [ops.gen_op(rng, plan, kinds) for _ in range(rng.choice([1, 1, 2]))]
    return out


def run(case, op, todo, do=ops.run):
    """An operation, with others nested in it.  Returns what is wrong."""
    nest = case.w.hooks.mine()
    for xs in todo.values():
        if not isinstance(xs, list):
            raise Invalid('nested')
    nest.do = do
    nest.problems = []
    nest.begin(case, todo)
    try:
        bad = do(case, op)
    finally:
        nest.end()
    if nest.problems:
        kind, inner, what = nest.problems[0]
        return ops.within(what, f'{inner[0]} {inner[1]} by {kind} during {op[0]}: %s')
    if bad and nest.ran:
        return ops.within(bad, '%s (with operations nested in it)')
    return bad


def in_thread(case, op):
    """An operation of a thread, with others nested in it if it says so."""
    if len(op) == 2:
        return ops.run(case, op)
    if len(op) != 3 or not isinstance(op[2], dict):
        raise Invalid('operation')
    return run(case, op[:2], op[2])
