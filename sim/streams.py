"""Simulated streams, files and buffers, with fault injection.

Every object given to the library in place of a file is one of these, or one
of the standard library's buffered readers and writers on top of one of these.
Faults are looked up by the number of the call (reads, writes and others
counted separately), so that they are part of the plan.
"""

import array
import ctypes
import errno
import io
import mmap
import struct

from . import sched


class SimError(Exception):
    """An error injected by the simulator."""


class SimOSError(OSError):
    pass


class SimEOF(EOFError):
    pass


class SimTimeout(TimeoutError):
    pass


class SimValueError(ValueError):
    pass


class SimLookup(KeyError):
    pass


class SimStruct(struct.error):
    pass


class SimIndex(IndexError):
    pass


class SimStop(StopIteration):
    pass


class SimAttr(AttributeError):
    pass


class SimType(TypeError):
    pass


class SimMemory(MemoryError):
    pass


class SimInterrupt(KeyboardInterrupt):
    pass


class SimBase(BaseException):
    pass


class SimFull(OSError):
    """A full disk."""

    def __init__(self, text):
        super().__init__(errno.ENOSPC, text)


class SimIO(OSError):
    """A bad sector."""

    def __init__(self, text):
        super().__init__(errno.EIO, text)


class SimEINTR(InterruptedError):
    pass


class SimAgain(BlockingIOError):
    pass


class SimPipe(BrokenPipeError):
    pass


class SimReset(ConnectionResetError):
    pass


class SimUnsupported(io.UnsupportedOperation):
    pass


class SimUnicode(UnicodeError):
    pass


class SimNotImplemented(NotImplementedError):
    pass


class SimRecursion(RecursionError):
    pass


class SimRuntime(RuntimeError):
    pass


class SimOverflow(OverflowError):
    pass


class SimAssertion(AssertionError):
    pass


class SimBuffer(BufferError):
    pass


class SimExit(SystemExit):
    pass


class SimGenExit(GeneratorExit):
    pass


EXC = {e.__name__: e for e in (SimError, SimOSError, SimEOF, SimTimeout, SimValueError,
                               SimLookup, SimAttr, SimType, SimStruct, SimIndex,
                               SimMemory, SimInterrupt, SimBase, SimFull, SimIO, SimEINTR,
                               SimAgain, SimPipe, SimReset, SimUnsupported, SimUnicode,
                               SimNotImplemented, SimRecursion, SimRuntime, SimOverflow,
                               SimAssertion, SimBuffer, SimExit, SimGenExit)}
# What the standard library's buffered streams handle themselves
TRAPPED = {'SimEINTR': 'SimOSError', 'SimAgain': 'SimIO'}


def make(name, text, buffered=False):
    """The exception to inject (into a raw stream below a buffered one)."""
    if buffered:
        name = TRAPPED.get(name, name)
    e = EXC[name](text)
    if name == 'SimEINTR':
        e.errno = errno.EINTR
    elif name == 'SimAgain':
        e.errno = errno.EAGAIN
        e.characters_written = 0
    return e


def valid(faults):
    """Refuse descriptions of faults that make no sense (while minimising)."""
    from .layout import Invalid
    for f in faults.values():
        ok = f and (f[0] in ('empty', 'none') and len(f) == 1 or
                    f[0] == 'short' and len(f) == 2 and f[1] > 0 or
                    f[0] == 'raise' and len(f) in (2, 3) and all(x in EXC for x in f[1:]) or
                    f[0] == 'torn' and len(f) == 3 and f[2] in EXC)
        if not ok:
            raise Invalid(f'fault {f}')
    return faults


class Disk:
    """The bytes of a file, shared by all handles on it."""

    def __init__(self, data=b''):
        self.data = bytearray(data)


class Log:
    """What was done to a stream, and which faults fired."""

    def __init__(self):
        self.calls = []
        self.fired = {}

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1


class Counted(bytes):
    """Bytes that count how many of them are copied or looked through."""

    total = 0

    @staticmethod
    def more(n):
        Counted.total += n

    def __new__(cls, data=b''):
        Counted.total += len(data)
        return bytes.__new__(cls, data)

    def __getitem__(self, i):
        out = bytes.__getitem__(self, i)
        return Counted(out) if isinstance(i, slice) else out

    def __add__(self, other):
        return Counted(bytes.__add__(self, other))

    def __radd__(self, other):
        return Counted(bytes(other) + bytes.__bytes__(self))

    def __bytes__(self):
        Counted.total += len(self)
        return bytes.__bytes__(self)

    def _found(self, at, args):
        start = args[1] if len(args) > 1 and isinstance(args[1], int) else 0
        Counted.total += max(0, (len(self) if at < 0 else at) - start)
        return at

    def find(self, *args):
        return self._found(bytes.find(self, *args), args)

    def index(self, *args):
        at = bytes.find(self, *args)
        self._found(at, args)
        return at if at >= 0 else bytes.index(self, *args)

    def __iter__(self):
        Counted.total += len(self)
        return bytes.__iter__(self)

    def __contains__(self, x):
        Counted.total += len(self)
        return bytes.__contains__(self, x)


def _whole(name):
    plain = getattr(bytes, name)

    def method(self, *args, **kw):
        Counted.total += len(self)
        return plain(self, *args, **kw)
    return method


for _name in ('partition', 'rpartition', 'split', 'rsplit', 'rfind', 'rindex', 'count', 'replace',
              'translate', 'strip', 'lstrip', 'rstrip', 'hex', 'decode', 'join', '__mul__'):
    setattr(Counted, _name, _whole(_name))


class SimFile(io.RawIOBase):
    """A seekable file: raw reads and writes with a position of its own.

    faults: {"read": {n: fault}, "write": ..., "seek": ..., "tell": ...} with
    n counted from 0 per kind and fault one of
        ["short", n]        at most n bytes are delivered (at least one)
        ["empty"]           b'' although more would follow
        ["none"]            None, as from a non-blocking stream
        ["raise", name]     the exception of that name; with a second name, that
                            exception in all later calls
        ["torn", n, name]   n bytes are written, then the exception
    """

    counted = False

    def __init__(self, disk, pos=0, faults=None, log=None, label='file', hook=None):
        self.disk = disk
        self.pos = pos
        self.faults = faults or {}
        self.log = log or Log()
        self.count = {'read': 0, 'write': 0, 'seek': 0, 'tell': 0}
        self.label = label
        self.raised = []
        self.broken = None
        self.hook = hook
        self.buffered = False

    def _fault(self, kind):
        n = self.count[kind]
        self.count[kind] = n + 1
        self.log.calls.append(kind)
        sched.point(f'{self.label}.{kind}')
        if self.hook is not None:
            self.hook(kind)
        if self.broken:
            self.log.fire(f'dead: {kind} raises {self.broken}')
            self.raised.append(make(self.broken, f'injected in {kind} {n}', self.buffered))
            raise self.raised[-1]
        f = self.faults.get(kind)
        if not f:
            return None
        f = f.get(str(n))
        if f is not None and f[0] == 'raise':
            if len(f) > 2:
                self.broken = f[2]
            self.log.fire(f'{kind} raises {f[1]}')
            self.raised.append(make(f[1], f'injected in {kind} {n}', self.buffered))
            raise self.raised[-1]
        return f

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def _limit(self, n):
        """Bytes to deliver for a read of n, after faults; None for none."""
        f = self._fault('read')
        left = max(0, len(self.disk.data) - self.pos)
        m = min(n, left)
        if f is not None and m:
            if f[0] == 'short' and m > f[1]:
                self.log.fire('short read')
                m = max(1, f[1])
            elif f[0] == 'empty':
                self.log.fire('empty read')
                m = 0
            elif f[0] == 'none':
                self.log.fire('read gives None')
                return None
        return m

    def readinto(self, buf):
        with memoryview(buf) as mv, mv.cast('B') as b:
            m = self._limit(len(b))
            if m is None:
                return None
            b[:m] = self.disk.data[self.pos:self.pos + m]
        self.pos += m
        return m

    def read(self, n=-1):
        if n is None or n < 0:
            self._fault('read')
            m = max(0, len(self.disk.data) - self.pos)
        else:
            m = self._limit(n)
            if m is None:
                return None
        out = bytes(self.disk.data[self.pos:self.pos + m])
        self.pos += m
        return Counted(out) if self.counted else out

    def readall(self):
        return self.read(-1)

    def write(self, data):
        f = self._fault('write')
        with memoryview(data) as mv, mv.cast('B') as v:
            n = len(v)
            if f is not None and f[0] == 'torn':
                n = min(n, f[1])
            b = bytes(v[:n])
        d = self.disk.data
        if self.pos > len(d):
            d.extend(bytes(self.pos - len(d)))
        d[self.pos:self.pos + n] = b
        self.pos += n
        if f is not None and f[0] == 'torn':
            self.log.fire('torn write')
            self.raised.append(make(f[2], 'injected torn write', self.buffered))
            raise self.raised[-1]
        return n

    def seek(self, off, whence=0):
        self._fault('seek')
        base = {0: 0, 1: self.pos, 2: len(self.disk.data)}[whence]
        if base + off < 0:
            raise ValueError('negative seek position')
        self.pos = base + off
        return self.pos

    def tell(self):
        self._fault('tell')
        return self.pos


class Handle:
    """A file handle as an application opens it: raw or buffered."""

    KINDS = ('raw', 'reader', 'random', 'reader-small', 'random-small', 'bytesio')

    def __init__(self, kind, disk, pos=0, faults=None, log=None, hook=None):
        self.kind = kind
        self.disk = disk
        if kind == 'bytesio':
            self.raw = None
            self.f = io.BytesIO(bytes(disk.data))
            self.f.seek(pos)
            return
        self.raw = SimFile(disk, 0 if kind != 'raw' else pos, None, log, hook=hook)
        size = 1 if kind.endswith('small') else 64
        if kind.startswith('reader'):
            self.f = io.BufferedReader(self.raw, size)
        elif kind.startswith('random'):
            self.f = io.BufferedRandom(self.raw, size)
        else:
            self.f = self.raw
        if kind != 'raw':
            self.raw.buffered = True
            self.f.seek(pos)
        self.raw.faults = faults or {}
        self.raw.count = dict.fromkeys(self.raw.count, 0)

    def pos(self):
        """The position of the stream, without disturbing it."""
        if self.kind == 'raw':
            return self.raw.pos
        if self.raw is not None:
            self.raw.faults = {}
            self.raw.broken = None
            self.raw.hook = None
        return self.f.tell()


class Sink:
    """A stream that can only be written to; keeps what it is given."""

    def __init__(self, faults=None, log=None, hook=None, ret='n'):
        self.faults = faults or {}
        self.log = log or Log()
        self.n = 0
        self.got = bytearray()
        self.chunks = []     # the objects that were written, and copies of them
        self.raised = []
        self.hook = hook
        self.ret = ret

    def write(self, data):
        n = self.n
        self.n = n + 1
        self.log.calls.append('write')
        sched.point('sink.write')
        if self.hook is not None:
            self.hook('write')
        b = bytes(data)
        f = self.faults.get(str(n))
        if f is not None and f[0] == 'raise':
            self.log.fire(f'write raises {f[1]}')
            self.raised.append(make(f[1], f'injected in write {n}'))
            raise self.raised[-1]
        if f is not None and f[0] == 'torn':
            self.log.fire('torn write')
            self.got += b[:f[1]]
            self.raised.append(make(f[2], f'injected torn write {n}'))
            raise self.raised[-1]
        self.chunks.append((data, b))
        self.got += b
        return len(b) if self.ret == 'n' else None

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        self.log.calls.append(name)
        raise AttributeError(name)


class Pipe:
    """One direction of a connection: a bounded buffer of bytes in flight,
    delivered in the segments that the plan gives."""

    def __init__(self, cap, segs, log=None, label='pipe'):
        self.cap = cap
        self.segs = segs or [1 << 30]
        self.i = 0
        self.buf = bytearray()
        self.sent = 0
        self.taken = 0
        self.log = log or Log()
        self.label = label
        self.closed = False

    def seg(self):
        s = self.segs[self.i % len(self.segs)]
        self.i += 1
        return s


class PipeReader:
    """The receiving end: blocks, never gives less than asked for unless the
    connection is closed, and can only be read."""

    def __init__(self, pipe):
        self.p = pipe
        self.other = []      # other calls than read

    def read(self, n=-1):
        p = self.p
        sched.point(f'{p.label}.read')
        if n is None or n < 0:
            self.other.append(f'read({n})')
            s = sched.current
            s.block(lambda: p.closed, 'read all')
            out = bytes(p.buf)
            p.buf.clear()
            p.taken += len(out)
            return out
        out = bytearray()
        s = sched.current
        while len(out) < n:
            if not p.buf:
                if p.closed:
                    break
                p.log.fire('reader blocks')
                s.block(lambda: p.buf or p.closed, 'read')
                continue
            m = min(n - len(out), p.seg(), len(p.buf))
            if m < n - len(out):
                p.log.fire('segment boundary within a read')
            out += p.buf[:m]
            del p.buf[:m]
            p.taken += m
            sched.point(f'{p.label}.read segment')
        return bytes(out)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        self.other.append(name)
        raise AttributeError(name)


class PipeWriter:
    def __init__(self, pipe):
        self.p = pipe
        self.other = []

    def write(self, data):
        p = self.p
        b = bytes(data)
        i = 0
        sched.point(f'{p.label}.write')
        while i < len(b):
            if len(p.buf) >= p.cap:
                p.log.fire('writer blocks')
                sched.current.block(lambda: len(p.buf) < p.cap, 'write')
                continue
            m = min(len(b) - i, p.cap - len(p.buf))
            p.buf += b[i:i + m]
            p.sent += m
            i += m
            sched.point(f'{p.label}.write segment')
        return len(b)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        self.other.append(name)
        raise AttributeError(name)


# -------------------------------------------------------------------- buffers
READ_KINDS = ('bytes', 'bytearray', 'memoryview', 'ro-memoryview', 'sub-memoryview', 'array',
              'mmap', 'cast-memoryview', 'array-b', 'array-h', 'c-memoryview', 'h-memoryview',
              'ctypes')
WRITE_KINDS = ('bytearray', 'memoryview', 'sub-memoryview', 'array', 'mmap', 'cast-memoryview',
               'array-b', 'array-h', 'c-memoryview', 'h-memoryview', 'ctypes')


class Buffer:
    """A buffer of some kind holding given bytes, and ways to disturb it."""

    def __init__(self, kind, data):
        self.kind = kind
        n = len(data)
        if kind == 'array' or kind == 'array-b' or kind == 'array-h' and n % 2 == 0:
            self.base = array.array({'y': 'B', 'b': 'b', 'h': 'h'}[kind[-1]])
            self.base.frombytes(data)
            self.obj = self.base
        elif kind == 'ctypes' and n:
            self.base = self.obj = (ctypes.c_ubyte * n).from_buffer_copy(data)
        elif kind == 'c-memoryview' and n or kind == 'h-memoryview' and n and n % 2 == 0:
            self.base = bytearray(data)
            self.obj = memoryview(self.base).cast(kind[0])
        elif kind == 'mmap' and n:
            self.base = mmap.mmap(-1, n)
            self.base[:] = bytes(data)
            self.obj = self.base
        elif kind == 'bytes':
            self.base = self.obj = bytes(data)
        elif kind == 'counted':
            self.base = self.obj = Counted(data)
        elif kind == 'memoryview':
            self.base = bytearray(data)
            self.obj = memoryview(self.base)
        elif kind == 'ro-memoryview':
            self.base = bytearray(data)
            self.obj = memoryview(self.base).toreadonly()
        elif kind == 'sub-memoryview':
            self.base = bytearray(b'\xa5' * 7 + bytes(data) + b'\x5a' * 5)
            self.obj = memoryview(self.base)[7:7 + n]
        elif kind == 'cast-memoryview' and n:
            self.base = bytearray(data)
            self.obj = memoryview(self.base).cast('b')
        else:
            self.base = bytearray(data)
            self.obj = self.base

    def bytes(self):
        with memoryview(self.obj) as m:
            return m.tobytes()

    def around(self):
        """Bytes outside of what was handed out, if any."""
        if self.kind == 'sub-memoryview':
            n = len(self.obj)
            return bytes(self.base[:7]), bytes(self.base[7 + n:])
        return None

    def scribble(self):
        """Overwrite, resize and release everything, as its owner may."""
        done = []
        if self.kind == 'bytes':
            return done
        if isinstance(self.base, mmap.mmap):
            self.base[:] = b'\xee' * len(self.base)
            self.base.close()       # BufferError while a view exists
            return ['overwrite', 'close']
        if isinstance(self.base, array.array):
            for i in range(len(self.base)):
                self.base[i] = 0x6E
            self.base.extend([7, 7])  # BufferError while a view exists
            return ['overwrite', 'resize']
        if self.kind == 'ctypes' and not isinstance(self.base, bytearray):
            ctypes.memset(self.base, 0xEE, len(self.base))
            return ['overwrite']
        self.base[:] = b'\xee' * len(self.base)
        done.append('overwrite')
        if isinstance(self.obj, memoryview):
            self.obj.release()      # BufferError while a view of it exists
            done.append('release')
        self.base.extend(b'zzzz')   # BufferError while a view exists
        self.base.clear()
        done.append('resize')
        return done
