"""Imports the library under test from the working tree, with the seams that
have to be in place before it is imported."""

import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
LIBDIR = os.path.join(os.path.realpath(REPO), 'structured') + os.sep

_loaded = False


def load():
    """Import the library (once), with simulated locks in place."""
    global _loaded
    if _loaded:
        return
    _loaded = True
    # Everything the library imports from the standard library is imported
    # first, so that only the library itself sees the simulated locks.
    import copy, dataclasses, functools, io, itertools, math, operator, os, re, struct  # noqa
    import threading, typing, warnings, weakref, contextvars, collections, enum  # noqa
    try:
        import typing_extensions  # noqa
    except ImportError:
        pass
    from . import sched

    sched.install_locks()
    # No byte code cache of the library is read or written
    sys.pycache_prefix = os.path.join(os.sep, 'nonexistent-pycache')
    sys.path.insert(0, os.path.realpath(REPO))
    import structured  # noqa

    where = os.path.realpath(structured.__file__)
    if not where.startswith(LIBDIR):
        raise SystemExit(f'harness: imported {where}, expected {LIBDIR}')


def is_lib(filename):
    return filename.startswith(LIBDIR)


class Pattern:
    """A regular expression of the library that counts what it is given."""

    def __init__(self, real, meter):
        self._real = real
        self._meter = meter

    def __getattr__(self, name):
        it = getattr(self._real, name)
        if not callable(it):
            return it

        def method(*args, **kw):
            self._meter(sum(len(a) for a in args if isinstance(a, (str, bytes, bytearray))))
            return it(*args, **kw)
        return method


class Module(Pattern):
    def compile(self, *args, **kw):
        return Pattern(self._real.compile(*args, **kw), self._meter)


def meter_regex(meter):
    """What the library's regular expressions look through is counted."""
    import re
    for name, mod in list(sys.modules.items()):
        if name.split('.')[0] == 'structured':
            for attr, val in list(vars(mod).items()):
                if isinstance(val, re.Pattern):
                    setattr(mod, attr, Pattern(val, meter))
                elif val is re:
                    setattr(mod, attr, Module(re, meter))
