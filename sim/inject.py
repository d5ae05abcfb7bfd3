"""
Fault injection at arbitrary points of the package's Python code, without any
change to it: a trace function counts the statements executed in the files of
the package and raises the chosen exception just before the k-th one, as a
failing allocation, an interrupt or a failing call would.
"""
import sys
import threading

from .core import PKG, InjectedInterrupt, StepLimit

SKIP = PKG + 'tests'


def exc_of(name):
    import numpy as np
    from ngmix.gexceptions import GMixRangeError
    return {
        'MemoryError': MemoryError,
        'Interrupt': InjectedInterrupt,
        'OSError': OSError,
        'GMixRangeError': GMixRangeError,
        'LinAlgError': np.linalg.LinAlgError,
        'FloatingPointError': FloatingPointError,
        'KeyboardInterrupt': KeyboardInterrupt,
        'ValueError': ValueError,
        'ZeroDivisionError': ZeroDivisionError,
    }[name]


class Tracer(object):
    """
    counts statements; raises exc before statement number `at` (1-based);
    raises StepLimit after `limit` statements
    """

    def __init__(self, at=None, exc=None, limit=None):
        self.n = 0
        self.at = at
        self.exc = exc
        self.limit = limit
        self.fired = False
        self.where = None

    def _global(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if fn.startswith(PKG) and not fn.startswith(SKIP):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            if self.at is not None and self.n == self.at:
                self.fired = True
                self.where = frame.f_code.co_name
                raise self.exc('injected by the simulator')
            if self.limit is not None and self.n > self.limit:
                raise StepLimit('more than %d statements' % self.limit)
        return self._local

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)
        return False


def count_statements(fn):
    t = Tracer()
    with t:
        out = fn()
    return t.n, out


def run_with_fault(fn, at, excname):
    """
    run fn with one fault.  Returns (tracer, result or None, exception or None)
    """
    t = Tracer(at=at, exc=exc_of(excname))
    try:
        with t:
            out = fn()
        return t, out, None
    except BaseException as e:   # what the caller sees
        return t, None, e


assert threading  # noqa
