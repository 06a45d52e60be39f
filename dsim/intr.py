"""Raise an exception at a chosen executed line of the package: an
interrupt, a failed allocation or a failed system call at that point."""
import sys

from .seams import PKG


class LineCounter:
    """Counts executed lines per (file, function, line offset) in order of
    first execution. With calls=True only entries of functions outside
    the datastore count: places where a real failure surfaces however the
    statements in between are arranged."""

    def __init__(self, calls=False):
        self.locs = {}
        self.total = 0
        self.calls = calls

    def _local(self, frame, event, arg):
        if event == 'line':
            k = (frame.f_code.co_filename, frame.f_lineno)
            self.locs[k] = self.locs.get(k, 0) + 1
            self.total += 1
        return self._local

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PKG):
            if not self.calls:
                return self._local
            self.total += 1
            k = call_key(frame)
            if k:
                self.locs[k] = self.locs.get(k, 0) + 1
        return None

    def __enter__(self):
        self._prev = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self._prev)


def call_key(frame):
    c = frame.f_code
    if c.co_name.startswith('<') or c.co_filename.endswith('utils.py'):
        return None
    return c.co_filename, c.co_firstlineno


def choose(counter, u_loc, u_occ, name=''):
    """A location by its order of first execution, an occurrence of it.
    name: of a file to choose in, if it was executed."""
    locs = [x for x in counter.locs.items() if x[0][0].endswith(name)] or \
        list(counter.locs.items())
    if not locs:
        return None
    (fn, ln), n = locs[min(len(locs) - 1, int(u_loc * len(locs)))]
    return fn, ln, 1 + min(n - 1, int(u_occ * n))


EXC = {
    'KeyboardInterrupt': KeyboardInterrupt,
    'MemoryError': MemoryError,
    'OSError': lambda: OSError(5, 'Input/output error (simulated)'),
    'RecursionError': lambda: RecursionError('simulated'),
}


class Interrupt:
    """Raises once when the chosen line is about to run."""

    def __init__(self, where, exc, calls=False):
        self.where, self.exc, self.calls = where, exc, calls
        self.seen = 0
        self.fired = False

    def _local(self, frame, event, arg):
        if event == 'line' and not self.fired:
            if (frame.f_lineno == self.where[1]
                    and frame.f_code.co_filename == self.where[0]):
                self.seen += 1
                if self.seen == self.where[2]:
                    self.fired = True
                    raise EXC[self.exc]()
        return self._local

    def _global(self, frame, event, arg):
        if self.fired:
            return None
        if frame.f_code.co_filename.startswith(PKG):
            if not self.calls:
                return self._local
            if call_key(frame) == self.where[:2]:
                self.seen += 1
                if self.seen == self.where[2]:
                    self.fired = True
                    raise EXC[self.exc]()
        return None

    def __enter__(self):
        self._prev = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self._prev)


class NthCall:
    """Raises once, at the n-th entry of a function of the package."""

    def __init__(self, n, exc):
        self.left, self.exc, self.fired = n, exc, False

    def _global(self, frame, event, arg):
        if not self.fired and frame.f_code.co_filename.startswith(PKG) \
                and call_key(frame):
            self.left -= 1
            if self.left <= 0:
                self.fired = True
                raise EXC[self.exc]()
        return None

    def __enter__(self):
        self._prev = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self._prev)
