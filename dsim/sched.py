"""Deterministic scheduling of real threads.

Exactly one thread runs at a time. A thread may lose the processor before any
line of the package it executes; whether it does is read from the scenario's
list of switches, so one scenario is one interleaving. A thread can be killed
at a chosen line. Locks the package creates are replaced by ones the
scheduler knows (`install_locks`), so that a parked owner never blocks the
process."""
import _thread
import os
import sys
import threading

from .core import SimTimeout, Violation
from .seams import PKG

_current = None          # the scheduler that is running, if any


class Killed(BaseException):
    """The simulated thread is gone."""


class _Task:
    def __init__(self, i, fn):
        self.i, self.fn = i, fn
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.points = 0
        self.state = 'ready'          # ready, blocked, done
        self.result = None
        self.ident = None


class Sched:
    """switches: list of [lines until the switch, thread to run next].
    at: {(file, line): switches left}, lines at which the next thread runs.
    inside: experiments and frames can also be left each time one of their
    attributes is read or set, in the middle of a line.
    kills: {thread: number of its line at which it dies}."""

    def __init__(self, run, fns, switches, kills=None, at=(), inside=False):
        self.run = run
        self.tasks = [_Task(i, fn) for i, fn in enumerate(fns)]
        self.switches = [list(s) for s in switches]
        self.kills = kills or {}
        self.at = {k: 120 if inside else 40 for k in at}
        self.inside = inside
        self.k = 0
        self.left = self.switches[0][0] if self.switches else None
        self.cur = None
        self.n = 0
        self.taken = []               # (task, line count, next)
        self.sites = set()
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.abandoned = False
        self.failure = None

    # ----------------------------------------------------------- tracing
    def _global(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG):
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == 'line':
            self._point(frame)
        return self._local

    def _attribute(self):
        f = sys._getframe(2)
        if self.cur is not None and \
                self.cur.ident == threading.get_ident() and \
                self.cur.state == 'ready' and \
                f.f_code.co_filename.startswith(PKG):
            self._point(f)

    def _watch(self):
        """Returns what ends the watch."""
        from defdap import experiment
        classes = [c for c in vars(experiment).values()
                   if isinstance(c, type) and c.__module__ == 'defdap.experiment'
                   and not {'__getattribute__', '__setattr__'} & set(vars(c))]

        def get(obj, name):
            self._attribute()
            return object.__getattribute__(obj, name)

        def put(obj, name, value):
            self._attribute()
            object.__setattr__(obj, name, value)

        for c in classes:
            c.__getattribute__, c.__setattr__ = get, put

        def end():
            for c in classes:
                del c.__getattribute__, c.__setattr__
        return end

    def _point(self, frame):
        t = self.cur
        t.points += 1
        self.n += 1
        if self.abandoned:
            raise Killed()
        if self.kills.get(t.i) == t.points:
            self.run.fault('thread killed')
            raise Killed()
        if self.at:
            k = frame.f_code.co_filename, frame.f_lineno
            if self.at.get(k):
                self.at[k] -= 1
                ready = [x for x in self.tasks if x.state == 'ready']
                nxt = ready[(ready.index(t) + 1) % len(ready)]
                if nxt is not t:
                    self.sites.add((os.path.basename(k[0]), k[1]))
                    self._switch(t, nxt)
                return
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        self._next_switch(t, frame)

    def _next_switch(self, t, frame):
        to = self.switches[self.k][1]
        self.k += 1
        self.left = (self.switches[self.k][0]
                     if self.k < len(self.switches) else None)
        ready = [x for x in self.tasks if x.state == 'ready']
        nxt = ready[to % len(ready)]
        if nxt is t:
            return
        self.sites.add((os.path.basename(frame.f_code.co_filename),
                        frame.f_lineno))
        self._switch(t, nxt)

    def _switch(self, t, nxt):
        self.taken.append((t.i, t.points, nxt.i))
        self.cur = nxt
        nxt.sem.release()
        t.sem.acquire()
        if self.abandoned:
            raise Killed()

    # ------------------------------------------------------------- locks
    def owner(self):
        return self.cur

    def block(self, ready):
        """The running thread can not go on until ready()."""
        t = self.cur
        while not ready():
            t.state = 'blocked'
            others = [x for x in self.tasks
                      if x.state == 'ready']
            if not others:
                for x in self.tasks:
                    if x.state == 'blocked':
                        x.state = 'ready'
                others = [x for x in self.tasks
                          if x.state == 'ready' and x is not t]
                self._spins = getattr(self, '_spins', 0) + 1
                if not others or self._spins > 1000:
                    self.failure = Violation(
                        'deadlock', 'threads wait for each other', 'locks')
                    raise Killed()
            self._switch(t, others[0])
            t.state = 'ready'
        self._spins = 0

    def wake(self):
        for x in self.tasks:
            if x.state == 'blocked':
                x.state = 'ready'

    # --------------------------------------------------------------- run
    def _main(self, t):
        t.sem.acquire()
        t.ident = threading.get_ident()
        sys.settrace(self._global)
        try:
            t.result = ('ok', t.fn())
        except Killed:
            t.result = ('killed', None)
        except Violation as v:
            t.result = ('violation', v)
        except BaseException as e:
            t.result = ('exc', e)
        finally:
            sys.settrace(None)
        t.state = 'done'
        self.wake()
        ready = [x for x in self.tasks if x.state == 'ready']
        if ready:
            self.cur = ready[0]
            ready[0].sem.release()
        else:
            self.done.release()

    def go(self, first=0):
        global _current
        threads = [threading.Thread(target=self._main, args=(t,),
                                    daemon=True) for t in self.tasks]
        for th in threads:
            th.start()
        _current = self
        self.cur = self.tasks[first % len(self.tasks)]
        end = self._watch() if self.inside else None
        try:
            self.cur.sem.release()
            self.done.acquire()
        except SimTimeout:
            self.abandoned = True
            raise
        finally:
            _current = None
            if end:
                end()
        for th in threads:
            th.join()
        if self.failure:
            raise self.failure
        return [t.result for t in self.tasks]


# ------------------------------------------------------------------ locks
class SimLock:
    """threading.Lock/RLock for the package: cooperative while simulated
    threads run, an ordinary lock otherwise."""

    def __init__(self, reentrant):
        self._re = reentrant
        self._owner, self._n = None, 0

    def _me(self):
        return _current.cur if _current else threading.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self._re and self._owner == me and self._n:
            self._n += 1
            return True
        if self._n:
            if not blocking:
                return False
            if _current is None:
                if self._owner == me or not isinstance(self._owner, int):
                    raise RuntimeError('lock left locked')
                while self._n:
                    pass
            else:
                _current.block(lambda: not self._n)
        self._owner, self._n = me, 1
        return True

    def release(self):
        if not self._n:
            raise RuntimeError('release unlocked lock')
        self._n -= 1
        if not self._n:
            self._owner = None
            if _current is not None:
                _current.wake()

    def locked(self):
        return bool(self._n)

    def _is_owned(self):
        return self._n > 0 and self._owner == self._me()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


def install_locks():
    """Before the package is imported: its locks become SimLocks."""
    real = {}

    def make(name, reentrant):
        real[name] = getattr(threading, name)

        def factory(*a, **k):
            fn = sys._getframe(1).f_code.co_filename
            if fn.startswith(PKG):
                return SimLock(reentrant)
            return real[name](*a, **k)
        setattr(threading, name, factory)
    make('Lock', False)
    make('RLock', True)
