"""Where the code under test meets the outside world: clock, identifiers,
standard output. Everything is patched from outside; /repo has no hooks."""
import datetime as _dt
import os
import sys
import uuid

REPO = os.path.realpath(os.environ.get('DSIM_REPO', '/repo'))
PKG = os.path.join(REPO, 'defdap') + os.sep


class SimClock:
    """A clock the scenario owns: each reading advances by the next step
    of the scenario's pattern (negative: the clock jumps back)."""

    def __init__(self, run, steps=(1.0,), start=1_700_000_000.0):
        self.run, self.steps, self.t, self.n = run, list(steps) or [1.0], \
            start, 0

    def read(self):
        d = self.steps[self.n % len(self.steps)]
        self.n += 1
        self.t += d
        if d > 0:
            self.run.sim_time += d
        if d < 0:
            self.run.fault('clock jump back')
        elif d > 3600:
            self.run.fault('clock jump forward')
        return self.t


def fake_datetime(clock):
    class SimDatetime(_dt.datetime):
        @classmethod
        def now(cls, tz=None):
            return _dt.datetime.fromtimestamp(clock.read(), tz)

        @classmethod
        def utcnow(cls):
            return _dt.datetime.fromtimestamp(clock.read(), _dt.timezone.utc)
    return SimDatetime


class patched:
    """Set attributes for the length of a run and put them back."""

    def __init__(self, *triples):
        self.triples = triples

    def __enter__(self):
        self.old = []
        for obj, name, val in self.triples:
            self.old.append((obj, name, getattr(obj, name)))
            setattr(obj, name, val)
        return self

    def __exit__(self, *a):
        for obj, name, val in reversed(self.old):
            setattr(obj, name, val)


def clock_patches(clock):
    """Every module of the package that imported a clock."""
    import time as _time
    out = []
    fake = fake_datetime(clock)
    for name, mod in sorted(sys.modules.items()):
        if not (name == 'defdap' or name.startswith('defdap.')):
            continue
        for attr, val in list(vars(mod).items()):
            if val is _dt.datetime:
                out.append((mod, attr, fake))
            elif val is _dt:
                ns = type(sys)('datetime')
                ns.__dict__.update(vars(_dt))
                ns.datetime = fake
                out.append((mod, attr, ns))
            elif val is _time:
                ns = type(sys)('time')
                ns.__dict__.update(vars(_time))
                for fn in ('time', 'monotonic', 'perf_counter',
                           'process_time'):
                    setattr(ns, fn, clock.read)
                out.append((mod, attr, ns))
            elif val in (_time.time, _time.perf_counter, _time.monotonic):
                out.append((mod, attr, clock.read))
    return out


def uuid_patches(rng):
    """Identifiers drawn from the seed instead of the system."""
    def uuid4():
        return uuid.UUID(int=rng.getrandbits(128), version=4)
    out = []
    for name, mod in sorted(sys.modules.items()):
        if name == 'defdap' or name.startswith('defdap.'):
            for attr, val in list(vars(mod).items()):
                if val is uuid.uuid4:
                    out.append((mod, attr, uuid4))
    return out


class FaultyOut:
    """A standard output that fails from (or only at) the n-th write.
    mode: 'error' (EIO/broken pipe), 'closed' (closed stream)."""
    encoding = 'utf-8'

    def __init__(self, run, fail_at=None, mode='error', once=False):
        self.run, self.fail_at, self.mode, self.once = \
            run, fail_at, mode, once
        self.n = 0
        self.armed = True

    def _check(self):
        self.n += 1
        if self.fail_at is None or not self.armed:
            return
        if self.n == self.fail_at or (self.n > self.fail_at
                                      and not self.once):
            self.run.fault(f'stdout {self.mode}')
            if self.mode == 'closed':
                raise ValueError('I/O operation on closed file.')
            raise BrokenPipeError(32, 'Broken pipe')

    def write(self, s):
        self._check()
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False
