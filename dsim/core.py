"""Shared pieces of the simulator: verdicts, event log, seeds."""
import hashlib
import json
import random


class Violation(Exception):
    """The property is broken. `kind` is the violation class used while
    minimising, `where` identifies the failing call or history (used for
    the known-findings file)."""

    def __init__(self, kind, msg, where=''):
        super().__init__(f'{kind}: {msg}')
        self.kind, self.msg, self.where = kind, msg, where


class SimCrash(BaseException):
    """The simulated process is gone from this point on."""


class SimTimeout(BaseException):
    """A run used up its step or time allowance."""


class HarnessError(Exception):
    """The simulator itself is at fault, never a verdict."""


def rng_for(seed, prop, index):
    return random.Random(f'{seed}:{prop}:{index}')


class Run:
    """Context of one simulated run: event log and counters. Nothing that
    differs between executions (addresses, times, ids) may be logged."""

    def __init__(self):
        self.h = hashlib.sha256()
        self.tail = []
        self.faults = {}       # fault kind -> times it fired
        self.probes = {}       # rare condition -> times it was reached
        self.steps = 0         # simulated steps (see each property)
        self.sim_time = 0.0    # seconds on the simulated clock
        self.nontrivial = False
        self.keys = set()      # distinct histories/states reached

    def log(self, *parts):
        line = ' '.join(p if isinstance(p, str) else repr(p) for p in parts)
        self.h.update(line.encode() + b'\n')
        self.tail.append(line)
        if len(self.tail) > 60:
            del self.tail[:20]

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def key(self, *parts):
        self.keys.add(hashlib.sha256(
            repr(parts).encode()).hexdigest()[:16])

    def digest(self):
        return self.h.hexdigest()


def dumps(obj):
    return json.dumps(obj, sort_keys=True)


def canon(obj):
    """Through JSON and back, so that what runs is what is stored."""
    return json.loads(json.dumps(obj))
