"""Helpers shared by the properties."""
import io
import sys

import numpy as np

from .core import SimCrash, Violation

_warm = {}


def warm_numba():
    """Compile the flood fill kernels once, before workers are forked."""
    if 'ff' in _warm:
        return
    import defdap.ebsd
    import defdap.hrdic
    from defdap import _accelerated as a
    _warm['ff'] = True
    try:
        b = np.zeros((3, 3), bool)
        seed = np.unravel_index(0, (3, 3))
        a.flood_fill((seed[1], seed[0]), 1, ~b, np.zeros((3, 3), int), b, b,
                     np.zeros((9, 2), np.intp))
        a.flood_fill_dic((seed[1], seed[0]), 1, ~b, np.zeros((3, 3), int),
                         np.zeros((9, 2), np.intp))
    except Exception:
        pass                      # the runs themselves will show it


def outcome(fn, *a, **k):
    """('ok', value) or ('exc', exception). Crashes pass through."""
    try:
        return 'ok', fn(*a, **k)
    except SimCrash:
        raise
    except Exception as e:
        return 'exc', e


def clear_tb(e):
    """Drop frames held by an exception (they hold files open)."""
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        e.__traceback__ = None
        e = e.__cause__ or e.__context__


def same(a, b, tol=None):
    """Deep equality of arrays, masked arrays, quats, lists, scalars."""
    if a is b:
        return True
    if isinstance(a, np.ma.MaskedArray) or isinstance(b, np.ma.MaskedArray):
        if isinstance(a, np.ma.MaskedArray) != isinstance(
                b, np.ma.MaskedArray):
            return False
        return (np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b))
                and same(a.filled(0), b.filled(0), tol))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        try:
            a, b = np.asarray(a), np.asarray(b)
        except ValueError:
            return False
        if a.shape != b.shape:
            return False
        if a.dtype == object or b.dtype == object:
            return all(same(x, y, tol) for x, y in zip(a.flat, b.flat))
        if tol is None:
            try:
                return bool(np.array_equal(a, b, equal_nan=True))
            except TypeError:
                return bool(np.array_equal(a, b))
        return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))
    if hasattr(a, 'quat_coef') and hasattr(b, 'quat_coef'):
        return same(a.quat_coef, b.quat_coef, tol)
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(
            same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and tol is not None:
        return abs(a - b) <= tol * max(1, abs(a), abs(b)) or (
            a != a and b != b)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return a == b
    try:
        return bool(a == b) or (a != a and b != b)
    except (ValueError, TypeError):
        return False


def require(cond, kind, msg, where=''):
    if not cond:
        raise Violation(kind, msg, where)


def exc_name(e):
    return type(e).__name__


def reset_globals():
    """Process-wide state of the package that runs must not inherit."""
    import defdap
    defdap.anonymous_experiment.increments.clear()
    defdap.anonymous_experiment.frame_relations.clear()
    import matplotlib.pyplot as plt
    if plt.get_fignums():
        plt.close('all')


class Sink(io.StringIO):
    pass
