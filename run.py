#!/usr/bin/env python3
"""Entry point of the deterministic simulation checks.

    run.py setup                 prepare caches, check the interpreter
    run.py check ID              explore property ID (VERIF_SEED, VERIF_TIER)
    run.py replay FILE           re-execute a replay file exactly
    run.py digest ID N [START]   print the event-log digests of N scenarios
    run.py selftest [IDS...]     determinism self test over many seeds
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
REPO = os.environ.get('DSIM_REPO', '/repo')


def reexec():
    """Fixed interpreter and environment, so that nothing outside the
    seed decides what a run does."""
    if os.environ.get('DSIM_CHILD') == '1':
        return
    env = dict(os.environ)
    env['DSIM_CHILD'] = '1'
    env['PYTHONHASHSEED'] = env.get('DSIM_HASHSEED', '0')
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    # never read bytecode that may be stale: compile the working tree
    env['PYTHONPYCACHEPREFIX'] = os.path.join(HERE, '.cache', 'none')
    env['PYTHONPATH'] = REPO
    env['MPLBACKEND'] = 'Agg'
    cfg = os.path.join(HERE, '.cache', 'mpl')
    try:
        os.makedirs(cfg, exist_ok=True)
        env['MPLCONFIGDIR'] = cfg
    except OSError:
        env.pop('MPLCONFIGDIR', None)
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS',
              'NUMBA_NUM_THREADS'):
        env[k] = '1'
    # reads and writes outside arrays in compiled code are errors
    env['NUMBA_BOUNDSCHECK'] = '1'
    env['LC_ALL'] = 'C.UTF-8'
    env['TZ'] = 'UTC'
    py = VENV if os.path.exists(VENV) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)


if __name__ == '__main__':
    reexec()
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    from dsim import sched
    sched.install_locks()
    from dsim import main
    sys.exit(main.cli(sys.argv[1:]))
