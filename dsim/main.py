"""Batch runner: seeded search, minimisation, replay, evidence."""
import copy
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import pickle
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

from .core import (HarnessError, Run, SimCrash, SimTimeout, Violation, canon,
                   rng_for)
from . import seams

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = [f'C{i:02d}' for i in range(1, 40)]
RUN_LIMIT = 120          # wall seconds one scenario may take
BATCH_LIMIT = {'quick': 330, 'thorough': 780}
SHRINK_LIMIT = {'quick': 60, 'thorough': 90}
WORKERS = int(os.environ.get('DSIM_WORKERS', '0')) or min(8, os.cpu_count() or 1)


def load_prop(pid):
    return importlib.import_module(f'props.{pid.lower()}')


class quiet:
    """Standard output of the code under test goes nowhere (unless a run
    installs its own stream)."""

    def __enter__(self):
        self.saved = sys.stdout, sys.stderr
        sys.stdout = io.StringIO()
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.saved


def _alarm(*_):
    raise SimTimeout('run exceeded its wall allowance')


def tb_in_repo(e):
    tb, where = e.__traceback__, None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(seams.PKG):
            where = f'{os.path.basename(fn)}:{tb.tb_frame.f_code.co_name}'
        tb = tb.tb_next
    return where


def execute(prop, scenario, scratch):
    """Run one scenario. Returns (run, violation or None)."""
    run = Run()
    run.scratch = tempfile.mkdtemp(dir=scratch)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(RUN_LIMIT)
    cwd = os.getcwd()
    viol = None
    try:
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                prop.execute(canon(scenario), run)
            except Violation as v:
                viol = dict(kind=v.kind, msg=str(v.msg)[:2000], where=v.where)
            except SimTimeout:
                viol = dict(kind='no-progress', where='',
                            msg=f'run not finished after {RUN_LIMIT} s; a '
                                'run normally takes well under a second')
            except SimCrash:
                raise HarnessError('simulated crash escaped its run')
            except HarnessError:
                raise
            except Exception as e:
                # an exception the workload did not provoke, out of the
                # code under test, is a verdict; anything else is ours
                where = tb_in_repo(e)
                if where is None:
                    # what the code under test returned is of no use to
                    # the model (wrong type, shape or value)
                    if not isinstance(e, (TypeError, ValueError, LookupError,
                                          AttributeError, ArithmeticError)):
                        raise
                    viol = dict(kind='unusable-result', where='',
                                msg=f'{type(e).__name__}: {e} '
                                + traceback.format_exc()[-500:])
                else:
                    viol = dict(kind='unexpected-exception', where=where,
                            msg=f'{type(e).__name__}: {e} (in {where})')
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        sys.settrace(None)
        os.chdir(cwd)
        shutil.rmtree(run.scratch, ignore_errors=True)
    run.log('verdict', viol['kind'] if viol else 'ok')
    return run, viol


# ------------------------------------------------------------- workers
def _worker(prop, seed, indices, limit, scratch, wfd):
    out = os.fdopen(wfd, 'wb')

    def send(obj):
        b = pickle.dumps(obj)
        out.write(struct.pack('<I', len(b)) + b)
        out.flush()

    tot = dict(runs=0, faults={}, probes={}, steps=0, sim_time=0.0,
               nontrivial=0, keys=set(), digests={}, samples=[])
    t_end = time.monotonic() + limit
    try:
        for i in indices:
            if time.monotonic() > t_end:
                tot['capped'] = True
                break
            sc = canon(prop.generate(rng_for(seed, prop.ID, i)))
            run, viol = execute(prop, sc, scratch)
            tot['runs'] += 1
            for k in ('faults', 'probes'):
                for n, c in getattr(run, k).items():
                    tot[k][n] = tot[k].get(n, 0) + c
            tot['steps'] += run.steps
            tot['sim_time'] += run.sim_time
            if run.nontrivial:
                tot['nontrivial'] += 1
                tot['keys'] |= run.keys
            tot['digests'][i] = run.digest()
            if len(tot['samples']) < 1 and run.nontrivial and not viol:
                tot['samples'].append(dict(index=i, scenario=sc))
            if viol:
                send(('viol', i, sc, viol))
                if not getattr(prop, 'is_known', lambda v: False)(viol) and \
                        not known_match(prop.ID, viol):
                    break
        send(('done', tot))
    except BaseException:
        send(('error', traceback.format_exc()))
    finally:
        out.close()
        os._exit(0)


def run_batch(prop, seed, indices, limit, scratch, workers=None):
    """Fork workers after everything slow (imports, compilation) is done."""
    workers = workers or WORKERS
    chunks = [indices[w::workers] for w in range(workers)]
    procs = []
    for chunk in chunks:
        if not chunk:
            continue
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            _worker(prop, seed, chunk, limit, scratch, w)
        os.close(w)
        procs.append((pid, r))
    viols, tots, errors = [], [], []
    for pid, r in procs:
        with os.fdopen(r, 'rb') as f:
            ended = False
            while True:
                hd = f.read(4)
                if len(hd) < 4:
                    break
                msg = pickle.loads(f.read(struct.unpack('<I', hd)[0]))
                if msg[0] == 'viol':
                    viols.append(msg[1:])
                elif msg[0] == 'done':
                    tots.append(msg[1])
                    ended = True
                else:
                    errors.append(msg[1])
                    ended = True
            if not ended:
                errors.append('a worker died without a result')
        os.waitpid(pid, 0)
    return viols, tots, errors


# -------------------------------------------------------- known findings
def known_findings():
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f).get('findings', [])


def known_match(pid, viol):
    for k in known_findings():
        if (k['property'] == pid and k['kind'] == viol['kind']
                and k['where'] == viol['where']):
            return k
    return None


# ---------------------------------------------------------- minimisation
def _run_forked(prop, sc, scratch, limit=RUN_LIMIT + 30):
    """Execute in a forked child so that one candidate cannot spoil the
    next. Returns violation dict, None, or 'error'."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            res = execute(prop, sc, scratch)[1]
        except BaseException:
            res = 'error'
        with os.fdopen(w, 'wb') as f:
            f.write(pickle.dumps(res))
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        b = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(b) if b else 'error'


def generic_candidates(sc):
    """Smaller scenarios: drop parts of every list named in `_lists`
    (default ops, faults), then what the property suggests."""
    for name in sc.get('_lists', ['ops', 'faults', 'switches']):
        lst = sc.get(name)
        if not isinstance(lst, list) or not lst:
            continue
        n = len(lst)
        size = n
        while size >= 1:
            for start in range(0, n, size):
                c = copy.deepcopy(sc)
                c[name] = lst[:start] + lst[start + size:]
                yield c
            size //= 2


def minimise(prop, sc, viol, scratch, limit):
    t_end = time.monotonic() + limit
    tried = 0
    seen = set()
    best = sc
    improved = True
    while improved and time.monotonic() < t_end:
        improved = False
        gens = [generic_candidates(best)]
        if hasattr(prop, 'shrink'):
            gens.append(prop.shrink(copy.deepcopy(best)))
        for g in gens:
            for cand in g:
                if time.monotonic() > t_end:
                    break
                cand = canon(cand)
                key = json.dumps(cand, sort_keys=True)
                if key in seen or key == json.dumps(best, sort_keys=True):
                    continue
                seen.add(key)
                tried += 1
                res = _run_forked(prop, cand, scratch)
                if isinstance(res, dict) and res['kind'] == viol['kind']:
                    best, viol, improved = cand, res, True
                    break
            if improved:
                break
    return best, viol, tried


# ----------------------------------------------------------------- check
def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.part'
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1, sort_keys=True, default=str)
        f.write('\n')
    os.replace(tmp, path)


def make_scratch():
    base = os.environ.get('DSIM_SCRATCH') or tempfile.gettempdir()
    return tempfile.mkdtemp(prefix='dsim-', dir=base)


def check(pid):
    t0 = time.monotonic()
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    prop = load_prop(pid)
    print(f'dsim check {pid} tier={tier} seed={seed} workers={WORKERS}',
          flush=True)
    scratch = make_scratch()
    main_pid = os.getpid()
    try:
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            prop.warmup()
        n = int(os.environ.get('DSIM_RUNS', '0')) or prop.RUNS[tier]
        viols, tots, errors = run_batch(
            prop, seed, list(range(n)), BATCH_LIMIT[tier], scratch)
        if errors and not viols:
            print('HARNESS-ERROR (no verdict):\n' + '\n'.join(errors[:3]))
            return 3
        known = {}
        fresh = []
        for i, sc, v in sorted(viols, key=lambda x: x[0]):
            k = known_match(pid, v)
            if k:
                known[k['what']] = known.get(k['what'], 0) + 1
            else:
                fresh.append((i, sc, v))
        # same seed, same code: the same log, or the verdict is worthless
        redone, differing = recheck(prop, seed, tots, scratch)
        if differing and not fresh:
            print(f'HARNESS-ERROR (no verdict): runs {differing} are not '
                  'reproducible')
            return 3
        code = 0
        replay = None
        for k, c in sorted(known.items()):
            print(f'KNOWN-FINDING: property={pid} {k} (seen in {c} runs)')
        if fresh:
            i, sc, v = fresh[0]
            print(f'run {i} of seed {seed} fails: {v["kind"]}: {v["msg"]}')
            small, v2, tried = minimise(prop, sc, v, scratch,
                                        float(os.environ.get(
                                            'DSIM_SHRINK',
                                            SHRINK_LIMIT[tier])))
            print(f'minimised with {tried} candidate runs: {v2["kind"]}: '
                  f'{v2["msg"]}')
            replay = os.path.join(HERE, 'replays', f'{pid}-{seed}-{i}.json')
            for s, vv in ((small, v2), (sc, v)):
                write_json(replay, dict(property=pid, seed=seed, index=i,
                                        scenario=s, violation=vv))
                p = subprocess.run(
                    [sys.executable, os.path.join(HERE, 'run.py'), 'replay',
                     replay], stdout=subprocess.PIPE,
                    stderr=subprocess.STDOUT, text=True)
                if p.returncode == 1:
                    code = 1
                    break
                print('replay in a fresh process did not fail:\n'
                      + p.stdout[-2000:])
            if code == 1:
                print(f'VIOLATION property={pid} replay='
                      f'{os.path.relpath(replay, HERE)}')
            else:
                print('HARNESS-ERROR (no verdict): violation does not replay')
                code = 3
        evidence(prop, tier, seed, tots, n, time.monotonic() - t0,
                 len(fresh), known, redone, replay)
        runs = sum(t['runs'] for t in tots)
        print(f'{pid}: {runs} simulated runs in '
              f'{time.monotonic() - t0:.1f} s, exit {code}')
        return code
    finally:
        if os.getpid() == main_pid:
            shutil.rmtree(scratch, ignore_errors=True)


def recheck(prop, seed, tots, scratch):
    """Repeat some runs of the batch with one worker and compare logs."""
    want = {}
    for t in tots:
        want.update(t['digests'])
    pick = sorted(want)[:: max(1, len(want) // 8)][:8]
    if not pick:
        return 0, []
    _, tots2, errors = run_batch(prop, seed, pick, 60, scratch, workers=2)
    got = {}
    for t in tots2:
        got.update(t['digests'])
    if errors:
        return 0, [f'error: {errors[0]}']
    return len(got), [i for i in got if got[i] != want[i]]


def evidence(prop, tier, seed, tots, planned, wall, nviol, known, redone,
             replay):
    agg = dict(faults={}, probes={}, keys=set(), samples=[])
    for t in tots:
        for k in ('faults', 'probes'):
            for n, c in t[k].items():
                agg[k][n] = agg[k].get(n, 0) + c
        agg['keys'] |= t['keys']
        agg['samples'] += t['samples']
    runs = sum(t['runs'] for t in tots)
    samples = agg['samples'][:2] or [dict(note='no non-trivial run')]
    ev = dict(
        property=prop.ID, tier=tier, seed=seed, level=prop.LEVEL,
        wall_s=round(wall, 2), violations=nviol,
        assumptions=list(prop.ASSUMPTIONS),
        coverage=dict(
            evaluations=runs,
            distinct_nontrivial=len(agg['keys']),
            rule=prop.RULE,
            samples=samples,
            planned_runs=planned,
            nontrivial_runs=sum(t['nontrivial'] for t in tots),
            stopped_by_wall_limit=any(t.get('capped') for t in tots),
            runs_per_hour=int(runs / max(wall, 1e-3) * 3600),
            seeds_per_hour=int(runs / max(wall, 1e-3) * 3600),
            simulated_steps=sum(t['steps'] for t in tots),
            simulated_seconds=round(sum(t['sim_time'] for t in tots), 3),
            faults_fired=dict(sorted(agg['faults'].items())),
            conditions_reached=dict(sorted(agg['probes'].items())),
            distinct_measure=getattr(
                prop, 'MEASURE', 'distinct run keys, see rule'),
            runs_repeated_for_determinism=redone,
            known_findings_seen=known,
            real_components=prop.REAL,
            stub_components=prop.STUB,
            replay=replay,
        ))
    write_json(os.path.join(HERE, 'evidence', f'{prop.ID}.json'), ev)


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    prop = load_prop(rep['property'])
    scratch = make_scratch()
    try:
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            prop.warmup()
        run, viol = execute(prop, rep['scenario'], scratch)
        for line in run.tail:
            print('  ' + line[:400])
        if viol:
            print(f'{viol["kind"]}: {viol["msg"]}')
            same = viol['kind'] == rep['violation']['kind']
            print(f'VIOLATION property={rep["property"]} replay={path}'
                  + ('' if same else ' (different violation class)'))
            return 1
        print('no violation')
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def digest(pid, n, start=0):
    seed = int(os.environ.get('VERIF_SEED', '1'))
    prop = load_prop(pid)
    scratch = make_scratch()
    try:
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            prop.warmup()
        viols, tots, errors = run_batch(
            prop, seed, list(range(start, start + n)), 800, scratch)
        d = {}
        for t in tots:
            d.update(t['digests'])
        for i in sorted(d):
            print(i, d[i])
        for v in viols:
            print('viol', v[0], v[2]['kind'], v[2]['msg'][:300])
        for e in errors:
            print('error', e)
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def selftest(ids):
    """Every VERIF_SEED twice, in fresh processes, with different worker
    counts and hash seeds; the event-log digests must be identical."""
    bad = 0
    seeds = os.environ.get('DSIM_SEEDS', '1,2,3').split(',')
    n = os.environ.get('DSIM_RUNS', '40')
    for pid in ids:
        for seed in seeds:
            outs = []
            for workers, hs in (('8', '0'), ('3', '12345'), ('1', '0')):
                env = dict(os.environ, VERIF_SEED=seed, DSIM_WORKERS=workers,
                           DSIM_HASHSEED=hs)
                env.pop('DSIM_CHILD', None)
                p = subprocess.run(
                    [sys.executable, os.path.join(HERE, 'run.py'), 'digest',
                     pid, n], env=env, stdout=subprocess.PIPE, text=True)
                outs.append(p.stdout)
            ok = outs[0] == outs[1] == outs[2] and 'error' not in outs[0] \
                and len(outs[0].splitlines()) >= int(n)
            print(pid, 'seed', seed, 'identical' if ok else 'DIFFERS',
                  hashlib.sha256(outs[0].encode()).hexdigest()[:12],
                  flush=True)
            if not ok:
                bad = 1
                a, b = outs[0].splitlines(), outs[1].splitlines()
                c = outs[2].splitlines()
                print([x for x in zip(a, b, c) if len(set(x)) > 1][:4],
                      [x for x in a if 'error' in x or 'viol' in x][:3])
    return bad


def setup():
    import numpy
    import defdap
    import defdap.ebsd
    import defdap.hrdic
    import matplotlib.font_manager
    print('defdap', defdap.__file__, 'numpy', numpy.__version__,
          'python', sys.version.split()[0])
    return 0


def cli(argv):
    cmd = argv[0] if argv else ''
    if cmd == 'setup':
        return setup()
    if cmd == 'check':
        return check(argv[1])
    if cmd == 'replay':
        return replay(argv[1])
    if cmd == 'digest':
        return digest(argv[1], int(argv[2]),
                      int(argv[3]) if len(argv) > 3 else 0)
    if cmd == 'selftest':
        ids = argv[1:] or [p for p in ALL if os.path.exists(
            os.path.join(HERE, 'props', p.lower() + '.py'))]
        return selftest(ids)
    print(__doc__)
    return 2
