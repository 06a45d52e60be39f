"""C04: inspector session files are complete or not there, and load fully
or not at all."""
import os

import numpy as np

from dsim import gui, insp, util
from dsim.core import SimCrash, Violation
from dsim.fs import SimFS
from dsim.util import require

ID = 'C04'
LEVEL = 'exploration'
RUNS = dict(quick=900, thorough=15000)
RULE = ('A run draws lines in the grain inspector and saves and loads '
        'session files through its buttons while the simulated disk fails '
        '(no space, errors on open, write, close and rename, short writes '
        'and reads, damaged and replaced files) or the process dies at any '
        'operation of a save; after a crash the maps and the window are '
        'built again from the disk. After each save the file is loaded into '
        'a fresh set of maps and compared; after each load the session is '
        'compared with what the file holds. Non-trivial: a session with '
        'lines was saved and loaded again. Distinct: histories of '
        '(operation, outcome, fault).')
ASSUMPTIONS = [
    'A process crash loses what the process has not handed to the kernel; '
    'files survive as written (no power failure).',
    'A file cut between two grains is a session of fewer grains.',
    'Grains not mentioned in a session file keep their lines when it is '
    'loaded.',
]
REAL = ['defdap.inspector', 'defdap.plotting', 'defdap.hrdic', 'defdap.ebsd',
        'python I/O stack above the raw file']
STUB = ['the disk below the raw file', 'matplotlib (most runs)', 'the user']
MEASURE = 'distinct histories of (operation, outcome, fault)'


def warmup():
    util.warm_numba()


def sfault(r):
    k = r.choice(['disk_full', 'disk_full', 'write_error', 'open_error',
                  'close_error', 'rename_error', 'crash_in_write',
                  'crash_in_write', 'crash_at_op', 'crash_at_op',
                  'crash_after_rename', 'short_writes'])
    f = dict(kind=k)
    if k in ('disk_full', 'crash_in_write'):
        f['after'] = int(10 ** r.uniform(0, 3.2))
    elif k == 'write_error':
        f['nth'] = r.choice([1, 1, 2, 3, 7])
    elif k == 'open_error':
        f['nth'] = 1
        f['errno'] = r.choice([5, 13, 28])
    elif k == 'crash_at_op':
        f['op'] = r.choice([1, 2, 3, 4, 5, 9])
    elif k == 'short_writes':
        f['max'] = r.choice([1, 7, 64])
    return f


def lfault(r):
    k = r.choice(['truncate'] * 4 + ['read_error', 'open_error',
                                     'short_reads', 'other_process'])
    f = dict(kind=k)
    if k == 'truncate':
        f['at'] = r.choice([r.randint(0, 300), r.randint(200, 1500)])
    elif k == 'read_error':
        f['nth'] = r.choice([1, 1, 2, 5])
    elif k == 'open_error':
        f['nth'], f['errno'] = 1, r.choice([5, 13, 24])
    elif k == 'short_reads':
        f['max'] = r.choice([1, 13])
    return f


def generate(r):
    ops = []

    def line(size=5):
        p = [round(r.uniform(-.4, size), 2) for _ in range(4)]
        return [['press', *p[:2]], ['release', *p[2:]], ['save_line']]
    for _ in range(r.randint(2, 9)):
        k = r.choice(['line', 'line', 'line', 'next', 'rdr', 'remove',
                      'save', 'save', 'save', 'load', 'load', 'restart',
                      'name', 'clear'])
        if k == 'line':
            for _ in range(r.choice([1, 1, 2, 4])):
                ops += line()
                if r.random() < .4:
                    ops.append(['next'])
        elif k == 'rdr':
            ops.append(['type', 'rdr', r.choice('001'), True])
        elif k == 'remove':
            ops.append(['type', 'remove', '0', True])
        elif k == 'name':
            ops.append(['type', 'name', r.choice(
                ['a.txt', 'b.txt', 'no such dir/c.txt', 'session']),
                r.random() < .5])
        elif k == 'save':
            ops.append([k, [sfault(r)] if r.random() < .55 else [],
                        r.choice([None, 16, 256])])
        elif k == 'load':
            ops.append([k, [lfault(r)] if r.random() < .5 else [],
                        r.choice([None, 16, 256])])
        elif k == 'restart':
            ops.append([k, r.random() < .25])
        elif k == 'clear' and r.random() < .5:
            ops.append([k])
        elif k == 'next':
            ops.append([k])
    if r.random() < .6:
        ops = line() + ops
    if r.random() < .5:
        # come back to the session later
        ops += [['save', [], None]]
        if r.random() < .6:
            ops.append(['restart', False])
        ops += [['load', [lfault(r)] if r.random() < .4 else [], None]]
        if r.random() < .5:
            ops += line() + [['save', [sfault(r)] if r.random() < .5 else [],
                              None], ['load', [], None]]
    w = insp.world_spec(r)
    if r.random() < .12:
        # many grains, many lines in one of them
        w['e'].update(shape=[12, 12], grains=r.randint(14, 30), phases=[0])
        k = r.randint(0, len(ops))
        ops[k:k] = [['type', 'goto', str(r.randint(8, 14)), True]] + sum(
            (line(2) for _ in range(r.choice([1, 2, 11]))), [])
        ops += [['save', [], None], ['load', [], None]]
    if r.random() < .4:
        # an area without data
        w['mask'] = r.randrange(1 << 30)
    return dict(world=w, kit='real' if r.random() < .03 else 'fake', ops=ops,
                _lists=['ops'])


class World:
    def __init__(self, sc, run, kit):
        self.sc, self.run, self.kit = sc, run, kit
        self.fewer = False
        self.files = {}            # path -> session it holds
        self.start()

    def maps(self, fewer):
        em, dm = insp.build(self.run, self.sc['world'])
        if fewer:
            # the user finds grains with other settings
            try:
                em.data.generate('grains', min_grain_size=25)
                dm.data.generate('grains', algorithm='warp',
                                 min_grain_size=1)
                em.calc_average_grain_schmid_factors(
                    load_vector=np.array([1., 0, 0]))
            except Exception:
                return insp.build(self.run, self.sc['world'])
        return em, dm

    def start(self, fewer=False):
        """A new process: maps loaded again, a new inspector."""
        self.em, self.dm = self.maps(fewer)
        self.fewer = fewer
        self.w = insp.Window(self.kit, self.dm, self.sc['world'])
        self.kit.take_errors()

    @property
    def path(self):
        return os.path.join(self.run.scratch, self.w.boxes['name'])

    def probe_load(self, path):
        """What a fresh process loads from a file: ('ok', session) or
        ('error', exception)."""
        em, dm = self.maps(False)
        w = insp.Window(self.kit, dm, self.sc['world'])
        self.kit.type(w.fig, '', os.path.basename(path), enter=False)
        self.kit.take_errors()
        self.kit.click(w.fig, 'Load File')
        errs = self.kit.take_errors()
        if errs:
            return 'error', errs[0]
        return 'ok', insp.session(dm)


def blank(n):
    return [[[], []] for _ in range(n)]


def overlay(mem, held, upto=None):
    """Session after a file holding `held` is loaded over `mem`; None if a
    grain of the file does not exist."""
    out = [list(g) for g in mem]
    k = 0
    for i, g in enumerate(held):
        if not g[0]:
            continue
        if upto is not None and k >= upto:
            break
        k += 1
        if i >= len(out):
            return None
        out[i] = g
    return out


def show(s):
    return [[len(a), len(b)] for a, b in s]


def body(sc, run, kit):
    top = run.scratch
    run.scratch = os.path.join(top, kit.kind)
    os.makedirs(run.scratch)
    try:
        _body(sc, run, kit)
    finally:
        run.scratch = top


def other_session(wd):
    """A session file another process wrote: of one grain."""
    path = os.path.join(wd.run.scratch, 'other-session.txt')
    em, dm = wd.maps(False)
    w = insp.Window(wd.kit, dm, wd.sc['world'])
    for op in (['press', 1, 1], ['release', 3, 2], ['save_line']):
        w.do(op)
    wd.kit.type(w.fig, '', os.path.basename(path), enter=False)
    wd.kit.take_errors()
    wd.kit.click(w.fig, 'Save File')
    errs = wd.kit.take_errors()
    require(not errs, 'save', f'healthy save failed: {errs[:1]}', 'save')
    with open(path, 'rb') as f:
        data = f.read().decode('latin-1')
    return data, insp.session(dm)


def _body(sc, run, kit):
    wd = World(sc, run, kit)
    trail, saved, loaded = [], 0, 0
    for op in sc['ops']:
        k = op[0]
        run.steps += 1
        if k == 'restart':
            wd.start(op[1])
            run.log('restart', len(wd.dm))
            trail.append('restart')
            continue
        if k not in ('save', 'load'):
            wd.w.do(op)
            continue
        wd.w.do(['away'])           # a text box left submits what it shows
        mem = insp.session(wd.dm)
        path = wd.path
        faults = [dict(f) for f in op[1]]
        for f in faults:
            if f['kind'] == 'other_process':
                data, other = other_session(wd)
                f.update(file=os.path.basename(path), nth=1, data=data)
                if not os.path.exists(path):
                    faults = []
                    break
        fs = SimFS(run, run.scratch, faults, op[2])
        crashed, errs = False, []
        n0 = dict(run.faults)
        with fs:
            try:
                errs = wd.w._click(k)
            except SimCrash:
                crashed = True
                fs.crash_cleanup()
        fired = sorted(f for f in run.faults if run.faults[f] != n0.get(f))
        kit.take_errors()
        run.log(k, os.path.basename(path), 'crash' if crashed else
                [type(e).__name__ for e in errs], fired, show(mem))
        trail.append((k, 'crash' if crashed else bool(errs), fired))
        if not crashed:
            left = fs.open_handles()
            require(not left, 'left-open', f'{k} left {left} open', k)
        after = insp.session(wd.dm)
        nodir = not os.path.isdir(os.path.dirname(path))
        if k == 'save':
            if not crashed:
                require(insp.equal(after, mem), 'save-changed-session',
                        f'{show(mem)} became {show(after)}', 'save')
            old = wd.files.get(path)
            if not crashed and not errs:
                cands = [mem]
                require(os.path.exists(path), 'save',
                        'no file after a successful save', 'save')
                saved += any(g[0] for g in mem)
            else:
                require(crashed or fired or nodir, 'unexpected-exception',
                        f'save failed without a fault: {errs}', 'save')
                cands = [old, mem]
                run.probe('save failed or crashed'
                          + (' over a file' if old else ''))
            if not os.path.exists(path):
                require(None in cands, 'lost-file', 'the session file that '
                        'was there is gone', 'save')
                wd.files.pop(path, None)
            else:
                if crashed:
                    wd.start(wd.fewer)
                res, got = wd.probe_load(path)
                require(res == 'ok', 'broken-file', 'the file does not load '
                        f'after a {"successful" if len(cands) == 1 else "failed"}'
                        f' save: {type(got).__name__}: {got}', 'save')
                full = len(wd.maps(False)[1]) if wd.fewer else len(wd.dm)
                for c in cands:
                    if c is not None and insp.equal(
                            got, overlay(blank(full), c)):
                        wd.files[path] = c
                        break
                else:
                    raise Violation('wrong-file', f'the file holds '
                                    f'{str(got)[:700]}, saved '
                                    f'{str(cands[-1])[:700]}', 'save')
                if wd.files[path] is not mem and errs:
                    run.probe('kept the previous file')
            if crashed:
                wd.start(wd.fewer)
            continue
        # ------------------------------------------------------- load
        held = wd.files.get(path)
        kinds = [f['kind'] for f in faults]
        if 'other_process' in kinds and fired:
            held = wd.files[path] = other
        want = None if held is None else overlay(mem, held)
        if errs:
            require(insp.equal(after, mem), 'partial-load',
                    f'load failed ({type(errs[0]).__name__}: {errs[0]}) and '
                    f'{show(mem)} became {show(after)}', 'load')
            hard = [f for f in fired if f != 'short read']
            require(want is None or (hard and 'other_process' not in kinds),
                    'unexpected-exception', 'load failed without a fault: '
                    f'{type(errs[0]).__name__}: {errs[0]}', 'load')
            run.probe('load refused')
            continue
        require(held is not None, 'load', 'load of no file succeeded',
                'load')
        ok = want is not None and insp.equal(after, want)
        if not ok and 'truncated file' in fired:
            n = sum(bool(g[0]) for g in held)
            for j in range(n):
                w = overlay(mem, held, j)
                if w is not None and insp.equal(after, w):
                    ok = True
                    run.probe('cut between grains')
                    break
        require(ok, 'wrong-load', f'loaded {str(after)[:600]} from a file '
                f'holding {str(held)[:600]} over {show(mem)}, {fired}',
                'load')
        if any(g[0] for g in held):
            loaded += 1
            run.probe('session loaded')
            if any(x != x for g in held for gr in g[1]
                   for x in [gr[4]]):
                run.probe('session with an RDR of nan loaded')
    run.key(trail)
    run.nontrivial = saved > 0 and (loaded > 0 or any(
        t[0] == 'save' for t in trail))


def execute(sc, run):
    def go(kit):
        try:
            body(sc, run, kit)
        finally:
            util.reset_globals()
    gui.confirmed(run, sc['kit'], go)
