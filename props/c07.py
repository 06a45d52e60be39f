"""C07: work in different threads does not influence each other."""
import os
import sys
import random
from contextlib import nullcontext as nothing

import numpy as np

from dsim import intr, ref, sched, util, world
from dsim.core import Violation
from dsim.util import clear_tb, require, same

ID = 'C07'
LEVEL = 'exploration'
RUNS = dict(quick=1600, thorough=12000)
RULE = ('A run gives each of 2-4 threads a script: load maps of its own '
        '(into one default experiment, an experiment shared by the threads '
        'or its own), calculate and read, link a DIC map of its own to a '
        'calculated EBSD map the threads share, read calculated maps the '
        'threads share, save a map, load a damaged file, or die at one line. '
        'The scheduler moves the processor between the threads before '
        'lines of the package the scenario names (by number, or a line '
        'at which every thread stops). Every script must see what it sees when run alone, '
        'and experiments must hold the maps that were loaded. Non-trivial: '
        'at least one switch between unfinished threads. Distinct: the sets '
        'of code lines at which the processor was taken away, with the '
        'scripts.')
ASSUMPTIONS = [
    'Threads switch between executed lines of the package, and where '
    'attributes of experiments, increments and frames are used;  compiled kernels '
    'are atomic.',
    'A map is shared between threads only after what is read from it has '
    'been calculated.',
    'A thread that dies while loading a map may leave an increment without '
    'a map.',
]
REAL = ['defdap.ebsd', 'defdap.hrdic', 'defdap.base', 'defdap.utils',
        'defdap.experiment', 'defdap.file_readers', 'defdap.file_writers',
        'python threads']
STUB = ['the operating system scheduler', 'locks created by the package']
MEASURE = 'distinct (scripts, set of switch sites)'

EKEYS = ['phase', 'euler_angle', 'band_contrast', 'orientation',
         'grain_boundaries', 'phase_boundaries', 'grains', 'list', 'KAM',
         'GND', 'Nye_tensor', 'proxigram', 'GROD', 'GROD_axis', 'keys',
         'slip_traces', 'av']
DKEYS = ['displacement', 'f', 'e', 'max_shear', 'grain_boundaries', 'grains',
         'list', 'keys', 'mask', 'homog']
PUBLIC = ('grain_boundaries', 'phase_boundaries')


def warmup():
    util.warm_numba()
    from dsim.core import Run
    import tempfile
    import shutil
    # first use of anything lazy happens here, not in a simulated thread
    r = Run()
    r.scratch = tempfile.mkdtemp()
    try:
        rnd = random.Random(1)
        for kind in ('ebsd', 'dic', 'save'):
            util.outcome(Script(script(rnd, kind), 0, r, {}).body)
    finally:
        shutil.rmtree(r.scratch, ignore_errors=True)
        util.reset_globals()


def espec(r, lo=5, hi=7):
    return dict(shape=[r.randint(lo, hi), r.randint(lo, hi)],
                seed=r.randrange(1 << 30), grains=r.randint(1, 4),
                phases=r.choice([[0], [1], [2], [0, 2]]),
                nonindexed=r.choice([0, 0, 0.1]), close=r.random() < .5)


def dspec(r):
    return dict(shape=[r.randint(6, 8), r.randint(6, 8)],
                seed=r.randrange(1 << 30), binning=r.choice([2, 4]))


def keys(r, all_, n=None):
    k = list(all_)
    r.shuffle(k)
    return k[:n or r.randint(3, len(k))]


def script(r, kind):
    s = dict(kind=kind, exp=r.choice(['default', 'default', 'shared',
                                      'own', 'inc']))
    if kind == 'ebsd':
        s.update(spec=espec(r), fmt=r.choice(['bin', 'bin', 'ctf', 'ang']),
                 ops=[r.choice([['boundaries', 5], ['boundaries', 20],
                                ['rotate'], ['misori'], ['schmid'],
                                ['network'], ['grains', 2], ['note']])
                      for _ in range(r.randint(0, 3))],
                 keys=keys(r, EKEYS))
    elif kind == 'dic':
        s.update(spec=espec(r, 7, 8), dspec=dspec(r), scale=r.choice([1., .9]),
                 link=r.choice(['own', 'own', 'shared', 'none']),
                 method=r.choice(['floodfill', 'warp']),
                 ops=[r.choice([['crop', 1, 0, 1, 0], ['mask', .8],
                                ['grains', 'warp'], ['grains', 'floodfill'],
                                ['note'], ['scale']])
                      for _ in range(r.randint(0, 3))],
                 keys=keys(r, DKEYS))
    elif kind == 'read':
        s.update(keys=keys(r, [['e', k] for k in EKEYS]
                           + [['d', k] for k in DKEYS]
                           + [['g', k] for k in range(6)]))
    elif kind == 'save':
        s.update(spec=espec(r), fmt=r.choice(['bin', 'ctf']))
    elif kind == 'bad':
        s.update(spec=espec(r), fmt=r.choice(['bin', 'ctf']),
                 cut=r.choice([0.3, 0.9]))
    return s


def gaps(r):
    """Where the processor moves: bursts of close switches at a random
    place, or switches spread over the whole run."""
    out = []
    style = r.choice(['burst', 'burst', 'spread', 'few', 'fine'])
    if style == 'few':
        for _ in range(r.randint(1, 4)):
            out.append([int(10 ** r.uniform(0, 4)), r.randrange(4)])
    elif style == 'spread':
        for _ in range(r.randint(20, 150)):
            out.append([int(10 ** r.uniform(0, 3)), r.randrange(4)])
    elif style == 'fine':
        for _ in range(r.randint(50, 500)):
            out.append([r.randint(1, 40), r.randrange(4)])
    else:
        for _ in range(r.randint(2, 12)):
            out.append([int(10 ** r.uniform(0, 3.6)), r.randrange(4)])
            for _ in range(r.randint(3, 25)):
                out.append([r.randint(1, 6), r.randrange(4)])
    return out


def generate(r):
    n = r.choice([2, 2, 3, 4])
    kinds = r.choice([['ebsd', 'dic'], ['ebsd'], ['dic'], ['read'],
                      ['read', 'dic'], ['ebsd', 'save', 'bad', 'dic'],
                      ['ebsd', 'dic', 'read', 'save', 'bad']])
    scripts = [script(r, r.choice(kinds)) for _ in range(n)]
    if r.random() < .35:
        # the same work on the same kind of data in several threads
        for i in range(1, n):
            s = dict(scripts[0])
            if 'spec' in s and r.random() < .7:
                s['spec'] = dict(s['spec'], seed=r.randrange(1 << 30))
            scripts[i] = s
    need = any(s['kind'] == 'read' or s.get('link') == 'shared'
               for s in scripts)
    kills = {}
    if r.random() < .15:
        kills[str(r.randrange(n))] = int(10 ** r.uniform(0, 4))
    lines, sw = [], gaps(r)
    if r.random() < .45:
        lines = [r.random() for _ in range(r.choice([1, 3, 8, 20]))]
        if r.random() < .3:
            # where what is shared is kept
            lines += [[r.choice(['experiment.py', 'experiment.py',
                                 'utils.py', 'base.py', 'file_readers.py',
                                 'crystal.py', 'quat.py']),
                       r.random()] for _ in range(r.choice([1, 2, 4, 12]))]
        if r.random() < .7:
            sw = []
    return dict(scripts=scripts, switches=sw, lines=lines, kills=kills,
                inside=r.random() < .5,
                shared=dict(e=espec(r, 7, 8), d=dspec(r)) if need else None,
                first=r.randrange(4),
                method=r.choice(['floodfill', 'warp']),
                _lists=['switches', 'lines', 'scripts'])


def shrink(sc):
    if sc['kills']:
        yield dict(sc, kills={})
    for i, s in enumerate(sc['scripts']):
        for k in ('ops', 'keys'):
            if len(s.get(k, [])) > 1:
                for half in (s[k][:len(s[k]) // 2], s[k][len(s[k]) // 2:]):
                    c = list(sc['scripts'])
                    c[i] = dict(s, **{k: half})
                    yield dict(sc, scripts=c)


class Script:
    """What one thread does, in the terms of a user's program."""

    def __init__(self, s, i, run, shared, tag=''):
        self.s, self.i, self.shared = s, i, shared
        self.run = type(run)()
        self.run.scratch = os.path.join(run.scratch, f't{tag}{i}')
        os.makedirs(self.run.scratch, exist_ok=True)
        self.loaded = []           # maps whose load returned
        self.exp = shared.get('exp') if s['exp'] in ('shared', 'inc') \
            else None
        self.inc = None

    def place(self):
        """Where maps are loaded to."""
        if self.s['exp'] == 'own':
            from defdap.experiment import Experiment
            return dict(experiment=Experiment())
        if self.s['exp'] == 'inc':
            # an increment of its own, of the experiment all share
            if self.inc is None:
                self.inc = self.exp.add_increment(step=self.i)
            return dict(increment=self.inc,
                        map_name=f'map {len(self.inc.maps)}')
        return dict(experiment=self.exp)

    def body(self):
        try:
            return getattr(self, self.s['kind'])()
        except (sched.Killed, Violation):
            raise
        except Exception as e:
            out = ('raises', type(e).__name__, str(e)[:80])
            clear_tb(e)
            return out

    def load_e(self):
        s = self.s
        m = world.ebsd_map(self.run, s['spec'], fmt=s.get('fmt', 'bin'),
                           **self.place())
        if s['exp'] != 'own':
            self.loaded.append(m)
        return m

    def load_d(self):
        s = self.s
        m = world.dic_map(self.run, s['dspec'], **self.place())
        if s['exp'] != 'own':
            self.loaded.append(m)
        return m

    def ebsd(self):
        m = self.load_e()
        d = m.data
        d.generate('grains', min_grain_size=1)
        for op in self.s['ops']:
            k = op[0]
            if k == 'boundaries':
                d.generate('grain_boundaries', misori_tol=op[1])
            elif k == 'rotate':
                m.rotate_data()
            elif k == 'misori':
                m.calc_grain_mis_ori(calc_axis=True)
            elif k == 'schmid':
                m.calc_average_grain_schmid_factors(np.array([1., 0, 0]))
            elif k == 'network':
                m.build_neighbour_network()
            elif k == 'grains':
                d.generate('grains', min_grain_size=op[1])
            elif k == 'note':
                note(m)
        out = world.snap(m, self.s['keys'])
        out['ipf'] = world.val(lambda: np.array(m.calc_ipf_colour(
            d.orientation, np.array([0, 0, 1]))))
        out['extra'] = [(world.arr(g.ref_ori.quat_coef)
                         if g.ref_ori is not None else None,
                         g.average_schmid_factors) for g in m]
        out['network'] = world.val(lambda: world.ebsd_obs(m, 'network'))
        out['note'] = world.val(lambda: world.arr(d['note']))
        return out

    def dic(self):
        s = self.s
        shared = s['link'] == 'shared'
        if shared:
            em = self.shared['em']
        dm = self.load_d()
        if shared and dm.experiment is not em.experiment:
            # linked maps are of one experiment
            dm.experiment = em.experiment
        if s['link'] == 'own':
            em = world.ebsd_map(self.run, s['spec'],
                                **(self.place() if s['exp'] == 'inc' else
                                   dict(experiment=dm.experiment)))
            if s['exp'] != 'own':
                self.loaded.append(em)
            em.data.generate('grains', min_grain_size=1)
        if s['link'] != 'none':
            self.link(dm, em, s['scale'], shared)
            dm.data.generate('grains', algorithm=s['method'],
                             min_grain_size=1)
        for op in s['ops']:
            k = op[0]
            if k == 'crop':
                dm.set_crop(left=op[1], right=op[2], top=op[3],
                            bottom=op[4])
                if s['link'] != 'none':
                    dm.data.generate('grains', algorithm=s['method'],
                                     min_grain_size=1)
            elif k == 'mask':
                ms = np.ma.getdata(dm.data.max_shear)
                dm.data.generate('mask', mask=ms > np.quantile(ms, op[1]))
            elif k == 'grains':
                if s['link'] != 'none':
                    dm.data.generate('grains', algorithm=op[1],
                                     min_grain_size=1)
            elif k == 'note':
                if s['link'] != 'none':
                    note(dm)
            elif k == 'scale':
                dm.set_scale(0.5)
        ks = [k for k in s['keys'] if s['link'] != 'none' or k not in (
            'grain_boundaries', 'grains', 'list')]
        out = world.snap(dm, ks, world.dic_obs)
        if s['link'] != 'none':
            out['note'] = world.val(lambda: world.arr(dm.data['note']))
            out['g'] = [world.val(lambda: world.arr(g.data.max_shear))
                        for g in dm]
            out['traces'] = [world.val(lambda: [float(v) for v in
                                                g.slip_traces]) for g in dm]
        return out

    @staticmethod
    def link(dm, em, scale, shared):
        if not shared:
            return world.link(dm, em, scale)
        # the EBSD map is shared: its homologous points stay as they are
        pts = em.frame.homog_points
        dm.frame.set_homog_points([(x / scale, y / scale) for x, y in pts])
        dm.link_ebsd_map(em)

    def read(self):
        out = []
        for kind, k in self.s['keys']:
            em, dm = self.shared['em'], self.shared['dm']
            if kind == 'e':
                out.append(world.val(lambda: world.ebsd_obs(em, k)))
            elif kind == 'd':
                out.append(world.val(lambda: world.dic_obs(dm, k)))
            else:
                out.append(world.val(lambda: self.grain(em, dm, k)))
        return out

    @staticmethod
    def grain(em, dm, k):
        for m, names in ((em, ('euler_angle', 'GROD', 'band_contrast',
                               'note')),
                         (dm, ('max_shear', 'e', 'note'))):
            if k % 2 == (m is dm):
                g = m[k % len(m)]
                return ([sorted(g.data.keys())]
                        + [world.arr(g.data[n]) for n in names])

    def save(self):
        m = self.load_e()
        m.save('out', file_dir=self.run.scratch)
        with open(os.path.join(self.run.scratch, 'out.ctf'), 'rb') as f:
            return f.read()

    def bad(self):
        s = self.s
        t = ref.ebsd_truth(s['spec'])
        base = os.path.join(self.run.scratch, 'e')
        ref.write_ebsd(base, t, s['fmt'])
        p = base + ('.crc' if s['fmt'] == 'bin' else '.ctf')
        os.truncate(p, int(os.path.getsize(p) * s['cut']))
        from defdap import ebsd
        m = ebsd.Map(base if s['fmt'] == 'bin' else p,
                     data_type='OxfordBinary' if s['fmt'] == 'bin'
                     else 'OxfordText', **self.place())
        if s['exp'] != 'own':
            self.loaded.append(m)
        return world.snap(m, ['euler_angle'])


def note(m):
    for i, g in enumerate(m):
        if 'note' not in g.data:
            g.data.add('note', np.arange(len(g)) + 10. * i, type='list',
                       unit='', order=0)


def setting(sc, run, tag):
    """Shared maps, calculated, and the scripts."""
    import defdap
    from defdap.experiment import Experiment
    util.reset_globals()
    shared = dict(exp=Experiment())
    if sc['shared']:
        r = type(run)()
        r.scratch = os.path.join(run.scratch, 'shared' + tag)
        os.makedirs(r.scratch)
        exp = Experiment()
        em = world.ebsd_map(r, sc['shared']['e'], experiment=exp)
        dm = world.dic_map(r, sc['shared']['d'], experiment=exp)
        em.data.generate('grains', min_grain_size=1)
        world.link(dm, em)
        dm.data.generate('grains', algorithm='warp', min_grain_size=1)
        em.calc_average_grain_schmid_factors(np.array([1., 0, 0]))
        note(em)
        note(dm)
        world.snap(em, EKEYS)
        world.snap(dm, DKEYS, world.dic_obs)
        for g in em:
            g.data.GROD
        shared.update(em=em, dm=dm)
    scripts = [Script(s, i, run, shared, tag)
               for i, s in enumerate(sc['scripts'])]
    return defdap.anonymous_experiment, shared, scripts


def registry(run, exp, scripts, kind, killed):
    """The experiment holds each loaded map once and nothing else."""
    own = [s for s in scripts if kind == 'shared' and s.s['exp'] == 'inc']
    want = [m for s in scripts if s.s['exp'] == kind or s in own
            for m in s.loaded]
    dead = any(scripts[i].s['exp'] == kind or scripts[i] in own
               for i in killed)
    have = []
    for s in own:
        if s.i in killed or s.inc is None and not s.loaded:
            continue
        incs = [i for i in exp.increments if i.metadata == {'step': s.i}]
        require(incs == [s.inc], 'registry', f'the increment of thread {s.i} '
                f'is {len(incs)} times in the experiment', kind)
        require({n: id(m) for n, m in s.inc.maps.items()} == {
            f'map {k}': id(m) for k, m in enumerate(s.loaded)} and
            all(m.increment is s.inc and (
                m.experiment is exp or s.s.get('link') == 'shared')
                for m in s.loaded), 'registry',
            f'the increment of thread {s.i} holds {s.inc.maps}', kind)
    for name in ('ebsd', 'hrdic', 'map 0', 'map 1'):
        got = list(exp.iter_over_maps(name))
        require([(i, id(m)) for i, m in got] == [
            (i, id(c.maps[name])) for i, c in enumerate(exp.increments)
            if name in c.maps] and all(exp[i].maps[name] is m
                                       for i, m in got), 'registry',
                f'maps named {name} are not those of the increments', kind)
    for inc in exp.increments:
        if any(inc is s.inc for s in own):
            have += list(inc.maps.values())
            continue
        require(inc.experiment is exp, 'registry', 'an increment of another '
                'experiment', kind)
        if not inc.maps:
            require(dead, 'registry', 'an increment without a map', kind)
        have += list(inc.maps.values())
    for m in want:
        n = sum(m is h for h in have)
        require(n == 1, 'registry', f'a loaded map is {n} times in the '
                f'{kind} experiment', kind)
    extra = len(have) - len(want)
    require(extra == 0 or (dead and extra <= 2), 'registry',
            f'{len(have)} maps in the {kind} experiment, {len(want)} loaded',
            kind)


def execute(sc, run):
    import defdap
    saved = dict(defdap.defaults)
    try:
        _execute(sc, run)
    finally:
        defdap.defaults.clear()
        defdap.defaults.update(saved)
        util.reset_globals()


def settings():
    """What belongs to the whole process."""
    import warnings
    import defdap
    import matplotlib
    return dict(folder=os.getcwd(), errors=np.geterr(),
                printing=str(np.get_printoptions()),
                warnings=len(warnings.filters),
                defaults={k: str(v) for k, v in defdap.defaults.items()},
                plotting=str(matplotlib.rcParams),
                random=str(np.random.get_state()),
                environment=dict(os.environ),
                output=(id(sys.stdout), id(sys.stderr)))


def _execute(sc, run):
    if not sc['scripts']:
        return
    before = settings()
    # alone
    anon, shared, scripts = setting(sc, run, 'a')
    with intr.LineCounter() if sc['lines'] else nothing() as lc:
        want = [s.body() for s in scripts]
    at = [intr.choose(lc, u, 0)[:2] if isinstance(u, float) else
          intr.choose(lc, u[1], 0, u[0])[:2] for u in sc['lines']]
    registry(run, anon, scripts, 'default', ())
    registry(run, shared['exp'], scripts, 'shared', ())
    # together
    anon, shared, scripts = setting(sc, run, 'b')
    sd = sched.Sched(run, [s.body for s in scripts], sc['switches'],
                     {int(k): v for k, v in sc['kills'].items()},
                     at, sc.get('inside', False))
    got = sd.go(sc['first'])
    run.steps += sd.n
    run.log('switches', sd.taken)
    run.fault('thread switch', len(sd.taken))
    killed = [i for i, g in enumerate(got) if g[0] == 'killed']
    if killed:
        run.probe('a thread died')
    for i, (st, v) in enumerate(got):
        s = sc['scripts'][i]
        if st == 'killed':
            continue
        if st == 'violation':
            raise v
        if st == 'exc':
            raise v
        run.log(i, s['kind'], isinstance(v, tuple))
        w = want[i]
        if isinstance(v, tuple) or isinstance(w, tuple):
            require(v == w, 'thread-influence', f'thread {i} ({s["kind"]}) '
                    f'alone: {str(w)[:200]}, with others: {str(v)[:200]}',
                    s['kind'])
            continue
        bad = diff(v, w)
        require(not bad, 'thread-influence', f'thread {i} ({s["kind"]}) read '
                f'something else than alone: {bad}', s['kind'])
    registry(run, anon, scripts, 'default', killed)
    registry(run, shared['exp'], scripts, 'shared', killed)
    after = settings()
    for k in before:
        require(killed or after[k] == before[k], 'global-setting',
                f'{k} was {str(before[k])[:200]} and is {str(after[k])[:200]} '
                'after the threads ended', k)
    if sc['shared']:
        run.probe('threads with a shared map')
    run.nontrivial = len(sd.taken) > 0
    run.key([s['kind'] for s in sc['scripts']], sorted(sd.sites))


def diff(v, w):
    if same(v, w):
        return ''
    if isinstance(v, dict) and isinstance(w, dict):
        for k in sorted(set(v) | set(w)):
            if not same(v.get(k), w.get(k)):
                return f'{k}: {str(v.get(k))[:200]} not {str(w.get(k))[:200]}'
    if isinstance(v, list) and isinstance(w, list):
        for i, (a, b) in enumerate(zip(v, w)):
            if not same(a, b):
                return f'[{i}]: {str(a)[:200]} not {str(b)[:200]}'
    return f'{str(v)[:200]} not {str(w)[:200]}'
