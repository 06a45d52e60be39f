"""C05: an interrupted or failed calculation leaves nothing wrong behind."""
import sys

import numpy as np

from dsim import intr, util, world
from dsim.core import SimCrash, Violation
from dsim.seams import FaultyOut
from dsim.util import clear_tb, outcome, require, same

ID = 'C05'
LEVEL = 'exploration'
RUNS = dict(quick=1500, thorough=20000)
RULE = ('A run builds an EBSD map (or a DIC map linked to one), applies a '
        'random set-up, and makes one calculation fail: a KeyboardInterrupt, '
        'MemoryError or OSError raised at one executed line of the package, '
        'or on entry of one of its functions if nothing is repeated '
        'afterwards (chosen among those the calculation really executes, '
        'with the occurrence), or a standard output that breaks at one write. Then '
        'everything is read, or the calculation is repeated (possibly '
        'failing again) and everything is read. Compared with worlds in '
        'which the failure did not happen. Non-trivial: the failure fired. '
        'Distinct: (target, exception, code line, occurrence, what '
        'followed).')
ASSUMPTIONS = [
    'Failures are raised between executed lines of the package; compiled '
    'kernels (numba, numpy) are atomic.',
    'Quantities read after the failure may be the ones from before or after '
    'the interrupted calculation, never anything else.',
]
REAL = ['defdap.ebsd', 'defdap.hrdic', 'defdap.base', 'defdap.utils',
        'defdap.quat', 'numpy', 'numba kernels']
STUB = ['the failing allocation, signal or stream (raised by the simulator)']
MEASURE = 'distinct (target, code line, occurrence, exception, follow-up)'


def warmup():
    util.warm_numba()


EBSD_TARGETS = [
    ['get', 'orientation'], ['get', 'grain_boundaries'],
    ['get', 'phase_boundaries'], ['get', 'grains'], ['get', 'KAM'],
    ['get', 'GND'], ['get', 'Nye_tensor'], ['get', 'proxigram'],
    ['get', 'GROD'], ['get', 'GROD_axis'], ['get', 'grains'],
    ['boundaries', 5], ['boundaries', 15], ['boundaries', 40],
    ['grains', 1], ['grains', 3], ['grains', 6], ['find_grains', 2],
    ['av'], ['misori', False], ['misori', True], ['schmid', 0],
    ['schmid', 1], ['traces'], ['network'], ['rdr'], ['list'],
    ['link_check'],
]
NOTE = ['note']          # the user puts data of their own on the grains
DIC_TARGETS = [
    ['get', 'grains'], ['grains', 'floodfill', 2], ['grains', 'warp', 2],
    ['grains', 'floodfill', 6], ['get', 'grain_boundaries'], ['mask', 0.5],
    ['mask', 0.9], ['nomask'], ['list'], ['relink'], ['get', 'max_shear'],
]


def generate(r):
    dic = r.random() < 0.35
    spec = dict(shape=[r.randint(5, 8), r.randint(5, 8)],
                seed=r.randrange(1 << 30), grains=r.randint(1, 5),
                phases=r.choice([[0], [1], [2], [0, 2], [1, 0]]),
                nonindexed=r.choice([0, 0, 0.1]),
                close=r.random() < 0.5)
    sc = dict(spec=spec, dic=dic, min_size=r.choice([1, 2, 4]),
              setup=[r.choice(EBSD_TARGETS) for _ in
                     range(r.choice([0, 0, 1, 2]))],
              fault=r.choice(['KeyboardInterrupt'] * 4 + [
                  'MemoryError', 'OSError', 'stdout', 'stdout']),
              mode=r.choice(['error', 'closed']),
              u_loc=r.random(), u_occ=r.random(), again=r.random() < 0.25,
              u_loc2=r.random(), u_occ2=r.random(),
              follow=r.choice(['retry', 'retry', 'read']),
              order=r.randrange(1 << 16), _lists=['setup'])
    if dic:
        spec['shape'] = [r.randint(8, 10), r.randint(8, 10)]
        sc['dspec'] = dict(shape=[r.randint(7, 10), r.randint(7, 10)],
                           seed=r.randrange(1 << 30), binning=4)
        sc['scale'] = r.choice([1.0, 1.0, 0.9])
        sc['target'] = r.choice(DIC_TARGETS)
        sc['method'] = r.choice(['floodfill', 'warp'])
        sc['setup'] = [r.choice([t for t in DIC_TARGETS if t[0] != 'relink'])
                       for _ in range(r.choice([0, 0, 1, 2]))]
    else:
        sc['target'] = r.choice(EBSD_TARGETS)
    if r.random() < .35:
        sc['setup'].append(NOTE)
        if r.random() < .6:
            sc['target'] = ['grains', 'floodfill', r.choice([1, 2, 4])] \
                if dic else [r.choice(['grains', 'find_grains']),
                             r.choice([1, 2, 3])]
    return sc


def shrink(sc):
    if sc['again']:
        yield dict(sc, again=False)
    if sc['spec']['phases'] != [0]:
        yield dict(sc, spec=dict(sc['spec'], phases=[0]))
    if sc['spec'].get('nonindexed'):
        yield dict(sc, spec=dict(sc['spec'], nonindexed=0))


class World:
    def __init__(self, sc, run):
        import defdap
        from defdap.experiment import Experiment
        defdap.defaults['find_grain_report_freq'] = 2
        exp = Experiment()
        self.sc = sc
        self.em = world.ebsd_map(run, sc['spec'], experiment=exp)
        self.net = None
        if sc['dic']:
            self.dm = world.dic_map(run, sc['dspec'], experiment=exp)
            defdap.defaults['hrdic_grain_finding_method'] = sc['method']
            world.link(self.dm, self.em, sc['scale'])
            # default sizes find nothing in maps this small
            self.em.data.generate('grains', min_grain_size=1)

    def op(self, t):
        if self.sc['dic']:
            return self.dic_op(t)
        m, d = self.em, self.em.data
        k = t[0]
        if k == 'note':
            self.ensure()
            return self.note(m)
        if k == 'get':
            if t[1] == 'grains':
                return d.generate('grains', min_grain_size=self.sc[
                    'min_size'])
            if t[1] in ('GROD', 'GROD_axis'):
                self.ensure()
            return d[t[1]]
        if k == 'boundaries':
            return d.generate('grain_boundaries', misori_tol=t[1])
        if k == 'grains':
            return d.generate('grains', min_grain_size=t[1])
        if k == 'find_grains':
            return m.find_grains(min_grain_size=t[1])
        self.ensure()
        if k == 'av':
            return m.calc_grain_av_oris()
        if k == 'misori':
            return m.calc_grain_mis_ori(calc_axis=t[1])
        if k == 'schmid':
            return m.calc_average_grain_schmid_factors(
                np.array([[1., 0, 0], [0, 0.6, 0.8]][t[1]]))
        if k == 'traces':
            for g in m.grains:
                g.slip_traces
            return
        if k == 'rdr':
            m.calc_grain_av_oris()
            return m.calc_rdr()
        if k == 'network':
            return m.build_neighbour_network()
        if k == 'list':
            return len(m)
        if k == 'link_check':
            return m.calc_grain_average(d.band_contrast)

    def ensure(self):
        """Default minimum size is too big for these maps."""
        if 'grains' not in self.stored(self.em):
            self.em.data.generate('grains', min_grain_size=self.sc[
                'min_size'])

    @staticmethod
    def stored(m):
        return [] if getattr(m, '_grains', None) is None else ['grains']

    @staticmethod
    def note(m):
        for i, g in enumerate(m):
            if 'note' not in g.data:
                g.data.add('note', np.arange(len(g)) + 10. * i, type='list',
                           unit='', order=0)

    def read_note(self):
        m = self.dm if self.sc['dic'] else self.em
        return [world.val(lambda: world.arr(m[0].data['note'])),
                world.val(lambda: world.arr(m.data['note']))]

    def dic_op(self, t):
        m, d = self.dm, self.dm.data
        k = t[0]
        if k == 'note':
            if 'grains' not in self.stored(m):
                d.generate('grains', min_grain_size=2)
            return self.note(m)
        if k == 'get':
            if t[1] == 'grains':
                return d.generate('grains', min_grain_size=2)
            return d[t[1]]
        if k == 'grains':
            return d.generate('grains', algorithm=t[1], min_grain_size=t[2])
        if k == 'mask':
            ms = np.ma.getdata(d.max_shear)
            return d.generate('mask', mask=ms > np.quantile(ms, t[1]))
        if k == 'nomask':
            return d.generate('mask', mask=None)
        if k == 'list':
            if 'grains' not in self.stored(m):
                d.generate('grains', min_grain_size=2)
            return len(m)
        if k == 'relink':
            return m.link_ebsd_map(self.em)

    def extra(self):
        """What the explicit calculations left on grains and map."""
        m = self.em
        if self.sc['dic'] or 'grains' not in self.stored(m):
            return None
        out = []
        for g in m.grains:
            sf = g.average_schmid_factors
            out.append((
                None if g.ref_ori is None else world.arr(
                    g.ref_ori.quat_coef),
                None if g.mis_ori_list is None else np.array(g.mis_ori_list),
                None if g.mis_ori_axis_list is None
                else np.array(g.mis_ori_axis_list),
                None if sf is None else [list(map(float, s)) for s in sf],
                None if getattr(g, 'rdr', None) is None else
                [list(map(float, s)) for s in g.rdr]))
        return out

    def snap(self, order):
        """Everything, read in an order the scenario decides."""
        import random
        keys = list(world.DIC_KEYS if self.sc['dic'] else world.EBSD_KEYS)
        if not self.sc['dic']:
            keys += ['network']
        if 'grains' not in self.stored(self.em) and not self.sc['dic']:
            self.ensure()
        if self.sc['dic'] and 'grains' not in self.stored(self.dm):
            self.dm.data.generate('grains', min_grain_size=2)
        # what the failed or repeated operation itself left, first
        extra = world.val(self.extra)
        random.Random(order).shuffle(keys)
        if self.sc['dic']:
            out = world.snap(self.dm, keys, world.dic_obs)
        else:
            out = world.snap(self.em, keys)
        out['extra'] = extra
        out['note'] = world.val(self.read_note)
        return out


def count(sc, run):
    """Executed lines and output writes of the target, undisturbed."""
    w = World(sc, run)
    for t in sc['setup']:
        w.op(t)
    out = FaultyOut(run)
    old = sys.stdout
    sys.stdout = out
    try:
        with intr.LineCounter(sc['follow'] == 'read') as lc:
            st, e = outcome(w.op, sc['target'])
    finally:
        sys.stdout = old
    if st == 'exc':
        clear_tb(e)
    return lc, out.n, st


def fail_once(w, sc, run, lc, nout, u_loc, u_occ):
    """(fired, ended, where)"""
    if sc['fault'] == 'stdout':
        if not nout:
            return False, 'no output', ''
        out = FaultyOut(run, 1 + min(nout - 1, int(u_loc * nout)),
                        sc['mode'])
        old = sys.stdout
        sys.stdout = out
        try:
            w.op(sc['target'])
            ended = 'completed'
        except (OSError, ValueError) as e:
            ended = type(e).__name__
            clear_tb(e)
        finally:
            sys.stdout = old
        return out.n >= out.fail_at, ended, f'write {out.fail_at}'
    where = intr.choose(lc, u_loc, u_occ)
    if where is None:
        return False, 'no lines', ''
    it = intr.Interrupt(where, sc['fault'], sc['follow'] == 'read')
    try:
        with it:
            w.op(sc['target'])
        ended = 'completed'
    except (KeyboardInterrupt, MemoryError, OSError) as e:
        ended = type(e).__name__
        clear_tb(e)
    if it.fired:
        run.fault(sc['fault'])
    import os
    return it.fired, ended, f'{os.path.basename(where[0])}:{where[1]}' \
                            f'#{where[2]}'


def execute(sc, run):
    import defdap
    util.reset_globals()
    saved = dict(defdap.defaults)
    try:
        _execute(sc, run)
    finally:
        defdap.defaults.clear()
        defdap.defaults.update(saved)


def _execute(sc, run):
    probe = World(sc, run)
    for t in sc['setup']:
        st, e = outcome(probe.op, t)
        if st == 'exc':
            clear_tb(e)
            run.probe('set-up has no grains to work on')
            return
    st, e = outcome(probe.op, sc['target'])
    if st == 'exc':
        clear_tb(e)
        run.probe('target fails by itself')
        return
    after = world.val(lambda: probe.snap(sc['order']))
    lc, nout, _ = count(sc, run)
    run.steps += lc.total

    w = World(sc, run)
    for t in sc['setup']:
        w.op(t)
    fired, ended, where = fail_once(w, sc, run, lc, nout, sc['u_loc'],
                                    sc['u_occ'])
    run.log('failure', sc['target'], sc['fault'], ended, fired)
    if not fired:
        run.probe('failure not reached')
        return
    if ended == 'completed':
        run.probe('failure swallowed')
    run.nontrivial = True
    run.key(sc['target'], sc['fault'], where, sc['follow'], sc['again'],
            sc['setup'])
    if sc['again']:
        f2, e2, w2 = fail_once(w, sc, run, lc, nout, sc['u_loc2'],
                               sc['u_occ2'])
        run.log('second failure', e2, f2)
        if f2:
            run.probe('failed twice')
    before = None
    if sc['follow'] == 'retry':
        st, e = outcome(w.op, sc['target'])
        require(st == 'ok', 'retry-fails', f'{sc["target"]} fails when '
                f'repeated after {sc["fault"]} at {where}: {e!r}')
    else:
        b = World(sc, run)
        for t in sc['setup']:
            b.op(t)
        before = world.val(lambda: b.snap(sc['order']))
    got = world.val(lambda: w.snap(sc['order']))
    if isinstance(got, tuple):
        ok = got == after or (before is not None and got == before)
        require(ok, 'unreadable', f'nothing can be read after '
                f'{sc["fault"]} in {sc["target"]} at {where}: {got}')
        return
    for k in got:
        want = [x[k] for x in (after, before)
                if isinstance(x, dict)]
        if k == 'extra' and before is not None:
            # grain by grain, value by value: before, after or nothing
            bad = extra_diff(got[k], want)
        else:
            bad = not any(same(got[k], v) for v in want)
        if bad:
            raise Violation(
                'stale-or-partial', f'{k} differs after {sc["fault"]} in '
                f'{sc["target"]} at {where} ({ended}), then '
                f'{sc["follow"]}: {short(got[k])} instead of '
                f'{short(want[0])}')
    if not isinstance(got.get('grains'), tuple) and isinstance(
            got.get('list'), list):
        d = world.grains_consistent(got['grains'], got['list'])
        require(not d, 'inconsistent', f'grain map and list differ after '
                f'{sc["fault"]} in {sc["target"]} at {where}: {d}')


def extra_diff(got, wants):
    if got is None or isinstance(got, tuple):
        return False
    wants = [w for w in wants if isinstance(w, list) and len(w) == len(got)]
    if not wants:
        return False
    for i, g in enumerate(got):
        for j, v in enumerate(g):
            if v is None:
                continue
            if not any(same(v, w[i][j]) for w in wants
                       if w[i][j] is not None):
                if any(w[i][j] is not None for w in wants):
                    return True
    return False


def short(v):
    s = repr(v).replace('\n', ' ')
    return s[:160]
