"""C08: EBSD quantities follow the data and the last calculation, whatever
was asked for before."""
import warnings

import numpy as np

from dsim import model, ref, util, world
from dsim.core import Violation
from dsim.util import clear_tb, outcome, require, same

ID = 'C08'
LEVEL = 'exploration'
RUNS = dict(quick=1600, thorough=24000)
RULE = ('A run loads a random EBSD map and applies a random history of 1 to '
        '14 operations (calculations with new parameters, reads of derived '
        'quantities, rotations, per-grain calculations, requests that fail) '
        'while a reference model, written separately in plain numpy, '
        'predicts every quantity from the points of the map and the last '
        'parameters. Each read is compared; at the end everything is read '
        'in a random order, twice. Non-trivial: grains were compared after '
        'at least two operations. Distinct: (operations, outcome kinds).')
ASSUMPTIONS = [
    'Boundary pairs within 0.005 degree of the tolerance may go either way.',
    'Recalculating the orientations from Euler angles of a rotated map is '
    'not part of the histories.',
    'GND and Nye tensor are not judged where two equivalents of a neighbour '
    'are about as near.',
]
REAL = ['defdap.ebsd', 'defdap.base', 'defdap.utils', 'defdap.quat',
        'defdap.file_readers', 'numba kernels']
STUB = ['the acquisition software (independent encoder)',
        'identifiers (drawn from the seed)']
MEASURE = 'distinct operation histories'


def warmup():
    util.warm_numba()


READ = ['orientation', 'grain_boundaries', 'phase_boundaries', 'grains',
        'KAM', 'GND', 'Nye_tensor', 'GROD', 'GROD_axis', 'list',
        'band_contrast', 'phase', 'user', 'average', 'derived', 'keys',
        'len', 'network', 'refs', 'gdm', 'proxigram']


def generate(r):
    lo = r.choice([5] * 8 + [2, 1])
    spec = dict(shape=[r.randint(lo, 11), r.randint(lo, 11)],
                seed=r.randrange(1 << 30), grains=r.choice(
                    [1, 2, 3, 4, 6, 9]),
                phases=r.choice([[0], [1], [2], [0, 2], [2, 1], [0, 1, 2]]),
                nonindexed=r.choice([0, 0, 0.08, 0.3]),
                noise=r.choice([0.3, 0.3, 1.5, 0.0]),
                close=r.random() < 0.5, step=r.choice([.5, .5, .1, 2.]),
                half=r.random() < 0.15)
    if r.random() < .03:
        # many points along an axis, or many grains
        spec.update(shape=r.choice([[3, 300], [290, 2], [18, 19]]),
                    noise=r.choice([.3, 25, 25]))
    ops = []
    for _ in range(r.randint(1, 14 if max(spec['shape']) < 15 else 5)):
        k = r.choice(['read'] * 5 + ['boundaries', 'grains', 'grains',
                                     'find_grains', 'rotate', 'network',
                                     'av', 'misori', 'schmid', 'traces',
                                     'bad', 'gen', 'user', 'kam',
                                     'proxi', 'smooth', 'smooth'])
        if k == 'read':
            ops.append(['read', r.choice(READ)])
        elif k == 'boundaries':
            ops.append([k, r.choice([2, 5, 10, 15, 40]), r.choice(
                ['grain_boundaries', 'phase_boundaries'])])
        elif k in ('grains', 'find_grains'):
            ops.append([k, r.choice([1, 2, 4, 8, 10, 1000])])
        elif k in ('misori', 'schmid'):
            ops.append([k, r.randrange(2)])
        elif k == 'bad':
            ops.append([k, r.randrange(4)])
        elif k == 'gen':
            ops.append([k, r.choice(['KAM', 'GND', 'Nye_tensor'])])
        elif k == 'user':
            ops.append([k, r.randrange(1 << 16)])
        elif k == 'smooth':
            ops.append([k, r.choice([1, 5, 5, 20])])
        elif k == 'proxi':
            ops.append([k, r.choice([1, 2, 3, 7, 500])])
        else:
            ops.append([k])
    if min(spec['shape']) == 1:
        # no kernel
        ops = [o for o in ops if o[-1] not in ('KAM', 'kam')]
    return dict(spec=spec, ops=ops, order=r.randrange(1 << 16),
                fmt=r.choice(['bin', 'ctf']), _lists=['ops'])


def shrink(sc):
    s = sc['spec']
    for k, v in (('nonindexed', 0), ('phases', [0]), ('noise', 0.3),
                 ('close', False), ('half', False), ('grains', 1), ('grains', 2),
                 ('shape', [5, 5]), ('shape', [6, 7])):
        if s.get(k) != v:
            yield dict(sc, spec=dict(s, **{k: v}))


class Sim:
    def __init__(self, sc, run):
        from defdap.experiment import Experiment
        self.sc, self.run = sc, run
        self.m = world.ebsd_map(run, sc['spec'], experiment=Experiment(),
                                fmt=sc['fmt'])
        t = ref.ebsd_truth(sc['spec'])
        if sc['fmt'] == 'bin':
            # the binary format holds single precision radians
            t['euler'] = np.rad2deg(np.deg2rad(t['euler']).astype(
                np.float32).astype(float))
        self.mod = model.Ebsd(t)
        self.tol = None         # of the stored boundaries
        self.bnd = None
        self.lab = None         # labels of the stored grains
        self.ever = False       # grains were found at some time
        self.net = None         # labels and boundaries at the last network
        self.user = None
        self.av = False
        self.prox = None        # distances when last calculated
        self.nye = {}

    # ----- model
    def want_bnd(self, tol=None):
        if tol is not None or self.bnd is None:
            self.tol = 10 if tol is None else tol
            self.bnd = self.mod.boundaries(self.tol)
            # take the real side of pairs too close to call
            for ax, key in ((0, 'image_x'), (1, 'image_y')):
                w, un, pb = self.bnd[ax]
                if un.any():
                    self.run.probe('pair within 1e-4 of tolerance')
                    real = self.real_pts(self.m.data.grain_boundaries,
                                         ax)
                    w[un] = real[un]
        return self.bnd

    def real_pts(self, b, ax):
        im = np.zeros(self.mod.shape, bool)
        for x, y in (b.points_x, b.points_y)[ax]:
            im[y, x] = True
        return im

    def want_grains(self, size=None):
        """None if nothing is stored or can be found."""
        if size is not None or self.lab is None:
            b = self.want_bnd()
            lab = model.partition(self.mod.phase != 0, b[0][0], b[1][0],
                                  10 if size is None else size)
            if lab.max() <= 0:
                return None
            self.lab = lab
            self.ever = True
        return self.lab

    def want_prox(self):
        if self.prox is None:
            b = self.want_bnd()
            pts = np.argwhere(b[0][0] | b[1][0])[:, ::-1]
            self.prox = model.distances(pts, self.mod.shape)
        return self.prox

    # ----- operations
    def op(self, o):
        m, d = self.m, self.m.data
        k = o[0]
        if k == 'read':
            return self.check(o[1])
        if k == 'boundaries':
            self.ok(o, d.generate, o[2], misori_tol=o[1])
            self.want_bnd(o[1])
            return
        if k in ('grains', 'find_grains'):
            if k == 'grains':
                st, e = outcome(d.generate, 'grains', min_grain_size=o[1])
            else:
                st, e = outcome(m.find_grains, min_grain_size=o[1])
            w = self.want_grains(o[1])
            self.found(o, st, e, w)
            return
        if k == 'rotate':
            self.ok(o, m.rotate_data)
            self.mod.rotate()
            self.bnd = self.lab = self.tol = self.prox = None
            if self.user is not None:
                self.user = self.user[::-1, ::-1]
            return
        if k == 'smooth':
            return self.smooth(o)
        if k == 'user':
            a = np.random.default_rng(o[1]).random(self.mod.shape)
            if self.user is None:
                d.add('user', a.copy(), type='map', order=0)
            else:
                d.user = a.copy()
            self.user = a
            return
        if k == 'gen':
            self.ok(o, d.generate, o[1])
            return
        if k == 'kam':
            self.ok(o, d.generate, 'KAM')
            return
        if k == 'bad':
            self.bad(o[1])
            return
        if k == 'proxi':
            self.ok(o, d.generate, 'proxigram', num_trials=o[1])
            self.prox = None
            self.want_prox()
            return
        # calculations that need grains
        w = self.want_grains()
        fn = {
            'network': lambda: m.build_neighbour_network(),
            'av': lambda: m.calc_grain_av_oris(),
            'misori': lambda: m.calc_grain_mis_ori(
                calc_axis=bool(o[1])),
            'schmid': lambda: m.calc_average_grain_schmid_factors(
                np.array([[1., 0, 0], [0, .6, .8]][o[1]])),
            'traces': lambda: [g.slip_traces for g in m.grains],
        }[k]
        st, e = outcome(fn)
        if k == 'traces' and w is not None and st == 'exc' and \
                'phase' in str(e):
            clear_tb(e)
            return
        self.found(o, st, e, w)
        if w is not None and k == 'network':
            self.net = (w, [b[0].copy() for b in self.bnd])
            self.segments()
        if w is not None and k == 'misori':
            self.lists(w, bool(o[1]))

    def smooth(self, o):
        m, mod = self.m, self.mod
        want = model.smoothed(mod.g(), o[1])
        self.ok(o, m.filter_data, misori_tol=o[1])
        got = world.arr(m.data.orientation)
        for (y, x), cand in want.items():
            if cand is None:
                self.run.probe('point at the tolerance of the filter')
                continue
            q = got[y, x]
            off = min(min(np.abs(q - c).max(), np.abs(q + c).max())
                      for c in cand)
            require(off < 5e-6, 'wrong-filter', f'point {(x, y)} has '
                    f'orientation {q} after smoothing, not {cand[0]}')
        mod.filtered = np.array([[quat_matrix(q) for q in row]
                                 for row in got])
        mod.version += 1
        self.bnd = self.lab = self.tol = self.prox = None

    def found(self, o, st, e, w):
        if w is None:
            require(st == 'exc', 'no-grains', f'{o} worked although no '
                    f'grain is that large')
            self.run.probe('no grain is large enough')
            clear_tb(e)
        else:
            require(st == 'ok', 'op-fails', f'{o} failed: {e!r}')

    def segments(self):
        """The boundary between two neighbours."""
        from defdap.ebsd import BoundarySet
        segs = [(a, b, s) for a, b, s in
                self.m.neighbour_network.edges(data='boundary')]
        for a, b, s in segs:
            where = f'boundary of grains {a.grain_id} and {b.grain_id}'
            require({s.grain1, s.grain2} == {a, b} and s == s and
                    all((s == t) == (s is t) for _, _, t in segs),
                    'wrong-segment', f'{where} is of other grains')
            pts = [set(s.boundary_points_x), set(s.boundary_points_y)]
            require(len(s) == len(pts[0]) + len(pts[1]), 'wrong-segment',
                    f'{where} has length {len(s)} with {pts}')
            want = sorted([((x + .5, y - .5), (x + .5, y + .5))
                           for x, y in pts[0]] +
                          [((x - .5, y + .5), (x + .5, y + .5))
                           for x, y in pts[1]])
            require(np.array_equal(sorted(s.boundary_lines), want),
                    'wrong-segment', f'lines of the {where}')
            if a.ref_ori is None or b.ref_ori is None:
                continue
            syms = [self.phase_syms(g.grain_id + 1) for g in (a, b)]
            if any(v is not self.mod.syms for v in syms):
                continue
            ang, ax = s.misorientation()
            g1, g2 = (quat_matrix(g.ref_ori.quat_coef)
                      for g in (s.grain1, s.grain2))
            deg = float(model.angle(g1, g2, self.mod.syms))
            require(abs(np.rad2deg(ang) - deg) < 1e-3, 'wrong-segment',
                    f'misorientation {np.rad2deg(ang)} of the {where}, '
                    f'not {deg}')
            off = self.vector_off(ang * np.reshape(ax, (3, 1)), g2[None],
                                  s.grain1.ref_ori, self.mod.syms)
            require(off < 1e-3, 'wrong-segment', f'axis {ax} with the '
                    f'angle {ang} of the {where} is off by {off}')
            self.run.probe('misorientation across a boundary')
        if segs:
            b = BoundarySet.from_boundary_segments([s[2] for s in segs])
            require((b.points_x, b.points_y) == tuple(set().union(
                *[getattr(s[2], 'boundary_points_' + k) for s in segs])
                for k in 'xy') and b.ebsd_map is self.m, 'wrong-segment',
                'points of the set of all boundaries')

    def lists(self, w, axes):
        g = self.mod.g()
        for i, gr in enumerate(self.m.grains):
            syms = self.phase_syms(i + 1)
            if syms is None:
                continue
            pts = np.array(gr.data.point)
            gi = g[pts[:, 1], pts[:, 0]]
            a = np.deg2rad(model.angle(
                gi, quat_matrix(gr.ref_ori.quat_coef), syms))
            require(np.allclose(gr.mis_ori_list, np.cos(a / 2), rtol=0,
                                atol=1e-6) and
                    abs(gr.average_mis_ori - np.cos(a / 2).mean()) < 1e-6,
                    'wrong-misori', f'misorientations of grain {i}')
            if axes:
                off = self.vector_off(np.array(gr.mis_ori_axis_list).T, gi,
                                      gr.ref_ori, syms)
                require(off < 1e-3, 'wrong-misori', f'misorientation axes '
                        f'of grain {i} are off by {off}')

    def ok(self, o, fn, *a, **k):
        st, e = outcome(fn, *a, **k)
        require(st == 'ok', 'op-fails', f'{o} failed: {e!r}')

    def bad(self, which):
        m, d = self.m, self.m.data
        fns = [lambda: d.generate('nothing'), lambda: d['nothing'],
               lambda: d.generate('grains', no_such_argument=1),
               lambda: m.set_homog_point(no_such_argument=1)]
        st, e = outcome(fns[which])
        if which < 3:
            require(st == 'exc', 'bad-accepted',
                    f'request {which} for something unknown worked')
        if st == 'exc':
            self.run.fault('failing request')
            clear_tb(e)
        import matplotlib.pyplot as plt
        plt.close('all')

    # ----- observation
    def check(self, key):
        m, d, mod = self.m, self.m.data, self.mod
        need = key in ('grains', 'GROD', 'GROD_axis', 'list', 'average',
                       'derived', 'len', 'refs', 'gdm')
        w = None
        if need:
            if key in ('GROD', 'GROD_axis'):
                # only known once there are grains
                if not self.ever:
                    st, e = outcome(d.__getitem__, key)
                    require(st == 'exc', 'grod-without-grains',
                            f'{key} exists although no grains were found')
                    clear_tb(e)
                    return
            w = self.want_grains()
            if w is None:
                st, e = outcome(lambda: m.grains if key in (
                    'list', 'average', 'derived', 'len', 'refs', 'gdm')
                    else d[key])
                self.found(['read', key], st, e, w)
                return
        elif key in ('grain_boundaries', 'phase_boundaries'):
            w = self.want_bnd()
        st, got = outcome(self.observe, key)
        require(st == 'ok', 'read-fails', f'reading {key} failed: {got!r}')
        diff = self.compare(key, got, w)
        if diff:
            raise Violation('wrong-' + key, f'{key}: {diff}')

    def observe(self, key):
        m, d = self.m, self.m.data
        if key in ('grain_boundaries', 'phase_boundaries'):
            return world.ebsd_obs(m, key), d[key]
        if key == 'list':
            return [world.grain_obs(g) for g in m.grains]
        if key == 'average':
            return [m.calc_grain_average(d.band_contrast),
                    m.calc_grain_average(d.band_contrast, [len(m) - 1])]
        if key == 'derived':
            return [(np.array(g.data.band_contrast),
                     np.array(g.data.phase), np.array(g.data.grains))
                    for g in m.grains]
        if key == 'len':
            return len(m)
        if key == 'network':
            return world.val(lambda: world.ebsd_obs(m, 'network'))
        if key == 'user':
            return None if 'user' not in d else np.array(d.user)
        if key == 'refs':
            self.ok(['av'], m.calc_grain_av_oris)
            return [np.array(g.ref_ori.quat_coef) for g in m.grains]
        if key == 'gdm':
            v = [3 * i + 1 for i in range(len(m))]
            return m.grain_data_to_map_data(v, bg=-5)
        return world.ebsd_obs(m, key)

    def pts(self, lab):
        return [sorted((int(x), int(y)) for y, x in
                       np.argwhere(self.lab == i))
                for i in range(1, self.lab.max() + 1)]

    def compare(self, key, got, w):
        mod, m = self.mod, self.m
        if key in ('grain_boundaries', 'phase_boundaries'):
            got, b = got
            for ax in (0, 1):
                want = w[ax][0 if key[0] == 'g' else 2]
                p = sorted((int(x), int(y)) for y, x in np.argwhere(want))
                if p != got[ax]:
                    return (f'{len(got[ax])} points in {"xy"[ax]} instead '
                            f'of {len(p)}')
                im = (b.image_x, b.image_y)[ax]
                if not np.array_equal(im, want):
                    return (f'image in {"xy"[ax]} marks {im.sum()} points '
                            f'instead of {want.sum()}')
            want = sum(w[ax][0 if key[0] == 'g' else 2] for ax in (0, 1)) > 0
            if not np.array_equal(b.image, want):
                return f'image marks {b.image.sum()}, not {want.sum()}'
            return
        if key in ('grains',):
            return None if np.array_equal(got, w) else \
                f'labels differ: {np.unique(got)} instead of {np.unique(w)}'
        if key == 'list':
            for i, p in enumerate(self.pts(w)):
                if i >= len(got):
                    return f'{len(got)} grains'
                ph = set(int(mod.phase[y, x]) for x, y in p)
                name, pid = None, None
                if len(ph) == 1:
                    pid = ph.pop() - 1
                    name = mod.t['phases'][pid]['name']
                if got[i] != (i, p, name, pid):
                    return f'grain {i} is {str(got[i])[:80]}, not ' \
                           f'{str((i, p, name, pid))[:80]}'
            return None if len(got) == w.max() else f'{len(got)} grains'
        if key == 'len':
            return None if got == w.max() else f'{got}, not {w.max()}'
        if key == 'average':
            want = [mod.bc[w == i].mean() for i in range(1, w.max() + 1)]
            if not np.allclose(got[0], want):
                return 'differs'
            return None if np.allclose(got[1], want[-1:]) else 'last differs'
        if key == 'derived':
            for g, v, i in zip(m.grains, got, range(1, w.max() + 1)):
                p = np.asarray(g.data.point)
                for a, b in zip(v, (mod.bc, mod.phase, self.lab)):
                    if not np.array_equal(a, b[p[:, 1], p[:, 0]]):
                        return f'grain {i - 1} differs from the map'
            return
        if key == 'gdm':
            want = np.where(w > 0, 3 * w - 2, -5)
            return None if np.array_equal(got, want) else 'differs'
        if key == 'network':
            want = None
            if self.net is not None:
                lab, b = self.net
                want = (list(range(lab.max())), model.edges(lab, *b))
            return None if same(got, want) else \
                f'{str(got)[:200]} instead of {str(want)[:200]}'
        if key == 'user':
            return None if same(got, self.user) else 'differs'
        if key == 'orientation':
            q = model.quats(mod.g())
            if got.shape != q.shape:
                return f'shape {got.shape}'
            off = np.minimum(np.abs(got - q).max(-1),
                             np.abs(got + q).max(-1)).max()
            return None if off < 5e-6 else f'off by up to {off}'
        if key == 'KAM':
            want = mod.kam()
            # arccos is not well conditioned near zero
            got, want = np.cos(np.asarray(got, float) / 2), np.cos(want / 2)
            return None if np.allclose(got, want, atol=1e-6) else \
                f'differs by {np.abs(got - want).max()} in cosine'
        if key in ('band_contrast', 'phase'):
            want = mod.bc if key[0] == 'b' else mod.phase
            return None if np.array_equal(got, want) else 'differs'
        if key in ('GND', 'Nye_tensor'):
            return self.check_nye(key, got)
        if key == 'proxigram':
            return None if np.allclose(got, self.want_prox()) else 'differs'
        if key == 'keys':
            want = {'phase', 'euler_angle', 'orientation', 'KAM', 'GND',
                    'Nye_tensor', 'grains', 'grain_boundaries',
                    'phase_boundaries', 'band_contrast'}
            if self.user is not None:
                want.add('user')
            if self.ever:
                want |= {'GROD', 'GROD_axis', 'point'}
            miss = want - set(got)
            return f'{sorted(miss)} missing' if miss else None
        if key == 'refs':
            return self.check_refs(got, w)
        if key in ('GROD', 'GROD_axis'):
            return self.check_grod(key, got, w)
        raise AssertionError(key)

    def phase_syms(self, i):
        ph = set(self.mod.phase[self.lab == i])
        if len(ph) != 1:
            return None
        return model.group(self.mod.t['phases'][ph.pop() - 1])

    def check_refs(self, got, w):
        """The mean orientation is no further from any point than the
        points are from each other (where those are close enough that it
        is clear which equivalents are averaged)."""
        g = self.mod.g()
        for i in range(1, w.max() + 1):
            syms = self.phase_syms(i)
            if syms is None:
                continue
            gi = g[w == i]
            r = quat_matrix(got[i - 1])
            a = model.angle(gi, r, syms)
            spread = max(model.angle(gi, v, syms).max() for v in gi)
            if spread < 20 and a.max() > spread + 1e-3:
                return (f'grain {i - 1} mean is {a.max():.3f} degrees from '
                        f'a point, the points spread {spread:.3f}')

    def check_grod(self, key, got, w):
        g = self.mod.g()
        if key == 'GROD_axis':
            mag = np.sqrt((np.asarray(got, float) ** 2).sum(0))
        for i in range(1, w.max() + 1):
            syms = self.phase_syms(i)
            r = self.m.grains[i - 1].ref_ori
            if syms is None or r is None:
                return f'grain {i - 1} has no reference orientation' \
                    if syms is not None else None
            a = np.deg2rad(model.angle(
                g[w == i], quat_matrix(r.quat_coef), syms))
            if key == 'GROD':
                # arccos is not well conditioned near zero
                if not np.allclose(np.cos(got[w == i] / 2), np.cos(a / 2),
                                   rtol=0, atol=1e-6):
                    return (f'grain {i - 1}: off by '
                            f'{np.abs(got[w == i] - a).max()}')
            else:
                v = mag[w == i]
                # length of the rotation vector is the angle
                if not np.isfinite(v).all():
                    return f'grain {i - 1}: axis not finite'
                if not np.allclose(np.cos(v / 2), np.cos(a / 2),
                                   rtol=0, atol=1e-6):
                    return f'grain {i - 1}: axis length off'
                off = self.vector_off(np.asarray(got, float)[:, w == i],
                                      g[w == i], r, syms)
                if off > 1e-3:
                    return f'grain {i - 1}: axis off by {off}'
        bg = got[..., w <= 0]
        return None if (bg == 0).all() else 'points in no grain not 0'

    def vector_off(self, v, g, ref, syms):
        """How far the rotation vectors v (3, n) are from rotating the
        reference orientation to (an equivalent of) g (n, 3, 3)."""
        want = np.einsum('sij,njk,lk->snil', syms, g,
                         quat_matrix(ref.quat_coef))
        return np.abs(vector_matrix(v) - want).max((2, 3)).min(0).max(
            initial=0)

    def check_nye(self, key, got):
        if self.mod.version not in self.nye:
            self.nye[self.mod.version] = model.curvature(
                self.mod.g(), self.mod.syms, self.mod.t['step'])
        nye, gnd, scale, clear = self.nye[self.mod.version]
        want = gnd if key == 'GND' else nye
        if got.shape != want.shape:
            return f'shape {got.shape}'
        if not clear.all():
            self.run.probe('neighbour about as near in two ways')
        off = np.abs(np.asarray(got, float) - want)[..., clear]
        return None if not (off > 2e-4 * scale).any() else \
            f'off by up to {off.max() / scale}'


def quat_matrix(q):
    a, b, c, d = np.asarray(q, float)
    # rotation sample -> crystal in the sign convention of the model
    r = np.array([
        [a*a + b*b - c*c - d*d, 2*(b*c + a*d), 2*(b*d - a*c)],
        [2*(b*c - a*d), a*a - b*b + c*c - d*d, 2*(c*d + a*b)],
        [2*(b*d + a*c), 2*(c*d - a*b), a*a - b*b - c*c + d*d]])
    return r.T


def vector_matrix(v):
    """Rotation matrices (n, 3, 3) of rotation vectors (3, n)."""
    a = np.sqrt((v ** 2).sum(0))
    x, y, z = v / np.where(a > 0, a, 1)
    o = np.zeros_like(x)
    k = np.moveaxis(np.array([[o, -z, y], [z, o, -x], [-y, x, o]]), 2, 0)
    a = a[:, None, None]
    return np.eye(3) + np.sin(a) * k + (1 - np.cos(a)) * (k @ k)


def execute(sc, run):
    util.reset_globals()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _execute(sc, run)


def _execute(sc, run):
    import random
    s = Sim(sc, run)
    for i, o in enumerate(sc['ops']):
        try:
            s.op(o)
        except Violation as v:
            raise Violation(v.kind, f'{v.msg} (operation {i}: {o})', v.where)
        run.steps += 1
        run.log('op', o, None if s.lab is None else int(s.lab.max()),
                s.mod.rotated)
    keys = [k for k in READ if k != 'KAM' or min(sc['spec']['shape']) > 1]
    r = random.Random(sc['order'])
    for rnd in range(2):
        r.shuffle(keys)
        for key in keys:
            try:
                s.check(key)
            except Violation as v:
                raise Violation(v.kind, f'{v.msg} (final read {rnd})',
                                v.where)
            run.steps += 1
    run.key(sc['ops'])
    if s.lab is not None and len(sc['ops']) > 1:
        run.nontrivial = True
    if s.lab is None:
        run.probe('no grains at the end')
