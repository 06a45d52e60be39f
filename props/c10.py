"""C10: the grains and boundaries of an HRDIC map are those of the linked
EBSD map, under the current frame relation, crop and parameters."""
import os
import warnings

import numpy as np

from dsim import model, ref, util, world
from dsim.core import Violation
from dsim.util import clear_tb, outcome, require

ID = 'C10'
LEVEL = 'exploration'
RUNS = dict(quick=900, thorough=15000)
RULE = ('A run loads an HRDIC map and two EBSD maps and applies a random '
        'history of links (several transforms, re-links to the other map), '
        'new homologous points, crops (moving the points or not), new EBSD '
        'boundaries and grains, masks, and HRDIC grain searches by both '
        'algorithms, some failing. After each search the grain map, the '
        'grain list, the grain-to-grain links and the boundary lines are '
        'compared with a separate model of the geometry; boundary images '
        'are compared with maps loaded afresh in the final state. '
        'Non-trivial: HRDIC grains were found and compared. Distinct: '
        'operation histories.')
ASSUMPTIONS = [
    'Points whose position rounds within 1e-6 of a pixel edge may go '
    'either way; a modal label is only required when it is ahead by more '
    'than the number of such points.',
    'After a crop the HRDIC grains are found again before they are read, '
    'as the user guide does.',
    'Homologous points are related by an exact affine transform.',
]
REAL = ['defdap.hrdic', 'defdap.ebsd', 'defdap.base', 'defdap.experiment',
        'defdap.utils', 'scikit-image transforms', 'numba kernels']
STUB = ['the acquisition software (independent encoders)',
        'identifiers (drawn from the seed)']
MEASURE = 'distinct operation histories'


def warmup():
    util.warm_numba()


TT = ['affine', 'affine', 'projective', 'polynomial', 'piecewise_affine']


def generate(r):
    def espec():
        return dict(shape=[r.randint(8, 14), r.randint(8, 14)],
                    seed=r.randrange(1 << 30), grains=r.randint(1, 6),
                    phases=r.choice([[0], [2], [0, 2]]),
                    nonindexed=r.choice([0, 0, 0.05, .3, .5]),
                    close=r.random() < 0.4)
    specs = [espec(), espec()]
    dspec = dict(shape=[r.randint(8, 14), r.randint(8, 14)],
                 seed=r.randrange(1 << 30), binning=4)

    big = r.random() < .04
    if big:
        # many points along an axis, or many grains
        sh = r.choice([[9, 280], [275, 8], [18, 19], [18, 19]])
        for s in specs + [dspec]:
            s['shape'] = list(sh)
        specs[0]['noise'] = r.choice([.3, 25])

    def rel():
        return [r.choice([1.0, 1.0, 0.8, 1.25, r.uniform(.7, 1.4)]),
                r.choice([0., 0., r.uniform(-.3, .3)]),
                r.choice([0., r.uniform(-2, 2)]),
                r.choice([0., r.uniform(-2, 2)])]
    ops = [['egrains', 0, r.choice([1, 2, 4])],
           ['link', 0, r.choice(TT), rel()]]
    for _ in range(r.randint(1, 3 if big else 9)):
        k = r.choice(['grains'] * 5 + ['link', 'link', 'homog', 'crop', 'etol',
                                       'egrains', 'mask', 'read', 'bad',
                                       'lines', 'list', 'average', 'neigh',
                                       'neigh', 'proxi', 'note', 'note'])
        if k == 'grains':
            ops.append([k, r.choice(['warp', 'floodfill', 'WARP', None]),
                        r.choice([1, 2, 4, 10, 20]), r.random() < .3])
        elif k == 'link':
            ops.append([k, r.choice([0, 1]), r.choice(TT), rel()])
        elif k == 'homog':
            ops.append([k, rel()])
        elif k == 'crop':
            c = [r.choice([None, 0, 1, 2, 3]) for _ in range(4)]
            if r.random() < .1:
                # leave one column or row
                i = r.choice([0, 2])
                c[i] = r.randint(0, 3)
                c[i + 1] = dspec['shape'][1 - i // 2] - 1 - c[i]
            ops.append([k, c, r.random() < .6])
        elif k == 'etol':
            ops.append([k, r.randrange(2), r.choice([3, 8, 20])])
        elif k == 'egrains':
            ops.append([k, r.randrange(2), r.choice([1, 2, 4, 8])])
        elif k == 'bad':
            ops.append([k, r.randrange(3)])
        elif k == 'proxi':
            ops.append([k, r.choice([1, 2, 5, 500])])
        elif k == 'note':
            ops.append([k, r.choice([[], [3]]), r.randrange(1 << 16)])
        else:
            ops.append([k])
    return dict(specs=specs, dspec=dspec, ops=ops,
                method=r.choice(['floodfill', 'warp']), _lists=['ops'])


def shrink(sc):
    for i in range(2):
        s = sc['specs'][i]
        for k, v in (('nonindexed', 0), ('phases', [0]), ('close', False),
                     ('grains', 2), ('shape', [8, 8])):
            if s[k] != v:
                n = list(sc['specs'])
                n[i] = dict(s, **{k: v})
                yield dict(sc, specs=n)


class Geo:
    """ebsd = a @ dic + b, in pixels of the cropped HRDIC map."""

    def __init__(self, rel):
        s, t, x, y = rel
        c, n = np.cos(t), np.sin(t)
        self.a = s * np.array([[c, -n], [n, c]])
        self.b = np.array([x, y], float)

    def fwd(self, p):
        return p @ self.a.T + self.b

    def inv(self, p):
        return (p - self.b) @ np.linalg.inv(self.a).T

    def moved(self, d):
        g = Geo.__new__(Geo)
        g.a = self.a
        g.b = self.b - self.a @ np.asarray(d, float)
        return g


def nearest(pts, shape):
    """Integer (x, y), inside or not, sure or not."""
    r = np.floor(pts + 0.5).astype(int)
    frac = np.abs(pts + 0.5 - np.round(pts + 0.5))
    sure = (frac > 1e-6).all(-1)
    inside = ((r >= 0) & (r < np.array(shape[::-1]))).all(-1)
    return r, inside, sure


def grid(shape):
    y, x = np.indices(shape)
    return np.stack([x, y], -1).reshape(-1, 2).astype(float)


class Sim:
    def __init__(self, sc, run):
        import defdap
        from defdap.experiment import Experiment
        self.sc, self.run = sc, run
        self.exp = Experiment()
        defdap.defaults['hrdic_grain_finding_method'] = sc['method']
        self.em = [world.ebsd_map(run, s, name=f'e{i}', experiment=self.exp)
                   for i, s in enumerate(sc['specs'])]
        self.dm = world.dic_map(run, sc['dspec'], experiment=self.exp)
        self.ms = None
        self.full = tuple(sc['dspec']['shape'])
        self.c = [0, 0, 0, 0]
        self.mods = []
        for s in sc['specs']:
            t = ref.ebsd_truth(s)
            self.mods.append(model.Ebsd(t))
        self.tol = [10, 10]
        self.size = [None, None]
        self.geo = None
        self.linked = None
        self.tt = None
        self.points = None
        self.epoints = [None, None]
        self.found = self.note = None
        self.compared = 0

    @property
    def shape(self):
        left, right, top, bottom = self.c
        return (self.full[0] - top - bottom, self.full[1] - left - right)

    def homog(self, rel, i):
        self.geo = Geo(rel)
        # spread out, even if little of the map is left
        ny, nx = (max(v, 6) for v in self.shape)
        p = [(0, 0), (nx, 0), (0, ny), (nx, ny), (nx // 2, ny // 3),
             (nx // 3, ny - 1), (nx - 1, ny // 2)]
        q = self.geo.fwd(np.array(p, float))
        self.points = [tuple(map(float, v)) for v in p]
        self.epoints = [None, None]
        self.epoints[i] = [tuple(map(float, v)) for v in q]
        self.dm.frame.set_homog_points(list(self.points))
        self.em[i].frame.set_homog_points(list(self.epoints[i]))

    def ok(self, o, fn, *a, **k):
        st, e = outcome(fn, *a, **k)
        require(st == 'ok', 'op-fails', f'{o} failed: {e!r}')
        return e

    def op(self, o):
        k = o[0]
        dm, d = self.dm, self.dm.data
        if k == 'egrains':
            st, e = outcome(self.em[o[1]].data.generate, 'grains',
                            min_grain_size=o[2])
            lab = self.elabels(o[1], o[2])
            if lab.max() <= 0:
                require(st == 'exc', 'no-grains', 'EBSD grains from nothing')
                clear_tb(e)
            else:
                require(st == 'ok', 'op-fails', f'{o}: {e!r}')
                self.size[o[1]] = (self.tol[o[1]], o[2])
        elif k == 'etol':
            self.ok(o, self.em[o[1]].data.generate, 'grain_boundaries',
                    misori_tol=o[2])
            self.tol[o[1]] = o[2]
        elif k == 'link':
            if o[1] == 1 and self.size[1] is None:
                self.op(['egrains', 1, 1])
                if self.size[1] is None:
                    return
            self.homog(o[3], o[1])
            self.ok(o, dm.link_ebsd_map, self.em[o[1]],
                    transform_type=o[2])
            self.linked, self.tt = o[1], o[2]
        elif k == 'homog':
            if self.linked is not None:
                self.homog(o[1], self.linked)
        elif k == 'crop':
            new = [c if v is None else v for c, v in zip(self.c, o[1])]
            names = ('left', 'right', 'top', 'bottom')
            self.ok(o, d.generate, 'mask', mask=None)
            self.ok(o, dm.set_crop, update_homog_points=o[2],
                    **{n: v for n, v in zip(names, o[1]) if v is not None})
            if o[2] and self.geo is not None:
                dd = (self.c[0] - new[0], self.c[2] - new[2])
                self.geo = self.geo.moved(dd)
                self.points = [(x + dd[0], y + dd[1])
                               for x, y in self.points]
            self.c = new
            self.found = None
        elif k == 'mask':
            self.ok(o, d.generate, 'mask', mask=np.ma.getdata(
                d.max_shear) > np.median(np.ma.getdata(d.max_shear)))
        elif k == 'bad':
            fns = [lambda: d.generate('grains', algorithm='watershed'),
                   lambda: dm[10 ** 6], lambda: d['nothing']]
            st, e = outcome(fns[o[1]])
            if self.linked is None or o[1] != 1:
                require(st == 'exc', 'bad-accepted', f'{o} worked')
            if st == 'exc':
                self.run.fault('failing request')
                clear_tb(e)
        elif k == 'grains':
            self.grains(o)
        elif k in ('read', 'list') and self.found is not None:
            self.compare(k)
        elif k == 'lines' and self.linked is not None:
            self.lines()
        elif k == 'average' and self.found is not None:
            self.average()
        elif k == 'neigh' and self.found is not None:
            self.neigh()
        elif k == 'proxi' and self.linked is not None:
            self.proxi(o)
        elif k == 'note' and self.found is not None:
            self.add_note(*o[1:])

    def elabels(self, i, size=None):
        mod = self.mods[i]
        tol, s = (self.tol[i], size) if size is not None else self.size[i]
        b = [x.copy() for x in (self.ebound(i, tol)[0],
                                self.ebound(i, tol)[1])]
        return model.partition(mod.phase != 0, b[0], b[1], s)

    def ebound(self, i, tol):
        k = (i, tol)
        c = self.__dict__.setdefault('_b', {})
        if k not in c:
            w = self.mods[i].boundaries(tol)
            if w[0][1].any() or w[1][1].any():
                raise Skip()
            c[k] = (w[0][0], w[1][0])
        return c[k]

    # ----- HRDIC grains
    def grains(self, o):
        if self.linked is None:
            return
        d, dm, i = self.dm.data, self.dm, self.linked
        alg = o[1]
        kw = {} if alg is None else {'algorithm': alg}
        alg = (alg or self.sc['method']).lower()
        if o[3]:
            st, e = outcome(dm.find_grains, min_grain_size=o[2], **kw)
        else:
            st, e = outcome(d.generate, 'grains', min_grain_size=o[2], **kw)
        cand = self.warped() if alg == 'warp' else None
        if st == 'exc':
            if isinstance(e, IndexError) and alg == 'warp':
                lab, sure = cand
                require((lab[sure] <= 0).all(), 'op-fails',
                        f'{o} found nothing: {e!r}')
            elif isinstance(e, IndexError):
                im = d.grain_boundaries.image
                lab = model.partition(~im, *walls(im), 1)
                big = max([0] + [self.fill_size(im, lab, g) for g in
                                 range(1, lab.max() + 1)])
                require(big < o[2] or big <= 0, 'op-fails',
                        f'{o} found nothing although a region of {big} '
                        f'points exists: {e!r}')
            else:
                raise Violation('op-fails', f'{o}: {e!r}')
            clear_tb(e)
            self.run.probe('no HRDIC grain is large enough')
            return
        self.found = (alg, o[2], i, cand, self.snapshot())
        self.note = None
        self.compared += 1
        self.compare('grains')

    def fill_size(self, im, lab, g):
        return int((lab == g).sum())

    def warped(self):
        """EBSD labels expected at each HRDIC point, and where sure."""
        i = self.linked
        e = self.elabels(i)
        pts = self.geo.fwd(grid(self.shape))
        r, ins, sure = nearest(pts, e.shape)
        lab = np.zeros(len(pts), int)
        lab[ins] = e[r[ins, 1], r[ins, 0]]
        if self.tt == 'piecewise_affine':
            # only defined in the hull of the points
            p = np.array(self.points)
            lo, hi = p.min(0), p.max(0)
            g = grid(self.shape)
            out = ((g < lo - 1e-6) | (g > hi + 1e-6)).any(-1)
            lab[out] = 0
            sure &= ~((np.abs(g - lo) < 1e-6)
                      | (np.abs(g - hi) < 1e-6)).any(-1)
            sure &= ~out
        return lab.reshape(self.shape), sure.reshape(self.shape)

    def snapshot(self):
        """What the grains are linked to."""
        return [(g.grain_id, world.points(g.data.point))
                for g in self.em[self.linked].grains]

    def compare(self, why):
        alg, size, i, cand, eg = self.found
        d, dm = self.dm.data, self.dm
        lab = np.asarray(self.ok([why], lambda: d.grains))
        require(lab.shape == self.shape, 'wrong-shape',
                f'grain map {lab.shape} of a map {self.shape}')
        gl = dm.grains
        err = world.grains_consistent(
            lab, [(g.grain_id, world.points(g.data.point)) for g in gl])
        require(not err, 'inconsistent', f'{alg}: {err}')
        require(len(dm) == len(gl), 'inconsistent', 'length')
        for k, g in enumerate(gl):
            require(dm[k] is g and g.owner_map is dm, 'inconsistent',
                    f'grain {k} of the map is not grain {k} of the list')
        for g in gl:
            e = g.ebsd_grain
            if e is None:
                continue
            require(g.ebsd_map is self.em[i] and e.owner_map is self.em[i],
                    'wrong-link', f'grain {g.grain_id} is linked to a grain '
                    f'of another map')
            require(0 <= e.grain_id < len(eg) and
                    eg[e.grain_id] == (e.grain_id, world.points(
                        e.data.point)), 'wrong-link',
                    f'grain {g.grain_id} is linked to a grain that was not '
                    f'in the EBSD map then')
        self.check_note()
        if why != 'grains':
            return
        if alg == 'warp':
            self.check_warp(lab, gl, cand)
        else:
            self.check_fill(lab, gl, size)

    def check_warp(self, lab, gl, cand):
        want, sure = cand
        ids = []
        for g in gl:
            require(g.ebsd_grain is not None, 'wrong-link',
                    f'grain {g.grain_id} has no EBSD grain')
            ids.append(g.ebsd_grain.grain_id)
        require(all(a < b for a, b in zip(ids, ids[1:])), 'wrong-link',
                f'linked to EBSD grains {ids}')
        table = {k + 1: e + 1 for k, e in enumerate(ids)}
        got = np.vectorize(lambda v: table.get(v, v))(lab)
        bad = sure & (got != want)
        require(not bad.any(), 'wrong-warp',
                f'{bad.sum()} points are in another grain than the EBSD map '
                f'has there ({self.tt})')
        miss = set(np.unique(want[sure])) - set(np.unique(got))
        require(not miss, 'wrong-warp', f'EBSD labels {miss} are missing')

    def check_fill(self, lab, gl, size):
        d = self.dm.data
        im = d.grain_boundaries.image
        require(im.shape == self.shape, 'wrong-shape', 'boundary image')
        comp = model.partition(~im, *walls(im), 1)
        n = 0
        for c in range(1, comp.max() + 1):
            v = np.unique(lab[comp == c])
            require(len(v) == 1, 'wrong-fill', f'a region without '
                    f'boundaries has labels {v}')
            if v[0] == -2:
                require((comp == c).sum() < size, 'wrong-fill',
                        f'{(comp == c).sum()} points dropped with minimum '
                        f'size {size}')
                continue
            n += 1
            require(v[0] == n, 'wrong-fill', f'region {c} is labelled '
                    f'{v[0]}, not {n} (in reading order)')
            require(len(gl[n - 1]) >= size, 'wrong-fill',
                    f'grain of {len(gl[n - 1])} points with minimum {size}')
        require(n == len(gl), 'wrong-fill', f'{len(gl)} grains from {n} '
                f'regions')
        for y, x in np.argwhere(im):
            near = [int(lab[y, x - 1])] if x and not im[y, x - 1] else []
            near += [int(lab[y - 1, x])] if y and not im[y - 1, x] else []
            v = int(lab[y, x])
            require(v == -1 if not near else v in near, 'wrong-fill',
                    f'boundary point {(x, y)} has label {v}, the regions '
                    f'left and above have {near}')
        # modal EBSD grain
        e = self.elabels(self.linked)
        g = grid(e.shape)
        pts = self.geo.inv(g)
        r, ins, sure = nearest(pts, self.shape)
        if self.tt == 'piecewise_affine':
            p = np.array(self.points)
            out = ((pts <= p.min(0) + 1e-6) | (pts >= p.max(0) - 1e-6)
                   ).any(-1)
            sure &= ~out
        w = np.zeros(len(g), int)
        w[ins] = lab[r[ins, 1], r[ins, 0]]
        unsure = int((~sure).sum())
        for k, gr in enumerate(gl):
            ids = e.ravel()[(w == k + 1) & sure]
            ids = ids[ids > 0]
            cnt = np.bincount(ids, minlength=e.max() + 1)
            if gr.ebsd_grain is None:
                require(cnt.max(initial=0) == 0, 'wrong-link',
                        f'grain {k} has no EBSD grain although it lies on '
                        f'one')
                self.run.probe('HRDIC grain outside any EBSD grain')
                continue
            have = cnt[gr.ebsd_grain.grain_id + 1]
            require(have + unsure >= cnt.max(), 'wrong-link',
                    f'grain {k} is linked to EBSD grain '
                    f'{gr.ebsd_grain.grain_id} with {have} points in common '
                    f'instead of one with {cnt.max()}')

    def average(self):
        d, dm = self.dm.data, self.dm
        ms = np.ma.getdata(d.max_shear)
        got = self.ok(['average'], dm.calc_grain_average, ms)
        for k, g in enumerate(dm.grains):
            p = np.array(g.data.point)
            require(abs(got[k] - ms[p[:, 1], p[:, 0]].mean()) < 1e-9,
                    'wrong-average', f'grain {k} average')
            v = np.ma.getdata(g.data.max_shear)
            require(np.array_equal(v, ms[p[:, 1], p[:, 0]]),
                    'wrong-average', f'grain {k} max shear')

    def neigh(self):
        """Grains are neighbours where a boundary point has both beside it."""
        d, dm = self.dm.data, self.dm
        lab, im = np.asarray(d.grains), np.asarray(d.grain_boundaries.image)
        want = set()
        for y, x in np.argwhere(im):
            if 0 < y < im.shape[0] - 1 and 0 < x < im.shape[1] - 1:
                near = sorted({int(v) - 1 for v in (
                    lab[y - 1, x], lab[y + 1, x], lab[y, x - 1],
                    lab[y, x + 1])} - {-1, -2, -3})
                want |= {(a, b) for a in near for b in near if a < b}
        self.ok(['neigh'], dm.build_neighbour_network)
        nn = dm.neighbour_network
        require(sorted(g.grain_id for g in nn.nodes) == list(
            range(len(dm))) and all(dm[g.grain_id] is g for g in nn.nodes),
            'wrong-neighbours', 'the nodes of the network are not the grains')
        got = {tuple(sorted((a.grain_id, b.grain_id))) for a, b in nn.edges}
        require(got == want, 'wrong-neighbours', f'neighbours {sorted(got)} '
                f'instead of {sorted(want)}')
        if want:
            self.run.probe('HRDIC grains are neighbours')

    def proxi(self, o):
        d = self.dm.data
        self.ok(o, d.generate, 'proxigram', num_trials=o[1])
        want = model.distances(d.grain_boundaries.points, self.shape)
        got = np.asarray(d.proxigram)
        require(got.shape == want.shape and np.allclose(got, want),
                'wrong-proxigram', f'distances to the boundaries differ '
                f'(with {o[1]} trials)')

    def add_note(self, shape, seed):
        """Data of each grain can be read as a map."""
        rs = np.random.RandomState(seed)
        new = self.note is None
        shape = shape if new else ([], [3])[self.note[1]]
        m = np.zeros((*shape, *self.shape))
        for g in self.dm.grains:
            v = rs.uniform(1, 2, (*shape, len(g)))
            if new:
                g.data.add('note', v, type='list', unit='m',
                           order=len(shape))
            else:
                g.data.note = v
            for k, (x, y) in enumerate(g.data.point):
                m[..., y, x] = v[..., k]
        self.note = m, len(shape)
        self.check_note()

    def check_note(self):
        d = self.dm.data
        if self.note is None:
            require('note' not in d, 'wrong-data', 'data of former grains '
                    'can be read')
            return
        m, order = self.note
        got = self.ok(['note'], lambda: np.asarray(d.note))
        require(np.array_equal(got, m), 'wrong-data', 'data of the grains '
                'read as a map differs')
        for k, v in dict(type='map', unit='m', order=order).items():
            require(d.get_metadata('note', k) == v, 'wrong-data',
                    f'{k} of the data of grains read as a map: '
                    f'{d.get_metadata("note", k)!r}')

    def lines(self):
        """Boundary lines under the current relation."""
        i = self.linked
        b = self.dm.data.grain_boundaries
        bx, by = self.ebound(i, self.tol[i])
        lines = []
        for y, x in np.argwhere(bx):
            lines.append([(x + .5, y - .5), (x + .5, y + .5)])
        for y, x in np.argwhere(by):
            lines.append([(x - .5, y + .5), (x + .5, y + .5)])
        got = sorted(tuple(map(lambda p: tuple(float(v) for v in p), ln))
                     for ln in b.lines)
        if not lines:
            require(not got and not len(b.points), 'wrong-lines',
                    'boundaries from nothing')
            self.run.probe('EBSD map without boundaries')
            return
        if self.tt == 'piecewise_affine':
            require(len(got) == len(lines), 'wrong-lines', 'number of lines')
            return
        p = self.geo.inv(np.array(lines).reshape(-1, 2))
        if (np.abs(p - np.floor(p)) < 1e-6).any() or (
                np.abs(p - np.ceil(p)) < 1e-6).any():
            return self.run.probe('lines too close to call')
        p = (np.round(p - 0.5) + 0.5).reshape(-1, 2, 2)
        want = sorted(tuple(map(lambda q: tuple(float(v) for v in q), ln))
                      for ln in p)
        require(got == want, 'wrong-lines', 'the boundary lines are not '
                f'those of the EBSD map under the {self.tt} relation')

    def fresh(self):
        """The boundary image of maps loaded afresh in the final state."""
        if self.linked is None:
            return
        from defdap.experiment import Experiment
        exp = Experiment()
        i = self.linked
        em = world.ebsd_map(self.run, self.sc['specs'][i], name='fe',
                            experiment=exp)
        dm = world.dic_map(self.run, self.sc['dspec'], name='fd',
                           experiment=exp)
        left, right, top, bottom = self.c
        dm.set_crop(left=left, right=right, top=top, bottom=bottom)
        dm.frame.set_homog_points(list(self.points))
        em.frame.set_homog_points(list(self.epoints[i]))
        dm.link_ebsd_map(em, transform_type=self.tt)
        em.data.generate('grain_boundaries', misori_tol=self.tol[i])
        a, b = dm.data.grain_boundaries, self.dm.data.grain_boundaries
        require(world.points(a.points) == world.points(b.points),
                'wrong-boundaries', f'the boundary points differ from those '
                f'of maps loaded afresh ({len(b.points)} instead of '
                f'{len(a.points)})')
        require(sorted(map(repr, a.lines)) == sorted(map(repr, b.lines)),
                'wrong-boundaries', 'the boundary lines differ from those '
                'of maps loaded afresh')


class Skip(Exception):
    pass


def walls(im):
    """No separate walls: regions are separated by boundary points."""
    bx = np.zeros(im.shape, bool)
    return bx, bx


def execute(sc, run):
    import defdap
    util.reset_globals()
    saved = dict(defdap.defaults)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            _execute(sc, run)
    except Skip:
        run.probe('pair too close to the tolerance')
    finally:
        defdap.defaults.clear()
        defdap.defaults.update(saved)


def _execute(sc, run):
    s = Sim(sc, run)
    if s.elabels(0, sc['ops'][0][2] if sc['ops'] and sc['ops'][0][0] ==
                 'egrains' else 1).max() <= 0:
        return run.probe('no EBSD grains')
    for i, o in enumerate(sc['ops']):
        if s.size[0] is None and o[0] != 'egrains':
            s.op(['egrains', 0, 1])
        try:
            s.op(o)
        except Violation as v:
            raise Violation(v.kind, f'{v.msg} (operation {i}: {o})', v.where)
        run.steps += 1
        run.log('op', o, s.shape, s.linked)
    if s.linked is not None:
        try:
            s.fresh()
            s.lines()
            if s.found is not None:
                s.compare('read')
                s.average()
        except Violation as v:
            raise Violation(v.kind, f'{v.msg} (at the end)', v.where)
    run.key(sc['ops'])
    run.nontrivial = s.compared > 0
