"""C09: HRDIC quantities follow the loaded displacements and the current
crop, mask, pattern and scale."""
import os
import warnings

import numpy as np

from dsim import ref, util, world
from dsim.core import Violation
from dsim.util import clear_tb, outcome, require

ID = 'C09'
LEVEL = 'exploration'
RUNS = dict(quick=2500, thorough=40000)
RULE = ('A run loads a random displacement field and applies a random '
        'history of 1 to 14 operations (crops with and without moving the '
        'homologous points, masks with dilation, unmasking, pattern images, '
        'correlation values, scale, plots, and requests that must fail) '
        'while a separate numpy model predicts every quantity. Each read is '
        'compared with the model and everything is read twice at the end. '
        'Files vanish, change size or come back between operations. '
        'Non-trivial: something was compared after a crop or mask. '
        'Distinct: operation histories.')
ASSUMPTIONS = [
    'A crop is followed by a new mask (or none) before masked data is read, '
    'since masks are given in cropped pixels.',
    'Crops leave at least two pixels along each direction.',
]
REAL = ['defdap.hrdic', 'defdap.base', 'defdap.utils', 'defdap.experiment',
        'defdap.plotting (plots)', 'matplotlib Agg', 'image reader']
STUB = ['the DIC software (independent encoder)',
        'identifiers (drawn from the seed)']
MEASURE = 'distinct operation histories'
READ = ['displacement', 'coordinate', 'f', 'e', 'max_shear', 'mask', 'shape',
        'corr', 'pattern', 'scale', 'homog', 'keys', 'dims', 'crop_fn']


def warmup():
    import defdap.hrdic  # noqa


def generate(r):
    ny, nx = r.randint(4, 12), r.randint(4, 12)
    spec = dict(shape=[ny, nx], seed=r.randrange(1 << 30),
                binning=r.choice([1, 2, 4, 12]))
    ops = []
    for _ in range(r.randint(1, 14)):
        k = r.choice(['read'] * 4 + ['crop'] * 3 + ['mask'] * 3 + [
            'nomask', 'pattern', 'file', 'corr', 'scale', 'homog', 'bad',
            'bad', 'plot', 'user'])
        if k == 'read':
            ops.append([k, r.choice(READ)])
        elif k == 'crop':
            side = [r.choice([None, 0, 0, 1, 2, 3, 5]) for _ in range(4)]
            ops.append([k, side, r.random() < 0.4,
                        r.choice(['none', 'none', 'again'])])
        elif k == 'mask':
            ops.append([k, r.choice(['max_shear', 'e', 'max_shear']),
                        r.choice([0.2, 0.5, 0.9, 1.0, -1]),
                        r.choice([0, 0, 1, 2])])
        elif k == 'pattern':
            ops.append([k, r.choice([1, 2, 3]), r.randrange(1 << 16)])
        elif k == 'file':
            ops.append([k, r.choice(['delete', 'resize', 'rewrite',
                                     'truncate']), r.randrange(1 << 16)])
        elif k in ('corr', 'user'):
            ops.append([k, r.randrange(1 << 16)])
        elif k == 'scale':
            ops.append([k, r.choice([0.1, 0.5, 2.0])])
        elif k == 'homog':
            ops.append([k, [[r.randint(0, nx), r.randint(0, ny)]
                            for _ in range(r.randint(1, 4))]])
        elif k == 'bad':
            ops.append([k, r.randrange(14)])
        elif k == 'plot':
            ops.append([k, r.choice(['max_shear', 'e', 'f', 'displacement']),
                        r.random() < .3])
        else:
            ops.append([k])
    return dict(spec=spec, ops=ops, order=r.randrange(1 << 16),
                _lists=['ops'])


def gradient(a, h, axis):
    """Central differences inside, one sided at the ends."""
    a = np.moveaxis(a, axis, 0)
    g = np.empty_like(a)
    g[1:-1] = (a[2:] - a[:-2]) / (2 * h)
    g[0] = (a[1] - a[0]) / h
    g[-1] = (a[-1] - a[-2]) / h
    return np.moveaxis(g, 0, axis)


def strains(t):
    u = np.array([t['u'], t['v']])
    ny, nx = t['shape']
    f = np.zeros((2, 2, ny, nx))
    for i in range(2):
        for j, ax in ((0, 1), (1, 0)):
            f[i, j] = gradient(u[i], t['binning'], ax) + (i == j)
    e = np.zeros_like(f)
    for i in range(2):
        for j in range(2):
            e[i, j] = 0.5 * (f[0, i] * f[0, j] + f[1, i] * f[1, j]
                             - (i == j))
    ms = np.sqrt(((e[0, 0] - e[1, 1]) / 2) ** 2 + e[0, 1] ** 2)
    return dict(displacement=u, f=f, e=e, max_shear=ms,
                coordinate=np.array([t['x'], t['y']]))


def dilate(m, n):
    for _ in range(n):
        p = np.pad(m, 1)
        m = (p[1:-1, 1:-1] | p[:-2, 1:-1] | p[2:, 1:-1] | p[1:-1, :-2]
             | p[1:-1, 2:])
    return m


class Sim:
    def __init__(self, sc, run):
        from defdap.experiment import Experiment
        self.sc, self.run = sc, run
        self.m = world.dic_map(run, sc['spec'], experiment=Experiment())
        self.t = ref.dic_truth(sc['spec'])
        self.maps = strains(self.t)
        self.full = tuple(self.t['shape'])
        self.c = [0, 0, 0, 0]         # left right top bottom
        self.mask = None
        self.corr = None
        self.pat = None               # (binning, image or None if bad)
        self.scale = None
        self.hom = []
        self.user = None

    def crop(self, a, b=1):
        left, right, top, bottom = self.c
        ny, nx = self.full
        return a[..., top * b:(ny - bottom) * b, left * b:(nx - right) * b]

    @property
    def shape(self):
        left, right, top, bottom = self.c
        return (self.full[0] - top - bottom, self.full[1] - left - right)

    def ok(self, o, fn, *a, **k):
        st, e = outcome(fn, *a, **k)
        require(st == 'ok', 'op-fails', f'{o} failed: {e!r}')
        return e

    def op(self, o):
        m, d = self.m, self.m.data
        k = o[0]
        if k == 'read':
            return self.check(o[1])
        if k == 'crop':
            new = [c if v is None else v for c, v in zip(self.c, o[1])]
            if new[0] + new[1] > self.full[1] - 2 or \
                    new[2] + new[3] > self.full[0] - 2:
                return
            old = self.mask
            names = ('left', 'right', 'top', 'bottom')
            kw = {n: v for n, v in zip(names, o[1]) if v is not None}
            self.ok(o, m.set_crop, update_homog_points=o[2], **kw)
            if o[2]:
                dx, dy = self.c[0] - new[0], self.c[2] - new[2]
                self.hom = [(x + dx, y + dy) for x, y in self.hom]
            self.c = new
            if old is not None:
                self.mask = None
                self.ok(o, d.generate, 'mask', mask=None)
                if o[3] == 'again':
                    self.set_mask(['mask', 'max_shear', 0.5, 0])
            return
        if k == 'mask':
            return self.set_mask(o)
        if k == 'nomask':
            self.ok(o, d.generate, 'mask', mask=None)
            self.mask = None
            return
        if k == 'pattern':
            self.pat = (o[1], self.image(o[1], o[2]))
            self.ok(o, m.set_pattern, 'p.png', o[1])
            return
        if k == 'file':
            return self.file(o)
        if k == 'corr':
            from props.c02 import enc_img
            a = np.round(ref.np_rng(o[1]).random(self.full), 4)
            p = os.path.join(self.run.scratch, 'c.txt')
            with open(p, 'wb') as g:
                g.write(enc_img(a))
            self.ok(o, m.load_corr_val_data, p)
            self.corr = a
            return
        if k == 'scale':
            self.ok(o, m.set_scale, o[1])
            self.scale = o[1]
            return
        if k == 'homog':
            self.hom = [tuple(p) for p in o[1]]
            self.ok(o, m.frame.set_homog_points, list(self.hom))
            return
        if k == 'user':
            a = ref.np_rng(o[1]).random(self.full)
            if self.user is None:
                d.add('user', a.copy(), type='map', order=0)
            else:
                d.user = a.copy()
            self.user = a
            return
        if k == 'bad':
            return self.bad(o[1])
        if k == 'plot':
            return self.plot(o)

    def set_mask(self, o):
        a = self.ok(o, lambda: self.m.data[o[1]])
        w = self.crop(self.maps[o[1]])
        if o[1] == 'e':
            a, w = a[0, 0], w[0, 0]
        if o[2] == -1:
            lim = np.max(w) + 1              # nothing masked
        else:
            # half way between two values: no rounding decides
            v = np.sort(w.ravel())
            i = min(len(v) - 2, int(o[2] * len(v)))
            if v[i + 1] - v[i] < 1e-9:
                return
            lim = (v[i] + v[i + 1]) / 2
        given = a > lim
        kept = np.ma.getdata(given).copy()
        self.ok(o, self.m.data.generate, 'mask', mask=given, dilation=o[3])
        require(np.array_equal(np.ma.getdata(given), kept), 'argument',
                'the array given as mask was changed')
        self.mask = dilate(w > lim, o[3])

    def image(self, b, seed, extra=(0, 0)):
        from PIL import Image
        shape = (self.full[0] * b + extra[0], self.full[1] * b + extra[1])
        img = ref.np_rng(seed).integers(0, 256, shape).astype(np.uint8)
        Image.fromarray(img).save(os.path.join(self.run.scratch, 'p.png'))
        return img

    def file(self, o):
        p = os.path.join(self.run.scratch, 'p.png')
        b = self.pat[0] if self.pat else 1
        self.run.fault('pattern file ' + o[1])
        if o[1] == 'rewrite':
            img = self.image(b, o[2])
        elif o[1] == 'resize':
            self.image(b, o[2], ((1, 0), (0, -1), (-1, 2))[o[2] % 3])
            img = None
        elif o[1] == 'truncate':
            self.image(b, o[2])
            with open(p, 'r+b') as g:
                g.truncate(os.path.getsize(p) // 2)
            img = None
        else:
            if os.path.exists(p):
                os.remove(p)
            img = None
        if self.pat:
            self.pat = (b, img)

    def bad(self, i):
        m, d = self.m, self.m.data
        y, x = self.shape
        fns = [
            lambda: d.generate('mask', mask=np.zeros((y + 1, x), bool)),
            lambda: d.generate('mask', mask=[[True]]),
            lambda: m.set_crop(left=1, top='a'),
            lambda: m.set_crop(top=0, bottom=None, right='b'),
            lambda: m.load_corr_val_data(self.wrong_corr()),
            lambda: d.generate('nothing'),
            lambda: d.grains,
            lambda: m.calc_mask(np.zeros((x, y), bool) if x != y else
                                np.zeros(x * y, bool)),
            lambda: d.generate('mask', mask=np.zeros(x * y, bool)),
            lambda: m.calc_mask(np.zeros((1, y, x), bool)),
            lambda: m.calc_mask(np.zeros((y, x + 1), bool)),
            lambda: m.load_corr_val_data(self.wrong_corr(True)),
            lambda: m.set_crop(left=0, right=float('nan')),
            lambda: d.add('max_shear', 1),
        ]
        st, e = outcome(fns[i])
        require(st == 'exc', 'bad-accepted', f'bad request {i} worked')
        self.run.fault('failing request')
        clear_tb(e)

    def wrong_corr(self, turn=False):
        from props.c02 import enc_img
        p = os.path.join(self.run.scratch, 'w.txt')
        with open(p, 'wb') as g:
            g.write(enc_img(np.zeros((self.full[0], self.full[1] + 1)
                                     if not turn or self.full[0] ==
                                     self.full[1] else self.full[::-1])))
        return p

    def plot(self, o):
        import matplotlib.pyplot as plt
        name = o[1]
        comp = {'e': (0, 1), 'f': (1, 0), 'displacement': (1,)}.get(name)
        if o[2] and name != 'max_shear':
            comp_arg, label = 'norm', 'norm'
        else:
            comp_arg, label = comp, None
        pl = self.ok(o, self.m.plot_map, name, component=comp_arg)
        got = pl.img_layers[0].get_array()
        w = self.crop(self.maps[name])
        if label:
            w = np.sqrt((w ** 2).reshape((-1,) + w.shape[-2:]).sum(0))
        elif comp:
            w = w[comp]
        mk = np.ma.getmaskarray(got)
        want = self.mask if self.mask is not None else np.zeros(w.shape,
                                                                bool)
        if label and self.mask is not None:
            # norms are plotted from the values
            mk = want = np.zeros(w.shape, bool)
        require(mk.shape == want.shape and np.array_equal(mk, want) and
                np.allclose(np.ma.getdata(got)[~want], w[~want]),
                'wrong-plot', f'plot of {name} differs from the data')
        plt.close('all')

    def check(self, key):
        m, d = self.m, self.m.data
        if key == 'pattern':
            return self.check_pattern()
        st, got = outcome(self.observe, key)
        require(st == 'ok', 'read-fails', f'reading {key} failed: {got!r}')
        if key in self.maps or key == 'user':
            w = self.crop(self.user if key == 'user' else self.maps[key])
            require(got.shape == w.shape, 'wrong-' + key,
                    f'{key} has shape {got.shape}, not {w.shape}')
            mk = np.zeros(w.shape, bool) if self.mask is None else \
                np.broadcast_to(self.mask, w.shape)
            gm = np.ma.getmaskarray(got)
            require(np.array_equal(gm, mk), 'wrong-mask',
                    f'{key} masks {gm.sum()} values instead of {mk.sum()}')
            g = np.ma.getdata(got)
            require(np.allclose(g[~mk], w[~mk], rtol=1e-9, atol=1e-9),
                    'wrong-' + key, f'{key} differs from the displacements')
            return
        want = {
            'mask': lambda: self.mask,
            'shape': lambda: self.shape,
            'corr': lambda: self.corr,
            'scale': lambda: None if self.scale is None
            else self.scale * self.t['binning'],
            'homog': lambda: self.hom,
            'dims': lambda: (self.shape[1], self.shape[0], self.full),
            'keys': lambda: None,
            'crop_fn': lambda: self.crop(np.arange(
                self.full[0] * self.full[1]).reshape(self.full)),
        }[key]()
        if key == 'keys':
            need = {'displacement', 'coordinate', 'f', 'e', 'max_shear',
                    'mask', 'pattern', 'grains'}
            require(need <= set(got), 'missing-data',
                    f'{sorted(need - set(got))} missing')
        elif key == 'homog':
            require(len(got) == len(want) and all(
                tuple(a) == tuple(b) for a, b in zip(got, want)),
                'wrong-homog', f'{got} instead of {want}')
        elif want is None or got is None:
            require(got is want, 'wrong-' + key, f'{key} is {got}')
        else:
            same = (np.array_equal(np.asarray(got), np.asarray(want))
                    if key != 'dims' else got == want)
            if key == 'scale':
                same = abs(got - want) < 1e-12
            require(same, 'wrong-' + key, f'{key} differs from what was set')

    def observe(self, key):
        m, d = self.m, self.m.data
        if key == 'user':
            return d.user
        return {
            'shape': lambda: tuple(int(v) for v in m.shape),
            'corr': lambda: m.corr_val,
            'scale': lambda: m.scale,
            'homog': lambda: [tuple(int(v) for v in p)
                              for p in m.frame.homog_points],
            'dims': lambda: (int(m.x_dim), int(m.y_dim),
                             tuple(m.original_shape)),
            'keys': lambda: list(d.keys()),
            'crop_fn': lambda: m.crop(np.arange(
                self.full[0] * self.full[1]).reshape(self.full)),
            'mask': lambda: d.mask if d.mask is None
            else np.array(np.ma.getdata(d.mask)),
        }.get(key, lambda: d[key])()

    def check_pattern(self):
        from props.c02 import is_image
        st, got = outcome(lambda: self.m.data.pattern)
        if self.pat is None or self.pat[1] is None:
            require(st == 'exc', 'wrong-pattern', 'a pattern was returned '
                    'although there is no usable image')
            clear_tb(got)
            self.run.probe('no usable pattern image')
            return
        require(st == 'ok', 'read-fails', f'pattern: {got!r}')
        w = self.crop(self.pat[1], self.pat[0])
        require(is_image(got, w), 'wrong-pattern',
                'the pattern differs from the (cropped) image')


def execute(sc, run):
    util.reset_globals()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _execute(sc, run)


def _execute(sc, run):
    import random
    s = Sim(sc, run)
    for i, o in enumerate(sc['ops']):
        try:
            s.op(o)
        except Violation as v:
            raise Violation(v.kind, f'{v.msg} (operation {i}: {o})', v.where)
        run.steps += 1
        run.log('op', o, s.shape, s.mask is None)
    keys = READ + (['user'] if s.user is not None else [])
    r = random.Random(sc['order'])
    for rnd in range(2):
        r.shuffle(keys)
        for key in keys:
            try:
                s.check(key)
            except Violation as v:
                raise Violation(v.kind, f'{v.msg} (final read {rnd})',
                                v.where)
            run.steps += 1
    run.key(sc['ops'])
    if any(s.c) or s.mask is not None:
        run.nontrivial = True
