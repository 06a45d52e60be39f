"""C15: plots, tables and averages show the map's current data, the part
of it that was asked for."""
import contextlib
import io
import math
import re
import warnings

import matplotlib as mpl
import numpy as np

from dsim import gui, intr, model, ref, util, world
from dsim.core import SimCrash, SimTimeout, Violation
from dsim.util import clear_tb, require
from props.c08 import quat_matrix

ID = 'C15'
LEVEL = 'exploration'
RUNS = dict(quick=2500, thorough=60000)
RULE = ('A run loads an EBSD map, often with a HRDIC map linked to it, and '
        'interleaves changes (boundary tolerance, grains, rotation, crop, '
        'mask, scale, reference orientations, own data) with plots of maps, '
        'grains, boundaries, phases and pole figures, averages, histograms, '
        'statistics tables, invalid requests and requests interrupted at a '
        'random call. Non-trivial: something was shown after a change, an '
        'interruption or a refused request. Distinct: sequences of '
        '(operation, data, outcome).')
ASSUMPTIONS = [
    'Values outside the colour range are drawn in the limiting colour.',
    'IPF colours within 0.02 rad of a corner of the sector and fundamental '
    'misorientations within 0.5 degrees of a tie are not judged.',
]
REAL = ['defdap.plotting', 'defdap.base', 'defdap.ebsd', 'defdap.hrdic',
        'defdap.quat']
STUB = ['matplotlib (real, drawing stubbed, in 1 % of runs and to confirm '
        'failures)']
MEASURE = 'distinct sequences of (operation, data, outcome)'

# order, default component, label, unit
EKEYS = {
    'phase': (0, None, None, ''),
    'euler_angle': (1, 'all_euler', None, 'rad'),
    'orientation': (0, 'IPF_x', None, ''),
    'band_contrast': (0, None, 'Band contrast', ''),
    'grains': (0, None, None, ''),
    'KAM': (0, None, 'KAM', 'rad'),
    'GND': (0, None, 'GND content', ''),
    'Nye_tensor': (2, (0, 0), 'Nye tensor', ''),
    'GROD': (0, None, 'GROD', 'rad'),
    'GROD_axis': (1, (0,), 'GROD axis', ''),
    'own0': (0, None, 'Own', 'mm'), 'own1': (1, None, None, ''),
    'own2': (2, (1, 0), 'Tensor', 'MPa'), 'count': (0, None, 'Count', ''),
}
DKEYS = {
    'coordinate': (1, 'norm', 'Coordinate', 'px'),
    'displacement': (1, 'norm', 'Displacement', 'px'),
    'f': (2, (0, 0), 'Deformation gradient', ''),
    'e': (2, (0, 0), 'Green strain', ''),
    'max_shear': (0, None, 'Effective shear strain', ''),
    'grains': (0, None, None, ''),
    'own0': (0, None, 'Own', 'mm'), 'own1': (1, None, None, ''),
    'own2': (2, (1, 0), 'Tensor', 'MPa'), 'count': (0, None, 'Count', ''),
}
KEYS = dict(e=EKEYS, d=DKEYS)
SHADOW = dict(e=('band_contrast', 'phase'), d=(
    'coordinate', 'displacement', 'f', 'e', 'max_shear'))
DIRS = [[0, 0, 1], [1, 0, 0], [0, 1, 0], [1, 1, 0], [1, 2, 3], [-1, .5, 0],
        [0, 0, -1]]
COLOURS = ['white', 'black', 'r', '#102030', 'C1']


def warmup():
    util.warm_numba()


def comp(r, who, key):
    order = KEYS[who][key][0]
    n = 3 if key in ('euler_angle', 'GROD_axis', 'Nye_tensor') else 2
    u = r.random()
    if u < .1:
        # (colours of three numbers that are no Euler angles are not refused)
        return r.choice(['nothing', 'IPF_w', 'norm', [0, 0, 0], [5], 7])
    if u < .3:
        return None
    if key == 'euler_angle':
        return r.choice(['all_euler', 'norm', 0, [1], 2])
    if key == 'orientation':
        return r.choice(['IPF_x', 'IPF_y', 'IPF_z', 'ipf_z'])
    if order == 0:
        return None
    if r.random() < .25:
        return 'norm'
    c = [r.randrange(n) for _ in range(order)]
    return c[0] if order == 1 and r.random() < .5 else c


def options(r):
    o = {}
    if r.random() < .25:
        o['cmap'] = r.choice(['jet', 'gray', 'viridis'])
    if r.random() < .25:
        o['vmin'], o['vmax'] = r.choice([(0, 1), (-.5, .25), (10, 90)])
    if r.random() < .3:
        o['plot_colour_bar'] = r.random() < .8
    if r.random() < .15:
        o['clabel'] = 'Mine'
    if r.random() < .2:
        o['plot_scale_bar'] = True
    if r.random() < .1:
        o['scale'] = r.choice([.5, 2])
    return o


def map_options(r):
    o = options(r)
    if r.random() < .25:
        o['plot_gbs'] = r.choice([True, 'pixel', 'line'])
        if r.random() < .6:
            o['boundary_colour'] = r.choice(COLOURS)
        if r.random() < .3:
            o['dilate_boundaries'] = True
    if r.random() < .2:
        o['highlight_grains'] = [r.randrange(6) for _ in range(
            r.randint(1, 3))]
        if r.random() < .6:
            o['highlight_colours'] = [r.choice(COLOURS) for _ in range(
                r.randint(1, 3))]
        if r.random() < .4:
            o['highlight_alpha'] = r.choice([.3, .8])
    if r.random() < .2:
        o['on'] = r.choice(['ax', 'figax', 'interactive', 'earlier'])
    return o


def ids(r):
    u = r.random()
    if u < .4:
        return -1
    if u < .55:
        return r.randrange(6)
    if u < .6:
        return []
    return [r.randrange(6) for _ in range(r.randint(1, 4))]


def view(r, dic):
    who = 'd' if dic and r.random() < .45 else 'e'
    key = r.choice(sorted(KEYS[who]))
    k = r.choice(['map'] * 5 + ['gmap'] * 4 + ['data'] * 3 + [
        'average', 'average', 'coarse', 'hist', 'hist', 'profile',
        'lines', 'outline', 'gnumbers', 'unknown'] + (
            ['fine', 'stats', 'stats', 'shear', 'bands', 'bands'] if who == 'd' else [
                'lines', 'euler', 'ipf', 'phases', 'pbounds', 'bounds', 'grains',
                'numbers', 'mismap', 'mismap', 'gmis', 'gmis', 'pole',
                'pole', 'gipf', 'gipf', 'cell', 'poles', 'key']))
    c = comp(r, who, key)
    d = r.choice(DIRS)
    ph = r.choice([None, None, [0], [1], [1, 0], [7]])
    bg = r.choice([None, None, [1, 1, 1], [.25, .5, 0]])
    if k == 'map':
        return [k, who, key, c, map_options(r)]
    if k == 'gmap':
        return [k, who, key, c, r.randrange(6), options(r)]
    if k == 'fine':
        o = options(r)
        o.pop('on', None)
        o['plot_scale_bar'] = r.random() < .7
        return [k, r.choice([2, 2, 3]), o]
    if k == 'outline':
        return [k, who, r.randrange(6), r.random() < .3,
                r.choice([None, 'jet'])]
    if k == 'unknown':
        return [k, who, r.choice(['map', 'map', 'grain']),
                r.choice(['nothing', 'grain_boundaries', 'grain_lines'])]
    if k == 'gnumbers':
        return [k, who, r.random() < .5, r.random() < .3]
    if k == 'average':
        return [k, who, key, c, ids(r), r.choice(['values', 'map']),
                r.choice([0, -1, .5, 'nan']), options(r)]
    if k == 'data':
        return [k, who, r.choice(['float', 'int', 'rgb', 'short', 'none']),
                ids(r), r.choice([0, -1, .5, 'nan']),
                r.choice(['map', 'array']), options(r)]
    if k == 'coarse':
        return [k, who, key, c, r.randrange(6), r.choice([0, 1, 2, 9]),
                r.choice([0, 'nan', -1])]
    if k == 'hist':
        return [k, who, key, c, r.choice([1, 5, 10]),
                r.choice([None, None, [0, .1], [.001, 100], [10, 200]]),
                r.choice(['scatter', 'scatter', 'bar', 'step', 'pie']),
                r.choice(['linear', 'logx', 'logy', 'loglog']),
                r.random() < .5]
    if k == 'profile':
        return [k, who, key, c, r.randrange(9), r.random() < .5,
                r.choice([r.randrange(5), [round(r.random(), 3)
                                           for _ in range(4)]])]
    if k == 'stats':
        return [k, r.choice([[0, 50, 100], [5], [99, 1], []]),
                [r.choice(['e', 'f', 'max_shear', 'displacement', 'own2',
                           'own0', 'count', 'zzz' if r.random() < .2
                           else 'e'])
                 for _ in range(r.randint(1, 3))]]
    if k == 'shear':
        return [k, map_options(r)]
    if k == 'bands':
        a = r.choice([0, 90, 5 * r.randrange(36), r.uniform(0, 180)])
        both = [a] + ([(a + r.uniform(60, 120)) % 180]
                      if r.random() < .4 else [])
        return [k, r.randrange(6), both, r.uniform(7, 10),
                [r.randint(26, 46), r.randint(26, 46)], r.random() < .4,
                r.random() < .2, r.choice([None, None, 'shown', 'added'])]
    if k == 'euler':
        return [k, ph, bg, map_options(r)]
    if k == 'ipf':
        return [k, d, ph, bg, map_options(r)]
    if k == 'pbounds':
        return [k, r.random() < .4, map_options(r)]
    if k in ('bounds', 'grains', 'numbers', 'phases'):
        return [k, map_options(r)]
    if k == 'lines':
        return [k, who, r.choice(['own', 'own', 'grain_boundaries',
                                  'phase_boundaries']),
                r.choice(['values', 'values', 'list', 'rgba', 'name']),
                r.randrange(1 << 20), {k: v for k, v in map_options(
                    r).items() if k in ('on', 'cmap')}]
    if k == 'mismap':
        return [k, r.randrange(4), map_options(r)]
    if k == 'gmis':
        return [k, r.randrange(6), r.choice([0, 0, 1, 2, 3, 4]), options(r)]
    if k == 'pole':
        return [k, r.randrange(6), r.choice(['ref', 'spread']), d,
                r.choice([None, 'stereo', 'Lambert', 'equal area', 'nonsense',
                          'function'])]
    if k == 'poles':
        cubic = r.random() < .5
        items = []
        for _ in range(r.randint(1, 4)):
            i = r.choice(['points', 'points', 'line', 'label', 'labels'])
            n = [r.randrange(len(POLES[cubic])) for _ in range(2)]
            items.append([i, n, r.randrange(1 << 16), r.choice(
                [None, 'r', ['C1'], ['r', 'b']]), r.random() < .3])
        return [k, cubic, r.choice([None, 'stereo', 'Lambert', 'equal area',
                                    'nonsense', 'function']), items]
    if k == 'key':
        return [k, r.choice(['pole', 'pole', 'hist', 'step']),
                r.random() < .5, r.randrange(1 << 16), r.choice([1, 2, .1]),
                r.choice([4, 6]), r.choice([None, 'before', 'after'])]
    if k == 'cell':
        return [k, r.randrange(6), r.random() < .7, r.choice(
            [None, None, 'ax', 'figax'])]
    return [k, d, ids(r), r.choice(['values', 'map']), r.choice(
        [None, 'lambert']), r.random() < .5]


def generate(r):
    shape = [r.choice([5, 6, 9]), r.choice([5, 7, 10])]
    spec = dict(shape=shape, seed=r.randrange(1 << 30),
                grains=r.choice([1, 2, 4, 6]),
                phases=r.choice([[0], [0], [2], [0, 2], [2, 3], [1, 0]]),
                noise=r.choice([0, .2, 3]),
                nonindexed=r.choice([0, 0, .1]))
    if r.random() < .15:
        spec['ideal'] = True
    dic = None
    if r.random() < .6:
        dic = dict(shape=shape, seed=r.randrange(1 << 30),
                   binning=r.choice([1, 4, 12]))
    ops = []
    for _ in range(r.randint(2, 12)):
        u = r.random()
        if u < .3:
            k = r.choice(['tol', 'regrain', 'refs', 'own', 'set', 'rotate'] + (
                ['crop', 'crop', 'mask', 'mask', 'scale', 'own']
                if dic else []))
            if k == 'tol':
                ops.append([k, r.choice([1, 5, 10, 40])])
            elif k == 'regrain':
                ops.append([k, r.choice([1, 1, 3, 8])])
            elif k == 'crop':
                ops.append([k, [r.choice([0, 0, 1, 2]) for _ in range(4)]])
            elif k == 'mask':
                ops.append([k, r.choice([None, .1, .4, 1]),
                            r.randrange(1 << 20)])
            elif k == 'scale':
                ops.append([k, r.choice([.1, 1, 2.5])])
            elif k in ('own', 'set'):
                ops.append([k, 'd' if dic and r.random() < .5 else 'e',
                            r.choice(['own0', 'own1', 'own2', 'count']),
                            r.randrange(1 << 20)])
            else:
                ops.append([k])
        else:
            v = view(r, dic)
            if r.random() < .1:
                ops.append(['interrupted', r.choice([1, 2, 3, 5, 8, 15, 40]),
                            r.choice(['MemoryError', 'KeyboardInterrupt',
                                      'OSError']), v])
            ops.append(v)
    return dict(spec=spec, dic=dic, ops=ops,
                triangle=r.choice(['up', 'down']),
                pole=r.choice(['stereographic', 'lambert']),
                kit='real' if r.random() < .01 else 'fake', _lists=['ops'])


def shrink(sc):
    for i, o in enumerate(sc['ops']):
        for j, a in enumerate(o):
            if isinstance(a, dict):
                for k in a:
                    n = list(sc['ops'])
                    n[i] = o[:j] + [{q: v for q, v in a.items() if q != k}
                                    ] + o[j + 1:]
                    yield dict(sc, ops=n)
    if sc['dic'] and not any('d' in o or o[0] in ('stats', 'shear')
                             for o in sc['ops']):
        yield dict(sc, dic=None)
    for k, v in (('grains', 1), ('phases', [0]), ('noise', .2),
                 ('nonindexed', 0), ('shape', [5, 5])):
        if sc['spec'][k] != v:
            d = sc['dic'] and dict(sc['dic'], shape=v) if k == 'shape' \
                else sc['dic']
            yield dict(sc, spec=dict(sc['spec'], **{k: v}), dic=d)


# ------------------------------------------------------------- the model
def plain(a):
    """Float array with removed points as nan."""
    a = np.ma.asarray(a)
    if a.dtype == object:
        return a
    return np.ma.filled(a.astype(float), np.nan)


def sector(v, cubic, triangle):
    """The equivalent of directions (..., 3) in the sector of the IPF."""
    v = np.asarray(v, float)
    v = v / np.linalg.norm(v, axis=-1, keepdims=True)
    if cubic:
        s = np.sort(np.abs(v), axis=-1)
        return np.stack([-s[..., 0], s[..., 1], s[..., 2]], -1)
    t = (np.degrees(np.arctan2(v[..., 1], v[..., 0])) - 90) % 60
    t = np.radians(90 + np.minimum(t, 60 - t) * (
        1 if triangle == 'up' else -1))
    p = np.hypot(v[..., 0], v[..., 1])
    return np.stack([p * np.cos(t), p * np.sin(t), np.abs(v[..., 2])], -1)


def project(v, name):
    """Positions in the figure, x of the crystal pointing down."""
    p = np.hypot(v[..., 0], v[..., 1])
    a = np.arctan2(p, v[..., 2])
    rad = np.tan(a / 2) if name == 'stereo' else 2 * np.sin(a / 2)
    p = np.where(p == 0, 1, p)
    return np.stack([rad * v[..., 1] / p, -rad * v[..., 0] / p], -1)


CORNERS = {
    True: np.array([[0, 0, 1], [0, 1, 1], [-1, 1, 1]], float),
    False: np.array([[0, 0, 1], [0, 1, 0], [-.5, math.sqrt(3) / 2, 0]])}
for _c in CORNERS.values():
    _c /= np.linalg.norm(_c, axis=1, keepdims=True)


POLES = {True: [[0, 0, 1], [0, 1, 1], [-1, 1, 1], [1, 2, 3], [-1, 0, 2],
                [1, 1, 0], [0, 0, 3], [2, -3, 1]],
         False: [[0, 0, 0, 1], [-1, 2, -1, 0], [-1, 1, 0, 0], [2, -1, -1, 0],
                 [0, 1, -1, 0], [1, 2, -3, 0]]}


def direction(idc):
    """Unit vector of a crystal direction. (Hexagonal ones are along the
    c axis or normal to it, a2 is along y.)"""
    if len(idc) == 3:
        v = np.array(idc, float)
    else:
        t = np.radians([-30, 90, 210])
        v = np.array([np.dot(idc[:3], np.cos(t)), np.dot(idc[:3], np.sin(t)),
                      idc[3]])
    return v / np.linalg.norm(v)


def parsed(text):
    """Indices of a label (negative ones with a bar)."""
    require(re.fullmatch(r'(\d|\$\\bar\{\d\}\$){3,4}', text), 'wrong-label',
            f'label {text}', 'label')
    return [int(b) if b else -int(a) for a, b in re.findall(
        r'\$\\bar\{(\d)\}\$|(\d)', text)]


def between(a, b):
    return np.arctan2(np.linalg.norm(np.cross(a, b), axis=-1),
                      (a * b).sum(-1))


def ipf_colour(v, cubic):
    """Colours of directions (n, 3), nan where not judged."""
    v = sector(v, cubic, 'up').reshape(-1, 3)
    c = CORNERS[cubic]
    out = np.zeros((len(v), 3))
    near = np.zeros(len(v), bool)
    for i in range(3):
        o = np.cross(c[(i + 1) % 3], c[(i + 2) % 3])
        x = np.cross(np.cross(v, c[i]), o)
        n = np.linalg.norm(x, axis=1, keepdims=True)
        x = x / np.where(n == 0, 1, n)
        x *= np.where((x * v).sum(1) < 0, -1, 1)[:, None]
        near |= between(v, c[i]) < .02
        out[:, i] = between(v, x) / between(np.broadcast_to(c[i], v.shape),
                                            x)
    out /= out.max(1, keepdims=True)
    out[near] = np.nan
    return out


def mul(a, b):
    w, x, y, z = np.moveaxis(np.asarray(a), -1, 0)
    p, q, r, s = np.moveaxis(np.asarray(b), -1, 0)
    return np.stack([w * p - x * q - y * r - z * s,
                     w * q + x * p + y * s - z * r,
                     w * r - x * s + y * p + z * q,
                     w * s + x * r - y * q + z * p], -1)


def deviation(q, r, cubic):
    """Angles (degrees), rotation vectors (degrees) from r to the closest
    equivalent of each q, and which of those vectors are well defined."""
    syms = model.quats(model.CUBIC if cubic else model.HEX)
    e = mul(syms[:, None], np.asarray(q)[None])
    d = np.abs(e @ r)
    i = d.argmax(0)
    s = np.sort(d, 0)
    e = e[i, np.arange(d.shape[1])]
    dq = mul(e, r * [1, -1, -1, -1])
    dq *= np.where(dq[:, :1] < 0, -1, 1)
    n = np.linalg.norm(dq[:, 1:], axis=1)
    a = np.degrees(2 * np.arctan2(n, dq[:, 0]))
    ang = np.degrees(2 * np.arccos(np.clip(s, 0, 1)))
    sure = ang[-2] - ang[-1] > .5
    return a, dq[:, 1:] * (a / np.where(n == 0, 1, n))[:, None], sure


class Refused(Exception):
    """The model says the request is invalid."""


class State:
    def __init__(self, sc, run, kit):
        self.sc, self.run, self.kit = sc, run, kit
        self.changed = self.shown = self.turned = False
        self.interrupt = None
        spec = dict(sc['spec'])
        ideal = spec.pop('ideal', False)
        t = ref.ebsd_truth(spec)
        if ideal:
            # ideal orientations, as of single crystals or models
            t['euler'] = np.round(t['euler'] / 15) * 15
        import os
        from defdap import ebsd
        arg, dtype = ref.write_ebsd(os.path.join(run.scratch, 'e'), t, 'bin')
        self.maps = {'e': ebsd.Map(arg, data_type=dtype)}
        m = self.e = self.maps['e']
        if sc['dic']:
            d = self.maps['d'] = world.dic_map(run, sc['dic'])
            world.link(d, m)
        self.d = self.maps.get('d')
        self.raw = {w: {k: np.array(self.maps[w].data[k])
                        for k in SHADOW[w]} for w in self.maps}
        self.crop = [0, 0, 0, 0]
        self.mask = None
        self.scale = None
        self.refs = False
        self.step = t['step']
        self.tol, self.size = 8, 1
        self.cubic = [p['laue'] == 11 for p in t['phases']]
        self.names = [p['name'] for p in t['phases']]
        self.own, self.fine = {w: {} for w in self.maps}, {}
        for w in self.maps:
            self.add(w, 'own0', 1)
            self.add(w, 'own1', 2)
            self.add(w, 'own2', 3)
            self.add(w, 'count', 4)
        self.regrain()
        self.plots = {w: None for w in self.maps}

    # changes
    def full_shape(self, w):
        return tuple(self.sc['spec']['shape'])

    def make(self, w, key, seed):
        g = np.random.default_rng(seed)
        order = KEYS[w][key][0]
        shape = (2,) * order + self.full_shape(w)
        if key == 'count':
            return g.integers(0, 200, shape).astype(np.int16)
        a = g.uniform(-1, 1, shape)
        if seed % 3 == 0:
            a[..., 0, 0] = np.nan
        return a

    def add(self, w, key, seed):
        a = self.make(w, key, seed)
        order, default, label, unit = KEYS[w][key]
        kw = dict(unit=unit, type='map', order=order)
        if default is not None:
            kw['default_component'] = default
        if label is not None:
            kw['plot_params'] = dict(plot_colour_bar=True, clabel=label)
        self.maps[w].data.add(key, a.copy(), **kw)
        self.own[w][key] = a

    def regrain(self):
        self.e.data.generate('grain_boundaries', misori_tol=self.tol)
        try:
            self.e.data.generate('grains', min_grain_size=self.size)
        except IndexError:
            # a map must have a grain
            self.size = 1
            self.e.data.generate('grains', min_grain_size=1)
        self.refs = False
        self.regrain_dic()

    def regrain_dic(self):
        if self.d is not None:
            self.d.data.generate('grains', algorithm='floodfill',
                                 min_grain_size=1)

    # what the maps hold now
    def data(self, w, key):
        """Current values, removed points nan, without the crop."""
        a = self.own[w].get(key)
        if a is None:
            a = self.raw[w].get(key)
        if a is None:
            return self.maps[w].data[key]
        if w == 'e':
            return a
        l, r, t, b = self.crop
        a = a[..., t:a.shape[-2] - b, l:a.shape[-1] - r]
        if self.mask is not None:
            a = np.ma.array(a, mask=np.broadcast_to(self.mask, a.shape))
        return a

    def component(self, w, key, c, listed=None):
        """(values, component) asked for. `listed` selects points."""
        order, default, _, _ = KEYS[w][key]
        if isinstance(c, list):
            c = tuple(c)
        if c is None:
            c = default
        if c is None and order:
            raise Refused('component needed')
        if isinstance(c, int):
            c = (c,)
        if isinstance(c, tuple) and len(c) != order:
            raise Refused('wrong number of indices')
        a = self.data(w, key)
        if isinstance(c, tuple) and any(i >= n for i, n in zip(c, a.shape)):
            raise Refused('no such component')
        pts = None if listed is None else (listed[:, 1], listed[:, 0])
        if pts is not None:
            a = a[(Ellipsis, *pts)]
        if c is None:
            return a, c
        if isinstance(c, tuple):
            return a[c], c
        s = c.lower()
        if s == 'norm':
            if not order:
                raise Refused('norm of scalars')
            ax = tuple(range(order))
            v = np.sqrt((np.ma.getdata(a) ** 2).sum(ax))
            if np.ma.isMA(a):
                v = np.ma.array(v, mask=np.ma.getmaskarray(a).any(ax))
            return v, c
        if s == 'all_euler':
            if key != 'euler_angle':
                raise Refused('no Euler angles')
            return self.euler_colours(a, pts), c
        if re.fullmatch('ipf_[xyz]', s):
            if key != 'orientation':
                raise Refused('no orientations')
            return self.ipf_colours(np.eye(3)['xyz'.index(s[-1])], pts), c
        raise Refused('no such component')

    def euler_colours(self, a, pts=None, phases=None, bg=(0, 0, 0)):
        ph = plain(self.data('e', 'phase'))
        if pts is not None:
            ph = ph[pts]
        out = np.empty(ph.shape + (3,))
        out[:] = bg
        for i in range(len(self.cubic)) if phases is None else phases:
            n = [2 * np.pi, np.pi / 2, np.pi / 2] if self.cubic[i] else [
                np.pi, np.pi, np.pi / 3]
            k = ph == i + 1
            out[k] = np.moveaxis(np.asarray(a, float), 0, -1)[k] / n
        return out

    def vectors(self, direction, pts=None):
        """Direction in crystal coordinates at each point."""
        d = np.array(direction, float)
        return self.matrices(pts) @ (d / np.linalg.norm(d))

    def matrices(self, pts=None):
        """Orientation matrices. Rotating the map rotates orientations with
        it; the Euler angles remain those that were loaded."""
        e = np.degrees(np.asarray(self.e.data.euler_angle, float))
        if pts is not None:
            e = e[(slice(None), *pts)]
        return model.matrices(e) * (-1, -1, 1) if self.turned else \
            model.matrices(e)

    def ipf_colours(self, direction, pts=None, phases=None, bg=(0, 0, 0)):
        ph = plain(self.data('e', 'phase'))
        if pts is not None:
            ph = ph[pts]
        out = np.empty(ph.shape + (3,))
        out[:] = bg
        v = self.vectors(direction, pts)
        for i in range(len(self.cubic)) if phases is None else phases:
            k = ph == i + 1
            out[k] = ipf_colour(v[k], self.cubic[i])
        return out

    def n(self, w):
        return len(self.maps[w].grains)

    def points(self, w, g):
        lab = np.asarray(self.maps[w].data.grains)
        y, x = np.nonzero(lab == g + 1)
        return np.column_stack([x, y])

    def grain_ids(self, w, given):
        n = self.n(w)
        if given == -1:
            return list(range(n))
        lst = [given] if isinstance(given, int) else given
        if any(i >= n for i in lst):
            raise Refused('no such grain')
        return lst

    # making requests
    def ask(self, fn):
        """Outcome of a request, which must leave the data alone."""
        before = self.stored()
        what = self.what
        with contextlib.redirect_stdout(io.StringIO()) as out:
            if self.interrupt:
                n, exc = self.interrupt
                it = intr.NthCall(n, exc)
                try:
                    with it:
                        res = util.outcome(fn)
                except KeyboardInterrupt as e:
                    res = 'exc', e
                if it.fired:
                    self.run.fault(exc)
                    clear_tb(res[1]) if res[0] == 'exc' else None
                    res = 'interrupted', None
            else:
                res = util.outcome(fn)
        self.text = out.getvalue()
        after = self.stored()
        for k in before:
            require(util.same(before[k], after[k]), 'data-changed',
                    f'{k} changed by {what}', what)
        return res

    def stored(self):
        out = {}
        for w in self.maps:
            m = self.maps[w]
            out.update({(w, k): world.arr(m.data[k]) for k in (
                *SHADOW[w], *self.own[w], *(
                    ['euler_angle'] if w == 'e' else []))})
        return out


def judge(st, fn, valid, check):
    """Make a request; `check` judges what is shown."""
    out, val = st.ask(fn)
    if out == 'interrupted':
        return 'interrupted'
    if not valid:
        require(out == 'exc', 'invalid-accepted',
                f'{st.what} is accepted: {st.op}', st.what)
        clear_tb(val)
        return 'refused'
    if out == 'exc':
        msg = f'{type(val).__name__}: {val}'
        clear_tb(val)
        raise Violation('valid-refused', f'{st.what} raises {msg} for '
                        f'{st.op}', st.what)
    check(val)
    st.shown |= st.changed
    return 'shown'


def okay(fn):
    """(value, True), or (None, False) if the model refuses."""
    try:
        return fn(), True
    except Refused:
        return None, False


# ------------------------------------------------------ looking at plots
def same_values(st, got, want, tol=1e-6):
    got, want = plain(got), plain(want)
    if got.shape != want.shape:
        return f'{got.shape} values instead of {want.shape}'
    if st.colour:
        # colours: not judged where the model has none
        k = np.isfinite(want)
        got, want = np.clip(got, 0, 1), np.clip(want, 0, 1)
        bad = k & ~(np.abs(got - want) < 1e-2)
    else:
        with np.errstate(all='ignore'):
            bad = ~((np.abs(got - want) <= tol * np.maximum(
                1, np.abs(want))) | (np.isnan(got) & np.isnan(want)))
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        return f'{got[i]} instead of {want[i]} at {i}'
    return None


def picture(st, plot, want, opts, label=None, defaults=None, tol=1e-6,
            scale=None):
    """The first image of a plot, its range, colour bar and scale bar."""
    what, ax = st.what, plot.ax
    first = getattr(st, 'images_before', 0)
    require(len(ax.images) > first, 'nothing-shown', f'{what}: no image',
            what)
    im = ax.images[first]
    got = im.get_array()
    why = same_values(st, got, want, tol)
    require(why is None, 'wrong-picture', f'{what} {st.op} shows {why}',
            what)
    par = dict(defaults or {})
    par.update(opts)
    if plain(want).ndim == 2:
        w = plain(want)
        fin = w[np.isfinite(w)]
        lim = [par.get(key) if par.get(key) is not None or not len(fin)
               else f(fin) for key, f in (('vmin', min), ('vmax', max))]
        near = None not in lim and lim[1] - lim[0] <= 1e-12 * max(
            1, abs(lim[0]))
        for key, v, g in zip(('vmin', 'vmax'), lim, (im.norm.vmin,
                                                     im.norm.vmax)):
            # a bar of no length is widened
            slack = .11 * max(1, abs(v)) if near else max(
                tol, 1e-6) * max(1, abs(v or 0))
            if v is not None:
                require(g is not None and abs(g - v) <= slack,
                        'wrong-range',
                        f'{what} {st.op} has {key} {g} instead of {v}', what)
        require(im.cmap.name == (par.get('cmap') or 'viridis'),
                'wrong-colours', f'{what} {st.op} in {im.cmap.name}', what)
    bar = gui.colour_bar(ax)
    if not opts.get('on') == 'earlier':
        if par.get('plot_colour_bar'):
            require(bar is not None and bar[0] is im, 'wrong-colour-bar',
                    f'{what} {st.op} has no colour bar of the image', what)
            text = opts.get('clabel', label or '')
            require(bar[1] == text, 'wrong-label', f'{what} {st.op} is '
                    f'labelled {bar[1]!r} instead of {text!r}', what)
        else:
            require(bar is None, 'wrong-colour-bar', f'{what} {st.op} has '
                    'a colour bar', what)
        sb = gui.scale_bars(ax)
        if opts.get('plot_scale_bar'):
            require(len(sb) == 1 and abs(sb[0] - scale * 1e-6) < 1e-15,
                    'wrong-scale', f'{what} {st.op} has scale bars {sb} '
                    f'instead of {scale} microns', what)
        else:
            require(not sb, 'wrong-scale', f'{what} {st.op} has a scale bar',
                    what)
    return im


def dilated(b):
    p = np.pad(b, 1)
    return (p[1:-1, 1:-1] | p[:-2, 1:-1] | p[2:, 1:-1] | p[1:-1, :-2]
            | p[1:-1, 2:])


def boundary_image(st, w, which='grain_boundaries'):
    b = st.maps[w].data[which]
    out = np.zeros(st.maps[w].shape, bool)
    pts = set(b.points) if w == 'd' else \
        set(b.points_x) | set(b.points_y)
    for x, y in pts:
        out[int(y), int(x)] = True
    return out


def segment(s):
    return tuple(tuple(float(v) for v in p) for p in s)


def lines_of(st, w, which='grain_boundaries'):
    b = st.maps[w].data[which]
    if w == 'd':
        lines = b.lines
    else:
        lines = [((x + .5, y - .5), (x + .5, y + .5)) for x, y in b.points_x
                 ] + [((x - .5, y + .5), (x + .5, y + .5))
                      for x, y in b.points_y]
    return sorted(map(segment, lines))


def overlays(st, w, plot, opts, start):
    """Boundaries and highlights drawn over a picture. `start` is the
    number of images below them."""
    ax, what = plot.ax, st.what
    images = list(ax.images)[start:]
    gbs = opts.get('plot_gbs')
    if gbs:
        colour = mpl.colors.to_rgba(opts.get('boundary_colour') or 'white')
        if gbs == 'line':
            seg = gui.segments(ax)
            require(len(seg) >= 1 and len(seg[-1][0]) == len(
                lines_of(st, w)) and np.allclose(seg[-1][0], lines_of(
                    st, w)), 'wrong-boundaries',
                    f'{what} {st.op}: other boundary lines', what)
            if seg[-1][0]:
                require(seg[-1][1] is not None and np.allclose(
                    seg[-1][1], [colour]), 'wrong-boundaries',
                    f'{what} {st.op}: lines in {seg[-1][1]}', what)
        else:
            b = boundary_image(st, w)
            if opts.get('dilate_boundaries'):
                b = dilated(b)
            require(len(images) > 0, 'wrong-boundaries',
                    f'{what} {st.op}: no boundaries', what)
            layer(st, images.pop(0), b, colour, 1, 'wrong-boundaries')
    else:
        require(not gui.segments(ax) or opts.get('on') == 'earlier',
                'wrong-boundaries', f'{what} {st.op} has boundaries', what)
    hl = opts.get('highlight_grains')
    if hl is not None:
        cols = opts.get('highlight_colours') or ['white']
        alpha = opts.get('highlight_alpha') or (1 if w == 'e' else .6)
        require(len(images) == 1, 'wrong-highlights',
                f'{what} {st.op}: {len(images)} layers', what)
        got = gui.rgba(images[0])
        want = np.zeros(st.maps[w].shape + (4,))
        for i, g in enumerate(hl):
            p = st.points(w, g)
            c = mpl.colors.to_rgba(cols[min(i, len(cols) - 1)])
            want[p[:, 1], p[:, 0]] = (*c[:3], alpha)
        k = want[..., 3] > 0
        require(np.allclose(got[..., 3], want[..., 3], atol=1e-6) and
                np.allclose(got[k], want[k], atol=1e-6), 'wrong-highlights',
                f'{what} {st.op} highlights other points', what)
    else:
        require(not images, 'wrong-highlights', f'{what} {st.op} has '
                f'{len(images)} extra layers', what)


def layer(st, im, b, colour, alpha, kind):
    got = gui.rgba(im)
    require(got.shape[:2] == b.shape and np.allclose(
        got[..., 3], b * alpha, atol=0.02) and np.allclose(
            got[b][:, :3], colour[:3], atol=1e-6), kind,
            f'{st.what} {st.op}: other points or colours', st.what)


def place(st, w, opts):
    """Keyword arguments of a plot; where it goes as asked."""
    kw = {k: v for k, v in opts.items() if k != 'on'}
    st.images_before = 0
    on = opts.get('on')
    if on in ('ax', 'figax'):
        from defdap import plotting
        fig = plotting.plt.figure()
        kw['ax'] = fig.add_subplot(111)
        if on == 'figax':
            kw['fig'] = fig
    elif on == 'interactive':
        kw['make_interactive'] = True
    elif on == 'earlier':
        p = st.plots[w]
        if p is None:
            kw.pop('plot', None)
        else:
            kw['plot'] = p
            st.images_before = len(p.ax.images)
    return kw


def map_valid(st, w, opts):
    hl = opts.get('highlight_grains')
    if hl is not None and (any(g >= st.n(w) for g in hl)):
        return False
    if opts.get('plot_scale_bar') and opts.get('scale') is None and \
            st.pixel(w) is None:
        return False
    return True


def pixel(st, w):
    if w == 'e':
        return st.step
    return None if st.scale is None else st.scale * st.sc['dic']['binning']


State.pixel = pixel


def usable(st, w, opts):
    """Options of overlapping highlights and second colour bars left out:
    only what has a meaning is asked."""
    o = dict(opts)
    if o.get('highlight_grains'):
        o['highlight_grains'] = list(dict.fromkeys(o['highlight_grains']))
    if o.get('on') == 'earlier':
        if st.plots[w] is None:
            o.pop('on')
        else:
            for k in ('plot_colour_bar', 'plot_scale_bar',
                      'highlight_grains'):
                o.pop(k, None)
            o['plot_colour_bar'] = False
    return o


def shown(st, w, fn, want, opts, label=None, defaults=None, valid=True,
          tol=1e-6, colour=False, extra=None, base=None, size=...):
    """A request for a map plot and its judgement."""
    opts = usable(st, w, opts)
    kw = place(st, w, opts)
    valid = valid and map_valid(st, w, opts)
    scale = opts.get('scale', st.pixel(w) if size is ... else size)

    def check(plot):
        st.colour = colour
        if opts.get('on') == 'ax' or opts.get('on') == 'figax':
            require(plot.ax is kw['ax'], 'wrong-axes',
                    f'{st.what} {st.op} drawn elsewhere', st.what)
        if opts.get('on') == 'earlier':
            require(plot.ax is st.plots[w].ax, 'wrong-axes',
                    f'{st.what} {st.op} drawn elsewhere', st.what)
        if want is not None:
            picture(st, plot, want, opts, label, defaults, tol, scale)
        overlays(st, w, plot, {**(defaults or {}), **opts}, st.images_before
                 + (want is not None if base is None else base))
        if extra:
            extra(plot)
        st.plots[w] = plot
    return judge(st, lambda: fn(**kw), valid, check)


def label_of(w, key, c):
    _, _, label, unit = KEYS[w][key]
    if label is None:
        return ''
    if isinstance(c, tuple):
        label += ' (' + ''.join(str(i + 1) for i in c) + ')'
    elif isinstance(c, str):
        label += f' ({c.replace("_", " ")})'
    return label + (f' ({unit})' if unit else '')


def key_defaults(st, w, key):
    d = {}
    if KEYS[w][key][2] is not None:
        d['plot_colour_bar'] = True
    if key == 'band_contrast':
        d['cmap'] = 'gray'
    if key == 'phase':
        d.update(vmin=0, vmax=len(st.cubic))
    return d


def tup(c):
    return tuple(c) if isinstance(c, list) else c


def is_colour(c):
    return isinstance(c, str) and c.lower() != 'norm'


def ready(st, w, key):
    """Grain quantities exist only with grains."""
    return key not in ('GROD', 'GROD_axis') or st.n('e') > 0


# ----------------------------------------------------------- operations
def do(st, op):
    k = op[0]
    st.what, st.op, st.colour = k, op, False
    return OPS[k](st, *op[1:])


def tol(st, v):
    st.tol = v
    st.regrain()
    return 'done'


def regrain(st, v):
    st.size = v
    st.regrain()
    return 'done'


def rotate(st):
    if st.d is not None:
        return None
    st.e.rotate_data()
    st.turned = not st.turned
    for k in st.raw['e']:
        st.raw['e'][k] = st.raw['e'][k][..., ::-1, ::-1]
    for k in st.own['e']:
        st.own['e'][k] = st.own['e'][k][..., ::-1, ::-1]
    # maps other than those loaded are turned with the loaded ones (C08);
    # if they were left alone the following puts them in place
    for k, v in st.own['e'].items():
        st.e.data[k] = v.copy()
    st.regrain()
    return 'done'


def refs(st):
    st.e.calc_grain_av_oris()
    st.refs = True
    return 'done'


def own(st, w, key, seed):
    a = st.make(w, key, seed)
    st.own[w][key] = a
    st.maps[w].data[key] = a.copy()
    return 'done'


def crop(st, c):
    st.crop = c
    st.mask = None
    st.d.data.mask = None
    l, r, t, b = c
    st.d.set_crop(left=l, right=r, top=t, bottom=b)
    st.regrain_dic()
    return 'done'


def mask(st, share, seed):
    if share is None:
        st.mask = None
        st.d.data.generate('mask', mask=None)
    else:
        g = np.random.default_rng(seed)
        m = g.uniform(0, 1, st.d.shape) < share
        st.mask = m
        st.d.data.generate('mask', mask=m.copy())
    st.regrain_dic()
    return 'done'


def scale(st, v):
    st.scale = v
    st.d.set_scale(v)
    return 'done'


def interrupted(st, n, exc, v):
    st.interrupt = n, exc
    try:
        out = do(st, v)
    finally:
        st.interrupt = None
    return out


def v_map(st, w, key, c, opts):
    if w not in st.maps or not ready(st, w, key):
        return None
    (want, cc), valid = two(st, w, key, c)
    m = st.maps[w]
    return shown(st, w, lambda **k: m.plot_map(key, tup(c), **k), want, opts,
                 label_of(w, key, cc), key_defaults(st, w, key), valid,
                 colour=is_colour(cc))


def v_fine(st, b, opts):
    """An image with b by b pixels in each point."""
    d, key = st.d, f'fine{b}'
    if key not in st.fine:
        shape = [b * n for n in (d.ydim, d.xdim)]
        a = np.random.default_rng(b).uniform(-5, 5, shape)
        d.data.add(key, a.copy(), unit='', type='map', order=0, binning=b,
                   apply_mask=False, plot_params={'clabel': 'Fine'})
        st.fine[key] = a
    a = st.fine[key]
    l, r, t, bot = (b * v for v in st.crop)
    want = a[t:a.shape[0] - bot, l:a.shape[1] - r]
    size, last = st.pixel('d'), st.plots['d']
    try:
        return shown(st, 'd', lambda **k: d.plot_map(key, **k), want, opts,
                     'Fine', {}, size=None if size is None else size / b)
    finally:
        st.plots['d'] = last


def two(st, w, key, c, listed=None):
    v, valid = okay(lambda: st.component(w, key, c, listed))
    return (v, True) if valid else ((None, None), False)


def framed(p, values, bg=np.nan):
    """Map of the points of a grain in its bounding box."""
    x0, y0 = p.min(0)
    x1, y1 = p.max(0)
    values = plain(values)
    out = np.full((y1 - y0 + 1, x1 - x0 + 1) + values.shape[1:], bg, float)
    out[p[:, 1] - y0, p[:, 0] - x0] = values
    return out


def grain_okay(st, w, g):
    """Known phase at every point (otherwise no colours exist)."""
    ph = st.maps['e'].data.phase
    p = st.points(w, g)
    return w == 'e' and (ph[p[:, 1], p[:, 0]] > 0).all()


def v_gmap(st, w, key, c, g, opts):
    if w not in st.maps or not ready(st, w, key) or not st.n(w):
        return None
    g %= st.n(w)
    p = st.points(w, g)
    (want, cc), valid = two(st, w, key, c, p)
    if is_colour(cc) and not grain_okay(st, w, g):
        return None
    if valid:
        want = framed(p, want)
    gr = st.maps[w].grains[g]
    sc = opts.get('scale', st.pixel(w))
    if opts.get('plot_scale_bar') and sc is None:
        valid = False

    def check(plot):
        st.colour = is_colour(cc)
        st.images_before = 0
        picture(st, plot, want, opts, label_of(w, key, cc),
                key_defaults(st, w, key), 1e-6, sc)
    return judge(st, lambda: gr.plot_map(key, tup(c), **opts), valid, check)


def v_unknown(st, w, what, name):
    """Data that do not exist or are no map."""
    if w not in st.maps or not st.n(w):
        return None
    m = st.maps[w]
    if name == 'grain_boundaries' and name not in m.data:
        name = 'nothing'
    fn = dict(map=lambda: m.plot_map(name),
              grain=lambda: m.grains[0].plot_map(name))[what]
    return judge(st, fn, False, None)


def v_outline(st, w, g, bar, cmap):
    if w not in st.maps or not st.n(w):
        return None
    g %= st.n(w)
    p = st.points(w, g)
    gr = st.maps[w].grains[g]
    opts = dict(plot_scale_bar=True) if bar else {}
    kw = dict(opts, cmap=cmap) if cmap else opts

    def check(plot):
        st.images_before = 0
        picture(st, plot, framed(p, np.zeros(len(p))),
                {k: v for k, v in kw.items()}, scale=st.pixel(w))
    return judge(st, lambda: gr.plot_outline(**kw),
                 not bar or st.pixel(w) is not None, check)


def v_gnumbers(st, w, dilate, on):
    if w not in st.maps or not st.n(w):
        return None
    opts = dict(dilate_boundaries=True) if dilate else {}
    kw = place(st, w, dict(opts, on='ax') if on else opts)

    def check(plot):
        st.colour = False
        if on:
            require(plot.ax is kw['ax'], 'wrong-axes',
                    f'{st.op} drawn elsewhere', st.what)
        overlays(st, w, plot, dict(opts, plot_gbs='pixel',
                                   boundary_colour='black'), 0)
        placed_numbers(st, w, plot)
    return judge(st, lambda: st.maps[w].plot_grain_numbers(**kw), True,
                 check)


def placed_numbers(st, w, plot):
    got = gui.placed_texts(plot.ax)
    require(sorted(g[2] for g in got) == sorted(
        str(i) for i in range(st.n(w))), 'wrong-numbers',
            f'{st.op}: {got}', 'numbers')
    for x, y, s in got:
        c = st.points(w, int(s)).mean(0)
        require(abs(x - c[0]) < .51 and abs(y - c[1]) < .51,
                'wrong-numbers', f'{s} at {x, y} instead of {c}', 'numbers')


def flat(st, w, key, c):
    """A scalar map of the data, as a user passes it on."""
    if w not in st.maps or not ready(st, w, key):
        return None
    (want, cc), valid = two(st, w, key, c)
    if not valid or is_colour(cc) or key == 'orientation':
        return None
    d = st.maps[w].data[key]
    if isinstance(cc, tuple):
        return want, d[cc]
    if cc == 'norm':
        return want, np.sqrt((d * d).sum(axis=tuple(
            range(KEYS[w][key][0]))))
    return want, d


def v_average(st, w, key, c, given, how, bg, opts):
    fl = flat(st, w, key, c)
    if fl is None or not st.n(w):
        return None
    want, arr = fl
    bg = float('nan') if bg == 'nan' else bg
    lst, valid = okay(lambda: st.grain_ids(w, given))
    m = st.maps[w]
    vals = []
    for g in lst or ():
        p = st.points(w, g)
        v = np.ma.masked_array(want)[p[:, 1], p[:, 0]]
        v = v.compressed().astype(float)
        vals.append(v.mean() if len(v) else np.nan)
    if how == 'values':
        def check(got):
            why = same_values(st, got, np.array(vals))
            require(why is None, 'wrong-average', f'{st.what} {st.op}: '
                    f'{why}', st.what)
        return judge(st, lambda: m.calc_grain_average(arr, given), valid,
                     check)
    pic = filled(st, w, lst or (), vals, bg)
    return shown(st, w, lambda **k: m.plot_grain_data_map(
        map_data=arr, grain_ids=given, bg=bg, **k), pic, opts, valid=valid)


def filled(st, w, lst, vals, bg):
    vals = np.asarray(vals, float)
    out = np.full(st.maps[w].shape + (vals.shape[1:] if vals.ndim > 1
                                      else ()), bg, float)
    for g, v in zip(lst, vals):
        p = st.points(w, g)
        out[p[:, 1], p[:, 0]] = v
    return out


def v_data(st, w, kind, given, bg, how, opts):
    if w not in st.maps:
        return None
    bg = float('nan') if bg == 'nan' else bg
    m = st.maps[w]
    lst, valid = okay(lambda: st.grain_ids(w, given))
    n = len(lst or ())
    g = np.random.default_rng(7)
    vals = {'float': lambda: g.uniform(-1, 1, n).tolist(),
            'int': lambda: g.integers(0, 99, n).tolist(),
            'rgb': lambda: g.uniform(0, 1, (n, 3)),
            'short': lambda: [.5] * (n + 1),
            'none': lambda: None}[kind]()
    if n == 0:
        return None
    valid = valid and kind not in ('short', 'none')
    pic = filled(st, w, lst, vals, bg) if valid else None
    if how == 'array' and kind != 'none':
        def check(got):
            why = same_values(st, got, pic)
            require(why is None, 'wrong-array', f'{st.what} {st.op}: {why}',
                    st.what)
        return judge(st, lambda: m.grain_data_to_map_data(
            vals, grain_ids=given, bg=bg), valid, check)
    return shown(st, w, lambda **k: m.plot_grain_data_map(
        grain_data=vals, grain_ids=given, bg=bg, **k), pic, opts,
        valid=valid, colour=kind == 'rgb')


def v_coarse(st, w, key, c, g, size, bg):
    fl = flat(st, w, key, c)
    if fl is None or not st.n(w):
        return None
    want, arr = fl
    g %= st.n(w)
    p = st.points(w, g)
    fine = framed(p, np.ma.asarray(want)[p[:, 1], p[:, 0]])
    bg = float('nan') if bg == 'nan' else bg
    out = np.full(fine.shape, bg, float)
    for i, j in np.ndindex(fine.shape):
        if fine[i, j] == fine[i, j]:
            s = fine[max(0, i - size):i + size + 1,
                     max(0, j - size):j + size + 1]
            out[i, j] = np.nanmean(s)

    def check(got):
        why = same_values(st, got, out)
        require(why is None, 'wrong-array', f'{st.what} {st.op}: {why}',
                st.what)
    return judge(st, lambda: st.maps[w].grains[g].grain_map_data_coarse(
        map_data=arr, kernel_size=size, bg=bg), True, check)


def v_hist(st, w, key, c, bins, rng, kind, axes, density):
    fl = flat(st, w, key, c)
    if fl is None:
        return None
    want, arr = fl
    from defdap.plotting import HistPlot
    v = np.ma.masked_invalid(np.ma.asarray(want, float)).compressed()
    log = axes in ('logx', 'loglog')
    valid = kind != 'pie'
    if rng is None:
        if not len(v) or v.min() == v.max() or (
                log and v.min() <= 0) or not np.isfinite(
                    plain(np.ma.asarray(arr)[~np.ma.getmaskarray(arr)]
                          if np.ma.isMA(arr) else arr)).all():
            return None
        lo, hi = v.min(), v.max()
    else:
        lo, hi = rng
        if log and lo <= 0:
            return None
    e = np.geomspace(lo, hi, bins + 1) if log else np.linspace(
        lo, hi, bins + 1)
    tol_ = 1e-9 * max(abs(lo), abs(hi))
    if len(v) and np.abs(v[:, None] - e[None, 1:-1]).min(initial=1) < tol_:
        return None
    inner = v[(v > lo + tol_) & (v < hi - tol_)]
    edge = len(v[(v >= lo - tol_) & (v <= hi + tol_)]) - len(inner)
    if edge and rng is not None:
        return None
    if rng is None:
        # the extremes belong to the first and the last bin
        inner = np.clip(v, e[0] + tol_, e[-1] - tol_)
    n, _ = np.histogram(inner, e)
    if density:
        if not len(inner):
            return None
        n = n / n.sum() / np.diff(e)

    def check(plot):
        got = (plot.ax.get_xscale(), plot.ax.get_yscale())
        sc = tuple('log' if axes in a else 'linear' for a in
                   (('logx', 'loglog'), ('logy', 'loglog')))
        require(got == sc, 'wrong-histogram', f'{st.op}: axes are {got} '
                f'instead of {sc}', 'hist')
        if kind == 'scatter':
            got = gui.curves(plot.ax)
            require(len(got) == 1, 'wrong-histogram', f'{st.op}: '
                    f'{len(got)} curves', 'hist')
            x, y = got[0]
            require(len(x) == bins and np.allclose(x, (e[1:] + e[:-1]) / 2)
                    and np.allclose(y, n), 'wrong-histogram',
                    f'{st.op}: {x} {y} instead of {n} in {e}', 'hist')
        else:
            got = gui.bars(plot.ax)
            require(len(got) == bins and np.allclose(
                [b[0] for b in got], e[:-1]) and np.allclose(
                    [b[1] for b in got], e[1:]) and np.allclose(
                        [b[2] for b in got], n), 'wrong-histogram',
                    f'{st.op}: {got} instead of {n} in {e}', 'hist')
    return judge(st, lambda: HistPlot.create(
        arr, bins=bins, range=rng and tuple(rng), plot_type=kind,
        axes_type=axes, density=density), valid, check)


def v_profile(st, w, key, c, i, across, j):
    fl = flat(st, w, key, c)
    if fl is None:
        return None
    want, arr = fl
    if not np.isfinite(np.ma.filled(np.ma.asarray(arr, float), 0)).all():
        return None
    m = st.maps[w]
    ny, nx = m.shape
    if (nx if across else ny) < 2:
        return None
    xs, whole = None, np.ma.asarray(arr).dtype.kind in 'iub'
    if isinstance(j, list):
        # any line, a value that is missing counts where it has a weight
        if min(ny, nx) < 2:
            return None
        a, b = [(f * (nx - 1), g * (ny - 1)) for f, g in (j[:2], j[2:])]
        far = math.dist(a, b)
        n = math.ceil(far + 1)
        if far < .5 or min(n - far - 1, far + 2 - n) < 1e-9:
            return None
        xs = np.linspace(0, 1, n)
        px, py = (p + xs * (q - p) for p, q in zip(a, b))
        x0 = np.minimum(px.astype(int), nx - 2)
        y0 = np.minimum(py.astype(int), ny - 2)
        vals, xs = 0, xs * far
        for dy in (0, 1):
            for dx in (0, 1):
                t = (np.abs(1 - dx - px + x0) * np.abs(1 - dy - py + y0))
                if ((t > 1e-12) & (t < 1e-5)).any():
                    return None
                vals = vals + np.where(
                    t > 1e-12, t * plain(want)[y0 + dy, x0 + dx], 0)
    elif across:
        y = i % ny
        a, b = (min(j, nx - 2), y), (nx - 1, y)
        vals = plain(want)[y, a[0]:]
    else:
        x = i % nx
        a, b = (x, min(j, ny - 2)), (x, ny - 1)
        vals = plain(want)[a[1]:, x]

    def request():
        plot = m.plot_map(key, tup(c), plot_colour_bar=False)
        m.profile_plot = None
        m.calc_line_profile(plot, (*a, *b))
        return m.profile_plot

    def check(plot):
        got = gui.curves(plot.ax)
        require(len(got) == 1, 'wrong-profile', f'{st.op}: {len(got)} '
                'curves', 'profile')
        x, y = got[0]
        if np.ma.isMA(y):
            y = y.filled(np.nan)
        ok = len(y) == len(vals) and np.allclose(
            x, np.arange(len(vals)) if xs is None else xs)
        if ok and xs is not None and whole:
            # values between whole numbers may come rounded
            ok = np.allclose(y, vals, rtol=0, atol=1.001, equal_nan=True)
        elif ok:
            ok = same_values(st, y, vals, 1e-6) is None
        require(ok, 'wrong-profile', f'{st.op}: {y} at {x} instead of {vals}',
                'profile')
    return judge(st, request, True, check)


def v_stats(st, per, comps):
    if st.d is None:
        return None
    valid = all(c in DKEYS for c in comps)

    def check(_):
        lines = [re.sub(r'\033\[\d+m', '', ln) for ln in
                 st.text.splitlines()]
        lines = [ln for ln in lines if ln.strip()]
        ny, nx = st.d.shape
        nums = [int(v) for v in re.findall(r'\d+', lines[0].split(
            '(dimensions')[1])] if lines and '(dimensions' in lines[0] \
            else None
        b = st.sc['dic']['binning']
        require(nums is not None and [nums[0], nums[1], nums[2],
                                      nums[-1]] == [nx, ny, b, nx * ny],
                'wrong-table', f'{st.op}: {lines[:1]} for {nx} x {ny}',
                'stats')
        rows = []
        for c in comps:
            a = plain(st.data('d', c))
            for i in np.ndindex(a.shape[:-2]):
                v = a[i]
                v = v[np.isfinite(v)]
                rows.append((c + ''.join(str(t + 1) for t in i), [
                    np.percentile(v, p) if len(v) else np.nan for p in per]))
        got = [ln.split() for ln in lines[1:]]
        require(got and got[0] == ['Component', *map(str, per)] and
                len(got) == len(rows) + 1, 'wrong-table', f'{st.op}: '
                f'{lines}', 'stats')
        for g, (name, v) in zip(got[1:], rows):
            require(g[0] == name and len(g) == len(v) + 1 and np.allclose(
                [float(x) for x in g[1:]], v, rtol=1e-6, atol=6e-5,
                equal_nan=True), 'wrong-table',
                    f'{st.op}: {g} instead of {name} {v}', 'stats')
    return judge(st, lambda: st.d.print_stats_table(list(per), list(comps)),
                 valid, check)


def v_shear(st, opts):
    if st.d is None:
        return None
    a = st.data('d', 'max_shear')
    vals = []
    for g in range(st.n('d')):
        p = st.points('d', g)
        v = np.ma.asarray(a)[p[:, 1], p[:, 0]].compressed()
        vals.append(v.mean() if len(v) else np.nan)
    if not vals:
        return None
    return shown(st, 'd', lambda **k: st.d.plot_grain_av_max_shear(**k),
                 filled(st, 'd', range(st.n('d')), vals, 0), opts,
                 'Effective shear strain')


def phases_okay(st, ph):
    return ph is None or all(i < len(st.cubic) for i in ph)


def v_euler(st, ph, bg, opts):
    valid = phases_okay(st, ph)
    want = st.euler_colours(st.e.data.euler_angle, None, ph,
                            bg or (0, 0, 0)) if valid else None
    b = None if bg is None else np.array(bg, float)
    return shown(st, 'e', lambda **k: st.e.plot_euler_map(
        phases=ph, bg_colour=b, **k), want, opts, valid=valid, colour=True)


def v_ipf(st, d, ph, bg, opts):
    valid = phases_okay(st, ph)
    want = st.ipf_colours(d, None, ph, bg or (0, 0, 0)) if valid else None
    b = None if bg is None else np.array(bg, float)
    return shown(st, 'e', lambda **k: st.e.plot_ipf_map(
        np.array(d), phases=ph, bg_colour=b, **k), want, opts, valid=valid,
        colour=True)


def v_phases(st, opts):
    want = plain(st.data('e', 'phase'))
    opts = {k: v for k, v in opts.items() if k not in ('vmin', 'vmax')}
    if opts.get('on') == 'earlier':
        opts.pop('on')

    def extra(plot):
        im = plot.ax.images[st.images_before]
        got = gui.legend(plot.ax)
        names = ['Non-indexed', *st.names]
        require([g[0] for g in got] == names, 'wrong-legend',
                f'{st.op}: {[g[0] for g in got]}', 'phases')
        for i, g in enumerate(got):
            require(np.allclose(g[1], im.cmap(im.norm(i)), atol=1e-6),
                    'wrong-legend', f'{st.op}: colour of {g[0]}', 'phases')
            k = want == i
            require(np.allclose(gui.rgba(im)[k], g[1], atol=1e-6),
                    'wrong-legend', f'{st.op}: points of {g[0]}', 'phases')
    return shown(st, 'e', lambda **k: st.e.plot_phase_map(**k), want, opts,
                 defaults=dict(vmin=0, vmax=len(st.cubic)), extra=extra)


def v_pbounds(st, dilate, opts):
    b = boundary_image(st, 'e', 'phase_boundaries')
    if dilate:
        b = dilated(b)
    return shown(st, 'e', lambda **k: st.e.plot_phase_boundary_map(
        dilate=dilate, **k), b.astype(float), opts,
        defaults=dict(vmax=1, plot_colour_bar=True, cmap='gray'))


def v_bounds(st, opts):
    opts = {k: v for k, v in opts.items() if k not in (
        'plot_colour_bar', 'cmap', 'vmin', 'vmax', 'clabel')}
    return shown(st, 'e', lambda **k: st.e.plot_boundary_map(**k), None,
                 opts, defaults=dict(plot_gbs=True, boundary_colour='black'))


def v_lines(st, w, which, how, seed, opts):
    """Boundary lines added to a plot, in a colour or each by a value."""
    rng = np.random.default_rng(seed)
    which = 'grain_boundaries' if w == 'd' else which
    name = 'grain_boundaries' if which == 'own' else which
    b = st.maps[w].data[name]
    kw = {} if which == 'own' else dict(boundaries=b)
    lines = [segment(s) for s in b.lines]
    if how in ('values', 'list'):
        colour = rng.permutation(np.arange(len(lines)) * .5)
        values = sorted(zip(lines, colour.tolist()))
        if how == 'list':
            colour = colour.tolist()
    elif how == 'rgba' and len(lines) != 4:
        values, colour = None, tuple(rng.uniform(size=4).tolist())
    else:
        values, colour = None, COLOURS[seed % len(COLOURS)]

    def extra(plot):
        plot.add_grain_boundaries(kind='line', colour=colour, **kw)
        want = lines_of(st, w, name)
        seg = gui.segments(plot.ax)
        require(len(seg) >= 1 and seg[-1][0] == want, 'wrong-boundaries',
                f'{st.op}: other lines', 'lines')
        if values is not None:
            require(gui.line_values(plot.ax)[-1] == values, 'wrong-colour',
                    f'{st.op}: lines have other values', 'lines')
        elif want:
            require(seg[-1][1] is not None and np.allclose(
                seg[-1][1], [mpl.colors.to_rgba(colour)]), 'wrong-colour',
                f'{st.op}: lines in {seg[-1][1]}', 'lines')
    return shown(st, w, lambda **k: st.e.plot_euler_map(**k) if w == 'e'
                 else st.d.plot_map('max_shear', **k), None, opts,
                 extra=extra, base=1)


def v_grains(st, opts):
    lab = plain(st.e.data.grains)
    return shown(st, 'e', lambda **k: st.e.plot_grain_map(**k), lab, opts,
                 'Grain number')


def v_numbers(st, opts):
    if opts.get('on') == 'earlier':
        opts = {k: v for k, v in opts.items() if k != 'on'}
    kw_keys = ('on', 'plot_scale_bar', 'scale')
    opts = {k: v for k, v in opts.items() if k in kw_keys and k != 'on'}

    def request(**k):
        plot = st.e.plot_grain_map(**k)
        plot.add_grain_numbers()
        return plot

    def extra(plot):
        placed_numbers(st, 'e', plot)
    return shown(st, 'e', request, plain(st.e.data.grains), opts,
                 'Grain number', extra=extra)


def phase_of(st, g):
    p = st.points('e', g)
    ph = set(plain(st.data('e', 'phase'))[p[:, 1], p[:, 0]])
    return int(ph.pop()) - 1 if len(ph) == 1 and 0 not in ph else None


def mis(st, g, comp_):
    """Shown values of the points of a grain, nan where not judged."""
    p = st.points('e', g)
    i = phase_of(st, g)
    q = model.quats(st.matrices((p[:, 1], p[:, 0])))
    r = np.array(st.e.grains[g].ref_ori.quat_coef)
    a, v, sure = deviation(q, r, st.cubic[i])
    if comp_ == 0:
        return a, np.ones(len(p), bool)
    return v[:, comp_ - 1], sure


def same_angles(got, want, comp_):
    if comp_ == 0:
        # found from a cosine, which hardly changes near zero
        got, want = (np.cos(np.radians(v) / 2) for v in (got, want))
        return np.allclose(got, want, rtol=0, atol=1e-6)
    return np.allclose(got, want, atol=2e-4)


def v_mismap(st, comp_, opts):
    n = st.n('e')
    if not n or any(phase_of(st, g) is None for g in range(n)):
        return None
    opts = usable(st, 'e', opts)

    def request(**k):
        return st.e.plot_mis_ori_map(component=comp_, **k)
    kw = place(st, 'e', opts)

    def check(plot):
        want = np.zeros(st.e.shape)
        k = np.ones(st.e.shape, bool)
        for g in range(n):
            p = st.points('e', g)
            want[p[:, 1], p[:, 0]], k[p[:, 1], p[:, 0]] = mis(st, g, comp_)
        got = plain(plot.ax.images[st.images_before].get_array())
        require(got.shape == want.shape and same_angles(
            got[k], want[k], comp_), 'wrong-picture',
                f'{st.op} shows {got[k]} instead of {want[k]}', 'mismap')
        text = ('Grain reference orienation deviation (GROD)' if comp_ == 0
                else f'Rotation around {"_XYZ"[comp_]} axis')
        check_bar(st, plot, opts, text)
        overlays(st, 'e', plot, opts, st.images_before + 1)
        st.plots['e'] = plot
    return judge(st, lambda: request(**kw), map_valid(st, 'e', opts), check)


def check_bar(st, plot, opts, text):
    if opts.get('on') == 'earlier':
        return
    bar = gui.colour_bar(plot.ax)
    if opts.get('plot_colour_bar', True):
        require(bar is not None, 'wrong-colour-bar', f'{st.op}: none',
                st.what)
        want = opts.get('clabel', text)
        require(bar[1].startswith(want), 'wrong-label',
                f'{st.op} labelled {bar[1]!r}', st.what)
    else:
        require(bar is None, 'wrong-colour-bar', f'{st.op} has one', st.what)


def v_gmis(st, g, comp_, opts):
    if not st.n('e'):
        return None
    g %= st.n('e')
    if phase_of(st, g) is None:
        return None
    gr = st.e.grains[g]

    def check(plot):
        p = st.points('e', g)
        v, k = mis(st, g, comp_)
        want, k = framed(p, v), framed(p, k.astype(float)) == 1
        got = plain(plot.ax.images[0].get_array())
        empty = framed(p, np.zeros(len(p)))
        require(got.shape == want.shape and same_angles(
            got[k], want[k], comp_) and np.isnan(
                got[np.isnan(empty)]).all(), 'wrong-picture',
                f'{st.op} shows {got} instead of {want}', 'gmis')
        check_bar(st, plot, opts, 'Grain reference orientation deviation'
                  if comp_ == 0 else f'Rotation around {"_XYZ"[comp_]}')
    return judge(st, lambda: gr.plot_mis_ori(component=comp_, **opts),
                 comp_ < 4, check)


def projection(st, name):
    if name in ('Lambert', 'lambert', 'equal area'):
        return 'lambert'
    if name == 'stereo':
        return 'stereo'
    return 'stereo' if st.sc['pole'] == 'stereographic' else 'lambert'


def at(st, v, cubic, proj):
    s = sector(v, cubic, st.sc['triangle'])
    if proj == 'function':
        p = np.hypot(s[..., 0], s[..., 1])
        return np.stack([np.arctan2(p, s[..., 2]) * 0 + s[..., 2],
                         0 * p], -1)
    return project(s, projection(st, proj))


def flat_projection(*a):
    """A projection of one's own: (inclination, azimuth) or (x, y, z)."""
    if len(a) == 2:
        z = np.cos(a[0])
    else:
        z = a[2] / np.sqrt(a[0] ** 2 + a[1] ** 2 + a[2] ** 2)
    return z, 0 * z


def v_pole(st, g, which, d, proj):
    if not st.n('e'):
        return None
    g %= st.n('e')
    i = phase_of(st, g)
    gr = st.e.grains[g]
    if i is None:
        return None
    if which == 'ref':
        if gr.ref_ori is None:
            return None
        v = (quat_matrix(gr.ref_ori.quat_coef) @ (
            np.array(d, float) / np.linalg.norm(d)))[None]
        fn = gr.plot_ref_ori
    else:
        p = st.points('e', g)
        v = st.vectors(d, (p[:, 1], p[:, 0]))
        fn = gr.plot_ori_spread
    want = at(st, v, st.cubic[i], proj)
    pr = flat_projection if proj == 'function' else proj

    def check(plot):
        got = gui.scatters(plot.ax)
        require(len(got) == 1, 'wrong-poles', f'{st.op}: {len(got)} layers',
                'pole')
        same_points(st, got[0][0], want)
        sector_drawn(st, plot, st.cubic[i], proj)
    return judge(st, lambda: fn(np.array(d), projection=pr), True, check)


def ideal_cell(cubic):
    """Corners and faces (as pairs of corners) of the unit cell, the
    hexagonal one with the ratio of close packed spheres."""
    if cubic:
        c = np.array([[x, y, z] for x in (-1, 1) for y in (-1, 1)
                      for z in (-1, 1)]) * .5
        sides = [np.nonzero(c[:, i] == v)[0] for i in range(3)
                 for v in (-.5, .5)]
    else:
        a = np.arange(6) * np.pi / 3
        h = math.sqrt(8 / 3) / 2
        c = np.array([[math.cos(t), math.sin(t), z] for z in (-h, h)
                      for t in a])
        sides = [range(6), range(6, 12)] + [
            [i, (i + 1) % 6, i + 6, (i + 1) % 6 + 6] for i in range(6)]
    edges = {frozenset((i, j)) for i in range(len(c)) for j in range(i)
             if np.linalg.norm(c[i] - c[j]) < (1.1 if cubic else 1.05)
             or not cubic and j == i - 6}
    return c, {frozenset(e for e in edges if e <= set(map(int, f)))
               for f in sides}


def v_cell(st, g, oxford, place):
    if not st.n('e'):
        return None
    g %= st.n('e')
    i, gr = phase_of(st, g), st.e.grains[g]
    if i is None or gr.ref_ori is None:
        return None
    cubic = st.cubic[i]
    m = quat_matrix(gr.ref_ori.quat_coef)
    if not cubic and oxford:
        c, s = math.sqrt(3) / 2, .5
        m = np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]]) @ m
    corners, sides = ideal_cell(cubic)
    corners = corners @ m
    kw = {} if oxford else dict(OI=False)
    if place:
        from defdap import plotting
        fig = plotting.plt.figure()
        kw['ax'] = fig.add_subplot(projection='3d')
        if place == 'figax':
            kw['fig'] = fig

    def check(plot):
        if place:
            require(plot.ax is kw['ax'], 'wrong-axes', f'{st.op} drawn '
                    'elsewhere', 'cell')
        ly = gui.faces(plot.ax)
        require(len(ly) == 1 and len(ly[0]), 'wrong-cell', f'{st.op}: '
                f'{len(ly)} layers', 'cell')
        far = max(np.linalg.norm(f, axis=1).max() for f in ly[0])
        want = corners / np.linalg.norm(corners, axis=1).max()
        got = set()
        for f in ly[0]:
            dist = np.linalg.norm(f[:, None] / far - want, axis=2)
            require((dist.min(1) < 1e-3).all(), 'wrong-cell', f'{st.op}: '
                    f'corners {f / far}, expected {want}', 'cell')
            n = [int(k) for k in dist.argmin(1)]
            got.add(frozenset(frozenset((a, b)) for a, b in zip(
                n, n[1:] + n[:1]) if a != b))
        require(got == sides, 'wrong-cell', f'{st.op}: other faces', 'cell')
    return judge(st, lambda: gr.plot_unit_cell(**kw), True, check)


def v_bands(st, g, angles, period, shape, grain, negative, draw):
    """Parallel bands of high values across a grain. Angles are those of
    the bands, with y downwards."""
    if 'd' not in st.maps or not st.n('d'):
        return None
    from defdap.plotting import GrainPlot
    gr = st.d.grains[g % st.n('d')]
    y, x = np.mgrid[:shape[0], :shape[1]].astype(float)
    data = np.full(shape, .01)
    for a in angles:
        a = math.radians(a)
        d = y * math.cos(a) - x * math.sin(a)
        data += .1 * (np.abs(d % period - period / 2) < 1)
    if grain:
        a, b = shape[1] / 2, shape[0] / 2
        data[((x - a) / a) ** 2 + ((y - b) / b) ** 2 >= 1] = np.nan
    if negative:
        data = -data
    if draw == 'shown':
        fn = lambda: GrainPlot.create(gr, data, plot_slip_bands=True)
    elif draw:
        def fn():
            plot = GrainPlot(gr)
            plot.add_slip_bands(data, colour='red')
            return plot
    else:
        fn = lambda: gr.calc_slip_bands(data)
    kept = data.copy()

    def check(val):
        if draw:
            # arrows point up, with y upwards
            got = [math.degrees(math.atan2(-v, u))
                   for _, _, u, v, _, _ in gui.arrows(val.ax)]
            col = {a[5][:3] for a in gui.arrows(val.ax)}
            require(col <= {(1, 0, 0) if draw == 'added' else (0, 0, 0)},
                    'wrong-colour', f'bands drawn in {col}', 'bands')
        else:
            got = [90 - math.degrees(v) for v in val]
        def apart(a, b):
            return abs((a - b + 90) % 180 - 90)
        require(len(got) == len(angles) and all(
            min(apart(a, b) for b in got) < 6 for a in angles),
            'wrong-bands', f'bands along {angles} found along {got}',
            'bands')
        require(np.array_equal(data, kept, equal_nan=True), 'data-changed',
                'finding bands changes the data', 'bands')
    return judge(st, fn, True, check)


def v_poles(st, cubic, proj, items):
    """A pole plot drawn on by hand."""
    from defdap import plotting
    pr = flat_projection if proj == 'function' else proj

    def flat(v):
        v = np.atleast_2d(v)
        if proj == 'function':
            return np.stack([v[:, 2], 0 * v[:, 2]], -1)
        return project(v, projection(st, proj))

    def same(a, v):
        """At the projection of a direction (either end of one in the
        plane of the figure)."""
        d = np.linalg.norm(np.asarray(a) - flat(v), axis=-1)
        if abs(v[2]) < 1e-9:
            d = np.minimum(d, np.linalg.norm(np.asarray(a) - flat(-v),
                                             axis=-1))
        return (d < 1e-6).all()

    def draw():
        plot = plotting.PolePlot('IPF', 'cubic' if cubic else 'hexagonal',
                                 projection=pr)
        seen = []
        for i, n, seed, colour, up in items:
            before = (len(gui.curves(plot.ax)), len(gui.scatters(plot.ax)),
                      gui.placed_texts(plot.ax))
            a, b = (POLES[cubic][k] for k in n)
            if i == 'points':
                rng = np.random.default_rng(seed)
                ang = rng.uniform((0, 0), (1.5, 6), (1 + seed % 3, 2)).T
                kw = {} if colour is None else dict(
                    marker_colour=colour, marker_size=20)
                if up:
                    kw['marker'] = 'o'
                plot.add_points(*ang, **kw)
            elif i == 'line':
                plot.add_line(tuple(a), tuple(b), res=2 + seed % 9,
                              **(dict(plot_syms=True) if up else {}))
            else:
                kw = dict(plot_syms=True) if i == 'labels' else {}
                if up:
                    kw['label'] = 'here'
                plot.label_point(tuple(a), pad_x=.25, pad_y=-.5, **kw)
            seen.append(before)
        return plot, seen

    def check(val):
        plot, seen = val
        lines, pts, texts = (gui.curves(plot.ax), gui.scatters(plot.ax),
                             gui.placed_texts(plot.ax))
        cols = gui.marker_colours(plot.ax)
        seen.append((len(lines), len(pts), texts))
        group = model.CUBIC if cubic else model.HEX
        for (i, n, seed, colour, up), old, new in zip(items, seen, seen[1:]):
            a, b = (direction(POLES[cubic][k]) for k in n)
            what = [i, n, seed, colour, up]
            nl, ns = new[0] - old[0], new[1] - old[1]
            left = list(new[2])
            for t in old[2]:
                left.remove(t)
            count = dict(points=0, line=0, label=1, labels=len(group))[i]
            want = ((len(group) if up else 1) if i == 'line' else 0, 0 if i != 'points' else
                    2 if isinstance(colour, list) and len(colour) == 2 else
                    1, count)
            require((nl, ns, len(left)) == want, 'wrong-poles',
                    f'{what} draws {nl} lines, {ns} layers of points and '
                    f'{len(left)} texts', 'poles')
            if i == 'points':
                rng = np.random.default_rng(seed)
                al, be = rng.uniform((0, 0), (1.5, 6), (1 + seed % 3, 2)).T
                v = np.stack([np.sin(al) * np.cos(be),
                              np.sin(al) * np.sin(be), np.cos(al)], -1)
                cl = [colour] if isinstance(colour, str) else colour
                for j in range(ns):
                    same_points(st, pts[old[1] + j][0], flat(v))
                    require(cl is None or cols[old[1] + j] is not None and
                            np.allclose(cols[old[1] + j],
                                        mpl.colors.to_rgba(cl[j])),
                            'wrong-colour', f'{what} drawn in {cols}',
                            'poles')
            elif i == 'line':
                x, y = lines[old[0]]
                t = np.linspace(0, 1, 2 + seed % 9)[:, None]
                # straight between the directions as given
                la, lb = (np.linalg.norm(k) if cubic else length(k)
                          for k in (POLES[cubic][m] for m in n))
                v = a * la * (1 - t) + b * lb * t
                if (np.linalg.norm(v, axis=1) < 1e-6).any() or (
                        v[:, 2] < -1e-9).any():
                    continue
                v = v / np.linalg.norm(v, axis=1, keepdims=True)
                got = np.stack([x, y], -1)
                require(got.shape == (len(t), 2) and all(
                    same(g, k) for g, k in zip(got, v)), 'wrong-poles',
                    f'{what} drawn along {got}, expected {flat(v)}', 'poles')
                if not up:
                    continue
                # the others join ends that are symmetric to those given
                ends = np.array([[(x[0], y[0]), (x[-1], y[-1])] for x, y in
                                 lines[old[0] + 1:new[0]]])
                for j, v in enumerate((a, b)):
                    orbit = group[1:] @ v
                    orbit = [np.where(o[2] < -1e-9, -o, o) for o in orbit]
                    for xy in ends[:, j]:
                        k = next((k for k, o in enumerate(orbit)
                                  if same(xy, o)), None)
                        require(k is not None, 'wrong-poles', f'{what}: line '
                                f'ends at {xy}', 'poles')
                        del orbit[k]
            else:
                orbit = group @ a if i == 'labels' else a[None]
                orbit = np.where(orbit[:, 2:] < -1e-9, -orbit, orbit) \
                    if i == 'labels' else orbit
                for x, y, text in left:
                    xy = x - .25, y + .5
                    k = next((k for k, v in enumerate(orbit)
                              if same(xy, v)), None)
                    require(k is not None, 'wrong-poles',
                            f'{what}: label {text} at {xy}', 'poles')
                    if up:
                        require(text == 'here', 'wrong-poles',
                                f'{what} labelled {text}', 'poles')
                    else:
                        require(same(xy, direction(parsed(text))),
                                'wrong-poles',
                                f'{what}: label {text} at {xy}', 'poles')
                    orbit = np.delete(orbit, k, 0)
    return judge(st, draw, True, check)


def v_key(st, kind, cubic, seed, scaling, number, other):
    """The legend and colour bar of a plot drawn by hand, with another
    plot made before or after it."""
    from defdap import plotting
    rng = np.random.default_rng(seed)
    n = 2 + seed % 4
    sizes = rng.integers(1, 200, n).astype(float)
    values = rng.uniform(1, 5, n)
    ang = rng.uniform((0, 0), (1.5, 6), (n, 2)).T

    def draw():
        def more():
            return plotting.HistPlot.create(np.arange(5.), label='other')
        rest = [more()] if other == 'before' else []
        if kind == 'pole':
            plot = plotting.PolePlot(
                'IPF', 'cubic' if cubic else 'hexagonal')
            plot.add_points(*ang, s=sizes, c=values)
        else:
            plot = plotting.HistPlot.create(
                values, bins=3, label='these',
                plot_type='scatter' if kind == 'hist' else kind)
        if other == 'after':
            rest.append(more())
        if kind == 'pole':
            plot.add_legend(label='Size', number=number, scaling=scaling)
            plot.add_colour_bar('Values')
        else:
            plot.add_legend()
        return plot, rest

    def check(val):
        plot, rest = val
        got = gui.marks(plot.ax)
        require(got is not None and not any(
            gui.marks(r.ax) for r in rest), 'wrong-axes',
            f'{st.op}: the legend is {got}, of another plot '
            f'{[gui.marks(r.ax) for r in rest]}', 'key')
        if kind != 'pole':
            require([g[0] for g in got[1]] == ['these'], 'wrong-legend',
                    f'{st.op}: {got}', 'key')
            return
        require(got[0] == 'Size' and all(
            abs(float(t) * scaling - s) <= .01 * s + .5 * scaling
            for t, s in got[1]), 'wrong-legend', f'{st.op}: {got}', 'key')
        bar = gui.colour_bar(plot.ax)
        require(bar is not None and bar[1] == 'Values' and np.allclose(
            bar[0].get_array(), values), 'wrong-colour-bar',
            f'{st.op}: {bar}', 'key')
    return judge(st, draw, True, check)


def length(idc):
    t = np.radians([-30, 90, 210])
    return float(np.linalg.norm([
        np.dot(idc[:3], np.cos(t)), np.dot(idc[:3], np.sin(t)),
        idc[3] * .8165]))


def same_points(st, got, want):
    got, want = list(got), list(want)
    require(len(got) == len(want), 'wrong-poles', f'{st.op}: {len(got)} '
            f'points instead of {len(want)}', st.what)
    left = np.array(want)
    for q in got:
        dist = np.linalg.norm(left - q, axis=1)
        k = dist.argmin() if len(dist) else None
        require(k is not None and dist[k] < 1e-5, 'wrong-poles',
                f'{st.op}: point at {q}, expected {want}', st.what)
        left = np.delete(left, k, 0)


def sector_drawn(st, plot, cubic, proj):
    """Corners of the sector are drawn and labelled."""
    if proj == 'function':
        return
    c = np.array(CORNERS[cubic])
    if not cubic and st.sc['triangle'] == 'down':
        c = c * [-1, 1, 1]
    xy = project(c, projection(st, proj))
    ends = []
    for x, y in gui.curves(plot.ax):
        ends += [(x[0], y[0]), (x[-1], y[-1])]
    require(len(ends) == 6, 'wrong-sector', f'{st.op}: {len(ends) // 2} '
            'lines', st.what)
    for q in xy:
        n = sum(math.hypot(a - q[0], b - q[1]) < 1e-6 for a, b in ends)
        require(n == 2, 'wrong-sector', f'{st.op}: sector drawn to {ends} '
                f'instead of {xy}', st.what)
    labels = gui.placed_texts(plot.ax)
    require(len(labels) == 3, 'wrong-sector', f'{st.op}: {labels}', st.what)
    for q in xy:
        n = sum(abs(a - q[0]) < 1e-6 and abs(b - q[1]) < .02
                for a, b, _ in labels)
        require(n == 1, 'wrong-sector', f'{st.op}: labels at {labels} '
                f'instead of {xy}', st.what)
    for a, b, text in labels:
        q = project(direction(parsed(text)), projection(st, proj))
        require(abs(a - q[0]) < 1e-6 and abs(b - q[1]) < .02, 'wrong-sector',
                f'{st.op}: label {text} at {a, b}', st.what)


def v_gipf(st, d, given, how, proj, bar):
    n = st.n('e')
    if not n or not st.refs or len(st.cubic) > 1 or any(
            phase_of(st, g) is None for g in range(n)):
        return None
    lst, valid = okay(lambda: st.grain_ids('e', given))
    arr = st.e.data.own0
    vals = []
    if not lst and valid:
        return None
    for g in lst or ():
        p = st.points('e', g)
        vals.append(plain(arr)[p[:, 1], p[:, 0]].mean() if how == 'map'
                    else .25 * g + 1)
    kw = dict(map_data=arr) if how == 'map' else dict(grain_data=vals)
    if not np.isfinite(vals).all():
        return None

    def check(plot):
        dd = np.array(d, float) / np.linalg.norm(d)
        want = [at(st, quat_matrix(st.e.grains[g].ref_ori.quat_coef) @ dd,
                   st.cubic[0], proj) for g in lst]
        got = gui.scatters(plot.ax)
        require(len(got) == 1 and got[0][1] is not None and
                len(got[0][0]) == len(want), 'wrong-poles',
                f'{st.op}: {got}', 'gipf')
        for (xy, c, w, v) in zip(*got[0], want, vals):
            require(np.linalg.norm(xy - w) < 1e-5 and abs(c - v) < 1e-9,
                    'wrong-poles', f'{st.op}: {c} at {xy} instead of {v} at '
                    f'{w}', 'gipf')
        require((gui.colour_bar(plot.ax) is not None) == bar,
                'wrong-colour-bar', f'{st.op}', 'gipf')
    return judge(st, lambda: st.e.plot_grain_data_ipf(
        np.array(d), grain_ids=given, projection=proj,
        plot_colour_bar=bar, **kw), valid, check)


CHANGES = dict(tol=tol, regrain=regrain, rotate=rotate, refs=refs, own=own,
               set=own, crop=crop, mask=mask, scale=scale)
VIEWS = dict(map=v_map, gmap=v_gmap, average=v_average, data=v_data,
             coarse=v_coarse, hist=v_hist, profile=v_profile, stats=v_stats,
             shear=v_shear, bands=v_bands, euler=v_euler, ipf=v_ipf, phases=v_phases,
             pbounds=v_pbounds, bounds=v_bounds, lines=v_lines, grains=v_grains,
             numbers=v_numbers, mismap=v_mismap, gmis=v_gmis, pole=v_pole,
             outline=v_outline, unknown=v_unknown, gnumbers=v_gnumbers, gipf=v_gipf, cell=v_cell, poles=v_poles,
             key=v_key, fine=v_fine)
OPS = dict(VIEWS, interrupted=interrupted)


def body(sc, run, kit):
    with contextlib.redirect_stdout(io.StringIO()):
        st = State(sc, run, kit)
    trail = []
    for op in sc['ops']:
        run.steps += 1
        k = op[0]
        if k in CHANGES:
            with contextlib.redirect_stdout(io.StringIO()):
                out = CHANGES[k](st, *op[1:])
            st.changed |= out is not None
        else:
            out = do(st, op)
        if out is None:
            run.probe('nothing to do: ' + k)
            continue
        if out in ('refused', 'interrupted'):
            st.changed = True
            if out == 'refused':
                run.fault('invalid request')
        key = [v for v in op[1:3] if isinstance(v, str)]
        run.log(k, *key, out)
        trail.append((k, *key, out))
    run.key(trail)
    run.nontrivial = st.shown


def execute(sc, run):
    import defdap
    old = {k: defdap.defaults[k] for k in ('ipf_triangle_convention',
                                           'pole_projection')}

    def go(kit):
        util.reset_globals()
        try:
            defdap.defaults['ipf_triangle_convention'] = sc['triangle']
            defdap.defaults['pole_projection'] = sc['pole']
            with warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                body(sc, run, kit)
        finally:
            for k, v in old.items():
                defdap.defaults[k] = v
            util.reset_globals()
    gui.confirmed(run, sc['kit'], go)
