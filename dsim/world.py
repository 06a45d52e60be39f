"""Maps built through the real loaders from synthetic truth, and snapshots
of everything a user can observe of them."""
import os

import numpy as np

from . import ref
from .util import clear_tb


def ebsd_map(run, spec, name='e', experiment=None, fmt='bin', **kw):
    from defdap import ebsd
    t = ref.ebsd_truth(spec)
    base = os.path.join(run.scratch, name)
    arg, dtype = ref.write_ebsd(base, t, fmt)
    return ebsd.Map(arg, data_type=dtype, experiment=experiment, **kw)


def dic_map(run, spec, name='d', experiment=None, **kw):
    from defdap import hrdic
    t = ref.dic_truth(spec)
    arg, dtype = ref.write_dic(os.path.join(run.scratch, name + '.txt'), t)
    return hrdic.Map(arg, data_type=dtype, experiment=experiment, **kw)


def link(dic, em, scale=1.0, shift=(0., 0.), ttype='affine', angle=0.0):
    """Homologous points of an affine relation ebsd = scale*R*dic + shift,
    given on the (cropped) pixel grid of the DIC map."""
    ny, nx = dic.shape
    pts = [(0, 0), (nx, 0), (0, ny), (nx, ny), (nx // 2, ny // 3),
           (nx // 3, ny - 1)]
    c, s = np.cos(angle), np.sin(angle)
    out = []
    for x, y in pts:
        out.append((scale * (c * x - s * y) + shift[0],
                    scale * (s * x + c * y) + shift[1]))
    dic.frame.set_homog_points([tuple(float(v) for v in p) for p in pts])
    em.frame.set_homog_points([tuple(float(v) for v in p) for p in out])
    dic.link_ebsd_map(em, transform_type=ttype)


def arr(a):
    if isinstance(a, np.ma.MaskedArray):
        return ('masked', np.ma.getmaskarray(a).copy(),
                np.array(a.filled(0)))
    a = np.asarray(a)
    if a.dtype == object:
        return np.array([q.quat_coef for q in a.flat]).reshape(
            a.shape + (4,))
    return a.copy()


def val(fn):
    """Value of an observation, or what it raises."""
    try:
        return fn()
    except Exception as e:
        out = ('raises', type(e).__name__)
        clear_tb(e)
        return out


def points(b):
    return sorted((int(x), int(y)) for x, y in b)


EBSD_KEYS = ('phase', 'euler_angle', 'band_contrast', 'orientation',
             'grain_boundaries', 'phase_boundaries', 'grains', 'list', 'KAM',
             'GND', 'Nye_tensor', 'proxigram', 'GROD', 'GROD_axis', 'keys',
             'slip_traces', 'av')


def ebsd_obs(m, key):
    """One observation of an EBSD map, computing it if needed."""
    d = m.data
    if key in ('grain_boundaries', 'phase_boundaries'):
        b = d[key]
        return (points(b.points_x), points(b.points_y))
    if key == 'list':
        return [grain_obs(g) for g in m.grains]
    if key == 'keys':
        return sorted(d.keys())
    if key == 'slip_traces':
        return [val(lambda g=g: [float(v) for v in g.slip_traces])
                for g in m.grains]
    if key == 'av':
        return [val(lambda g=g: arr(g.data.band_contrast).mean())
                for g in m.grains]
    if key in ('shape',):
        return tuple(m.shape)
    if key == 'network':
        nn = m.neighbour_network
        if nn is None:
            return None
        return network_obs(nn)
    return arr(d[key])


def network_obs(nn):
    """Nodes, and for each edge the point pairs along the boundary, the
    first point of each in the grain with the lower id."""
    edges = {}
    for a, b, at in nn.edges(data=True):
        i, j = sorted((int(a.grain_id), int(b.grain_id)))
        seg = at.get('boundary')
        if seg is None:
            edges[i, j] = None
            continue
        flip = seg.grain1.grain_id != i
        out = []
        for kind in (0, 1):
            for p, q in seg.boundary_point_pairs(kind):
                p, q = [(int(v[0]), int(v[1])) for v in (p, q)]
                out.append((q, p) if flip else (p, q))
        edges[i, j] = sorted(out)
    return (sorted(int(g.grain_id) for g in nn.nodes), sorted(edges.items()))


def grain_obs(g):
    return (int(g.grain_id), points(g.data.point),
            None if getattr(g, 'phase', None) is None else g.phase.name,
            None if getattr(g, 'phase_id', None) is None
            else int(g.phase_id))


def snap(m, keys, obs=ebsd_obs):
    return {k: val(lambda k=k: obs(m, k)) for k in keys}


DIC_KEYS = ('displacement', 'f', 'e', 'max_shear', 'grain_boundaries',
            'grains', 'list', 'shape', 'keys', 'mask')


def dic_obs(m, key):
    d = m.data
    if key == 'grain_boundaries':
        return points(d[key].points)
    if key == 'list':
        out = []
        for g in m.grains:
            e = getattr(g, 'ebsd_grain', None)
            out.append((int(g.grain_id), points(g.data.point),
                        None if e is None else int(e.grain_id),
                        None if e is None else points(e.data.point)))
        return out
    if key == 'shape':
        return tuple(int(v) for v in m.shape)
    if key == 'keys':
        return sorted(d.keys())
    if key == 'mask':
        v = d.mask
        return None if v is None else arr(v)
    if key == 'homog':
        return [tuple(float(x) for x in p) for p in m.frame.homog_points]
    return arr(d[key])


def grains_consistent(grains, glist):
    """The grain map and the grain list describe the same grains."""
    grains = np.asarray(grains)
    n = len(glist)
    labels = set(int(v) for v in np.unique(grains) if v > 0)
    if labels != set(range(1, n + 1)):
        return f'labels {sorted(labels)[:12]} for {n} grains'
    for i, g in enumerate(glist):
        want = sorted((int(x), int(y)) for y, x in np.argwhere(
            grains == i + 1))
        if g[0] != i:
            return f'grain {i} has id {g[0]}'
        if g[1] != want:
            return (f'grain {i} lists {len(g[1])} points, the map has '
                    f'{len(want)}')
    return None
