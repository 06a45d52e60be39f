"""C11: homologous points and the transforms between frames follow what the
user did to each frame."""
import os

import numpy as np

from dsim import gui, util, world
from dsim.core import SimCrash, SimTimeout, Violation
from dsim.util import clear_tb, require

ID = 'C11'
LEVEL = 'exploration'
RUNS = dict(quick=3000, thorough=60000)
RULE = ('A run has maps in two or three frames and a user who picks, moves '
        'and saves homologous points in several open windows (left, right, '
        'shift clicks, clicks outside, arrow and other keys, buttons), sets, '
        'updates and shares lists of points from a program, links frames '
        'with different transforms, asks for transforms in both senses, '
        'warps images and lines, and makes every kind of invalid request, '
        'in any order. After every step the points of every frame must be '
        'those of the model. Non-trivial: a transform was estimated after '
        'points were changed. Distinct: sequences of (operation, outcome).')
ASSUMPTIONS = [
    'A transform is right if it is the one scikit-image estimates for the '
    'points the frames should have.',
    'Image values nearer than 1e-6 to a rounding limit are not compared.',
]
REAL = ['defdap.experiment', 'defdap.plotting', 'defdap.hrdic',
        'defdap.ebsd', 'scikit-image']
STUB = ['matplotlib (most runs)', 'the user']
MEASURE = 'distinct sequences of (operation, outcome)'
TYPES = ['affine', 'affine', 'projective', 'polynomial', 'piecewise_affine']


def warmup():
    util.warm_numba()


def pt(r, hi=7):
    return [r.randint(0, hi), r.randint(0, hi)]


def layout(r):
    """A list of points; usually fit for an affine transform."""
    k = r.random()
    if k < .15:
        n = r.choice([0, 1, 2, 3, 4])
        return [pt(r) for _ in range(n)]
    if k < .25:                                  # in line
        return [[i, 2 * i] for i in range(r.choice([3, 4, 6]))]
    base = [[0, 0], [7, 0], [0, 6], [6, 7], [3, 2], [2, 5]]
    n = r.choice([4, 6, 6, 6, 6])
    return base[:n]


def affine(r):
    a = r.uniform(-.2, .2)
    s = r.choice([1., 1., .9, 1.15])
    return [s * np.cos(a), -s * np.sin(a), r.choice([0, 1, -1, 0.5]),
            s * np.sin(a), s * np.cos(a), r.choice([0, 2, -1, .25])]


def generate(r):
    nf = r.choice([2, 2, 3])
    ops = []
    if r.random() < .85:
        # frames that can be related to each other
        f = r.randrange(nf)
        g = (f + r.randint(1, nf - 1)) % nf
        start = [['set', f, layout(r), r.choice(['list', 'array'])],
                 ['map', f, g, affine(r), r.choice([0, 0, .1])],
                 ['link', *r.choice([[f, g], [g, f]]), r.choice(TYPES),
                  r.choice([None, None, 2])]]
        if r.random() < .3:
            r.shuffle(start)
        ops += start
    for _ in range(r.randint(3, 22)):
        f, g = r.randrange(nf), r.randrange(nf)
        w = r.randrange(3)
        k = r.choice(['set', 'set', 'map', 'map', 'share', 'open', 'open',
                      'click', 'click', 'key', 'save', 'pick', 'pick',
                      'update', 'update', 'link', 'link', 'transform',
                      'transform', 'transform', 'image', 'lines', 'mutate',
                      'points'])
        if k == 'set':
            ops.append([k, f, layout(r), r.choice(['list', 'array', 'tuple'])])
        elif k == 'map':
            # the points of one frame brought to the other by a map
            ops.append([k, f, g, affine(r), r.choice([0, 0, 0, .1])])
        elif k == 'share':
            ops.append([k, f, g])
        elif k == 'open':
            ops.append([k, f, r.choice([None, None, None, 'pattern'])])
        elif k in ('click', 'pick'):
            op = ['click', w, round(r.uniform(-.45, 6.4), 2),
                  round(r.uniform(-.45, 6.4), 2),
                  r.choice(['map'] * 6 + ['off', 'button']),
                  *r.choice([[3, None]] * 4 + [[1, 'shift'], [1, None],
                                               [2, None], [1, 'control']])]
            ops.append(op)
            if k == 'pick':
                op[4:] = ['map', 3, None]
                for _ in range(r.randint(0, 2)):
                    ops.append(['key', w, r.choice(KEYS)])
                ops.append(['save', w])
        elif k == 'key':
            ops.append([k, w, r.choice(KEYS)])
        elif k == 'save':
            ops.append([k, w])
        elif k == 'update':
            ops.append([k, f, r.choice([0, 1, 2, 5, 9, -1, -1, 1.0, None,
                                        '0']),
                        r.choice([['new', pt(r)], ['new', [2.5, 3]],
                                  ['delta', [1, -2]], ['delta', [-0.5, 0]],
                                  ['none', None], ['new', [1]],
                                  ['new', [1, 2, 3]], ['delta', [1]],
                                  ['delta', [1, None]]])])
        elif k == 'link':
            ops.append([k, f, g, r.choice(TYPES), r.choice([None, None, 2])])
        elif k == 'transform':
            ops.append([k, f, g])
        elif k == 'image':
            ops.append([k, f, g, r.randrange(1 << 20), r.random() < .15])
        elif k == 'lines':
            ops.append([k, f, g, [[pt(r), pt(r)] for _ in
                                  range(r.randint(1, 4))]])
        elif k == 'mutate':
            ops.append([k, f])
        elif k == 'points':
            ops.append([k, f])
    return dict(frames=nf, seed=r.randrange(1 << 30), ops=ops,
                one_map_each=r.random() < .7,
                kit='real' if r.random() < .03 else 'fake', _lists=['ops'])


KEYS = ['left', 'right', 'up', 'down', 'shift+left', 'shift+right',
        'shift+up', 'shift+down', 'ctrl+left', 'a', 'shift', None, 'enter',
        'left+x']


class Win:
    def __init__(self, fig, frame, binning):
        self.fig, self.frame, self.binning = fig, frame, binning
        self.sel = None
        self.ax = gui.image_axes(fig)


def transform_of(ttype, order, a, b, reverse):
    """What scikit-image estimates from the points (None: it fails)."""
    from skimage import transform as tf
    cls = dict(piecewise_affine=tf.PiecewiseAffineTransform,
               projective=tf.ProjectiveTransform,
               polynomial=tf.PolynomialTransform,
               affine=tf.AffineTransform)[ttype]
    t = cls()
    kw = {} if order is None else dict(order=order)
    if reverse and ttype == 'polynomial':
        a, b = b, a
    try:
        ok = t.estimate(np.array(a), np.array(b), **kw)
        if not ok:
            return None
        if reverse and ttype != 'polynomial':
            t = t.inverse
        t(np.array([[1., 2.]]))
        return t
    except (SimCrash, SimTimeout):
        raise
    except Exception as e:
        clear_tb(e)
        return None


class State:
    def __init__(self, sc, run, kit):
        import matplotlib  # noqa: F401
        from defdap.experiment import Experiment, Frame
        self.run, self.kit = run, kit
        self.exp = Experiment()
        self.frames = [Frame() for _ in range(sc['frames'])]
        rng = np.random.default_rng(sc['seed'])
        self.maps = []
        for i, fr in enumerate(self.frames):
            if i == 1:
                m = world.ebsd_map(run, dict(
                    shape=[7, 7], seed=sc['seed'], grains=2, phases=[0]),
                    f'e{i}{kit.kind}', experiment=self.exp, frame=fr)
            else:
                m = world.dic_map(run, dict(
                    shape=[7, 7], seed=sc['seed'] + i, binning=4),
                    f'd{i}{kit.kind}', experiment=self.exp, frame=fr)
                from skimage.io import imsave
                p = os.path.join(run.scratch, f'p{i}{kit.kind}.png')
                imsave(p, rng.integers(0, 255, (14, 14)).astype(np.uint8),
                       check_contrast=False)
                m.set_pattern(os.path.basename(p), 2)
            self.maps.append(m)
        self.model = [[] for _ in self.frames]
        self.given = [None] * sc['frames']
        self.links = {}
        self.wins = []

    def points(self, f):
        return [tuple(float(v) for v in p)
                for p in self.frames[f].homog_points]

    def compare(self, what):
        for f in range(len(self.frames)):
            got = self.points(f)
            want = [tuple(float(v) for v in p) for p in self.model[f]]
            require(got == want, 'wrong-points', f'after {what}: frame {f} '
                    f'has {got} instead of {want}', what)


def num(op):
    """Valid new value of an update, or None."""
    kind, v = op
    return v if (kind in ('new', 'delta') and len(v) == 2
                 and None not in v) else None


def body(sc, run, kit):
    st = State(sc, run, kit)
    trail, changed, estimated = [], False, 0
    for op in sc['ops']:
        k = op[0]
        run.steps += 1
        kit.take_errors()
        out = step(st, op)
        if out == 'refused':
            run.fault('invalid request')
        elif out in ('off', 'ignored', 'nothing selected'):
            run.fault('stray user event')
        errs = kit.take_errors()
        require(not errs, 'unexpected-exception',
                f'{op} raises {errs[:1]}', k)
        run.log(k, out, [len(m) for m in st.model])
        trail.append((k, out))
        st.compare(k)
        if k in ('set', 'map', 'save', 'update'):
            changed = True
        if out == 'estimated':
            estimated += changed
    run.key(trail)
    run.nontrivial = estimated > 0


def refuse(fn, what, note=''):
    s, v = util.outcome(fn)
    if s == 'ok':
        raise Violation('invalid-accepted', f'{what} was accepted {note}',
                        what)
    clear_tb(v)
    return 'refused'


def step(st, op):
    k = op[0]
    if k == 'set':
        _, f, pts, how = op
        arg = [tuple(p) for p in pts]
        if how == 'array':
            arg = np.array(arg, float).reshape(-1, 2)
        elif how == 'tuple':
            arg = tuple(arg)
        st.frames[f].set_homog_points(arg)
        st.given[f] = arg
        st.model[f] = [tuple(p) for p in pts]
        return len(pts)
    if k == 'map':
        _, f, g, a, noise = op
        if f == g:
            return 'skip'
        pts = [(a[0] * x + a[1] * y + a[2] + noise * ((i * 7) % 5),
                a[3] * x + a[4] * y + a[5] - noise * ((i * 3) % 4))
               for i, (x, y) in enumerate(st.model[f])]
        st.frames[g].set_homog_points(pts)
        st.given[g] = pts
        st.model[g] = pts[:]
        return len(pts)
    if k == 'share':
        _, f, g = op
        if f == g:
            return 'skip'
        arg = st.frames[f].homog_points
        st.frames[g].set_homog_points(arg)
        st.model[g] = list(st.model[f])
        return 'shared'
    if k == 'mutate':
        # the caller goes on using what it passed
        arg = st.given[op[1]]
        if isinstance(arg, np.ndarray) and len(arg):
            arg += 3
        elif isinstance(arg, list):
            arg.append((9, 9))
        return 'mutated'
    if k == 'points':
        return len(st.points(op[1]))
    if k == 'update':
        return update(st, *op[1:])
    if k == 'open':
        if len(st.wins) >= 3:
            return 'skip'
        m = st.maps[op[1]]
        name = op[2] if op[2] and op[1] != 1 else None
        n = len(st.kit.figures)
        m.set_homog_point(map_name=name)
        w = Win(st.kit.figures[n], op[1], 2 if name else 1)
        st.wins.append(w)
        shown(st, w, 'open')
        return 'window'
    if k in ('click', 'key', 'save'):
        if op[1] >= len(st.wins):
            return 'skip'
        return event(st, st.wins[op[1]], op)
    if k == 'link':
        _, f, g, ttype, order = op
        if f == g or (g, f) in st.links:
            return 'skip'
        props = dict(type=ttype)
        if ttype == 'polynomial' and order:
            props['order'] = order
        st.exp.link_frames(st.frames[f], st.frames[g], props)
        st.links[f, g] = (ttype, props.get('order'))
        return 'linked'
    return relation(st, op)


def update(st, f, idx, what):
    fr, pts = st.frames[f], st.model[f]
    kind, v = what
    kw = dict(new=dict(new_point=tuple(v or ())),
              delta=dict(delta=tuple(v or ())), none={})[kind]

    def call():
        return fr.update_homog_points(idx, **kw)
    valid = (isinstance(idx, int) and idx < len(pts) and num(what) is not None
             and not (idx < 0 and kind == 'new'))
    if not valid:
        if isinstance(idx, int) and idx < 0 and not pts:
            # no points to update
            s, v = util.outcome(call)
            return 'nothing to do'
        if what == ['new', [1, None]]:
            return 'skip'
        return refuse(call, 'update', repr((idx, what)))
    call()
    for i in range(len(pts)) if idx < 0 else [idx]:
        pts[i] = tuple(v) if kind == 'new' else (pts[i][0] + v[0],
                                                 pts[i][1] + v[1])
    return 'updated'


def shown(st, w, what):
    """The window shows the points of the frame and the selected point."""
    layers = gui.shown_points(w.ax)
    want = sorted((p[0] * w.binning, p[1] * w.binning)
                  for p in st.model[w.frame])
    require(any(sorted(ly) == want or np.allclose(
        sorted(ly), want) if len(ly) == len(want) else False
        for ly in layers), 'wrong-display', f'after {what} the window shows '
        f'{layers}, points are {want}', what)


def selected(st, w, what):
    layers = gui.shown_points(w.ax)
    if w.sel is not None:
        require(any(ly == [w.sel] for ly in layers), 'wrong-display',
                f'after {what} the window shows {layers}, selected is '
                f'{w.sel}', what)


def event(st, w, op):
    kit = st.kit
    if op[0] == 'click':
        _, _, x, y, where, button, key = op
        ax = w.ax
        if where == 'button':
            ax = kit.widget(w.fig, 'Save point').ax
            if button == 1:
                where, button = 'off', 3
        if where == 'off':
            ax = None
        if ax is not None and ax is not w.ax:
            x = y = .5
        at = kit.mouse(w.fig, 'button_press_event', ax, x, y, button, key)
        kit.mouse(w.fig, 'button_release_event', ax, x, y, button, key)
        if at is None or ax is not w.ax:
            selected(st, w, 'click')
            return 'off'
        if button == 3 or (button == 1 and key == 'shift'):
            w.sel = (float(np.floor(at[0] + .5)), float(np.floor(at[1] + .5)))
            selected(st, w, 'click')
            return 'selected'
        selected(st, w, 'click')
        return 'ignored'
    if op[0] == 'key':
        key = op[2]
        kit.key(w.fig, key, w.ax)
        if key is None or w.sel is None:
            selected(st, w, 'key')
            return 'ignored'
        parts = key.split('+')
        d = dict(left=(-1, 0), right=(1, 0), up=(0, -1),
                 down=(0, 1)).get(parts[-1])
        if d is None:
            selected(st, w, 'key')
            return 'ignored'
        n = 10 if parts == ['shift', parts[-1]] else 1
        w.sel = (w.sel[0] + n * d[0], w.sel[1] + n * d[1])
        selected(st, w, 'key')
        return 'moved'
    kit.click(w.fig, 'Save point')
    if w.sel is None:
        return 'nothing selected'
    p = tuple(float(np.round(v / w.binning)) for v in w.sel)
    st.model[w.frame].append(p)
    w.sel = None
    shown(st, w, 'save')
    require(all(v == int(v) for v in st.points(w.frame)[-1]), 'wrong-points',
            'not at a point of the map', 'save')
    return 'saved'


def relation(st, op):
    k, f, g = op[:3]
    f1, f2 = st.frames[f], st.frames[g]
    fwd, rev = (f, g) in st.links, (g, f) in st.links

    if k == 'transform':
        def call():
            return st.exp.get_frame_transform(f1, f2)(GRID)
    elif k == 'image':
        img = np.random.default_rng(op[3]).random((7, 7))

        def call():
            if op[4]:
                return st.exp.warp_image(img, f1, f2, crop=False,
                                         order=0)
            return st.exp.warp_image(img, f1, f2, order=0)
    else:
        lines = [tuple(tuple(p) for p in ln) for ln in op[3]]

        def call():
            return st.exp.warp_lines(lines, f1, f2)
    if not (fwd or rev):
        return refuse(call, k, 'between frames that are not linked')
    if k == 'image':
        fwd, rev = rev, fwd           # each point is looked up backwards
        f, g = g, f
    ttype, order = st.links[(f, g) if fwd else (g, f)]
    a, b = (f, g) if fwd else (g, f)
    want = transform_of(ttype, order, st.model[a], st.model[b], rev)
    if want is None:
        out = refuse(call, k, f'with points {st.model[a]} {st.model[b]} '
                     f'for {ttype}')
        st.run.probe('no transform from the points')
        return out
    if k == 'image' and op[4] and (ttype != 'affine' or not (
            0.1 < abs(np.linalg.det(want.params[:2, :2])) < 10)):
        return 'skip'           # the image has no sensible size
    s, got = util.outcome(call)
    if s == 'exc':
        msg = f'{type(got).__name__}: {got}'
        clear_tb(got)
        raise Violation('valid-refused', f'{k} {ttype} from {st.model[a]} '
                        f'to {st.model[b]}: {msg}', k)
    if k == 'transform':
        exp = want(GRID)
        require(close(got, exp), 'wrong-transform', f'{ttype} '
                f'{"forward" if fwd else "reverse"}: {np.asarray(got)[:3]} '
                f'instead of {exp[:3]} from {st.model[a]} {st.model[b]}', k)
    elif k == 'image' and not op[4]:
        require(np.shape(got) == img.shape, 'wrong-image',
                f'shape {np.shape(got)}', k)
        for y in range(7):
            for x in range(7):
                u, v = want(np.array([[float(x), float(y)]]))[0]
                if not (np.isfinite(u) and np.isfinite(v)):
                    continue
                if min(abs(u - np.floor(u) - .5), abs(v - np.floor(v) - .5)
                       ) < 1e-6 or max(abs(u), abs(v)) > 1e6:
                    continue
                i, j = int(np.floor(v + .5)), int(np.floor(u + .5))
                # scikit-image is not exact about the outermost half point
                if not (0 <= u <= 6 and 0 <= v <= 6):
                    if 0 <= i < 7 and 0 <= j < 7:
                        continue
                    val = 0
                else:
                    val = img[i, j]
                require(abs(got[y, x] - val) < 1e-9, 'wrong-image',
                        f'{ttype}: point ({x}, {y}) is {got[y, x]}, '
                        f'({u:.3f}, {v:.3f}) of the image is {val}', k)
    elif k == 'lines':
        exp = want(np.array(lines, float).reshape(-1, 2))
        flat = np.array(got, float).reshape(-1, 2)
        require(len(flat) == len(exp), 'wrong-lines', 'number', k)
        for q, e in zip(flat, exp):
            for u, v in zip(q, e):
                if not np.isfinite(v) or abs(v - np.round(v)) < 1e-6:
                    continue
                require(abs(u - (np.floor(v) + .5)) < 1e-9, 'wrong-lines',
                        f'{u} for {v}', k)
    return 'estimated'


GRID = np.array([[x + .25, y + .25] for x in range(0, 7, 2)
                 for y in range(0, 7, 2)])


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    big = np.nanmax(np.abs(b)) if np.isfinite(b).any() else 1
    return np.allclose(a, b, rtol=1e-6, atol=1e-6 * max(1, big),
                       equal_nan=True)


def execute(sc, run):
    def go(kit):
        try:
            body(sc, run, kit)
        finally:
            util.reset_globals()
    gui.confirmed(run, sc['kit'], go)
