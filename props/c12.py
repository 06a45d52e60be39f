"""C12: windows show and select what the user points at."""
import numpy as np

from dsim import gui, model, util, world
from dsim.core import SimCrash, SimTimeout, Violation
from dsim.util import clear_tb, require

ID = 'C12'
LEVEL = 'exploration'
RUNS = dict(quick=2000, thorough=40000)
RULE = ('A run has two or three EBSD maps and a linked HRDIC map, and a user '
        'with several windows open on them: grain selection with or without '
        'pop-out, grain neighbours, line profiles, setting origins and '
        'linking grains between maps. The user clicks and drags on the maps, '
        'on buttons and off the axes, adds layers to the windows, wipes, '
        'closes and reopens them in any order. After each step the selected '
        'grains, links, origins and the contents of the windows must be '
        'those of the model. Non-trivial: a grain was selected and another '
        'thing done after it. Distinct: sequences of (operation, outcome).')
ASSUMPTIONS = [
    'Where a guess of a linked grain finds no grain, that map keeps its '
    'selection or has none.',
    'What a window of the linker other than the one clicked shows is '
    'compared only in the windows opened last.',
    'Positions within 1e-6 of a rounding limit are not compared.',
]
REAL = ['defdap.base', 'defdap.ebsd', 'defdap.hrdic', 'defdap.plotting']
STUB = ['matplotlib (most runs)', 'the user']
MEASURE = 'distinct sequences of (operation, outcome)'
COL = ['red', 'yellow', 'cyan', 'black']


def warmup():
    util.warm_numba()


def generate(r):
    ne = r.choice([2, 2, 3])
    specs = []
    for _ in range(ne):
        specs.append(dict(
            shape=[r.choice([5, 6, 8, 9]), r.choice([5, 7, 8, 10])],
            seed=r.randrange(1 << 30), grains=r.choice([1, 2, 3, 5, 8]),
            phases=r.choice([[0], [0], [2], [0, 2]]), noise=.1,
            nonindexed=r.choice([0, 0, .1, .3]),
            step=r.choice([.5, .5, 1., .25, .3])))
    ops = [['open', r.randrange(ne + 1),
            r.choice(['locate', 'display', 'neigh', 'profile']), {}]
           if r.random() < .7 else
           [r.choice(['origin', 'start', 'start'])]]
    theme = r.choice(['any', 'any', 'link', 'link', 'profile', 'select'])
    if theme != 'any':
        ops = [['start'] if theme == 'link' else
               ['open', r.randrange(ne + 1), 'profile' if theme == 'profile'
                else r.choice(['display', 'neigh']), {}]]
    for _ in range(r.randint(4, 24)):
        w = r.randrange(5)
        if theme == 'link' and r.random() < .6:
            # windows are counted back from the last one opened
            for _ in range(r.choice([1, 1, 2])):
                ops.append(['click', ne - 1, *spot(r), 1])
            for v in range(ne - 1):
                if r.random() < .6:
                    ops.append(['click', v, *spot(r), 1])
            ops.append(['make', r.randrange(ne)])
            if r.random() < .5:
                ops.append(r.choice([['refori'], ['misori', False],
                                     ['misori', True]]))
            continue
        if theme == 'profile' and r.random() < .6:
            ops.append(['drag', 0, *spot(r), *spot(r)])
            if r.random() < .25:
                ops.append(['shut', 0])
            continue
        if theme == 'select' and r.random() < .6:
            ops.append(['click', r.choice([0, 0, 1]), *spot(r), 1])
            if r.random() < .25:
                ops.append(['shut', 0])
            continue
        k = r.choice(['open', 'open', 'origin', 'start', 'click', 'click',
                      'click', 'click', 'click', 'click', 'drag', 'drag',
                      'make', 'make', 'reset', 'close', 'shut', 'wipe', 'gb', 'hl',
                      'points', 'numbers', 'refori', 'misori', 'hlbad'])
        if k == 'open':
            kw = {}
            if r.random() < .2:
                kw['gbs'] = r.choice(['pixel', 'line'])
            ops.append([k, r.randrange(ne + 1), r.choice(
                ['locate', 'display', 'display', 'neigh', 'neigh',
                 'profile']), kw])
        elif k == 'click':
            ops.append([k, w, *spot(r), r.choice([1, 1, 1, 1, 2, 3])])
        elif k == 'drag':
            ops.append([k, w, *spot(r), *spot(r)])
        elif k == 'gb':
            ops.append([k, w, r.choice(['pixel', 'line']),
                        r.choice([None] + COL), r.random() < .3])
        elif k in ('hl', 'hlbad'):
            ops.append([k, w, [r.randrange(9) for _ in
                               range(r.randint(1, 4))],
                        r.sample(COL, r.randint(0, 3)),
                        r.choice([None, .5, 1.]), r.random() < .3])
        elif k == 'points':
            ops.append([k, w, [[r.randint(0, 5), r.randint(0, 5)] for _ in
                               range(r.randint(1, 3))],
                        r.choice([None, None, 0])])
        elif k == 'misori':
            ops.append([k, r.random() < .4])
        else:
            ops.append([k, w])
    return dict(specs=specs, ops=ops, seed=r.randrange(1 << 30),
                kit='real' if r.random() < .02 else 'fake', _lists=['ops'])


def spot(r):
    """Where on the window: fractions of the map, or nowhere."""
    return [round(r.uniform(-.02, 1.02), 3), round(r.uniform(-.02, 1.02), 3),
            r.choice(['map'] * 14 + ['off', 'button', 'far', 'left', 'above'])]


def shrink(sc):
    for i, s in enumerate(sc['specs']):
        for k, v in (('nonindexed', 0), ('phases', [0]), ('grains', 2),
                     ('step', .5)):
            if s[k] != v:
                n = list(sc['specs'])
                n[i] = dict(s, **{k: v})
                yield dict(sc, specs=n)


def colour(c):
    import matplotlib as mpl
    return np.array(mpl.colors.to_rgba(c))


class Win:
    def __init__(self, fig, mi, kind, plot):
        self.fig, self.mi, self.kind, self.plot = fig, mi, kind, plot
        self.ax = gui.image_axes(fig)
        self.gone = False
        self.press = None
        self.layers = []       # what each image layer must look like
        self.segs = []         # line layers
        self.pts = []          # point layers, the first one first
        self.texts = []
        self.hl = None         # index of the grain highlights in layers
        self.arrow = None
        self.base = None


class State:
    def __init__(self, sc, run, kit):
        from defdap.ebsd import Linker
        from defdap.experiment import Experiment
        self.run, self.kit = run, kit
        self.exp = Experiment()
        self.maps, self.truth = [], []
        for i, s in enumerate(sc['specs']):
            m = world.ebsd_map(run, s, f'e{i}{kit.kind}',
                               experiment=self.exp)
            m.data.generate('grain_boundaries', misori_tol=8)
            m.data.generate('grains', min_grain_size=2)
            m.calc_grain_av_oris()
            m.build_neighbour_network()
            self.maps.append(m)
        self.ne = len(self.maps)
        sh = sc['specs'][0]['shape']
        d = world.dic_map(run, dict(shape=sh, seed=sc['seed'], binning=4),
                          f'd{kit.kind}', experiment=self.exp)
        d.set_scale(5.)
        world.link(d, self.maps[0])
        d.data.generate('grains', algorithm='floodfill', min_grain_size=2)
        d.build_neighbour_network()
        self.maps.append(d)
        self.linker = Linker(self.maps[:self.ne])
        self.grains = [np.array(m.data.grains) for m in self.maps]
        self.step = [s['step'] for s in sc['specs']]
        self.sel = [None] * (self.ne + 1)
        self.origin = [(0, 0)] * self.ne
        self.pop = [None] * (self.ne + 1)
        self.prof = [None] * (self.ne + 1)
        self.closed = []
        self.links = []
        self.wins = []
        self.group = None          # windows the linker opened last
        self.ref = {(i, j): np.array(g.ref_ori.quat_coef)
                    for i in range(self.ne)
                    for j, g in enumerate(self.maps[i].grains)}
        self.mis = {}
        self.nets = [{int(g.grain_id): [int(n.grain_id) for n in
                                        m.neighbour_network.neighbors(g)]
                      for g in m.grains} for m in self.maps]

    def compare(self, what):
        for i, m in enumerate(self.maps):
            g = m.sel_grain
            got = None if g is None else int(g.grain_id)
            require(got == self.sel[i] and (g is None or g is m[got]),
                    'wrong-selection', f'after {what} grain {got} of map {i} '
                    f'is selected instead of {self.sel[i]}', what)
        for i in range(self.ne):
            got = tuple(int(v) for v in self.maps[i].origin)
            require(got == self.origin[i], 'wrong-origin', f'after {what} '
                    f'origin of map {i} is {got} instead of '
                    f'{self.origin[i]}', what)
        got = [tuple(int(v) for v in t) for t in self.linker.links]
        require(got == self.links, 'wrong-links',
                f'after {what} links are {got} instead of {self.links}', what)
        for (i, j), q in self.ref.items():
            r = np.array(self.maps[i][j].ref_ori.quat_coef)
            require(abs(abs(r @ q) - 1) < 1e-9, 'wrong-reference',
                    f'after {what} reference of grain {j} of map {i} is {r} '
                    f'instead of {q}', what)
        for w in self.wins:
            if not w.gone:
                self.shown(w, what)

    def shown(self, w, what):
        def bad(why):
            raise Violation('wrong-display', f'after {what} window '
                            f'{self.wins.index(w)} ({w.kind} of map {w.mi}) '
                            f'shows {why}', what)
        ims = list(w.ax.images)
        if len(ims) != len(w.layers):
            bad(f'{len(ims)} images instead of {len(w.layers)}')
        for i, (im, want) in enumerate(zip(ims, w.layers)):
            if want is None:
                continue
            got = gui.rgba(im)
            if got.shape != want.shape:
                bad(f'image {i} of shape {got.shape}, {want.shape} expected')
            if i == 0:
                okay = np.array_equal(got, want, equal_nan=True)
            else:
                on = want[..., 3] > 0
                okay = (got[..., 3][~on] == 0).all() and np.allclose(
                    got[on], want[on], atol=.03)
            if not okay:
                y, x = np.argwhere(~np.isclose(
                    got, want, atol=.03, equal_nan=True).all(-1))[0]
                bad(f'{got[y, x]} at ({x}, {y}) of image {i} instead of '
                    f'{want[y, x]}')
        got = gui.segments(w.ax)
        if len(got) != len(w.segs):
            bad(f'{len(got)} line layers instead of {len(w.segs)}')
        for (s, c), (ws, wc) in zip(got, w.segs):
            if s != ws:
                bad(f'boundary lines {s} instead of {ws}')
            if c is None or len(c) != 1 or not np.allclose(c[0], wc):
                bad(f'boundary lines coloured {c} instead of {wc}')
        got = [sorted(p) for p in gui.shown_points(w.ax)]
        want = [sorted(tuple(map(float, p)) for p in ly) for ly in w.pts]
        if [g for g in got if g] != want:
            bad(f'points {got} instead of {want}')
        got = gui.placed_texts(w.ax)
        if got != sorted(w.texts):
            bad(f'texts {got} instead of {w.texts}')

    def centre(self, mi, gid):
        p = np.argwhere(self.grains[mi] == gid + 1)[:, ::-1].mean(0)
        return p

    def mask(self, mi, gid):
        return self.grains[mi] == gid + 1

    def lit(self, mi, groups, alpha=None):
        """Highlight image: groups of (grain id, colour)."""
        if alpha is None:
            alpha = 1 if mi < self.ne else .6
        out = np.zeros(self.grains[mi].shape + (4,))
        for gid, c in groups:
            out[self.mask(mi, gid)] = np.append(colour(c)[:3], alpha)
        return out

    def highlight(self, w, groups, alpha=None, new=False):
        im = self.lit(w.mi, groups, alpha)
        if w.hl is None or new:
            if w.hl is None:
                w.hl = len(w.layers)
            w.layers.append(im)
        else:
            w.layers[w.hl] = im

    def boundary_layer(self, w, kind, c, dilate):
        b = self.maps[w.mi].data.grain_boundaries
        c = colour(c or 'white')
        if kind == 'line':
            w.segs.append((sorted(tuple(tuple(float(v) for v in p)
                                        for p in s) for s in b.lines),
                           tuple(c)))
            return
        on = np.zeros(self.grains[w.mi].shape, bool)
        for x, y in b.points:
            on[y, x] = True
        if dilate:
            p = np.pad(on, 1)
            on = (p[1:-1, 1:-1] | p[2:, 1:-1] | p[:-2, 1:-1] | p[1:-1, 2:]
                  | p[1:-1, :-2])
        im = np.zeros(on.shape + (4,))
        im[on] = np.append(c[:3], 1)
        w.layers.append(im)

    def based(self, w):
        """The layers of a window just opened or redrawn."""
        im = list(w.ax.images)[0]
        w.layers, w.segs, w.pts, w.texts, w.hl = [], [], [], [], None
        w.layers.append(gui.rgba(im).copy())
        w.base = np.ma.filled(np.ma.asarray(im.get_array(), float), np.nan)
        if w.mi == self.ne:
            want = np.array(self.maps[w.mi].data.max_shear, float)
            require(util.same(w.base, want, 1e-12), 'wrong-display',
                    'the window does not show the maximum shear', 'open')
            self.boundary_layer(w, 'pixel', None, False)

    def grain_at(self, mi, at):
        x, y = (int(np.floor(v + .5)) for v in at)
        g = self.grains[mi]
        if 0 <= x < g.shape[1] and 0 <= y < g.shape[0] and g[y, x] > 0:
            return int(g[y, x]) - 1
        return None


def near(v):
    return abs(v - np.floor(v) - .5) < 1e-6


def body(sc, run, kit):
    st = State(sc, run, kit)
    trail, picked, after = [], False, False
    for op in sc['ops']:
        run.steps += 1
        kit.take_errors()
        out = step(st, op)
        if out is None:
            continue
        errs = kit.take_errors()
        if out == 'refused':
            run.fault('invalid request')
        elif out in ('off', 'nothing there', 'ignored'):
            run.fault('stray user event')
        require(not errs, 'unexpected-exception',
                f'{op} raises {errs[:1]!r}', op[0])
        run.log(op[0], out, st.sel, len(st.links))
        trail.append((op[0], out))
        st.compare(op[0])
        after |= picked
        picked |= out == 'picked'
    run.key(trail)
    run.nontrivial = after


def window(st, op):
    if not st.wins:
        return None
    w = st.wins[-1 - op[1] % len(st.wins)]
    return None if w.gone else w


def opened(st, mi, kind, call):
    n = len(st.kit.figures)
    plot = call()
    w = Win(st.kit.figures[n], mi, kind, plot)
    st.based(w)
    st.wins.append(w)
    return w


def step(st, op):
    k = op[0]
    if k == 'open':
        return open_one(st, *op[1:])
    if k in ('origin', 'start'):
        return open_linker(st, k)
    if k == 'reset':
        st.linker.reset_links()
        st.links = []
        return 'reset'
    if k == 'refori':
        return ref_ori(st)
    if k == 'misori':
        return mis_ori(st, op[1])
    w = window(st, op)
    if w is None:
        return None
    if k == 'close':
        st.kit.close(w.fig)
        w.gone = True
        return 'closed'
    if k == 'shut':
        # pop-outs and profiles
        for store in (st.pop, st.prof):
            if store[w.mi] is not None:
                st.kit.close(store[w.mi])
                st.closed.append(store[w.mi])
        return 'shut'
    if k == 'click':
        return click(st, w, op)
    if k == 'drag':
        return drag(st, w, op)
    if k == 'make':
        return make(st, w)
    if k == 'wipe':
        # the points layer would be gone, but its index is needed
        if w.kind == 'origin':
            return None
        w.plot.clear()
        require(not len(w.ax.images), 'wrong-display', 'not empty', k)
        st.maps[w.mi].plot_default(plot=w.plot)
        st.based(w)
        return 'redrawn'
    if k == 'gb':
        _, _, kind, c, dil = op
        w.plot.add_grain_boundaries(kind=kind, colour=c, dilate=dil)
        st.boundary_layer(w, kind, c, dil)
        return 'boundaries'
    if k in ('hl', 'hlbad'):
        return highlights(st, w, op)
    if k == 'points':
        _, _, pts, upd = op
        xs, ys = [p[0] for p in pts], [p[1] for p in pts]
        w.plot.add_points(xs, ys, update_layer=upd)
        if upd is None or not w.pts:
            w.pts.append(pts)
        else:
            w.pts[upd] = pts
        return 'points'
    if k == 'numbers':
        n = len(st.maps[w.mi].grains)
        cs = [st.centre(w.mi, i) for i in range(n)]
        if any(near(v) for c in cs for v in c):
            cs = None                     # halves round either way
        w.plot.add_grain_numbers()
        if cs is None:
            w.texts = [t for t in gui.placed_texts(w.ax)]
            return 'numbers'
        w.texts += [(float(np.round(x)), float(np.round(y)), str(i))
                    for i, (x, y) in enumerate(cs)]
        return 'numbers'
    raise AssertionError(k)


def open_one(st, mi, kind, kw):
    m = st.maps[mi]
    args = {}
    if kw.get('gbs') and mi < st.ne:
        args['plot_gbs'] = kw['gbs']
    call = dict(
        locate=lambda: m.locate_grain(**args),
        display=lambda: m.locate_grain(display_grain=True, **args),
        neigh=lambda: m.display_neighbours(**args),
        profile=lambda: m.draw_line_profile(**args))[kind]
    w = opened(st, mi, kind, call)
    if args:
        st.boundary_layer(w, args['plot_gbs'], None, False)
    if kind != 'profile':
        st.sel[mi] = None
    if kind == 'display':
        st.pop[mi] = None
    return 'opened'


def open_linker(st, k):
    n = len(st.kit.figures)
    (st.linker.set_origin if k == 'origin' else st.linker.start_linking)()
    figs = st.kit.figures[n:]
    require(len(figs) == st.ne, 'wrong-display',
            f'{len(figs)} windows for {st.ne} maps', k)
    group = []
    for i, f in enumerate(figs):
        w = Win(f, i, k, st.linker.plots[i])
        st.based(w)
        if k == 'origin':
            w.pts.append([st.origin[i]])
        else:
            st.sel[i] = None
        st.wins.append(w)
        group.append(w)
    st.group = group
    return 'opened'


def press(st, w, name, fx, fy, where, button=1):
    """Sends a mouse event, returns the map position or None."""
    h, wd = st.grains[w.mi].shape
    x, y = fx * wd - .5, fy * h - .5
    if where == 'far':
        x += 3 * wd
    elif where == 'left':
        x = -.6 - 3 * abs(fx)
    elif where == 'above':
        y = -.6 - 3 * abs(fy)
    ax = w.ax
    if where == 'off':
        ax = None
    if where == 'button':
        try:
            ax = st.kit.widget(w.fig, 'Make link').ax
            button = 3
        except LookupError:
            ax = None
        x = y = .5
    beside = ax is not None and where in ('left', 'above', 'far')
    if beside:
        # the user has zoomed out, the surroundings of the map are seen
        limits = w.ax.get_xlim(), w.ax.get_ylim()
        w.ax.set_xlim(-8, 4 * wd + 8)
        w.ax.set_ylim(h + 8, -8)
    at = st.kit.mouse(w.fig, name, ax, x, y, button)
    if beside:
        w.ax.set_xlim(limits[0])
        w.ax.set_ylim(limits[1])
    return at if ax is w.ax else None


def click(st, w, op):
    _, _, fx, fy, where, button = op
    before = len(st.kit.figures)
    at = press(st, w, 'button_press_event', fx, fy, where, button)
    if at is not None and (near(at[0]) or near(at[1])):
        # too close to call: take what happened
        raise_unless_known(st, w)
    if w.kind == 'profile':
        w.press = at
        return 'pressed' if at else 'off'
    if at is None:
        return 'off'
    if w.kind == 'origin':
        o = tuple(int(np.floor(v + .5)) for v in at)
        st.origin[w.mi] = o
        w.pts[0] = [o]
        return 'origin'
    if w.kind == 'start':
        return click_link(st, w, at)
    g = st.grain_at(w.mi, at)
    if g is None:
        return 'nothing there'
    st.sel[w.mi] = g
    if w.kind == 'neigh':
        first = st.nets[w.mi][g]
        second = {b for a in first for b in st.nets[w.mi][a]} - {g, *first}
        st.highlight(w, [(b, 'green') for b in second] + [
            (a, 'yellow') for a in first] + [(g, 'white')])
        return 'picked'
    st.highlight(w, [(g, 'white')])
    if w.kind == 'display':
        if w.mi == st.ne and st.maps[w.mi].grains[g].ebsd_grain is None:
            raise SkipRun()         # can not draw its slip traces
        popup(st, w, g, before)
    return 'picked'


def raise_unless_known(st, w):
    raise SkipRun()


class SkipRun(Exception):
    pass


def popup(st, w, g, before):
    """The grain is shown alone in the pop-out window of the map."""
    mi, m = w.mi, st.maps[w.mi]
    new = st.kit.figures[before:]
    if st.pop[mi] is None or any(f is st.pop[mi] for f in st.closed):
        require(len(new) == 1, 'wrong-display',
                f'{len(new)} new windows for the selected grain', 'click')
        st.pop[mi] = new[0]
    else:
        require(not new, 'wrong-display', 'another window for the grain',
                'click')
    ax = st.pop[mi].get_axes()[0]
    if mi == st.ne:
        pts = st.mask(mi, g)
        ys, xs = np.nonzero(pts)
        box = (slice(ys.min(), ys.max() + 1), slice(xs.min(), xs.max() + 1))
        want = np.where(pts, np.array(m.data.max_shear, float), np.nan)[box]
        ims = list(ax.images)
        require(len(ims) == 1, 'wrong-display', f'{len(ims)} images in the '
                'window of the grain', 'click')
        got = np.ma.filled(np.ma.asarray(ims[0].get_array(), float), np.nan)
        require(util.same(got, want, 1e-9), 'wrong-display',
                f'the window does not show grain {g}', 'click')
        p = m[g].plot_default()
        want = shown_with(p.ax)
        st.kit.close(p.fig)
        got = shown_with(ax)
        require(got == want, 'wrong-display', f'the window of grain {g} has '
                f'{got} instead of {want}', 'click')
    else:
        ps = gui.polys(ax)
        require(len(ps) == 1, 'wrong-display',
                f'{len(ps)} unit cells for grain {g}', 'click')
        kit, n = st.kit, len(st.kit.figures)
        p = m[g].plot_unit_cell()
        want = gui.polys(p.ax)[0]
        st.kit.close(p.fig)
        require(util.same(ps[0], want, 1e-9), 'wrong-display',
                f'the window does not show the cell of grain {g}', 'click')


def shown_with(ax):
    """Traces, scale bars and colour bars."""
    return (sorted(tuple(np.round(a[:4], 6)) + tuple(np.round(a[5][:3], 3))
                   for a in gui.arrows(ax)),
            [round(float(v), 12) for v in gui.scale_bars(ax)])


def click_link(st, w, at):
    live = st.group and w in st.group
    g = st.grain_at(w.mi, at)
    if w.mi:
        if g is None:
            return 'nothing there'
        st.sel[w.mi] = g
        st.highlight(w, [(g, 'white')])
        return 'picked'
    if g is not None:
        st.sel[0] = g
        st.highlight(w, [(g, 'white')])
    for i in range(1, st.ne):
        s = st.step[0] / st.step[i]
        pos = [(at[j] - st.origin[0][j]) * s + st.origin[i][j]
               for j in (0, 1)]
        if near(pos[0]) or near(pos[1]):
            raise SkipRun()
        e = st.grain_at(i, pos)
        sg = st.maps[i].sel_grain
        got = None if sg is None else int(sg.grain_id)
        okay = [e] if g is not None and e is not None else [
            e, st.sel[i], None]
        require(got in okay, 'wrong-selection', f'click at {at} of the first '
                f'map guesses grain {got} of map {i} at {pos}, grain {e} is '
                'there', 'click')
        moved = got is not None and e == got
        st.sel[i] = got
        others = [v for v in st.wins if v.mi == i and v.kind == w.kind]
        if live:
            v = st.group[i]
            if moved and g is not None:
                st.highlight(v, [(got, 'white')])
            else:
                unknown(v)
        else:
            # not the windows opened last: any window may show the guess
            for v in [v for v in st.wins if v.mi == i and v.kind in
                      ('start', 'origin')]:
                unknown(v)
    return 'picked' if g is not None else 'nothing there'


def unknown(v):
    """Take the number of layers from the window, their contents are not
    compared until the user clicks there."""
    if v.gone:
        return
    n = len(list(v.ax.images))
    while len(v.layers) < n:
        if v.hl is None:
            v.hl = len(v.layers)
        v.layers.append(None)
    if v.hl is not None:
        v.layers[v.hl] = None


def drag(st, w, op):
    _, _, fx, fy, where, gx, gy, where2 = op
    if w.kind == 'start' and 'button' in (where, where2):
        return None                 # that would press the button
    if w.kind != 'profile':
        # pressing selects, letting go does nothing
        out = click(st, w, ['click', 0, fx, fy, where, 1])
        press(st, w, 'button_release_event', gx, gy, where2)
        return out
    before = len(st.kit.figures)
    a = press(st, w, 'button_press_event', fx, fy, where)
    w.press = a
    b = press(st, w, 'button_release_event', gx, gy, where2)
    new = st.kit.figures[before:]
    if a is None or b is None:
        require(not new, 'wrong-display', 'a profile without a line', 'drag')
        return 'off'
    mi = w.mi
    if st.prof[mi] is None or any(f is st.prof[mi] for f in st.closed):
        require(len(new) == 1, 'wrong-display',
                f'{len(new)} new windows for the profile', 'drag')
        st.prof[mi] = new[0]
    else:
        require(not new, 'wrong-display', 'another window for the profile',
                'drag')
    length = np.hypot(b[0] - a[0], b[1] - a[1])
    n = int(np.ceil(length + 1))
    if n - (length + 1) < 1e-9 or n - (length + 1) > 1 - 1e-9:
        return 'profile'
    got = gui.curves(st.prof[mi].get_axes()[0])
    img = w.base if w.base.ndim == 3 else w.base[..., None]
    require(len(got) == img.shape[2], 'wrong-profile',
            f'{len(got)} curves for {img.shape[2]} components', 'drag')
    t = np.linspace(0, 1, n)
    px = np.clip(a[0] + t * (b[0] - a[0]), 0, img.shape[1] - 1)
    py = np.clip(a[1] + t * (b[1] - a[1]), 0, img.shape[0] - 1)
    x0 = np.minimum(px.astype(int), img.shape[1] - 2)
    y0 = np.minimum(py.astype(int), img.shape[0] - 2)
    u, v = (px - x0)[:, None], (py - y0)[:, None]
    val = ((img[y0, x0] * (1 - u) + img[y0, x0 + 1] * u) * (1 - v)
           + (img[y0 + 1, x0] * (1 - u) + img[y0 + 1, x0 + 1] * u) * v)
    for c, (x, y) in enumerate(got):
        require(len(x) == n and np.allclose(x, t * length), 'wrong-profile',
                f'distances {x} for a line of {length}', 'drag')
        require(np.allclose(y, val[:, c], atol=1e-6, equal_nan=True),
                'wrong-profile', f'values {y} instead of {val[:, c]} along '
                f'{a} {b}', 'drag')
    arrows = [t for t in w.ax.texts if not t.get_text()]
    require(len(arrows) == 1, 'wrong-display',
            f'{len(arrows)} arrows after drawing a line', 'drag')
    return 'profile'


def make(st, w):
    if w.kind != 'start':
        return None
    st.kit.click(w.fig, 'Make link')
    cur = tuple(st.sel[:st.ne])
    if None in cur:
        errs = st.kit.take_errors()
        require(len(errs) == 1, 'invalid-accepted',
                f'link made from {cur}', 'make')
        return 'refused'
    if cur not in st.links:
        st.links.append(cur)
        return 'linked'
    return 'known link'


def highlights(st, w, op):
    k, _, ids, cols, alpha, new = op
    n = len(st.maps[w.mi].grains)
    if k == 'hlbad':
        s, v = util.outcome(lambda: w.plot.add_grain_highlights(
            [ids[0] % n, n + 3]))
        require(s == 'exc', 'invalid-accepted',
                'highlights of a grain that does not exist', k)
        clear_tb(v)
        return 'refused'
    ids = sorted({i % n for i in ids}, key=lambda i: (i * 7) % 5)
    cols = [] if alpha is None and not cols else cols or ['white']
    w.plot.add_grain_highlights(ids, grain_colours=cols or None, alpha=alpha,
                                new_layer=new)
    cols = cols or ['white']
    st.highlight(w, [(g, cols[min(i, len(cols) - 1)])
                     for i, g in enumerate(ids)], alpha, new)
    return 'highlighted'


def ref_ori(st):
    try:
        st.linker.set_ref_ori_from_master()
    except (SimCrash, SimTimeout):
        raise
    for ln in st.links:
        for i in range(1, st.ne):
            st.ref[i, ln[i]] = st.ref[0, ln[0]]
            own = st.maps[i][ln[i]].ref_ori
            require(own is not st.maps[0][ln[0]].ref_ori, 'shared-reference',
                    'the maps share the orientation', 'refori')
    return 'references' if st.links else 'no links'


def mis_ori(st, axis):
    with np.errstate(all='ignore'):
        st.linker.update_misori(calc_axis=axis)
    for ln in st.links:
        for i in range(1, st.ne):
            m, g = st.maps[i], st.maps[i][ln[i]]
            phase = m.phases[g.phase_id]
            cubic = phase.crystal_structure.name == 'cubic'
            syms = model.quats(model.CUBIC if cubic else model.HEX)
            q = np.array([o.quat_coef for o in
                          m.data.orientation[st.mask(i, ln[i])]])
            r = st.ref[i, ln[i]]
            want = np.max([[abs(mul(s, a) @ r) for s in syms] for a in q], 1)
            got = np.array(sorted(g.mis_ori_list))
            require(len(got) == len(want) and np.allclose(
                got, np.sort(want), atol=1e-6), 'wrong-misorientation',
                f'grain {ln[i]} of map {i}: {got} instead of '
                f'{np.sort(want)}', 'misori')
    return 'misorientations' if st.links else 'no links'


def mul(a, b):
    w, x, y, z = a
    p, q, r, s = b
    return np.array([w * p - x * q - y * r - z * s,
                     w * q + x * p + y * s - z * r,
                     w * r - x * s + y * p + z * q,
                     w * s + x * r - y * q + z * p])


def execute(sc, run):
    def go(kit):
        try:
            body(sc, run, kit)
        except SkipRun:
            run.probe('position too close to a rounding limit')
        finally:
            util.reset_globals()
    gui.confirmed(run, sc['kit'], go)
