"""The windows of the package under a simulated user.

Two toolkits: 'fake' stands in for matplotlib inside defdap.plotting (fast;
figures, axes and widgets that only remember what the package put on them),
'real' is matplotlib with the Agg canvas, real widgets and real mouse and
key events, drawing stubbed out. In both the simulator is the event loop:
events are delivered one at a time in the order of the scenario, and errors
in callbacks are kept (as a running window does) instead of ending the
loop. A failure seen with the fake toolkit is only believed if the real one
shows it too (see `confirmed`)."""
import types

import numpy as np

from .core import SimCrash, SimTimeout, Violation
from .seams import patched
from .util import clear_tb


class Anything:
    """Accepts whatever is done to it."""

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        v = Anything()
        object.__setattr__(self, name, v)
        return v

    def __call__(self, *a, **k):
        return Anything()

    def __iter__(self):
        return iter(())

    def __len__(self):
        return 0

    def __getitem__(self, k):
        return Anything()

    def __setitem__(self, k, v):
        pass


class FakeArtist(Anything):
    def __init__(self, owner=None, kind=None):
        self._owner, self._kind = owner, kind

    def remove(self):
        if self._owner is None or self not in self._owner:
            raise NotImplementedError('cannot remove artist')
        self._owner.remove(self)

    def __eq__(self, other):
        return self is other

    def __hash__(self):
        return id(self)


class FakeText(FakeArtist):
    def __init__(self, owner, s):
        super().__init__(owner, 'text')
        self._s = str(s)

    def get_text(self):
        return self._s

    def set_text(self, s):
        self._s = str(s)


class FakeImage(FakeArtist):
    def __init__(self, owner, data, cmap=None, norm=None, vmin=None,
                 vmax=None):
        import matplotlib as mpl
        super().__init__(owner, 'image')
        self.set_data(data)
        self.cmap = mpl.colormaps[cmap or 'viridis'] if not hasattr(
            cmap, '__call__') else cmap
        self.norm = norm or mpl.colors.Normalize(vmin, vmax)
        self.norm.autoscale_None(self._d)

    def set_data(self, d):
        self._d = np.ma.masked_invalid(d) if np.issubdtype(
            np.asarray(d).dtype, np.inexact) else np.ma.array(d)

    def get_array(self):
        return self._d

    def set_cmap(self, c):
        self.cmap = c

    def set_clim(self, vmin=None, vmax=None):
        if vmax is None:
            vmin, vmax = vmin
        self.norm.vmin, self.norm.vmax = vmin, vmax

    def autoscale(self):
        self.norm.autoscale(self._d)

    def set_array(self, d):
        self.set_data(d)


class FakePoints(FakeArtist):
    def __init__(self, owner, x, y):
        super().__init__(owner, 'points')
        self.set_offsets(np.column_stack([
            np.asarray(np.ma.array(x)).ravel(),
            np.asarray(np.ma.array(y)).ravel()]))

    def get_array(self):
        c = self.__dict__.get('kw', {}).get('c')
        if c is None or isinstance(c, str):
            return None
        try:
            return np.ma.masked_invalid(np.asarray(c, float)).ravel()
        except ValueError:
            return None

    def legend_elements(self, prop='colors', num='auto', func=lambda s: s):
        s = np.unique(self.kw.get('s') if prop == 'sizes' else [])
        return ([float(v) for v in s],
                ['%g' % v for v in np.asarray(func(s))])

    def set_offsets(self, o):
        o = np.asanyarray(o)
        if o.shape == (2,):
            o = o[None, :]
        self._o = np.ma.column_stack([
            np.ma.asarray(o[:, 0], float), np.ma.asarray(o[:, 1], float)])

    def get_offsets(self):
        return self._o


class FakeScaleBar(FakeArtist):
    def __init__(self, dx, *a, **k):
        super().__init__(None, 'scale bar')
        self.dx = dx


class FakeColourBar(Anything):
    def __init__(self, img, label=''):
        self.mappable, self.label_ = img, label

    def remove(self):
        self.owner_.__dict__.pop('bar_', None)


class FakeLines(FakeArtist):
    def __init__(self, segments, colors=None, **k):
        super().__init__(None, 'segments')
        self.segments, self.colors = list(segments), colors
        self.array = None

    def set_array(self, a):
        self.array = a


class FakePolys(FakeArtist):
    def __init__(self, verts, **k):
        super().__init__(None, 'polys')
        self.verts = [np.array(v, float) for v in verts]


class FakeAxes(Anything):
    def __init__(self, fig=None):
        object.__setattr__(self, 'figure', fig)
        self._wipe()

    def _wipe(self):
        for old in ('artists_', 'texts', 'images', 'lines_'):
            # their remove() fails from now on
            del self.__dict__.get(old, [])[:]
        self.artists_, self.texts, self.images, self.lines_ = [], [], [], []

    def clear(self):
        self._wipe()

    cla = clear

    def imshow(self, data, cmap=None, vmin=None, vmax=None, norm=None, **k):
        im = FakeImage(self.images, data, cmap, norm, vmin, vmax)
        self.images.append(im)
        return im

    def scatter(self, x, y, *a, **k):
        p = FakePoints(self.artists_, x, y)
        p.kw = dict(k)
        self.artists_.append(p)
        return p

    def add_artist(self, a):
        a.__dict__['_owner'] = self.artists_
        self.artists_.append(a)
        return a

    def set_xscale(self, value, **k):
        self.__dict__['xscale_'] = value

    def set_yscale(self, value, **k):
        self.__dict__['yscale_'] = value

    def get_xscale(self):
        return self.__dict__.get('xscale_', 'linear')

    def get_yscale(self):
        return self.__dict__.get('yscale_', 'linear')

    def legend(self, handles=None, labels=None, title='', **k):
        if handles is None:
            handles = [(q, q.kw['label']) for q in self.lines_
                       if q.kw.get('label')]
            handles += self.__dict__.get('named_', [])
            self.__dict__['marks_'] = [(n, None) for _, n in handles]
            return Anything()
        if labels is not None:
            self.__dict__['marks_'] = list(zip(labels, handles))
            self.__dict__['title_'] = title
            return Anything()
        self.__dict__['legend_'] = list(handles)
        return Anything()

    def hist(self, x, bins=10, density=False, label=None, **k):
        if label:
            self.__dict__.setdefault('named_', []).append((None, label))
        n, e = np.histogram(np.asarray(x), bins=bins, density=density)
        self.__dict__['bars_'] = list(zip(e[:-1], e[1:], n))
        return n, e, Anything()

    def annotate(self, s, *a, **k):
        t = FakeText(self.texts, s)
        self.texts.append(t)
        t.kw = dict(k)
        return t

    def text(self, x, y, s, **k):
        t = FakeText(self.texts, s)
        t.at = (x, y)
        self.texts.append(t)
        return t

    def add_collection(self, c, **k):
        c._owner = self.artists_
        self.artists_.append(c)
        return c

    add_collection3d = add_collection

    def plot(self, *a, **k):
        line = FakeArtist(self.lines_, 'line')
        line.args = a
        line.kw = dict(k)
        self.lines_.append(line)
        return [line]

    def quiver(self, x, y, u, v, **k):
        q = FakeArtist(self.artists_, 'quiver')
        q.args, q.kw = (x, y, u, v), dict(k)
        self.artists_.append(q)
        return q

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


class FakeCanvas(Anything):
    def __init__(self):
        self.cb = []
        self.manager = Anything()

    def mpl_connect(self, name, fn):
        self.cb.append((name, fn))
        return len(self.cb) - 1

    def mpl_disconnect(self, cid):
        if isinstance(cid, int) and 0 <= cid < len(self.cb):
            self.cb[cid] = (None, None)


class FakeFigure(Anything):
    def __init__(self, number):
        self.number = number
        self.canvas = FakeCanvas()
        self.canvas.figure = self
        self.axes = []
        self.widgets = []

    def _add(self):
        a = FakeAxes(self)
        self.axes.append(a)
        return a

    def add_subplot(self, *a, **k):
        return self._add()

    def add_axes(self, *a, **k):
        return self._add()

    def get_axes(self):
        return list(self.axes)


class FakePlt(Anything):
    def __init__(self, tk):
        self.tk = tk

    def figure(self, *a, **k):
        f = FakeFigure(1 + max([g.number for g in self.tk.open_figures()],
                               default=0))
        self.tk.figures.append(f)
        return f

    def subplots(self, *a, **k):
        f = self.figure()
        return f, f._add()

    def fignum_exists(self, n):
        return any(f.number == n for f in self.tk.open_figures())

    def get_fignums(self):
        return sorted(f.number for f in self.tk.open_figures())

    def get_all_fig_managers(self):
        return [types.SimpleNamespace(num=f.number, canvas=f.canvas)
                for f in self.tk.open_figures()]

    def close(self, *a):
        pass

    def colorbar(self, img, ax=None, label='', **k):
        cb = FakeColourBar(img, label)
        cb.owner_ = ax
        ax.__dict__['bar_'] = cb
        return cb

    def legend(self, *a, **k):
        return self.gca().legend(*a, **k)

    def gca(self):
        return self.tk.figures[-1].axes[-1]


class FakeButton:
    def __init__(self, ax, label, *a, **k):
        self.ax, self.name, self.fns = ax, label, []
        self.label = FakeText(None, label)
        ax.figure.widgets.append(self)

    def on_clicked(self, fn):
        self.fns.append(fn)
        return len(self.fns)


class FakeTextBox:
    def __init__(self, ax, label, initial='', *a, **k):
        self.ax, self.name, self.text = ax, label, str(initial)
        self.typing = False
        self.submit, self.change = [], []
        ax.figure.widgets.append(self)

    def on_submit(self, fn):
        self.submit.append(fn)
        return len(self.submit)

    def on_text_change(self, fn):
        self.change.append(fn)
        return len(self.change)

    def set_val(self, val):
        val = str(val)
        if val == self.text:
            return
        self.text = val
        for fn in self.change + self.submit:
            fn(self.text)


def norm(label):
    return ' '.join(str(label).split())


class Toolkit:
    """Common part: errors, events on figures by number of creation."""

    def __init__(self, run):
        self.run = run
        self.errors = []

    def guard(self, fn, *a):
        try:
            return fn(*a)
        except (Violation, SimCrash, SimTimeout):
            raise
        except Exception as e:
            clear_tb(e)
            self.errors.append(e)

    def take_errors(self):
        out, self.errors = self.errors, []
        return out


class FakeKit(Toolkit):
    kind = 'fake'

    def open_figures(self):
        return [f for f in self.figures if not f.__dict__.get('gone')]

    def __init__(self, run):
        super().__init__(run)
        self.figures = []

    def __enter__(self):
        from defdap import plotting
        names = dict(plt=FakePlt(self), Button=FakeButton,
                     TextBox=FakeTextBox,
                     Axes3D=lambda fig, *a, **k: fig.add_axes(),
                     ScaleBar=FakeScaleBar,
                     Gcf=FakePlt(self), LineCollection=FakeLines,
                     Poly3DCollection=FakePolys)
        self._p = patched(*[(plotting, k, v) for k, v in names.items()
                            if hasattr(plotting, k)])
        self._p.__enter__()
        return self

    def __exit__(self, *a):
        self._p.__exit__()

    def widget(self, fig, label):
        for w in fig.widgets:
            if norm(w.name) == label:
                return w
        raise LookupError(f'no widget {label!r}')

    def _unfocus(self, fig, keep=None):
        for w in fig.widgets:
            if isinstance(w, FakeTextBox) and w.typing and w is not keep:
                w.typing = False
                for fn in list(w.submit):
                    self.guard(fn, w.text)

    def _emit(self, fig, name, ev):
        for n, fn in list(fig.canvas.cb):
            if n == name:
                self.guard(fn, ev)

    def _ev(self, name, ax, x, y, button=1, key=None):
        return types.SimpleNamespace(name=name, inaxes=ax, xdata=x, ydata=y,
                                     x=0, y=0, button=button, key=key,
                                     canvas=None, guiEvent=None)

    def mouse(self, fig, name, ax, x, y, button=1, key=None):
        """Returns the coordinates the package was given."""
        if name == 'button_press_event':
            self._unfocus(fig)
        if ax is None:
            x = y = None
        self._emit(fig, name, self._ev(name, ax, x, y, button, key))
        return None if ax is None else (x, y)

    def key(self, fig, key, ax=None):
        self._emit(fig, 'key_press_event', self._ev(
            'key_press_event', ax, 0., 0., None, key))

    def click(self, fig, label):
        w = self.widget(fig, label)
        self._unfocus(fig)
        # other handlers see presses on the button's own axes too
        ev = self._ev('button_press_event', w.ax, .5, .5)
        self._emit(fig, 'button_press_event', ev)
        ev = self._ev('button_release_event', w.ax, .5, .5)
        self._emit(fig, 'button_release_event', ev)
        for fn in list(w.fns):
            self.guard(fn, ev)

    def type(self, fig, label, text, enter=True):
        w = self.widget(fig, label)
        self._unfocus(fig, keep=w)
        ev = self._ev('button_press_event', w.ax, .5, .5)
        self._emit(fig, 'button_press_event', ev)
        ev = self._ev('button_release_event', w.ax, .5, .5)
        self._emit(fig, 'button_release_event', ev)
        w.typing = True
        while w.text and w.text != text:
            w.text = w.text[:-1]
            self._change(w)
        for c in ([] if w.text == text else text):
            w.text += c
            self._change(w)
        if enter:
            for fn in list(w.submit):
                self.guard(fn, w.text)

    def _change(self, w):
        for fn in list(w.change):
            self.guard(fn, w.text)

    def box_text(self, fig, label):
        return self.widget(fig, label).text

    def close(self, fig):
        fig.__dict__['gone'] = True


class RealKit(Toolkit):
    kind = 'real'

    def __enter__(self):
        import matplotlib
        import matplotlib.pyplot as plt
        from matplotlib.backends import backend_agg
        from defdap import plotting
        self.plt = plt
        plt.close('all')
        kit = self
        self.widgets = []
        self.figs = []
        Button, TextBox = plotting.Button, plotting.TextBox

        class RecButton(Button):
            def __init__(self, ax, label, *a, **k):
                super().__init__(ax, label, *a, **k)
                self.dsim_name = label
                kit._own(self)

        class RecTextBox(TextBox):
            def __init__(self, ax, label, *a, **k):
                super().__init__(ax, label, *a, **k)
                self.dsim_name = label
                kit._own(self)

            def _rendercursor(self):
                pass

        real_figure = plt.figure

        def figure(*a, **k):
            f = real_figure(*a, **k)
            if f not in kit.figs:
                kit.figs.append(f)
                f.canvas.callbacks.exception_handler = kit._exc
            return f

        cv = backend_agg.FigureCanvasAgg
        nop = lambda self, *a, **k: None
        self._p = patched(
            (plotting, 'Button', RecButton), (plotting, 'TextBox', RecTextBox),
            (plt, 'figure', figure), (cv, 'draw', nop),
            (cv, 'draw_idle', nop))
        self._p.__enter__()
        return self

    def __exit__(self, *a):
        self._p.__exit__()
        self.plt.close('all')

    def _exc(self, e):
        if isinstance(e, (Violation, SimCrash, SimTimeout)):
            raise e
        clear_tb(e)
        self.errors.append(e)

    def _own(self, w):
        self.widgets.append(w)
        w._observers.exception_handler = self._exc

    @property
    def figures(self):
        return self.figs

    def widget(self, fig, label):
        for w in self.widgets:
            if w.ax.figure is fig and norm(w.dsim_name) == label:
                return w
        raise LookupError(f'no widget {label!r}')

    def _send(self, fig, name, px, py, button=1, key=None):
        from matplotlib.backend_bases import MouseEvent
        ev = MouseEvent(name, fig.canvas, px, py, button, key)
        self.guard(fig.canvas.callbacks.process, name, ev)
        return ev

    def _centre(self, ax):
        b = ax.bbox
        return (b.x0 + b.x1) / 2, (b.y0 + b.y1) / 2

    def mouse(self, fig, name, ax, x, y, button=1, key=None):
        if ax is None:
            px, py = 1, 1
        else:
            ax.apply_aspect()
            px, py = ax.transData.transform((x, y))
        ev = self._send(fig, name, px, py, button, key)
        if ev.inaxes is not ax or ax is None:
            return None
        return float(ev.xdata), float(ev.ydata)

    def key(self, fig, key, ax=None):
        from matplotlib.backend_bases import KeyEvent
        ev = KeyEvent('key_press_event', fig.canvas, key, 0, 0)
        self.guard(fig.canvas.callbacks.process, 'key_press_event', ev)

    def click(self, fig, label):
        w = self.widget(fig, label)
        px, py = self._centre(w.ax)
        self._send(fig, 'button_press_event', px, py)
        self._send(fig, 'button_release_event', px, py)

    def type(self, fig, label, text, enter=True):
        w = self.widget(fig, label)
        px, py = self._centre(w.ax)
        self._send(fig, 'button_press_event', px, py)
        self._send(fig, 'button_release_event', px, py)
        if w.text != text:
            self.key(fig, 'end')
            for _ in range(len(w.text)):
                self.key(fig, 'backspace')
            for c in text:
                self.key(fig, c)
        if enter:
            self.key(fig, 'enter')

    def box_text(self, fig, label):
        return self.widget(fig, label).text

    def close(self, fig):
        self.plt.close(fig)


def kit(run, kind):
    return (RealKit if kind == 'real' else FakeKit)(run)


def confirmed(run, kind, body):
    """Run `body(kit)`; a failure with the fake toolkit counts only if the
    real toolkit fails too (the fake one may lack what a changed window
    uses)."""
    if kind != 'real':
        state = (dict(run.faults), dict(run.probes), run.steps, run.sim_time)
        try:
            with kit(run, 'fake') as k:
                return body(k)
        except (SimCrash, SimTimeout):
            raise
        except Exception as e:
            run.log('fake toolkit:', type(e).__name__, str(e)[:300] if isinstance(e, Violation) else '')
            clear_tb(e)
        run.faults, run.probes, run.steps, run.sim_time = state
        run.probe('repeated with the real toolkit')
    with kit(run, 'real') as k:
        return body(k)


def texts(fig):
    out = []
    for ax in fig.get_axes():
        for t in ax.texts:
            s = t.get_text()
            if s:
                out.append(s)
    return out


def shown_points(ax):
    """Point layers on an axes: lists of (x, y), invisible ones left out."""
    layers = [a for a in getattr(ax, 'artists_', [])
              if isinstance(a, FakePoints)] or list(
                  getattr(ax, 'collections', []))
    out = []
    for p in layers:
        if not hasattr(p, 'get_offsets') or (
                not isinstance(p, FakeArtist) and hasattr(p, 'get_segments')):
            continue
        o = np.ma.filled(np.ma.asarray(p.get_offsets(), float), np.nan)
        out.append([tuple(float(v) for v in q) for q in o.reshape(-1, 2)
                    if not np.isnan(q).any()])
    return out


def image_axes(fig):
    """The axes showing a map."""
    for ax in fig.get_axes():
        if len(getattr(ax, 'images', ())):
            return ax
    raise LookupError('no map in the window')


def rgba(im):
    """Colours an image layer is shown in."""
    a = im.get_array()
    if a.ndim == 3:
        return np.asarray(a)
    return np.asarray(im.cmap(im.norm(a)))


def segments(ax):
    """Line segment layers: (sorted segments, colours or None if coloured
    by value)."""
    import matplotlib as mpl
    out = []
    for c in list(getattr(ax, 'artists_', [])) or list(
            getattr(ax, 'collections', [])):
        if isinstance(c, FakeLines):
            segs, arr, col = c.segments, c.array, c.colors
        elif not isinstance(c, FakeArtist) and hasattr(c, 'get_segments'):
            segs, arr = c.get_segments(), c.get_array()
            col = c.get_color()
        else:
            continue
        if arr is not None:
            col = None
        else:
            col = sorted(set(map(tuple, mpl.colors.to_rgba_array(col))))
        out.append((sorted(tuple(tuple(float(v) for v in p) for p in s)
                           for s in segs), col))
    return out


def line_values(ax):
    """Of each line segment layer the sorted (segment, value) pairs, or None
    if it is not coloured by value."""
    out = []
    for c in list(getattr(ax, 'artists_', [])) or list(
            getattr(ax, 'collections', [])):
        if isinstance(c, FakeLines):
            segs, arr = c.segments, c.array
        elif not isinstance(c, FakeArtist) and hasattr(c, 'get_segments'):
            segs, arr = c.get_segments(), c.get_array()
        else:
            continue
        out.append(None if arr is None else sorted(
            (tuple(tuple(float(v) for v in p) for p in s), float(a))
            for s, a in zip(segs, np.asarray(arr).tolist(), strict=True)))
    return out


def polys(ax):
    """Corners of the 3d polygons of each layer."""
    out = []
    for c in list(getattr(ax, 'artists_', [])) or list(
            getattr(ax, 'collections', [])):
        if isinstance(c, FakePolys):
            v = np.concatenate(c.verts)
        elif isinstance(c, FakeArtist):
            continue
        elif hasattr(c, '_faces'):
            v = np.asarray(c._faces)
            pad = getattr(c, '_invalid_vertices', False)
            if np.ndim(pad):
                v = v[~np.broadcast_to(np.asarray(pad), v.shape[:2])]
            v = v.reshape(-1, 3)
        elif hasattr(c, '_vec'):
            v = np.asarray(c._vec)[:3].T
        else:
            continue
        out.append(v)
    return out


def faces(ax):
    """Polygons of each layer of 3d polygons."""
    out = []
    for c in list(getattr(ax, 'artists_', [])) or list(
            getattr(ax, 'collections', [])):
        if isinstance(c, FakePolys):
            out.append([np.array(v) for v in c.verts])
        elif isinstance(c, FakeArtist):
            continue
        elif hasattr(c, '_faces'):
            v = np.asarray(c._faces)
            pad = np.broadcast_to(np.asarray(
                getattr(c, '_invalid_vertices', False)), v.shape[:2])
            out.append([a[~b] for a, b in zip(v, pad)])
        elif hasattr(c, '_vec'):
            v = np.asarray(c._vec)[:3].T
            out.append([v[k] for k in c._segslices])
    return out


def placed_texts(ax):
    out = []
    for t in ax.texts:
        s = t.get_text()
        if s:
            at = t.at if hasattr(t, 'at') and isinstance(t.at, tuple) \
                else t.get_position()
            out.append((float(at[0]), float(at[1]), s))
    return sorted(out)


def floats(v):
    """Numbers as they are plotted: masked ones not at all."""
    return np.ma.filled(np.ma.asarray(v).astype(float), np.nan)


def curves(ax):
    """Lines plotted on an axes: (x, [y of each curve])."""
    out = []
    for ln in list(getattr(ax, 'lines_', [])) or list(
            getattr(ax, 'lines', [])):
        if hasattr(ln, 'get_xdata') and not isinstance(ln, FakeArtist):
            out.append((np.asarray(ln.get_xdata(), float),
                        floats(ln.get_ydata(orig=True))))
        else:
            x, y = (floats(v) for v in ln.args[:2])
            out += [(x, c) for c in (y.T if y.ndim == 2 else [y])]
    return out


def arrows(ax):
    """Arrows drawn on an axes: (x, y, u, v, pivot, colour), one each."""
    import matplotlib as mpl
    out = []
    for q in list(getattr(ax, 'artists_', [])) or list(
            getattr(ax, 'collections', [])):
        if isinstance(q, FakeArtist):
            if not isinstance(q.__dict__.get('args'), tuple):
                continue
            xy = [q.args[:2]]
            u, v = np.ravel(q.args[2]), np.ravel(q.args[3])
            pivot, col = q.kw.get('pivot', 'tail'), q.kw.get('color', 'k')
        elif hasattr(q, 'XY'):
            xy, u, v = q.XY, np.ravel(q.U), np.ravel(q.V)
            pivot, col = q.pivot, q.get_facecolor()
        else:
            continue
        col = mpl.colors.to_rgba_array(col)
        for i in range(len(u)):
            x, y = xy[i % len(xy)]
            out.append((float(np.ravel(x)[0]), float(np.ravel(y)[0]),
                        float(u[i]), float(v[i]), pivot,
                        tuple(col[i % len(col)])))
    return out


def colour_bar(ax):
    """(image, label) of the colour bar of an axes, None if without."""
    if isinstance(ax, FakeAxes):
        cb = ax.__dict__.get('bar_')
        return None if cb is None else (cb.mappable, cb.label_)
    for a in ax.figure.axes:
        cb = getattr(a, '_colorbar', None)
        if cb is not None and ax in a._colorbar_info['parents']:
            return cb.mappable, cb.ax.get_ylabel() or cb.ax.get_xlabel()
    return None


def scale_bars(ax):
    """Pixel sizes of the scale bars of an axes."""
    return [a.__dict__['dx'] if isinstance(a, FakeScaleBar) else a.dx
            for a in (ax.artists_ if isinstance(ax, FakeAxes)
                      else ax.artists)
            if isinstance(a, FakeScaleBar) or
            type(a).__name__ == 'ScaleBar']


def marks(ax):
    """(title, [(label, marker size or None)]) of the legend of markers
    of an axes, None if without."""
    if isinstance(ax, FakeAxes):
        m = ax.__dict__.get('marks_')
        return None if m is None else (ax.__dict__.get('title_', ''), m)
    lg = ax.get_legend()
    if lg is None:
        return None
    h = getattr(lg, 'legend_handles', None) or lg.legendHandles
    num = lambda t: ''.join(c for c in t if c not in '${}').replace(
        'mathdefault', '').replace('\\', '').replace('\u2212', '-')
    return lg.get_title().get_text(), [
        (num(t.get_text()), float(q.get_markersize()) ** 2
         if hasattr(q, 'get_markersize') else None)
        for t, q in zip(lg.get_texts(), h)]


def legend(ax):
    """[(label, colour)] of the legend of an axes."""
    if isinstance(ax, FakeAxes):
        h = ax.__dict__.get('legend_', ())
    else:
        lg = ax.get_legend()
        if lg is None:
            return []
        return [(t.get_text(), tuple(p.get_facecolor())) for t, p in
                zip(lg.get_texts(), lg.get_patches())]
    return [(p.get_label(), tuple(p.get_facecolor())) for p in h]


def scatters(ax):
    """[(n x 2 positions, values giving the colours or None)]."""
    out = []
    for p in list(getattr(ax, 'artists_', [])) or list(
            getattr(ax, 'collections', [])):
        if isinstance(p, FakeArtist):
            if not isinstance(p, FakePoints):
                continue
        elif not hasattr(p, 'get_offsets') or hasattr(p, 'XY') or hasattr(
                p, 'get_segments'):
            continue
        o = np.ma.filled(np.ma.asarray(p.get_offsets(), float), np.nan)
        c = p.get_array()
        out.append((o.reshape(-1, 2), None if c is None else
                    np.ma.filled(np.ma.asarray(c, float), np.nan)))
    return out


def marker_colours(ax):
    """One colour (or None) of each layer of scattered points."""
    import matplotlib as mpl
    out = []
    for p in list(getattr(ax, 'artists_', [])) or list(
            getattr(ax, 'collections', [])):
        if isinstance(p, FakeArtist):
            if isinstance(p, FakePoints):
                c = p.__dict__.get('kw', {}).get('c')
                out.append(mpl.colors.to_rgba(c) if isinstance(c, str)
                           else None)
        elif hasattr(p, 'get_offsets') and not hasattr(p, 'XY') and \
                not hasattr(p, 'get_segments'):
            c = p.get_facecolor()
            c = c if len(c) else p.get_edgecolor()
            out.append(tuple(c[0]) if p.get_array() is None and len(c)
                       else None)
    return out


def bars(ax):
    """[(left, right, height)] of a bar histogram."""
    if isinstance(ax, FakeAxes):
        return list(ax.__dict__.get('bars_', ()))
    if len(ax.patches) == 1 and hasattr(ax.patches[0], 'get_xy') and \
            np.ndim(ax.patches[0].get_xy()) == 2:
        # the outline of all bars
        p = ax.patches[0].get_xy()
        n = len(p) // 2 - 1
        return [(p[2 * i + 1, 0], p[2 * i + 2, 0], p[2 * i + 1, 1])
                for i in range(n)]
    return [(p.get_x(), p.get_x() + p.get_width(), p.get_height())
            for p in ax.patches]
