"""The grain inspector: a world to inspect, a simulated user driving its
window, and a model of the session the user should have."""
import numpy as np

from . import gui, world
from .core import Violation

WIN = dict(save_line='Save Line', prev='Previous Grain', next='Next Grain',
           sta='Run All STA', clear='Clear All Lines', load='Load File',
           save='Save File')
BOX = dict(goto='Go to grain ID:', remove='Remove ID:',
           rdr='Run RDR only on group:', name='')


# ----------------------------------------------------------------- world
def world_spec(r):
    return dict(
        e=dict(shape=[r.randint(8, 12), r.randint(8, 12)],
               seed=r.randrange(1 << 30), grains=r.randint(2, 5),
               phases=r.choice([[0], [2], [0, 2]]), nonindexed=0),
        d=dict(shape=[r.randint(9, 13), r.randint(9, 13)],
               seed=r.randrange(1 << 30), binning=4),
        scale=r.choice([1.0, 1.0, 0.9, 1.1]),
        mask=r.choice([None, None, None, r.randrange(1 << 30)]),
        corr=r.choice([0, 0, 0, 5, -7.5, 120]),
        length=r.choice([3, 3, 5, 7]))


def build(run, spec, name=''):
    """Maps as a new process loads them from disk."""
    em = world.ebsd_map(run, spec['e'], 'e' + name)
    em.data.generate('grains', min_grain_size=2)
    dm = world.dic_map(run, spec['d'], 'd' + name)
    dm.set_scale(0.1)
    world.link(dm, em, spec['scale'])
    dm.data.generate('grains', algorithm='warp', min_grain_size=1)
    if spec.get('mask') is not None:
        m = np.random.default_rng(spec['mask']).random(dm.shape) < 0.08
        dm.data.generate('mask', mask=m)
    em.calc_average_grain_schmid_factors(load_vector=np.array([1., 0, 0]))
    return em, dm


def plain(v):
    """Lines and groups as plain values."""
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, np.ndarray):
        return [plain(x) for x in v.tolist()]
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return float(v)
    return v


def session(dm):
    """What the package holds: per grain, lines and groups."""
    return [[plain(g.points_list), plain(g.groups_list)] for g in dm]


def equal(a, b, tol=0.0):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(equal(x, y, tol)
                                        for x, y in zip(a, b))
    if isinstance(a, list) or isinstance(b, list):
        return False
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return (a == b or abs(a - b) <= tol * max(1, abs(a), abs(b))
                or (a != a and b != b))
    return a == b


# ----------------------------------------------------------------- model
def fmt2(v):
    return float(f'{v:.2f}')


def turned(a, ref):
    """The angle of the same line (they repeat every 180 degrees) that is
    nearest to a reference."""
    while a - ref > 90:
        a -= 180
    while ref - a > 90:
        a += 180
    return a


class Model:
    """Lines and groups per grain, the grain shown, the line drawn."""

    def __init__(self, dm, corr, length):
        self.dm, self.corr, self.length = dm, corr, length
        self.n = len(dm)
        self.traces = []
        for g in dm:
            self.traces.append([float(np.rad2deg(a))
                                for a in g.ebsd_grain.slip_traces])
        self.s = [[[], []] for _ in range(self.n)]
        self.cur = 0
        self.press = None
        self.drawn = None
        self.across = 0             # groups with lines across 0/180 degrees
        self.fuzzy = False          # a comparison was too close to call

    def copy(self):
        return [[plain(x) for x in g] for g in self.s]

    # ---------------------------------------------------------- grouping
    def group(self, i):
        lines = self.s[i][0]
        groups = []
        for k, ln in enumerate(lines):
            a = ln[1]
            best = None
            for gi, g in enumerate(groups):
                d = abs(turned(g['av'], a) - a)
                if abs(d - 10) < 0.011:
                    self.fuzzy = True
                if d < 10:
                    if best is not None and abs(
                            d - abs(turned(groups[best]['av'], a) - a)) < .011:
                        self.fuzzy = True
                    if best is None or d < abs(
                            turned(groups[best]['av'], a) - a):
                        best = gi
            if best is None:
                groups.append(dict(av=a, m=[a]))
                best = len(groups) - 1
            else:
                groups[best]['m'].append(a)
                near = [turned(v, groups[best]['av'])
                        for v in groups[best]['m']]
                groups[best]['av'] = fmt2(sum(near) / len(near) % 180) % 180
                if len({round((v - w_) / 180) for v, w_ in
                        zip(near, groups[best]['m'])}) > 1:
                    self.across += 1
            ln[2] = best
        out = []
        for gi, g in enumerate(groups):
            pl, dev = [], []
            for idx, t in enumerate(self.traces[i]):
                d = g['av'] - turned(t, g['av'])
                if abs(abs(d) - 5) < 0.011:
                    self.fuzzy = True
                if abs(d) < 5:
                    pl.append(idx)
                    dev.append(fmt2(d))
            out.append([gi, g['av'], pl, dev, 0])
        self.s[i][1] = out

    # ------------------------------------------------------------ events
    def save_line(self):
        if self.drawn is None:
            return False
        (x0, y0), (x1, y1) = self.drawn
        ang = 90 - np.rad2deg(np.arctan2(y1 - y0, x1 - x0)) - self.corr
        ang = fmt2(ang % 180) % 180
        self.s[self.cur][0].append(
            [[fmt2(x0), fmt2(y0), fmt2(x1), fmt2(y1)], ang, -1])
        self.group(self.cur)
        return True

    def goto(self, k):
        if not (-self.n <= k < self.n):
            return False
        self.cur = k
        self.press = self.drawn = None
        return True

    @property
    def grain(self):
        return self.cur % self.n

    def remove(self, k):
        lines = self.s[self.grain][0]
        if not 0 <= k < len(lines):
            return False
        del lines[k]
        self.group(self.grain)
        self.press = self.drawn = None
        return True

    def clear(self):
        self.s[self.grain] = [[], []]
        self.press = self.drawn = None

    def rdr(self, k):
        """(valid request, slope or None if not defined)"""
        lines, groups = self.s[self.grain]
        if not 0 <= k < len(groups):
            return False, None
        g = self.dm[self.grain]
        ang = groups[k][1]
        q = ang / 45
        if abs(q - np.floor(q) - .5) < 1e-6:
            self.fuzzy = True
        step = [(1, 0), (1, -1), (0, 1), (1, 1), (1, 0)][int(np.round(q))]
        half = (self.length - 1) // 2
        offs = [(s * step[0], s * step[1]) for s in range(-half, half + 1)]
        pts = np.asarray(g.data.point)
        ex, ey = pts.min(axis=0)
        disp = self.dm.data.displacement
        bad = np.ma.getmaskarray(disp).any(axis=0)
        val = np.ma.getdata(disp)
        h, w = val.shape[1:]
        us, vs = [], []
        from skimage.draw import line as raster
        for ln in lines:
            if ln[2] != k:
                continue
            x0, y0, x1, y1 = [int(v) for v in ln[0]]
            for x, y in zip(*raster(x0, y0, x1, y1)):
                px = [(int(x + ex + a), int(y + ey + b)) for a, b in offs]
                if not all(0 <= a < w and 0 <= b < h and not bad[b, a]
                           for a, b in px):
                    continue
                u = np.array([val[0, b, a] for a, b in px], float)
                v = np.array([val[1, b, a] for a, b in px], float)
                us.extend(u - u.mean())
                vs.extend(v - v.mean())
        us, vs = np.array(us), np.array(vs)
        if len(us) < 3 or not np.ptp(vs) > 1e-12:
            return True, None
        slope = float(np.mean((vs - vs.mean()) * (us - us.mean()))
                      / np.mean((vs - vs.mean()) ** 2))
        return True, slope


# ---------------------------------------------------------------- window
class Window:
    """A grain inspector window and the user in front of it."""

    def __init__(self, kit, dm, spec):
        self.kit = kit
        n = len(kit.figures)
        dm.grain_inspector(vmax=0.1, correction_angle=spec['corr'],
                           rdr_line_length=spec['length'])
        self.fig = kit.figures[n]
        self.dm = dm
        self.model = Model(dm, spec['corr'], spec['length'])
        self.focus = None
        self.boxes = {k: '' for k in BOX}
        self.boxes['name'] = kit.box_text(self.fig, '')

    # the axes of the grain map: the one the package labels lines in is
    # the first one it makes
    def map_axes(self):
        if not hasattr(self, '_ax'):
            # the axes showing an image
            for ax in self.fig.get_axes():
                if getattr(ax, 'images', None):
                    self._ax = ax
                    break
            else:
                raise LookupError('no grain map in the window')
        return self._ax

    def shown(self):
        """(grain id, number of grains, line rows, group rows) as text."""
        info, lines, groups = None, None, None
        for s in gui.texts(self.fig):
            if s.startswith('Grain ID:'):
                a = s.split('\n')[0].split(':')[1].split('/')
                info = int(a[0]), int(a[1])
            elif s.startswith('ID') and 'x0' in s.split('\n')[0]:
                lines = [r.split() for r in s.split('\n')[2:] if r.strip()]
            elif s.startswith('ID') and 'Av.' in s.split('\n')[0]:
                groups = [r.split() for r in s.split('\n')[2:] if r.strip()]
        return info, lines, groups

    # --------------------------------------------------- model of a submit
    def _submit(self, box, expect):
        """The model's response to a submit of a text box."""
        m, t = self.model, self.boxes[box]
        if box == 'name':
            return
        try:
            k = int(t)
        except ValueError:
            expect['may_fail'] = True
            return
        if box == 'goto':
            if not m.goto(k):
                expect['may_fail'] = True
        elif box == 'remove':
            if m.remove(k):
                self.boxes['remove'] = ''
            else:
                expect['may_fail'] = True
        elif box == 'rdr':
            ok, slope = m.rdr(k)
            if not ok:
                expect['may_fail'] = True
            else:
                expect['rdr'] = (m.grain, k, slope)
                if slope is None:
                    expect['may_fail'] = True
                else:
                    m.s[m.grain][1][k][4] = slope
                    self.boxes['rdr'] = ''

    def _leave(self, expect, keep=None):
        if self.focus is not None and self.focus != keep:
            box, self.focus = self.focus, None
            self._submit(box, expect)

    # ------------------------------------------------------------- events
    def do(self, op):
        """Perform one user action on the window and on the model. Returns
        what the model expects of it."""
        k, m, kit, fig = op[0], self.model, self.kit, self.fig
        expect = dict(may_fail=False)
        kit.take_errors()
        if k in ('press', 'release'):
            name = f'button_{k}_event'
            if k == 'press':
                self._leave(expect)
            inside = op[3] if len(op) > 3 else True
            ax = self.map_axes() if inside else None
            at = kit.mouse(fig, name, ax, op[1], op[2])
            if k == 'press':
                m.press = at
            elif at is not None and m.press is not None:
                m.drawn = (m.press, at)
        elif k in ('save_line', 'next', 'prev', 'sta', 'clear', 'save',
                   'load'):
            self._leave(expect)
            # a press on a button starts no line on the map
            m.press = None
            if k == 'save_line':
                if not m.save_line():
                    expect['may_fail'] = True
            elif k == 'next':
                if not m.goto(m.cur + 1):
                    expect['may_fail'] = True
            elif k == 'prev':
                # before the first grain: the last one, or no change
                if not m.goto(m.cur - 1):
                    expect['may_fail'] = True
            elif k == 'clear':
                m.clear()
            expect['errors'] = self._click(k)
            return expect
        elif k == 'type':
            box, text = op[1], op[2]
            self._leave(expect, keep=box)
            m.press = None
            self.boxes[box] = text
            self.focus = box
            kit.type(fig, BOX[box], text, enter=False)
            if op[3]:
                kit.type(fig, BOX[box], text, enter=True)
                self._submit(box, expect)
        elif k == 'away':
            self._leave(expect)
            kit.mouse(fig, 'button_press_event', None, 0, 0)
            kit.mouse(fig, 'button_release_event', None, 0, 0)
            m.press = None
        expect['errors'] = kit.take_errors()
        return expect

    def _click(self, k):
        self.kit.click(self.fig, WIN[k])
        return self.kit.take_errors()


def fail(kind, msg, where=''):
    raise Violation(kind, msg, where)
