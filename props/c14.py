"""C14: slip systems load faithfully, and Schmid factors and slip traces
follow them and the grains."""
import contextlib
import io
import itertools
import math
import os
import re
import warnings

import matplotlib.colors as mcolors
import numpy as np

from dsim import fs as simfs
from dsim import gui, model, util, world
from dsim.core import Violation
from dsim.util import clear_tb, require
from props.c08 import quat_matrix

ID = 'C14'
LEVEL = 'exploration'
RUNS = dict(quick=2500, thorough=50000)
RULE = ('A run writes one to three slip system files (cubic or hexagonal, '
        'any orthogonal low-index systems, line ends, comments), loads them '
        'directly and through phases under disk faults, with both ways of '
        'grouping, and goes through a history of Schmid factors, slip '
        'traces, exchanged slip systems, new reference orientations, plots '
        'and invalid requests on an EBSD map and a HRDIC map linked to it. '
        'Non-trivial: a fault fired or a map quantity was compared after '
        'slip systems or orientations changed. Distinct: sequences of '
        '(operation, outcome).')
ASSUMPTIONS = [
    'A slip system file cut between two systems is a file of fewer systems.',
    'Indices in files are reduced (no common factor) and orthogonal.',
    'Slip traces are kept until calculated again.',
    'Planes within 1e-4 of parallel to the surface have no trace angle.',
]
REAL = ['defdap.crystal', 'defdap.crystal_utils', 'defdap.ebsd',
        'defdap.hrdic', 'numpy.loadtxt']
STUB = ['disk', 'matplotlib']
MEASURE = 'distinct sequences of (operation, outcome)'


def cubic_systems():
    v = [p for p in itertools.product(range(-2, 4), repeat=3)
         if any(p) and math.gcd(*p) == 1]
    return v, [(p, d) for p in v for d in v
               if sum(a * b for a, b in zip(p, d)) == 0]


def hex_systems():
    v = [(h, k, -h - k, n) for h, k, n in itertools.product(
        range(-2, 3), range(-2, 3), range(-1, 4))]
    v = [p for p in v if any(p) and math.gcd(*p) == 1]
    return v, [(p, d) for p in v for d in v
               if sum(a * b for a, b in zip(p, d)) == 0]


SYS = dict(cubic=cubic_systems()[1], hexagonal=hex_systems()[1])
NAMES = dict(cubic=['cubic_fcc', 'cubic_bcc', 'cubic_bcc_110only',
                    'cubic_fcc_damask'],
             hexagonal=['hexagonal_noca', 'hexagonal_withca'])
COLOURS = ['red', 'blue', 'green', 'yellow', 'white', 'k', 'C1', '#102030']


def warmup():
    util.warm_numba()


def make_file(r):
    st = r.choice(['cubic', 'cubic', 'hexagonal'])
    rows = []
    for _ in range(r.choice([1, 2, 4, 8, 12])):
        if rows and r.random() < .5:
            # another direction in a plane the file has, perhaps negated
            p = rows[r.randrange(len(rows))][:len(rows[0]) // 2]
            c = [d for q, d in SYS[st] if list(q) == p]
            if c:
                d = list(r.choice(c))
                if r.random() < .3:
                    p = [-v for v in p]
                rows.append(p + d)
                continue
        p, d = r.choice(SYS[st])
        rows.append([*p, *d])
    return dict(structure=st, rows=rows,
                colours=[r.choice(COLOURS) for _ in range(len(rows))],
                nl=r.choice(['\n', '\n', '\r\n']), end=r.choice([0, 1, 1, 2]),
                comment=r.random() < .2)


def text(f):
    lines = ['# Plane normal then slip direction', ','.join(f['colours'])]
    for i, row in enumerate(f['rows']):
        if f['comment'] and i == 1:
            lines.append('# another one')
        lines.append('\t'.join(map(str, row)))
    return (f['nl'].join(lines) + f['nl'] * f['end']).encode()


def fault(r, size):
    k = r.choice([None, None, 'truncate', 'truncate', 'read_error',
                  'open_error', 'short_reads', 'other_process'])
    if k is None:
        return None
    f = dict(kind=k)
    if k == 'truncate':
        f['at'] = r.randrange(size + 1)
    elif k == 'read_error':
        f['nth'] = r.choice([1, 1, 2, 3])
    elif k == 'open_error':
        f['nth'] = r.choice([1, 2])
        f['errno'] = r.choice([5, 13, 24])
    elif k == 'short_reads':
        f['max'] = r.choice([1, 7, 40])
    elif k == 'other_process':
        f['nth'] = r.choice([1, 2, 3])
        f['with'] = r.randrange(3)
    return f


def generate(r):
    files = [make_file(r) for _ in range(r.randint(1, 3))]
    spec = dict(shape=[r.choice([5, 6]), r.choice([5, 7])],
                seed=r.randrange(1 << 30), grains=r.choice([1, 2, 4]),
                phases=r.choice([[0], [1], [2], [0, 2], [3]]), noise=.2,
                nonindexed=0)
    maps = r.random() < .6
    ops = []
    for _ in range(r.randint(2, 12)):
        k = r.choice(['load', 'load', 'name', 'phase'] + (
            ['schmid', 'schmid', 'gschmid', 'gtraces', 'gtraces', 'read',
             'read', 'swap', 'swap', 'ref', 'ref', 'average', 'plot',
             'print', 'rdr', 'rdr', 'arrows', 'arrows', 'bad', 'bad',
             'nosys', 'phases'] if maps else ['bad']))
        i = r.randrange(len(files))
        size = len(text(files[i]))
        if k == 'load':
            ops.append([k, i, r.choice(['plane', 'plane', 'family', None,
                                        'Plane', 'x']),
                        r.choice([1.587, 1.6, 1.624]), r.random() < .08,
                        fault(r, size)])
        elif k == 'name':
            s = r.choice(['cubic', 'hexagonal'])
            ops.append([k, s, r.choice(NAMES[s]),
                        r.choice(['plane', 'family', None]),
                        r.choice([1.587, 1.624])])
        elif k == 'phase':
            ops.append([k, i, fault(r, size)])
        elif k in ('schmid', 'gschmid'):
            ops.append([k, r.randrange(4), r.choice(
                [[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, 2, -3],
                 [0.6, 0.8, 0]]), r.choice([None, None, i])])
        elif k == 'gtraces':
            ops.append([k, r.randrange(4), r.choice([None, None, i]),
                        r.random() < .3])
        elif k in ('read', 'print', 'rdr'):
            ops.append([k, r.randrange(4), r.random() < .5])
        elif k == 'arrows':
            ops.append([k, r.randrange(4), r.random() < .5, r.random() < .3,
                        r.choice([None, None, ['red'], ['red', 'C2']])])
        elif k == 'swap':
            ops.append([k, r.randrange(2), i])
        elif k == 'ref':
            ops.append([k, r.randrange(4), [round(r.uniform(0, 6), 3),
                                            round(r.uniform(0, 3), 3),
                                            round(r.uniform(0, 6), 3)]])
        elif k == 'plot':
            ops.append([k, r.choice([None, None, [0], [0, 1], [99]]),
                        r.choice([None, None, [0], [1, 0]])])
        elif k == 'bad':
            ops.append([k, r.randrange(6)])
        else:
            ops.append([k, r.randrange(4)])
    return dict(files=files, spec=spec, maps=maps, ops=ops,
                buffer=r.choice([None, 16, 64]),
                convention=r.choice(['hkl', 'hkl', 'tsl']),
                kit='real' if r.random() < .01 else 'fake',
                _lists=['ops'])


def shrink(sc):
    for i, f in enumerate(sc['files']):
        for j in range(len(f['rows'])):
            if len(f['rows']) > 1:
                n = list(sc['files'])
                n[i] = dict(f, rows=f['rows'][:j] + f['rows'][j + 1:])
                yield dict(sc, files=n)
        for k, v in (('nl', '\n'), ('end', 1), ('comment', False)):
            if f[k] != v:
                n = list(sc['files'])
                n[i] = dict(f, **{k: v})
                yield dict(sc, files=n)


# ------------------------------------------------------------- the model
def parse(data, structure):
    """(rows, colours) of a file, None if it is not one."""
    n = 3 if structure == 'cubic' else 4
    try:
        lines = data.decode().replace('\r\n', '\n').split('\n')
    except UnicodeDecodeError:
        return None
    if len(lines) < 3:
        return None
    rows = []
    for ln in lines[2:]:
        ln = ln.split('#')[0]
        if not ln.strip():
            continue
        try:
            row = [int(v) for v in ln.split('\t')]
        except ValueError:
            return None
        if len(row) != 2 * n:
            return None
        rows.append((tuple(row[:n]), tuple(row[n:])))
    if not rows:
        return None
    return rows, lines[1].strip().split(',')


def up_to_sign(v):
    first = next(x for x in v if x)
    return tuple(v) if first > 0 else tuple(-x for x in v)


def axes(convention):
    if convention == 'tsl':
        return np.array([[1, 0, 0], [-.5, math.sqrt(3) / 2, 0]])
    return np.array([[math.sqrt(3) / 2, -.5, 0], [0, 1, 0]])


def vectors(plane, dirn, structure, ca, convention):
    """Unit normal and direction in the crystal frame."""
    if structure == 'cubic':
        n, d = np.array(plane, float), np.array(dirn, float)
    else:
        a1, a2 = axes(convention)
        a3 = -a1 - a2
        h, k, i, m = plane
        u, v, t, w = dirn
        c = np.array([0, 0, ca])
        d = u * a1 + v * a2 + t * a3 + w * c
        n = (h * a1 + k * a2 + i * a3) * 2 / 3 + m * c / ca ** 2
    return n / np.linalg.norm(n), d / np.linalg.norm(d)


def related(a, b, structure):
    """Same family: a symmetry takes plane to plane and direction to
    direction (either sense)."""
    ops = model.CUBIC if structure == 'cubic' else model.HEX
    (n1, d1), (n2, d2) = a, b
    for s in ops:
        if abs(abs((s @ n1) @ n2) - 1) < 1e-9 and \
                abs(abs((s @ d1) @ d2) - 1) < 1e-9:
            return True
    return False


def grouped(rows, by, structure, ca, convention):
    """Groups of row numbers in order of the file."""
    out = []
    for i, (p, d) in enumerate(rows):
        for g in out:
            q, e = rows[g[0]]
            if by == 'plane':
                hit = up_to_sign(p) == up_to_sign(q)
            else:
                hit = related(vectors(p, d, structure, ca, convention),
                              vectors(q, e, structure, ca, convention),
                              structure)
            if hit:
                g.append(i)
                break
        else:
            out.append([i])
    return out


def expected(data, structure, by, ca, convention):
    got = parse(data, structure)
    if got is None:
        return None
    rows, colours = got
    return dict(rows=rows, colours=colours, structure=structure, ca=ca,
                groups=None if by is None else grouped(
                    rows, by.lower(), structure, ca, convention),
                vec=[vectors(p, d, structure, ca, convention)
                     for p, d in rows])


def indices(v, brackets):
    return brackets[0] + ''.join(
        str(abs(i)) + ('\u0305' if i < 0 else '') for i in v) + brackets[1]


def differs(got, want):
    """None if what was loaded is what the file says."""
    try:
        systems, colours = got
        if list(colours) != want['colours']:
            return f'colours {colours} instead of {want["colours"]}'
        groups = want['groups']
        if groups is None:
            groups = [[i] for i in range(len(want['rows']))]
            systems = [[s] for s in systems]
        if [len(g) for g in systems] != [len(g) for g in groups]:
            return (f'groups of {[len(g) for g in systems]} instead of '
                    f'{groups}')
        for g, idx in zip(systems, groups):
            for s, i in zip(g, idx):
                p, d = want['rows'][i]
                if (tuple(int(v) for v in s.plane_idc) != p
                        or tuple(int(v) for v in s.dir_idc) != d):
                    return f'system {s.plane_idc} {s.dir_idc} at {p} {d}'
                n, b = want['vec'][i]
                if not np.allclose(s.slip_plane, n, atol=1e-9) or \
                        not np.allclose(s.slip_dir, b, atol=1e-9):
                    return (f'{p} {d} has the vectors {s.slip_plane} '
                            f'{s.slip_dir} instead of {n} {b}')
                if s.crystal_structure.name != want['structure']:
                    return 'other crystal structure'
                shown = (s.slip_plane_label, s.slip_dir_label, str(s))
                label = (indices(p, '()'), indices(d, '[]'))
                if shown != label + (''.join(label),):
                    return f'{p} {d} is shown as {shown}'
    except (TypeError, AttributeError) as e:
        clear_tb(e)
        return f'not slip systems: {e}'
    return None


class State:
    def __init__(self, sc, run, kit):
        self.kit = kit
        import defdap
        self.run, self.sc = run, sc
        self.conv = sc['convention']
        self.root = os.path.join(run.scratch, 'ss')
        os.makedirs(self.root, exist_ok=True)
        self.paths = []
        for i, f in enumerate(sc['files']):
            p = os.path.join(self.root, f'f{i}.txt')
            with open(p, 'wb') as g:
                g.write(text(f))
            self.paths.append(p)
        self.defaults = defdap.defaults
        self.faulted = self.compared = False
        self.changed = False
        if sc['maps']:
            self.load_maps()

    def load_maps(self):
        sc = self.sc
        m = world.ebsd_map(self.run, sc['spec'])
        m.data.generate('grain_boundaries', misori_tol=8)
        m.data.generate('grains', min_grain_size=1)
        d = world.dic_map(self.run, dict(
            shape=sc['spec']['shape'], seed=sc['spec']['seed'], binning=4))
        world.link(d, m)
        d.data.generate('grains', algorithm='floodfill', min_grain_size=1)
        self.m, self.d = m, d
        self.n = len(m.grains)
        self.schmid = [None] * self.n
        self.traces = [None] * self.n
        self.incl = [None] * self.n
        self.rdr = [None] * self.n
        self.ref = [None] * self.n
        self.vecs = []            # of each phase: list of lists, or None
        self.rows = []            # indices of them
        for ph in m.phases:
            cub = ph.crystal_structure.name == 'cubic'
            name = ph.ss_file
            want = expected(package_file(name),
                            'cubic' if cub else 'hexagonal', 'plane',
                            ph.c_over_a, self.conv)
            why = differs((ph.slip_systems, ph.slip_trace_colours), want)
            require(why is None, 'wrong-systems', f'phase {ph.name}: {why}',
                    'phase')
            self.vecs.append(listed(want))
            self.rows.append(listed(want, 'rows'))
        self.colours = [list(p.slip_trace_colours) for p in m.phases]

    def custom(self, i):
        """Systems of file i as given to a calculation: (objects, model)."""
        if i is None:
            return None, None
        f = self.sc['files'][i]
        from defdap.crystal import SlipSystem, crystalStructures
        want = expected(text(f), f['structure'], 'plane', 1.6, self.conv)
        s, _ = SlipSystem.load(self.paths[i],
                               crystalStructures[f['structure']],
                               c_over_a=1.6)
        return s, listed(want)

    def pid(self, g):
        return int(self.m.grains[g].phase_id)

    def matrix(self, g):
        q = self.m.grains[g].ref_ori
        if q is None:
            return None
        return quat_matrix(q.quat_coef)

    def want_schmid(self, g, load, vecs):
        v = np.array(load, float)
        v = self.matrix(g) @ (v / np.linalg.norm(v))
        return [[abs((v @ n) * (v @ d)) for n, d in grp] for grp in vecs]

    def want_rdr(self, g):
        gm = self.matrix(g)
        return [[(gm.T @ d)[:2] for _, d in grp]
                for grp in self.vecs[self.pid(g)]]

    def want_traces(self, g, vecs):
        out = []
        gm = self.matrix(g)
        self.incl[g] = incl = []
        for grp in vecs:
            n = gm.T @ grp[0][0]
            incl.append(math.acos(min(1, abs(n[2]))))
            t = np.array([-n[1], n[0]])
            if np.linalg.norm(t) < 1e-4:
                out.append(None)
                continue
            t = t / np.linalg.norm(t)
            a = math.atan2(-t[0], t[1]) % math.pi
            out.append(a)
        return out

    def compare(self, what):
        for g in range(self.n):
            gr = self.m.grains[g]
            got, want = gr.average_schmid_factors, self.schmid[g]
            if want is None:
                require(got is None, 'wrong-schmid', f'after {what} grain '
                        f'{g} has Schmid factors', what)
            else:
                require(got is not None and
                        [len(v) for v in got] == [len(v) for v in want] and
                        all(np.allclose(a, b, atol=1e-7)
                            for a, b in zip(got, want)), 'wrong-schmid',
                        f'after {what} grain {g} has Schmid factors {got} '
                        f'instead of {want}', what)
                self.compared |= self.changed
            self.traces_okay(g, gr.slip_trace_angles, what)
            got, want = gr.slip_trace_inclinations, self.incl[g]
            okay = got is None if want is None else got is not None and \
                len(got) == len(want) and np.allclose(
                    np.cos(got), np.cos(want), atol=1e-6) and all(
                        0 <= v <= math.pi / 2 + 1e-9 for v in got)
            require(okay, 'wrong-inclinations', f'after {what} grain {g} has '
                    f'inclinations {got} instead of {want}', what)
            self.rdr_okay(g, getattr(gr, 'rdr', None), what)
            if self.ref[g] is not None:
                q = np.array(gr.ref_ori.quat_coef)
                require(abs(abs(q @ self.ref[g]) - 1) < 1e-9,
                        'wrong-reference', f'after {what} grain {g} has '
                        f'reference {q} instead of {self.ref[g]}', what)

    def traces_okay(self, g, got, what):
        want = self.traces[g]
        if want is None:
            require(got is None, 'wrong-traces', f'after {what} grain {g} '
                    'has slip traces', what)
            return
        okay = got is not None and len(got) == len(want)
        if okay:
            for a, b in zip(got, want):
                if b is None:
                    continue
                # the angle of a line has no sense
                d = abs(a - b) % math.pi
                okay &= bool(min(d, math.pi - d) < 1e-5) and \
                    -1e-9 <= a <= math.pi + 1e-9
        require(okay, 'wrong-traces', f'after {what} grain {g} has traces '
                f'{got} instead of {want}', what)
        self.compared |= self.changed

    def rdr_okay(self, g, got, what):
        want = self.rdr[g]
        if want is None:
            okay = got is None
        else:
            okay = got is not None and [len(v) for v in got] == [
                len(v) for v in want]
            for r, v in zip(got, want) if okay else ():
                for a, (x, y) in zip(r, v):
                    if math.hypot(x, y) > 1e-4:
                        d = abs(math.atan(a) - math.atan2(-x, y)) % math.pi
                        okay &= bool(min(d, math.pi - d) < 1e-5)
        require(okay, 'wrong-rdr', f'after {what} grain {g} has RDR values '
                f'{got} instead of those of {want}', what)

    def note_refs(self):
        """References of the map are checked elsewhere (C08); here they
        must not change unless asked."""
        for g in range(self.n):
            r = self.m.grains[g].ref_ori
            self.ref[g] = None if r is None else np.array(r.quat_coef)


def listed(want, key='vec'):
    return [[want[key][i] for i in grp] for grp in want['groups']]


def package_file(name):
    import defdap
    p = os.path.join(os.path.dirname(defdap.__file__), 'slip_systems',
                     name + '.txt')
    with open(p, 'rb') as f:
        return f.read()


def sim(st, fault, i):
    faults = []
    if fault:
        f = dict(fault, file=f'f{i}.txt')
        if f['kind'] == 'other_process':
            j = f.pop('with') % len(st.paths)
            f['data'] = text(st.sc['files'][j]).decode('latin-1')
        faults.append(f)
    return simfs.SimFS(st.run, st.root, faults, st.sc['buffer'])


def restore(st, i):
    with open(st.paths[i], 'wb') as g:
        g.write(text(st.sc['files'][i]))


def fired(st, before):
    return {k for k, v in st.run.faults.items() if v != before.get(k, 0)}


def judge(st, i, fl, structure, by, ca, out, val, f, before, what):
    """The outcome of loading file i under a fault."""
    data = text(st.sc['files'][i])
    require(not f.open_handles(), 'file-left-open',
            f'{f.open_handles()} open after {what}', what)
    hit = fired(st, before)
    st.faulted |= bool(hit)
    bad_group = by not in (None, 'plane', 'family', 'Plane')
    allowed = [expected(data, structure, by if not bad_group else 'plane',
                        ca, st.conv)]
    must_fail = bad_group or allowed[0] is None
    may_fail = False
    if hit and fl['kind'] == 'truncate':
        cut = expected(data[:fl['at']], structure, by, ca, st.conv) \
            if not bad_group else None
        must_fail |= cut is None
        may_fail = True
        allowed = [cut]
    elif hit and fl['kind'] in ('read_error', 'open_error'):
        must_fail = True
    elif hit and fl['kind'] == 'other_process':
        j = fl['with'] % len(st.paths)
        allowed.append(None if bad_group else expected(
            text(st.sc['files'][j]), structure, by, ca, st.conv))
        may_fail = True
        must_fail = bad_group or not any(allowed)
    if out == 'exc':
        e = f'{type(val).__name__}: {val}'
        clear_tb(val)
        require(must_fail or may_fail, 'valid-refused',
                f'{what} of {data!r} raises {e}', what)
        return 'refused'
    require(not must_fail, 'bad-file-accepted',
            f'{what} with {fl} by {by} accepts {data!r}', what)
    why = [differs(val, w) for w in allowed if w is not None]
    require(None in why, 'wrong-systems', f'{what} with {fl} by {by} of '
            f'{data!r}: {why}', what)
    return 'loaded'


def step(st, op):
    k = op[0]
    from defdap.crystal import Phase, SlipSystem, crystalStructures
    if k == 'load':
        _, i, by, ca, wrong, fl = op
        structure = st.sc['files'][i]['structure']
        if wrong:
            structure = {'cubic': 'hexagonal',
                         'hexagonal': 'cubic'}[structure]
        before = dict(st.run.faults)
        f = sim(st, fl, i)
        with f:
            out, val = util.outcome(
                SlipSystem.load, st.paths[i], crystalStructures[structure],
                c_over_a=ca if structure == 'hexagonal' else None,
                group_by=by)
        res = judge(st, i, fl, structure, by, ca, out, val, f, before, k)
        restore(st, i)
        return res
    if k == 'name':
        _, structure, name, by, ca = op
        got = SlipSystem.load(name, crystalStructures[structure],
                              c_over_a=ca if structure == 'hexagonal'
                              else None, group_by=by)
        want = expected(package_file(name), structure, by, ca, st.conv)
        require(want is not None, 'wrong-systems', f'{name} is not a file '
                'of slip systems', k)
        why = differs(got, want)
        require(why is None, 'wrong-systems', f'{name}: {why}', k)
        return 'loaded'
    if k == 'phase':
        _, i, fl = op
        structure = st.sc['files'][i]['structure']
        old = dict(st.defaults['slip_system_file'])
        key = dict(cubic=('FCC', 11, 225), hexagonal=('HCP', 9, 194))[
            structure]
        lat = (3., 3., 4.8, np.pi / 2, np.pi / 2,
               np.pi / (2 if key[1] == 11 else 1.5))
        before = dict(st.run.faults)
        f = sim(st, fl, i)
        try:
            st.defaults['slip_system_file'][key[0]] = st.paths[i]
            with f:
                out, val = util.outcome(Phase, 'p', key[1], key[2], lat)
        finally:
            st.defaults['slip_system_file'].update(old)
        if out == 'ok':
            val = (val.slip_systems, val.slip_trace_colours)
        res = judge(st, i, fl, structure, 'plane', 1.6, out, val, f, before,
                    k)
        restore(st, i)
        return res
    if not st.sc['maps']:
        return invalid_load(st, op[1]) if k == 'bad' else None
    return map_step(st, op)


def invalid_load(st, which):
    from defdap.crystal import SlipSystem, crystalStructures
    c, h = crystalStructures['cubic'], crystalStructures['hexagonal']
    call = [lambda: SlipSystem.load('no_such_file', c),
            lambda: SlipSystem.load('hexagonal_noca', c),
            lambda: SlipSystem.load('hexagonal_noca', h),
            lambda: SlipSystem.load('cubic_fcc', h, c_over_a=1.6),
            lambda: SlipSystem.load('cubic_fcc', c, group_by='slip'),
            lambda: SlipSystem.load(st.root, c)][which]
    out, val = util.outcome(call)
    require(out == 'exc', 'invalid-accepted', f'invalid load {which}', 'bad')
    clear_tb(val)
    return 'refused'


def map_step(st, op):
    k, m = op[0], st.m
    g = op[1] % st.n if isinstance(op[1], int) else None
    if k == 'schmid':
        _, _, load, i = op
        obj, vecs = st.custom(i)
        out, val = util.outcome(m.calc_average_grain_schmid_factors, load,
                                slip_systems=obj)
        lacking = [j for j in range(st.n)
                   if vecs is None and st.vecs[st.pid(j)] is None]
        refs_kept(st, k)
        if lacking:
            return no_systems(st, out, val, range(st.n), k, load, vecs)
        done(out, val, k)
        for j in range(st.n):
            st.schmid[j] = st.want_schmid(j, load,
                                          vecs or st.vecs[st.pid(j)])
        return 'all'
    if k == 'gschmid':
        _, _, load, i = op
        obj, vecs = st.custom(i)
        out, val = util.outcome(m[g].calc_average_schmid_factors, load,
                                slip_systems=obj)
        refs_kept(st, k)
        vecs = vecs or st.vecs[st.pid(g)]
        if vecs is None:
            return no_systems(st, out, val, [], k, load, None)
        done(out, val, k)
        st.schmid[g] = st.want_schmid(g, load, vecs)
        return 'one'
    if k == 'gtraces':
        _, _, i, via = op
        obj, vecs = st.custom(i)
        gr = dic_of(st, g) if via else m[g]
        if gr is None:
            return None
        out, val = util.outcome(gr.calc_slip_traces, slip_systems=obj)
        refs_kept(st, k)
        vecs = vecs or st.vecs[st.pid(g)]
        if vecs is None:
            return no_systems(st, out, val, [], k, None, None)
        done(out, val, k)
        st.traces[g] = st.want_traces(g, vecs)
        return 'traces'
    if k == 'read':
        gr = dic_of(st, g) if op[2] else m[g]
        if gr is None:
            return None
        out, val = util.outcome(lambda: gr.slip_traces)
        refs_kept(st, k)
        if st.traces[g] is None:
            if st.vecs[st.pid(g)] is None:
                return no_systems(st, out, val, [], k, None, None)
            done(out, val, k)
            st.traces[g] = st.want_traces(g, st.vecs[st.pid(g)])
        done(out, val, k)
        st.traces_okay(g, val, k)
        return 'read'
    if k == 'swap':
        _, p, i = op
        ph = m.phases[p % len(m.phases)]
        f = st.sc['files'][i]
        if ph.crystal_structure.name != f['structure']:
            return None
        from defdap.crystal import SlipSystem
        ph.slip_systems, ph.slip_trace_colours = SlipSystem.load(
            st.paths[i], ph.crystal_structure, c_over_a=ph.c_over_a)
        want = expected(text(f), f['structure'], 'plane', ph.c_over_a,
                        st.conv)
        st.vecs[p % len(m.phases)] = listed(want)
        st.rows[p % len(m.phases)] = listed(want, 'rows')
        st.colours[p % len(m.phases)] = want['colours']
        st.changed = True
        return 'swapped'
    if k == 'nosys':
        p = op[1] % len(m.phases)
        m.phases[p].slip_systems = None
        st.vecs[p] = None
        st.changed = True
        return 'no systems'
    if k == 'ref':
        from defdap.quat import Quat
        m[g].ref_ori = Quat.from_euler_angles(*op[2])
        st.note_refs()
        st.changed = True
        return 'reference'
    if k == 'average':
        m.calc_grain_av_oris()
        st.note_refs()
        st.changed = True
        return 'averages'
    if k == 'plot':
        return plot(st, op)
    if k == 'print':
        return printed(st, g)
    if k == 'phases':
        return phases(st, op[1] % len(m.phases))
    if k == 'rdr':
        return rdr(st, g if op[2] else None)
    if k == 'arrows':
        return arrows(st, g, *op[2:])
    if k == 'bad':
        return bad(st, op[1])
    raise AssertionError(k)


def refs_kept(st, what):
    """References are only filled in where there were none."""
    for g in range(st.n):
        r = st.m.grains[g].ref_ori
        if st.ref[g] is None and r is not None:
            st.ref[g] = np.array(r.quat_coef)


def dic_of(st, g):
    for d in st.d.grains:
        if d.ebsd_grain is st.m.grains[g]:
            return d
    return None


def done(out, val, what):
    if out == 'exc':
        msg = f'{type(val).__name__}: {val}'
        clear_tb(val)
        raise Violation('valid-refused', f'{what} raises {msg}', what)


def no_systems(st, out, val, grains, what, load, vecs):
    require(out == 'exc', 'invalid-accepted',
            f'{what} of a phase without slip systems', what)
    clear_tb(val)
    for j in grains:
        # grains before the one that failed may be done
        v = vecs or st.vecs[st.pid(j)]
        got = st.m.grains[j].average_schmid_factors
        if v is None or got is None:
            continue
        new = st.want_schmid(j, load, v) if st.matrix(j) is not None else None
        if new is not None and [len(a) for a in got] == [
                len(a) for a in new] and all(
                    np.allclose(a, b, atol=1e-7) for a, b in zip(got, new)):
            st.schmid[j] = new
    return 'refused'


def plot(st, op):
    _, planes, dirs = op
    m = st.m
    missing = [j for j in range(st.n) if st.schmid[j] is None]
    n = [len(s) for s in st.schmid if s is not None]
    bad_plane = not missing and any(
        any(p >= len(s) for p in planes or ()) or any(
            d >= len(s[p]) for d in dirs or () for p in (
                range(len(s)) if planes is None else planes))
        for s in st.schmid)
    kw = dict(planes=planes, directions=dirs)
    out, val = util.outcome(m.plot_average_grain_schmid_factors_map, **kw)
    if missing or bad_plane:
        require(out == 'exc', 'invalid-accepted', f'plot of {kw} with '
                f'{n} planes, none of grains {missing}', 'plot')
        clear_tb(val)
        return 'refused'
    done(out, val, 'plot')
    got = np.asarray(gui.image_axes(val.fig).images[0].get_array(), float)
    st.kit.close(val.fig)
    lab = np.array(m.data.grains)
    want = np.full(lab.shape, .5)
    for j in range(st.n):
        s = st.schmid[j]
        take = s if planes is None else [s[p] for p in planes]
        if dirs is not None:
            take = [[t[d] for d in dirs] for t in take]
        want[lab == j + 1] = max(max(t) for t in take)
    require(np.allclose(got, want, atol=1e-7), 'wrong-plot',
            f'{got} instead of {want}', 'plot')
    return 'plotted'


def names(st, p, shown, k):
    """The planes, colours and directions printed for a phase."""
    rows = st.rows[p][:k]
    for what, pattern, want in (
            ('planes', r'\([^)]*\)', [indices(r[0][0], '()') for r in rows]),
            ('directions', r'\[[^\]]*\]',
             [indices(d, '[]') for r in rows for _, d in r]),
            ('colours', r'Colour: (.*?)(?:\t|\n|$)',
             [c for c in st.colours[p][:k]])):
        got = re.findall(pattern, shown)
        require(got == want, 'wrong-print',
                f'{what} {got} printed instead of {want}', 'print')


def phases(st, p):
    """Printed description and slip systems of a phase."""
    ph = st.m.phases[p]
    a = [f'{v:.2f}' for v in ph.lattice_params[:3]] + [
        f'{math.degrees(v):.0f}' for v in ph.lattice_params[3:]]
    shown = str(ph)
    require(all(t in shown for t in [ph.name, ph.crystal_structure.name,
                                     ', '.join(a), str(ph.ss_file)]),
            'wrong-print', f'phase {p} is shown as {shown!r}', 'phases')
    if st.vecs[p] is None:
        return 'no systems'
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        done(*util.outcome(ph.print_slip_systems), 'phases')
    names(st, p, buf.getvalue(), min(len(st.vecs[p]), len(st.colours[p])))
    return 'phases'


def printed(st, g):
    m = st.m
    buf = io.StringIO()
    p = st.pid(g)
    with contextlib.redirect_stdout(buf):
        out, val = util.outcome(m[g].print_slip_traces)
    refs_kept(st, 'print')
    if st.vecs[p] is None:
        return no_systems(st, out, val, [], 'print', None, None)
    st.traces[g] = st.want_traces(g, st.vecs[p])
    if st.schmid[g] is None:
        require(out == 'exc', 'invalid-accepted', 'print without Schmid '
                'factors', 'print')
        clear_tb(val)
        return 'refused'
    done(out, val, 'print')
    if [len(s) for s in st.schmid[g]] != [len(v) for v in st.vecs[p]]:
        return 'printed'
    angles = [float(a) for a in re.findall(r'Angle: ([-\d.nai]+)',
                                           buf.getvalue())]
    sf = [float(a) for a in re.findall(r'SF: ([-\d.]+)', buf.getvalue())]
    k = min(len(st.vecs[p]), len(st.colours[p]))
    names(st, p, buf.getvalue(), k)
    require(len(angles) == k, 'wrong-print',
            f'{len(angles)} planes printed of {k}', 'print')
    for a, b in zip(angles, st.traces[g]):
        if b is not None:
            d = abs(a - math.degrees(b)) % 180
            require(min(d, 180 - d) < .006, 'wrong-print',
                    f'trace {a} printed instead of {math.degrees(b)}',
                    'print')
    want = [v for s in st.schmid[g][:k] for v in s]
    require(len(sf) == len(want) and np.allclose(sf, want, atol=6e-4),
            'wrong-print', f'Schmid factors {sf} printed instead of {want}',
            'print')
    return 'printed'


def rdr(st, g):
    which = range(st.n) if g is None else [g]
    out, val = util.outcome(st.m.calc_rdr if g is None else st.m[g].calc_rdr)
    refs_kept(st, 'rdr')
    ready = [j for j in which if st.vecs[st.pid(j)] is not None
             and st.ref[j] is not None]
    if out == 'exc':
        e = f'{type(val).__name__}: {val}'
        clear_tb(val)
        require(len(ready) < len(which), 'valid-refused',
                f'RDR raises {e}', 'rdr')
        # those before the one that failed may be done
        for j in ready if g is None else []:
            old, st.rdr[j] = st.rdr[j], st.want_rdr(j)
            try:
                st.rdr_okay(j, getattr(st.m[j], 'rdr', None), 'rdr')
            except Violation:
                st.rdr[j] = old
        return 'refused'
    for j in which:
        require(st.vecs[st.pid(j)] is not None, 'invalid-accepted',
                'RDR without slip systems', 'rdr')
        st.rdr[j] = st.want_rdr(j)
    return 'rdr'


def arrows(st, g, via, top, colours):
    gr = dic_of(st, g) if via else st.m[g]
    if gr is None:
        return None
    p = st.pid(g)
    had = st.traces[g] is not None
    plot = gr.plot_map('max_shear' if via else 'phase')
    out, val = util.outcome(plot.add_slip_traces, colours, top_only=top)
    refs_kept(st, 'arrows')
    if st.vecs[p] is None and not had:
        require(out == 'exc', 'invalid-accepted', 'plotted slip traces '
                'without slip systems', 'arrows')
        clear_tb(val)
        st.kit.close(plot.fig)
        return 'refused'
    done(out, val, 'arrows')
    if not had:
        st.traces[g] = st.want_traces(g, st.vecs[p])
    got = gui.arrows(plot.ax)
    st.kit.close(plot.fig)
    want = st.traces[g]
    require(len(got) == len(want), 'wrong-arrows', f'{len(got)} traces '
            f'drawn instead of {len(want)}', 'arrows')
    pts = np.array(gr.data.point)
    mid = (pts.max(0) - pts.min(0)) / 2
    given = st.colours[p] if colours is None else colours
    for i, (a, w) in enumerate(zip(got, want)):
        x, y, u, v, pivot, col = a
        if w is not None:
            require(abs(-math.sin(w) * v - math.cos(w) * u) < 1e-5 and
                    abs(math.hypot(u, v) - 1) < 1e-5, 'wrong-arrows',
                    f'trace {w} drawn along {u, v}', 'arrows')
        require(max(abs(x - mid[0]), abs(y - mid[1])) < .51, 'wrong-arrows',
                f'trace drawn at {x, y} instead of {mid}', 'arrows')
        require(pivot == ('tail' if top else 'middle'), 'wrong-arrows',
                f'trace drawn from its {pivot}', 'arrows')
        c = mcolors.to_rgba(given[min(i, len(given) - 1)])
        require(np.allclose(col, c, atol=1e-6), 'wrong-arrows',
                f'trace {i} in {col} instead of {c}', 'arrows')
    return 'drawn'


def bad(st, which):
    m = st.m
    call = [lambda: m.calc_average_grain_schmid_factors([1, 0]),
            lambda: m[0].calc_average_schmid_factors('x'),
            lambda: m.calc_average_grain_schmid_factors(
                [1, 0, 0], slip_systems=[[3]]),
            lambda: m[0].calc_slip_traces(slip_systems=[[]]),
            lambda: m[0].calc_slip_traces(slip_systems=5),
            lambda: invalid_load(st, 0)][which]
    if which == 5:
        return call()
    out, val = util.outcome(call)
    refs_kept(st, 'bad')
    require(out == 'exc', 'invalid-accepted', f'invalid request {which}',
            'bad')
    clear_tb(val)
    return 'refused'


def body(sc, run, kit):
    st = State(sc, run, kit)
    trail = []
    for op in sc['ops']:
        run.steps += 1
        out = step(st, op)
        if out is None:
            continue
        if out == 'refused':
            run.fault('invalid request')
        run.log(op[0], out)
        trail.append((op[0], out))
        if sc['maps']:
            st.compare(op[0])
    run.key(trail)
    run.nontrivial = st.faulted or st.compared


def execute(sc, run):
    import defdap
    old = defdap.defaults['crystal_ortho_conv']

    def go(kit):
        util.reset_globals()
        try:
            defdap.defaults['crystal_ortho_conv'] = sc['convention']
            with warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                body(sc, run, kit)
        finally:
            defdap.defaults['crystal_ortho_conv'] = old
            util.reset_globals()
    gui.confirmed(run, sc['kit'], go)
