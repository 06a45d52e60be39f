"""C13: the grain inspector keeps exactly the lines, groups and ratios of
the user's actions."""
import io
import sys

import numpy as np

from dsim import gui, insp, util
from dsim.core import Violation
from dsim.util import require

ID = 'C13'
LEVEL = 'exploration'
RUNS = dict(quick=1500, thorough=25000)
RULE = ('A run opens the grain inspector on a linked HRDIC map and plays a '
        'random history of user actions: mouse presses and releases on and '
        'off the grain, Save Line, going to grains by button and by text, '
        'text boxes submitted by Enter and again by leaving them, removing '
        'lines, clearing, RDR of groups, slip trace analysis of all grains, '
        'requests that are not valid. After each action the lines and '
        'groups of every grain, and what the window lists, are compared '
        'with a model of the session. Non-trivial: at least two lines were '
        'saved. Distinct: histories of (action, grain, numbers of lines and '
        'groups).')
ASSUMPTIONS = [
    'Slip trace angles, Schmid factors and displacements are taken from the '
    'maps (they are inputs of the analysis).',
    'Runs in which an angle lies within 0.011 degrees of a threshold end '
    'there.',
    'In about 1 run in 25 the window is real matplotlib (Agg canvas, drawing '
    'stubbed), in the others a stand-in for matplotlib; a failure of the '
    'stand-in counts only if the real one shows it.',
]
REAL = ['defdap.inspector', 'defdap.plotting', 'defdap.hrdic', 'defdap.ebsd',
        'defdap.base', 'matplotlib widgets and events (share of runs)']
STUB = ['matplotlib (most runs)', 'the user', 'canvas drawing']
MEASURE = 'distinct histories of (action, grain, lines, groups)'


def warmup():
    util.warm_numba()


def generate(r):
    ops = []
    n_ops = r.randint(3, 22)
    bad = r.random() < .35
    # directions of lines are clustered so that groups form
    base = [r.uniform(0, 180) for _ in range(r.choice([1, 2, 2, 3]))]
    if r.random() < .25:                # lines on both sides of 0/180
        base[0] = r.gauss(0, 2)
    # some users stay on one grain and edit its lines
    kinds = ['line'] * 9 + r.choice([
        ['goto', 'next', 'prev', 'remove', 'remove', 'rdr', 'rdr', 'sta',
         'clear', 'away', 'press', 'release', 'again'],
        ['remove'] * 4 + ['rdr'],
        ['remove', 'rdr', 'rdr', 'rdr', 'sta', 'next']])
    for _ in range(n_ops):
        k = r.choice(kinds)
        if k == 'line':
            if r.random() < .75:
                a = np.deg2rad(90 - (r.choice(base) + r.gauss(0, 4)))
                x, y, le = r.uniform(0, 4), r.uniform(0, 4), r.uniform(1, 5)
                d = r.choice([1, -1])
                p = [x, y]
                q = [x + d * le * np.cos(a), y + d * le * np.sin(a)]
                if d < 0 and r.random() < .5:
                    p, q = q, p
            else:
                p = [r.uniform(-.4, 6), r.uniform(-.4, 6)]
                q = [p[0], r.uniform(-.4, 6)] if r.random() < .2 else \
                    [r.uniform(-.4, 6), r.uniform(-.4, 6)]
            p, q = [[round(float(np.clip(v, -.4, 7)), 3) for v in t]
                    for t in (p, q)]
            u = r.random()
            ops.append(['press', *p])
            if u < .1:
                ops.append(['release', 0, 0, False])
                ops.append(['save_line'])
            else:
                ops.append(['release', *q])
                if u < .93:
                    ops.append(['save_line'])
        elif k == 'press':
            ops.append([k, r.uniform(0, 4), r.uniform(0, 4),
                        r.random() < .6])
        elif k == 'release':
            ops.append([k, r.uniform(0, 4), r.uniform(0, 4),
                        r.random() < .6])
            if r.random() < .5:
                ops.append(['save_line'])
        elif k == 'again':
            ops.append(['save_line'])
        elif k == 'goto':
            t = r.choice(['99', 'x', '', '1.5', '-9']) if bad and \
                r.random() < .4 else str(r.randrange(4))
            ops.append(['type', 'goto', t, r.random() < .8])
        elif k == 'remove':
            t = r.choice(['50', 'a', '']) if bad and r.random() < .4 else \
                str(r.randrange(4))
            ops.append(['type', 'remove', t, r.random() < .8])
        elif k == 'rdr':
            t = r.choice(['9', 'q', '']) if bad and r.random() < .3 else \
                str(r.choice([0, 0, 0, 1, 2]))
            ops.append(['type', 'rdr', t, r.random() < .8])
        elif k == 'clear':
            if r.random() < .4:
                ops.append([k])
        else:
            ops.append([k])
    return dict(world=insp.world_spec(r),
                kit='real' if r.random() < .04 else 'fake', ops=ops,
                _lists=['ops'])


def compare(have, want, where):
    require(len(have) == len(want), 'session',
            f'{len(have)} grains, expected {len(want)}', where)
    for i, (h, w) in enumerate(zip(have, want)):
        require(len(h[0]) == len(w[0]), 'lines',
                f'grain {i} has {len(h[0])} lines, expected {len(w[0])}',
                where)
        for j, (a, b) in enumerate(zip(h[0], w[0])):
            ok = (len(a) == 3 and len(a[0]) == 4
                  and all(abs(p - q) <= 0.0101 for p, q in zip(a[0], b[0]))
                  and min(abs(a[1] - b[1]), 180 - abs(a[1] - b[1])) <= .0101)
            require(ok, 'lines', f'grain {i} line {j} is {a}, expected {b}',
                    where)
            require(a[2] == b[2], 'groups', f'grain {i} line {j} is in group '
                    f'{a[2]}, expected {b[2]}', where)
        require(len(h[1]) == len(w[1]), 'groups', f'grain {i} has groups '
                f'{h[1]}, expected {w[1]}', where)
        for a, b in zip(h[1], w[1]):
            require(len(a) == 5 and a[0] == b[0] and min(
                        abs(a[1] - b[1]), 180 - abs(a[1] - b[1])) <= .0101
                    and list(a[2]) == list(b[2]) and len(a[3]) == len(b[3])
                    and all(abs(p - q) <= .0201
                            for p, q in zip(a[3], b[3])),
                    'groups', f'grain {i} has group {a}, expected {b}', where)
            require(insp.equal(a[4], b[4], 1e-6), 'rdr',
                    f'grain {i} group {a[0]} has RDR {a[4]}, expected '
                    f'{b[4]}', where)


def check_shown(w, where):
    m = w.model
    info, lines, groups = w.shown()
    if info is not None:
        require(info[0] % m.n == m.grain and info[1] == m.n - 1, 'shown',
                f'the window says grain {info[0]} / {info[1]}, grain '
                f'{m.grain} of {m.n} is selected', where)
    want_l, want_g = m.s[m.grain]
    if lines is not None:
        ok = len(lines) == len(want_l)
        for k, (row, ln) in enumerate(zip(lines, want_l)):
            v = [float(x) for x in row]
            ref = [k, *ln[0], ln[1], ln[2]]
            tol = [0, .511, .511, .511, .511, .061, 0]
            ok &= len(v) == 7 and all(abs(a - b) <= t
                                      for a, b, t in zip(v, ref, tol))
        require(ok, 'shown', f'lines listed {lines} for {want_l}', where)
    if groups is not None:
        ok = len(groups) == len(want_g)
        for k, (row, g) in enumerate(zip(groups, want_g)):
            ok &= (float(row[0]) == k and abs(float(row[1]) - g[1]) <= .061)
        require(ok, 'shown', f'groups listed {groups} for {want_g}', where)


def check_sta(out, w, where):
    rows = [ln.split('\t') for ln in out.splitlines()
            if ln.count('\t') == 9]
    rows = [r for r in rows if r[0].strip().isdigit()]
    want = []
    for i, g in enumerate(w.dm):
        lines, groups = w.model.s[i]
        for gr in groups:
            e = np.rad2deg(g.ebsd_grain.ref_ori.euler_angles())
            sf = max(max(s) for s in g.ebsd_grain.average_schmid_factors)
            want.append((i, *[float(v) for v in e], float(sf), gr))
    require(len(rows) == len(want), 'sta', f'{len(rows)} rows for '
            f'{len(want)} groups', where)
    for r, (i, e0, e1, e2, sf, gr) in zip(rows, want):
        num = [float(r[0]), float(r[1]), float(r[2]), float(r[3]),
               float(r[4]), float(r[5]), float(r[6]), float(r[9])]
        ref = [i, e0, e1, e2, sf, gr[0], gr[1], gr[4]]
        tol = [0, .051, .051, .051, .00051, 0, .061, .0051]
        ok = all(abs(a - b) <= t or (a != a and b != b)
                 for a, b, t in zip(num, ref, tol))
        planes = [int(v) for v in r[7].replace('[', ' ').replace(
            ']', ' ').replace(',', ' ').split()]
        require(ok and planes == gr[2], 'sta',
                f'row {r} for grain {i}, expected {ref} {gr[2]}', where)


def check_rdr(kit, figs, w, where, i, k, slope):
    """The window that shows a measured RDR beside those of the slip
    systems."""
    g = w.dm[i].ebsd_grain
    group = w.model.s[i][1][k]
    axes = [ax for f in figs for ax in f.get_axes()]
    info = [[t for _, _, t in gui.placed_texts(ax)] for ax in axes]
    text = [t for t in info if any('Plane:' in v for v in t)]
    require(len(text) == 1, 'rdr-window', f'{len(text)} listings', where)
    head = [v for v in text[0] if 'Average angle' in v]
    num = [float(v) for v in
           ' '.join(v for v in head).replace(':', ' ').split()
           if v.replace('.', '').replace('-', '').isdigit()]
    e = np.rad2deg(g.ref_ori.euler_angles())
    want = [group[1], *e]
    require(len(num) == 4 and all(abs(a - b) < t for a, b, t in zip(
        num, want, (.021, .051, .051, .051))), 'rdr-window',
        f'{head} for {want}', where)
    # planes from the top with their systems
    placed = [t for ax in axes for t in gui.placed_texts(ax)
              if 'Plane:' in t[2]]
    placed.sort(key=lambda t: -t[1])
    systems = g.phase.slip_systems
    require(len(placed) == len(systems), 'rdr-window',
            f'{len(placed)} planes listed', where)
    for n, ((_, _, t), row) in enumerate(zip(placed, systems)):
        rows = t.rstrip('\n').split('\n')
        angle = float(rows[0].rsplit(':', 1)[1])
        require(row[0].slip_plane_label in rows[0] and abs(
            angle - np.rad2deg(g.slip_trace_angles[n])) < .051
            and len(rows) == 1 + len(row), 'rdr-window', f'{t}', where)
        for j, (r, sys_) in enumerate(zip(rows[1:], row)):
            sf, rdr = r.split('SF:')[1].split('RDR:')
            require(sys_.slip_dir_label in r and abs(
                float(sf) - g.average_schmid_factors[n][j]) < .00051 and abs(
                    float(rdr) - g.rdr[n][j]) < .00051, 'rdr-window',
                f'{r}, expected {sys_.slip_dir_label} '
                f'{g.average_schmid_factors[n][j]} {g.rdr[n][j]}', where)
    # the number line: each value with its systems
    near = {}
    for n, row in enumerate(systems):
        for j, sys_ in enumerate(row):
            v = float(g.rdr[n][j])
            if abs(abs(v - slope) - 1.5) < 1e-6:
                return
            if abs(v - slope) < 1.5:
                near.setdefault(v, []).append((sys_.slip_plane_label,
                                               sys_.slip_dir_label))
    line = [ax for ax, t in zip(axes, info) if t and t is not text[0]
            and not any('Slope' in v for v in t)]
    line = [ax for ax in line if any(
        v.strip() == f'{slope:.3f}' for _, _, v in gui.placed_texts(ax))]
    require(len(line) == 1, 'rdr-window', f'{slope} is not shown', where)
    got = gui.placed_texts(line[0])
    for v, sys_ in near.items():
        labels = [t for _, y, t in got if abs(y + .01 - v) < 1e-9]
        labels = [t for t in labels
                  if all(a in t and b in t for a, b in sys_)]
        size = len(''.join(a + b for a, b in sys_).replace(' ', ''))
        require(any(len(t.replace(' ', '')) == size for t in labels),
                'rdr-window',
                f'{sys_} are not labelled at {v}: {got}', where)
    slopes = [v for t in info for v in t if 'Slope' in v]
    require(len(slopes) == 1 and abs(float(
        slopes[0].split('=')[1].split()[0]) - slope) < .00051, 'rdr-window',
        f'{slopes} for {slope}', where)


def body(sc, run, kit):
    em, dm = insp.build(run, sc['world'], kit.kind)
    w = insp.Window(kit, dm, sc['world'])
    kit.take_errors()
    m = w.model
    saved = 0
    check_shown(w, 'opening')
    trail = []
    for op in sc['ops']:
        run.steps += 1
        before = m.copy()
        figs = len(kit.figures)
        rec = io.StringIO()
        old, sys.stdout = sys.stdout, rec
        try:
            expect = w.do(op)
        finally:
            sys.stdout = old
        what = op[0] if op[0] != 'type' else f'{op[0]} {op[1]}'
        errs = expect['errors']
        have = insp.session(dm)
        run.log(what, m.cur, [[len(a), len(b)] for a, b in m.s],
                [type(e).__name__ for e in errs])
        if m.fuzzy:
            run.probe('too close to call')
            return
        if expect.get('rdr') and expect['rdr'][2] is None:
            # not defined: the value is not judged
            i, k, _ = expect['rdr']
            if i < len(have) and k < len(have[i][1]):
                m.s[i][1][k][4] = have[i][1][k][4]
            run.probe('RDR not defined')
        if errs:
            require(expect['may_fail'], 'unexpected-exception',
                    f'{what}: {type(errs[0]).__name__}: {errs[0]}', what)
            run.probe('invalid request')
        compare(have, m.s, what)
        check_shown(w, what) if expect.get('rdr') is None else None
        if op[0] == 'sta':
            check_sta(rec.getvalue(), w, what)
            run.probe('slip trace analysis of all grains')
        n = sum(len(a) for a, b in m.s)
        saved += op[0] == 'save_line' and m.s != before
        if expect.get('rdr') and expect['rdr'][2] is not None:
            run.probe('RDR measured')
            if not errs and op[:2] == ['type', 'rdr']:
                check_rdr(kit, kit.figures[figs:], w, what, *expect['rdr'])
                run.probe('RDR window')
        if max(len(b) for a, b in m.s) > 1:
            run.probe('several groups in a grain')
        if m.across:
            m.across = 0
            run.probe('group across 0/180 degrees')
        trail.append((what, m.grain, n, sum(len(b) for a, b in m.s)))
    if saved >= 2:
        run.nontrivial = True
    run.key(trail)
    # the groups depend on the lines only, not on the history
    for i, g in enumerate(dm):
        lines = m.s[i][0]
        for ln in lines:
            require(0 <= ln[2] < len(m.s[i][1]), 'groups', 'orphan line')


def execute(sc, run):
    def go(kit):
        try:
            body(sc, run, kit)
        finally:
            util.reset_globals()
    gui.confirmed(run, sc['kit'], go)
