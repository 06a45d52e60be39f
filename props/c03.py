"""C03: saving an EBSD map: nothing overwritten, success means durable and
complete, failure and crash never leave a silently wrong map."""
import os

import numpy as np

from dsim import ref, util
from dsim.core import SimCrash, Violation
from dsim.fs import SimFS
from dsim.util import clear_tb, outcome, require, same
from props import c01

ID = 'C03'
LEVEL = 'exploration'
RUNS = dict(quick=2500, thorough=30000)
RULE = ('A run loads a random EBSD map, optionally analyses or rotates it, '
        'and saves it to the simulated disk, with a file already there, '
        'created by another process at the last moment, or write errors, '
        'short writes, a full disk, a failing close, or a crash at a chosen '
        'operation or byte (process crash: buffered data is lost). Then the '
        'file is decoded independently and reloaded through defdap. '
        'Non-trivial: the save got as far as the disk. Distinct: (source '
        'format, faults fired, place, buffer size, outcome, bytes left).')
ASSUMPTIONS = [
    'Crash model: the process dies, what write(2) accepted survives.',
    'Orientations are compared to the three decimals of a degree the format '
    'prints, step size to four, lattice parameters to three.',
]
REAL = ['defdap.ebsd.Map.save', 'defdap.file_writers', 'defdap.file_readers',
        'Python text and buffered I/O']
STUB = ['raw file descriptor operations (simulated disk)',
        'a competing process (scripted)']


def warmup():
    util.warm_numba()


def generate(r):
    shape = [r.randint(5, 8), r.randint(5, 8)]
    u = r.random()
    if u < .1:
        shape[r.randrange(2)] = r.choice([1, 2])
    elif u < .2:
        shape[r.randrange(2)] = r.randint(15, 40)
    if r.random() < 0.02:
        shape = r.choice([[3, 300], [270, 5], [66, 66]])
    spec = dict(shape=shape, seed=r.randrange(1 << 30),
                grains=r.randint(1, 4),
                phases=r.sample(range(len(ref.PHASES)),
                                r.choice([1, 1, 2, 3, 10])),
                nonindexed=r.choice([0, 0.1]),
                step=r.choice([0.12, 0.5, 1.0, 2.25, 0.0625]))
    sc = dict(spec=spec, src=r.choice(['bin', 'bin', 'ctf', 'dict']),
              before=r.choice(['', '', 'rotate', 'grains', 'orientation']),
              name=r.choice(['out', 'out', 'out.v2', 'a b']),
              dir=r.choice(['str', 'path', 'joined']),
              existing=r.random() < 0.15, twice=r.random() < 0.3,
              buffer=r.choice([None, None, 16, 64, 509]), faults=[],
              _lists=['faults'])
    k = r.choice(['none', 'write_error', 'disk_full', 'short_writes',
                  'close_error', 'crash_in_write', 'crash_in_write',
                  'crash_at_op', 'open_error', 'other_process',
                  'other_process'])
    f = dict(kind=k, file='.ctf')
    if k == 'write_error':
        f['nth'] = r.choice([1, 1, 2, 5, 40])
        f['errno'] = r.choice([5, 28, 122])
        if r.random() < 0.4:
            f['u'] = r.random()
    elif k in ('disk_full', 'crash_in_write'):
        f['u'] = r.choice([r.random(), 1 - r.random() * 0.05, 0.0])
    elif k == 'short_writes':
        f['max'] = r.choice([1, 7, 100])
    elif k == 'crash_at_op':
        f['op'] = r.randint(1, 12)
    elif k == 'open_error':
        f['nth'], f['errno'] = 1, r.choice([13, 24, 28])
    elif k == 'other_process':
        f['nth'] = 1
        f['what'] = r.choice(['text', 'empty', 'map'])
    if k != 'none':
        sc['faults'].append(f)
        if k != 'short_writes' and r.random() < 0.2:
            sc['faults'].append(dict(kind='short_writes', max=11,
                                     file='.ctf'))
    return sc


def shrink(sc):
    for k, v in (('before', ''), ('name', 'out'), ('existing', False),
                 ('twice', False), ('buffer', None), ('src', 'bin')):
        if sc[k] != v:
            yield dict(sc, **{k: v})
    if sc['spec']['shape'] != [5, 5]:
        yield dict(sc, spec=dict(sc['spec'], shape=[5, 5]))


def state(m):
    return dict(phase=np.array(m.data.phase),
                bc=np.array(m.data.band_contrast),
                eul=np.array(m.data.euler_angle),
                shape=tuple(m.shape), step=m.step_size,
                quat=np.array([q.quat_coef for q in m.data.orientation.flat]),
                phases=[(p.name, p.laue_group, p.spaceGroup,
                         tuple(p.lattice_params)) for p in m.phases])


def eul_quat(e):
    """Independent Bunge Euler angles (degrees) to quaternion."""
    p1, p, p2 = np.deg2rad(np.moveaxis(np.asarray(e, float), -1, 0))
    q = np.stack([np.cos(p / 2) * np.cos((p1 + p2) / 2),
                  -np.sin(p / 2) * np.cos((p1 - p2) / 2),
                  -np.sin(p / 2) * np.sin((p1 - p2) / 2),
                  -np.cos(p / 2) * np.sin((p1 + p2) / 2)], -1)
    return q


def angle_deg(p, q):
    d = np.minimum(np.linalg.norm(p - q, axis=-1),
                   np.linalg.norm(p + q, axis=-1))
    return np.rad2deg(4 * np.arcsin(np.clip(d / 2, 0, 1)))


def decode(data):
    """Read a .ctf without any of the code under test."""
    lines = data.decode().split('\n')
    head, i = {}, 0
    while not lines[i].startswith('Phases'):
        kv = lines[i].split('\t')
        if len(kv) > 1:
            head[kv[0]] = kv[1]
        i += 1
    n = int(lines[i].split('\t')[1])
    phases = []
    for line in lines[i + 1:i + 1 + n]:
        p = line.split('\t')
        phases.append((p[2], int(p[3]), int(p[4]),
                       [float(v) for v in p[0].split(';')],
                       [float(v) for v in p[1].split(';')]))
    cols = lines[i + 1 + n].split('\t')
    rows = [x.split('\t') for x in lines[i + 2 + n:] if x]
    tab = {c: np.array([float(r[j]) for r in rows])
           for j, c in enumerate(cols)}
    return head, phases, tab


def check_bytes(data, want):
    ny, nx = want['shape']
    try:
        head, phases, tab = decode(data)
    except (ValueError, IndexError, UnicodeDecodeError) as e:
        return f'not a complete .ctf file: {e!r}'
    if (int(head['XCells']), int(head['YCells'])) != (nx, ny):
        return 'cells in header'
    for k in ('XStep', 'YStep'):
        if abs(float(head[k]) - want['step']) > 5e-5:
            return f'{k} {head[k]}'
    if len(phases) != len(want['phases']):
        return 'number of phases'
    for a, b in zip(phases, want['phases']):
        if a[0] != b[0] or a[1] != b[1] or a[2] != (b[2] or 0):
            return f'phase {a} != {b}'
        if not (np.allclose(a[3], b[3][:3], atol=6e-4) and np.allclose(
                a[4], np.rad2deg(b[3][3:]), atol=6e-4)):
            return f'lattice {a} != {b}'
    for c in tab.values():
        if len(c) != ny * nx:
            return f'{len(c)} rows for {ny} x {nx} points'
    yy, xx = np.indices((ny, nx))
    if not np.allclose(tab['X'], xx.ravel() * want['step'], atol=1e-3) or \
            not np.allclose(tab['Y'], yy.ravel() * want['step'], atol=1e-3):
        return 'X and Y columns'
    if not np.array_equal(tab['Phase'], want['phase'].ravel()):
        return 'phase column'
    if not np.array_equal(tab['BC'], want['bc'].ravel()):
        return 'band contrast column'
    q = eul_quat(np.stack([tab['Euler1'], tab['Euler2'], tab['Euler3']], -1))
    ang = angle_deg(q, want['quat'])
    if not (ang < 0.004).all():
        i = int(ang.argmax())
        return f'orientation of point {i} is {ang[i]:.4f} degrees off'
    if not ((tab['Error'] != 0) == (tab['Phase'] == 0)).all():
        return 'error column'
    return None


def check_map(m, want):
    got = state(m)
    if got['shape'] != want['shape']:
        return f'shape {got["shape"]} != {want["shape"]}'
    if abs(got['step'] - want['step']) > 5e-5:
        return f'step size {got["step"]} != {want["step"]}'
    if len(got['phases']) != len(want['phases']):
        return 'number of phases'
    for a, b in zip(got['phases'], want['phases']):
        if a[:2] != b[:2] or (a[2] or 0) != (b[2] or 0):
            return f'phase {a} != {b}'
        if not np.allclose(a[3], b[3], atol=6e-4):
            return f'lattice {a} != {b}'
    for k in ('phase', 'bc'):
        if not np.array_equal(got[k], want[k]):
            return f'{k} differs'
    ang = angle_deg(got['quat'], want['quat'])
    if not (ang < 0.004).all():
        return f'orientations differ by {ang.max():.4f} degrees'
    return None


def execute(sc, run):
    import pathlib
    from defdap import ebsd
    util.reset_globals()
    t = ref.ebsd_truth(sc['spec'])
    src = os.path.join(run.scratch, 'src')
    os.mkdir(src)
    if sc['src'] == 'dict':
        arg, dtype = c01.dictionary(t), 'PythonDict'
        for p in arg['phases'][1::2]:
            p.spaceGroup = None                 # not known
    else:
        arg, dtype = ref.write_ebsd(os.path.join(src, 'm'), t, sc['src'])
    m = ebsd.Map(arg, data_type=dtype)
    if sc['before'] == 'rotate':
        m.rotate_data()
    elif sc['before'] == 'grains':
        outcome(lambda: m.data.generate('grains', min_grain_size=1))
    elif sc['before'] == 'orientation':
        m.data.orientation
    want = state(m)
    root = os.path.join(run.scratch, 'disk')
    os.mkdir(root)
    fname = sc['name'] + '.ctf'
    path = os.path.join(root, fname)

    def save():
        if sc['dir'] == 'joined':
            return m.save(os.path.join(root, sc['name']))
        d = root if sc['dir'] == 'str' else pathlib.Path(root)
        return m.save(sc['name'], file_dir=d)

    # size of a complete file, for faults placed in it
    m.save('whole', file_dir=run.scratch)
    with open(os.path.join(run.scratch, 'whole.ctf'), 'rb') as g:
        size = len(g.read())
    other = dict(text=b'do not touch\n', empty=b'',
                 map=ref.enc_ctf(ref.ebsd_truth(
                     dict(sc['spec'], seed=sc['spec']['seed'] + 1))))
    faults, precious = [], None
    for f in sc['faults']:
        f = dict(f)
        if f['kind'] in ('disk_full', 'crash_in_write'):
            f['after'] = int(f['u'] * size)
        if f['kind'] == 'write_error' and 'u' in f:
            n = -(-size // (sc['buffer'] or 8192))
            f['nth'] = 1 + int(f['u'] * n)
        if f['kind'] == 'other_process':
            f['data'] = other[f['what']].decode()
        faults.append(f)
    if sc['existing']:
        precious = other['map']
        with open(path, 'wb') as g:
            g.write(precious)
    fs = SimFS(run, root, faults, sc['buffer'])
    crashed = False
    with fs:
        try:
            st, e = outcome(save)
        except SimCrash:
            st, e, crashed = 'crash', None, True
        fs.crash_cleanup() if crashed else None
    if st == 'exc':
        name = type(e).__name__
        clear_tb(e)
        run.log('save failed', name)
        e = None
    else:
        run.log('save', st)
    if not crashed:
        require(not fs.open_handles(), 'leak',
                f'file left open by save: {fs.open_handles()}')
    for f in fs.faults:
        if f['kind'] == 'other_process' and f.get('_done'):
            precious = other[f['what']]
    exists = os.path.exists(path)
    data = open(path, 'rb').read() if exists else b''
    fired = sorted(run.faults)
    run.nontrivial = exists or bool(fired)
    run.key(sc['src'], sc['before'], sc['name'], fired, sc['buffer'], st,
            sc['existing'], len(data), [f.get('nth') for f in faults])
    if precious is not None:
        require(st != 'ok', 'overwrite',
                'save reported success over a file that already existed')
        require(data == precious, 'overwrite',
                f'save changed a file that already existed ({st}, {fired})')
        run.probe('existing file kept')
    elif st == 'ok':
        require(exists, 'lost', 'save succeeded but there is no file')
        diff = check_bytes(data, want)
        require(not diff, 'wrong-data', f'saved file is wrong after a '
                f'successful save ({fired}): {diff}')
        d2 = check_map(ebsd.Map(path), want)
        require(not d2, 'wrong-data',
                f'reloaded map differs after a successful save: {d2}')
        run.probe('round trip compared')
    elif exists:
        s2, m2 = outcome(ebsd.Map, path)
        if s2 == 'ok':
            diff = check_map(m2, want)
            require(not diff, 'silent-corruption',
                    f'file left by a {"crashed" if crashed else "failed"} '
                    f'save ({len(data)} of {size} bytes, {fired}) loads as a '
                    f'different map: {diff}')
            run.probe('complete file left by a failed save')
        else:
            clear_tb(m2)
            run.probe('incomplete file refused')
    if st == 'exc' and not fired and precious is None:
        raise Violation('save-failed', f'save failed without a fault: {name}')
    require(sorted(x for x in os.listdir(root) if not x.startswith('.cut'))
            in ([], [fname]) or not st == 'ok', 'litter',
            f'files left: {os.listdir(root)}')
    if crashed:
        return
    # the map in memory is what it was, and can still be saved
    now = state(m)
    for k in want:
        require(same(now[k], want[k]), 'changed-by-save',
                f'saving changed {k} of the map in memory')
    fs = SimFS(run, root, [], sc['buffer'])
    with fs:
        st2, e2 = outcome(m.save, 'again', file_dir=root)
    require(st2 == 'ok', 'save-failed', f'save after a {st} save: {e2!r}')
    diff = check_bytes(open(os.path.join(root, 'again.ctf'), 'rb').read(),
                       want)
    require(not diff, 'wrong-data', f'second save: {diff}')
    if sc['twice']:
        before = open(os.path.join(root, 'again.ctf'), 'rb').read()
        st3, e3 = outcome(m.save, 'again', file_dir=root)
        require(st3 == 'exc', 'overwrite', 'saved twice to the same name')
        clear_tb(e3)
        require(open(os.path.join(root, 'again.ctf'), 'rb').read() == before,
                'overwrite', 'second save to the same name changed the file')
