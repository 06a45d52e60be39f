"""C01: EBSD files load faithfully, or loading fails."""
import os
import re

import numpy as np

from dsim import ref, util
from dsim.core import Violation
from dsim.fs import SimFS
from dsim.util import clear_tb, outcome, require, same

ID = 'C01'
LEVEL = 'exploration'
RUNS = dict(quick=4000, thorough=40000)
RULE = ('A run writes one synthetic EBSD map in one of the supported formats '
        '(random size, phases, columns/fields, EDX layers, line endings) to '
        'the simulated disk and loads it through ebsd.Map while the disk '
        'misbehaves as drawn; then loads it again with the disk healthy. '
        'Non-trivial: a fault fired, or the load was compared with the '
        'independent encoder\'s truth. Distinct: (format, layout, faults '
        'fired, place of the fault, outcome).')
ASSUMPTIONS = [
    'Corruption that changes bytes without changing lengths is out of scope: '
    'the formats carry no checksum.',
    'A text file cut inside its very last number is still a well-formed file; '
    'only that one value is then not compared.',
    'A .cpr cut inside the number of a field is noticed by the number of '
    'whole records only, so not in maps of a few points.',
    'A .cpr cut before optional entries (space group, EDX windows) loads '
    'without them; those are not compared for a cut .cpr.',
    'numpy.fromfile reads below Python: it is given the truncated file '
    'instead of failing reads.',
]
REAL = ['defdap.ebsd.Map', 'defdap.file_readers', 'defdap.crystal.Phase',
        'numpy.loadtxt', 'numpy.fromfile', 'Python text and buffered I/O']
STUB = ['raw file descriptor operations (simulated disk)',
        'the instrument that wrote the file (independent encoders)']


def warmup():
    import defdap.ebsd  # noqa


def gen_spec(r):
    shape = [r.randint(5, 9), r.randint(5, 9)]
    u = r.random()
    if u < 0.12:
        shape[r.randrange(2)] = r.choice([1, 1, 2, 3])
    elif u < 0.16:
        shape = [r.choice([1, 2]), r.choice([1, 2])]
    elif u < 0.28:
        shape[r.randrange(2)] = r.randint(20, 60)
    elif u < 0.30:
        shape = r.choice([[3, 300], [270, 2], [66, 66]])
    return dict(shape=shape, seed=r.randrange(1 << 30),
                grains=r.randint(1, 5) if r.random() < 0.9 else 20,
                phases=r.sample(range(len(ref.PHASES)),
                                r.choice([1, 1, 1, 2, 2, 3, 4, 10, 12])),
                noise=0.3, nonindexed=r.choice([0, 0, 0.1]),
                step=r.choice([0.12, 0.5, 1.0, 2.25]))


def generate(r):
    fmt = r.choice(['bin', 'bin', 'bin', 'bin', 'ctf', 'ctf', 'ang', 'ang',
                    'dict'])
    spec = gen_spec(r)
    sc = dict(fmt=fmt, spec=spec, faults=[], buffer=r.choice(
        [None, None, 16, 61, 512, 4096]), crlf=r.random() < 0.25,
        auto=r.random() < 0.4, case=r.choice(
            ['strip', 'lower', 'upper']), _lists=['faults'])
    if fmt == 'bin':
        spec['edx'] = r.sample(['Al', 'Ni', 'Ti', 'Cr', 'C', 'O', 'Fe', 'Mo',
                                'Co', 'W', 'Si', 'Al2'],
                               r.choice([0, 0, 0, 1, 2, 3, 4, 11]))
        f = list(ref.STD_FIELDS)
        if r.random() < 0.5:
            for drop in (10, 11, 12):
                if r.random() < 0.4:
                    f.remove(drop)
        f += [101 + i for i in range(len(spec['edx']))]
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            f.append(r.choice([1, 2, 9, 13, 20, 42, 60 + len(f), 150]))
        if r.random() < 0.6:
            r.shuffle(f)
        seen = set()
        sc['fields'] = [x for x in f if not (x in seen or seen.add(x))]
        sc['ext'] = r.choice(['', '.cpr', '.crc'])
        sc['space'] = r.random() < 0.85
        sc['indent'] = r.random() < 0.1
    if fmt == 'ctf':
        cols = ['Phase', 'X', 'Y', 'Bands', 'Error', 'Euler1', 'Euler2',
                'Euler3', 'MAD', 'BC', 'BS']
        if r.random() < 0.4:
            for c in ('X', 'Y', 'Bands', 'Error'):
                if r.random() < 0.3:
                    cols.remove(c)
            r.shuffle(cols)
        sc['cols'] = cols
        sc['project'] = r.choice(['sim'] * 6 + [
            'Duplex Phases', 'C:\\maps\\XStep study 3', 'YCells 7',
            'AcqE1 12'])
    mode = r.random()
    if mode < 0.25:
        return sc                        # healthy disk
    if fmt == 'dict':
        sc['faults'].append(dict(kind='bad_dictionary', file='dict',
                                 which=r.choice(['phase', 'phases',
                                                 'step_size', 'euler_angle',
                                                 'euler shape', 'phase shape',
                                                 'phases type',
                                                 'phase names'])))
        return sc
    kinds = ['truncate'] * 6 + ['read_error'] * 2 + ['short_reads'] * 2 + \
        ['open_error'] * 2 + ['other_process'] * 2
    kind = r.choice(kinds)
    main = dict(bin='crc', ctf='ctf', ang='ang')[fmt]
    target = main
    if fmt == 'bin' and r.random() < 0.4:
        target = 'cpr'
    f = dict(kind=kind, file=target)
    if kind == 'truncate':
        f['place'] = r.choice(['end', 'end', 'record', 'any', 'header'])
        f['u'] = r.random()
        f['back'] = r.randint(0, 40)
        f['from_open'] = r.choice([1, 1, 1, 2])
        if target == 'cpr':
            # in a map of few points the number of whole records does not
            # show that a record is shorter than the cut header says
            spec['shape'] = [max(7, n) for n in spec['shape']]
    elif kind == 'read_error':
        f['nth'] = r.randint(1, 6)
        f['file'] = target if fmt != 'bin' else 'cpr'
    elif kind == 'short_reads':
        f['max'] = r.choice([1, 3, 17, 100])
        f['file'] = target if fmt != 'bin' else 'cpr'
    elif kind == 'open_error':
        f['nth'] = r.choice([1, 1, 2])
        f['errno'] = r.choice([5, 13, 24, 2])
    elif kind == 'other_process':
        f['nth'] = 2 if fmt != 'bin' else 1
        f['file'] = main
        f['rows'] = r.choice([-2, -1, 1, 2] if spec['shape'][0] > 2
                             else [1, 2])
    sc['faults'].append(f)
    if kind != 'short_reads' and r.random() < 0.2:
        sc['faults'].append(dict(kind='short_reads', max=7,
                                 file='cpr' if fmt == 'bin' else target))
    return sc


def shrink(sc):
    for k in ('edx',):
        if sc['spec'].get(k) and sc['fmt'] == 'bin':
            c = dict(sc, spec=dict(sc['spec'], edx=[]))
            c['fields'] = [f for f in sc['fields'] if f < 100]
            yield c
    if sc['fmt'] == 'bin' and sc['fields'] != ref.STD_FIELDS and \
            not sc['spec'].get('edx'):
        yield dict(sc, fields=ref.STD_FIELDS)
    small = [7, 7] if any(f['file'] == 'cpr' for f in sc['faults']) else [5, 5]
    if sc['spec']['shape'] != small:
        yield dict(sc, spec=dict(sc['spec'], shape=small))
    if len(sc['spec']['phases']) > 1:
        yield dict(sc, spec=dict(sc['spec'],
                                 phases=sc['spec']['phases'][:1]))
    if sc['crlf']:
        yield dict(sc, crlf=False)
    if not sc.get('space', True):
        yield dict(sc, space=True)
    if sc.get('indent'):
        yield dict(sc, indent=False)
    if sc.get('project', 'sim') != 'sim':
        yield dict(sc, project='sim')
    if sc['buffer']:
        yield dict(sc, buffer=None)


def encode(sc, t):
    if sc['fmt'] == 'bin':
        cpr = ref.enc_cpr(t, sc['fields'])
        if not sc.get('space', True):
            cpr = re.sub(rb'SpaceGroup=.*\n', b'', cpr)
        if sc.get('indent'):
            cpr = cpr.replace(b'; a comment\n', b'  ; a comment\n\n \n')
        out = {'map.cpr': cpr,
               'map.crc': ref.enc_crc(t, sc['fields'])}
    elif sc['fmt'] == 'dict':
        return {}
    elif sc['fmt'] == 'ctf':
        out = {'map.ctf': ref.enc_ctf(t, sc['cols'],
                                       project=sc['project'])}
    else:
        out = {'map.ang': ref.enc_ang(t)}
    if sc['crlf']:
        for k in out:
            if not k.endswith('crc'):
                out[k] = out[k].replace(b'\n', b'\r\n')
    return out


def expected(sc, t):
    fmt = sc['fmt']
    ph = []
    for p in t['phases']:
        space = p['space']
        if fmt == 'ang':
            space = 229 if p['laue'] == 11 else None
        elif not sc.get('space', True):
            space = 0
        lat = p['lat']
        ph.append((p['name'], p['laue'], space, tuple(lat[:3])
                   + tuple(np.deg2rad(a) for a in lat[3:])))
    ex = dict(shape=t['shape'], step=t['step'], phases=ph)
    rad = np.deg2rad(t['euler'])
    if fmt == 'bin':
        ex['exact'] = dict(phase=t['phase'], band_contrast=t['bc'],
                           band_slope=t['bs'],
                           mean_angular_deviation=t['mad'])
        for e in t['edx']:
            if 101 + t['edx'].index(e) in sc['fields']:
                ex['exact'][f'EDX {e}'] = t['edx_data'][e]
        ex['euler'] = rad.astype(np.float32)
        ex['tol'] = 1e-6
    elif fmt == 'dict':
        ex['exact'] = dict(phase=t['phase'], band_contrast=t['bc'])
        ex['euler'] = rad
        ex['tol'] = 1e-9
    elif fmt == 'ctf':
        ex['exact'] = dict(phase=t['phase'], band_contrast=t['bc'],
                           band_slope=t['bs'])
        ex['close'] = dict(mean_angular_deviation=t['mad'])
        ex['euler'] = rad
        ex['tol'] = 2e-5
    else:
        ex['exact'] = dict(phase=np.maximum(t['phase'], 1))
        ex['close'] = dict(image_quality=t['iq'], confidence_index=t['ci'],
                           fit_factor=t['ff'])
        e = np.round(rad, 5)
        e[0] = (e[0] - np.pi / 2) % (2 * np.pi)
        ex['euler'] = e
        ex['tol'] = 2e-5
    return ex


def mismatch(m, ex, relax=None, cpr_cut=False):
    """First difference between the loaded map and the truth, or None.
    relax: (layer or euler component) whose last pixel is not compared."""
    if tuple(m.shape) != tuple(ex['shape']):
        return f'shape {m.shape} != {ex["shape"]}'
    if abs(m.step_size - ex['step']) > 1e-9:
        return f'step size {m.step_size} != {ex["step"]}'
    if len(m.phases) != len(ex['phases']):
        return f'{len(m.phases)} phases != {len(ex["phases"])}'
    for a, b in zip(m.phases, ex['phases']):
        if a.name != b[0] or a.laue_group != b[1]:
            return f'phase {a.name} {a.laue_group} != {b[:2]}'
        if not cpr_cut and a.spaceGroup != b[2]:
            return f'space group {a.spaceGroup} != {b[2]}'
        if not np.allclose(a.lattice_params, b[3], atol=1e-9):
            return f'lattice {a.lattice_params} != {b[3]}'
        if len(a.lattice_params) != 6:
            return 'lattice parameters'

    def cmp(name, got, want, tol):
        got = np.asarray(got)
        if got.shape != want.shape:
            return f'{name}: shape {got.shape} != {want.shape}'
        bad = ~(np.isclose(got.astype(float), want.astype(float), rtol=tol,
                           atol=tol)) if tol else got != want
        if relax == name:
            bad[..., -1, -1] = False
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            return f'{name}{list(i)}: {got[i]!r} != {want[i]!r} ' \
                   f'({int(bad.sum())} points differ)'

    for name, want in ex['exact'].items():
        if cpr_cut and name.startswith('EDX'):
            continue
        if name not in m.data:
            return f'{name} missing'
        r = cmp(name, m.data[name], want, 0)
        if r:
            return r
    for name, want in ex.get('close', {}).items():
        if name not in m.data:
            return f'{name} missing'
        r = cmp(name, m.data[name], want, 1e-5)
        if r:
            return r
    e = np.asarray(m.data.euler_angle)
    if e.shape != ex['euler'].shape:
        return f'euler_angle shape {e.shape}'
    for c in range(3):
        d = e[c].astype(float) - ex['euler'][c]
        d = (d + np.pi) % (2 * np.pi) - np.pi
        bad = abs(d) > ex['tol'] * 4
        if relax == f'euler{c}':
            bad[-1, -1] = False
        if bad.any() or not np.isfinite(d).all():
            i = tuple(int(v) for v in np.argwhere(bad | ~np.isfinite(d))[0])
            return f'euler_angle[{c}, {i}]: {e[c][i]!r} != {ex["euler"][c][i]!r}'
    if (e < -1e-6).any() or (e > 2 * np.pi + 1e-4).any():
        return 'euler_angle outside [0, 2 pi]'
    for name in ('euler_angle', *ex['exact'], *ex.get('close', {})):
        if cpr_cut and name not in m.data:
            continue
        # readers of maps rely on these
        got = [m.data.get_metadata(name, k) for k in ('type', 'order')]
        want = ['map', int(name == 'euler_angle')]
        if got != want:
            return f'{name} is of type and order {got} instead of {want}'
    return None


CTF_LAYER = dict(Phase='phase', Euler1='euler0', Euler2='euler1',
                 Euler3='euler2', MAD='mean_angular_deviation',
                 BC='band_contrast', BS='band_slope')
ANG_LAYER = ['euler0', 'euler1', 'euler2', None, None, 'image_quality',
             'confidence_index', 'phase', None, 'fit_factor']


def cut_relax(sc, data, cut):
    """The layer whose last value the cut falls inside, if any."""
    text = data[:cut].decode()
    if data[cut:cut + 1].isspace() or cut >= len(data):
        return None                       # cut after a whole number
    line = text.rsplit('\n', 1)[-1]
    whole = data.decode().rstrip().rsplit('\n', 1)[-1].strip()
    if not line.strip() or line[-1].isspace() or \
            not whole.startswith(line.strip()):
        return None                       # not in the last row
    col = len(line.split()) - 1
    if sc['fmt'] == 'ctf':
        return CTF_LAYER.get(sc['cols'][col])
    return ANG_LAYER[col]


def place_cut(f, data, sc, t):
    n = len(data)
    if f['place'] == 'end':
        return max(0, n - 1 - f['back'])
    if f['place'] == 'record':
        if f['file'] == 'crc':
            size = ref.crc_dtype(t, sc['fields']).itemsize
            k = int(f['u'] * (t['shape'][0] * t['shape'][1]))
            return k * size
        ends = [i + 1 for i in range(n) if data[i:i + 1] == b'\n']
        return ends[int(f['u'] * (len(ends) - 1))]
    if f['place'] == 'header':
        return int(f['u'] * min(n, 900))
    return int(f['u'] * n)


def dictionary(t, fault=None):
    """The map as a dictionary, or one that is no map."""
    from defdap.crystal import Phase
    d = dict(step_size=t['step'], phase=t['phase'].copy(),
             euler_angle=np.deg2rad(t['euler']), band_contrast=t['bc'].copy(),
             phases=[Phase(p['name'], p['laue'], p['space'], tuple(
                 p['lat'][:3]) + tuple(np.deg2rad(a) for a in p['lat'][3:]))
                 for p in t['phases']])
    if fault in d:
        del d[fault]
    elif fault == 'euler shape':
        d['euler_angle'] = d['euler_angle'][:, :-1]
    elif fault == 'phase shape':
        d['phase'] = d['phase'].ravel()
    elif fault == 'phases type':
        d['phases'] = {p.name: p for p in d['phases']}
    elif fault == 'phase names':
        d['phases'] = [p.name for p in d['phases']]
    return d


def execute(sc, run):
    from defdap import ebsd
    from defdap.file_readers import EBSDDataLoader
    util.reset_globals()
    t = ref.ebsd_truth(sc['spec'])
    files = encode(sc, t)
    for name, data in files.items():
        with open(os.path.join(run.scratch, name), 'wb') as g:
            g.write(data)
    ex = expected(sc, t)
    relax, cpr_cut, bad, benign = None, False, None, True
    faults = []
    for f in sc['faults']:
        f = dict(f)
        if f['kind'] == 'truncate':
            data = files['map.' + f['file']]
            f['at'] = place_cut(f, data, sc, t)
            benign = False
            if f['file'] == 'cpr':
                cpr_cut = True
            elif f['file'] != 'crc':
                relax = cut_relax(sc, data, f['at'])
        elif f['kind'] == 'other_process':
            shape = [sc['spec']['shape'][0] + f['rows'],
                     sc['spec']['shape'][1]]
            t2 = ref.ebsd_truth(dict(sc['spec'], shape=shape))
            f['data'] = encode(sc, t2)['map.' + f['file']].decode('latin-1')
            benign = False
        elif f['kind'] == 'bad_dictionary':
            benign = False
            bad = f['which']
            run.fault('bad dictionary')
            continue
        elif f['kind'] != 'short_reads':
            benign = False
        faults.append(f)
    arg = dict(bin='map' + sc.get('ext', ''), ctf='map.ctf',
               ang='map.ang', dict='')[sc['fmt']]
    path = os.path.join(run.scratch, arg)
    dtype = dict(bin='OxfordBinary', ctf='OxfordText', ang='EdaxAng',
                 dict='PythonDict')[sc['fmt']]
    if sc['fmt'] == 'dict':
        path = dictionary(t, bad)
    elif sc['auto']:
        dtype = None
    if dtype:
        dtype = getattr(dtype, sc.get('case', 'strip'))()
        require(outcome(ebsd.Map, path, data_type=dtype + 's')[0] == 'exc',
                'bad-accepted', f'data type {dtype}s accepted')

    fs = SimFS(run, run.scratch, faults, sc['buffer'])
    with fs:
        st, val = outcome(ebsd.Map, path, data_type=dtype)
    if st == 'exc':
        name, text = type(val).__name__, str(val)[:200]
        clear_tb(val)
        val = None
        run.log('load failed', name)
    else:
        run.log('loaded', tuple(int(v) for v in val.shape))
    require(not fs.open_handles(), 'leak',
            f'file still open after load ({st}): {fs.open_handles()}')
    fired = sorted(run.faults)
    if st == 'ok':
        diff = mismatch(val, ex, relax, cpr_cut)
        if diff:
            raise Violation(
                'wrong-data' if benign else 'silent-corruption',
                f'{sc["fmt"]} load returned a map that differs from the '
                f'file: {diff}; faults {fired}')
        if relax:
            run.probe('cut inside the last number')
    elif benign:
        raise Violation('load-failed', f'{sc["fmt"]} load of a good file '
                        f'failed: {name}: {text}')
    else:
        run.probe('fault reported to the caller')
    if sc['fmt'] == 'dict':
        path = dictionary(t)
    run.nontrivial = True
    place = sc['faults'][0].get('place', '') if sc['faults'] else ''
    run.key(sc['fmt'], sc.get('fields'), sc.get('cols'), sc['spec']['phases'],
            fired, place, st, sc['crlf'], relax,
            faults[0].get('at') if faults else None)

    # healthy disk again: nothing of the failure may linger
    for name, data in files.items():
        with open(os.path.join(run.scratch, name), 'wb') as g:
            g.write(data)
    fs = SimFS(run, run.scratch)
    with fs:
        st, m = outcome(ebsd.Map, path, data_type=dtype)
        require(st == 'ok', 'load-failed',
                f'{sc["fmt"]} load of a good file failed'
                f'{" after a failed load" if not benign else ""}: {m!r}')
        diff = mismatch(m, ex)
        require(not diff, 'wrong-data', f'{sc["fmt"]} load: {diff}')
        if benign:
            ld = EBSDDataLoader.get_loader(dtype, m.file_name)
            ld.load(m.file_name)
            if sc['fmt'] in ('bin', 'ctf'):
                from defdap.quat import Quat
                q = Quat.from_euler_angles(*np.deg2rad(t['acq']))
                require(same(ld.loaded_metadata['acquisition_rotation'], q,
                             1e-9), 'wrong-data', 'acquisition rotation')
            run.probe('loader metadata compared')
