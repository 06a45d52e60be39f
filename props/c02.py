"""C02: HRDIC files load faithfully, or loading fails."""
import os

import numpy as np

from dsim import ref, util
from dsim.core import Violation
from dsim.fs import SimFS
from dsim.util import clear_tb, outcome, require

ID = 'C02'
LEVEL = 'exploration'
RUNS = dict(quick=3000, thorough=30000)
RULE = ('A run writes one synthetic displacement field in one of the five '
        'supported formats (random size, binning, origin, row order, missing '
        'points, NaN) plus a correlation value image and a pattern image, '
        'and loads them through hrdic.Map while the simulated disk '
        'misbehaves as drawn; then again with the disk healthy. Non-trivial: '
        'a load was compared with the truth or failed under a fault. '
        'Distinct: (format, layout, faults fired, place, outcome).')
ASSUMPTIONS = [
    'Corruption that keeps lengths is out of scope (no checksums).',
    'OpenPIV text and pyvale files do not state their size: one cut between '
    'two records is a well-formed smaller file and is compared as such.',
    'A text file cut inside its very last number is still well-formed; that '
    'value is not compared.',
]
REAL = ['defdap.hrdic.Map', 'defdap.file_readers', 'pandas reader',
        'numpy readers', 'zipfile', 'image reader',
        'Python text and buffered I/O']
STUB = ['raw file descriptor operations (simulated disk)',
        'the DIC software that wrote the file (independent encoders)']


def warmup():
    import defdap.hrdic  # noqa


FMT = {
    'davis': ('Davis', 'd.txt'),
    'opt': ('OpenPIVText', 'd.txt'),
    'opt2': ('OpenPIV', 'd.txt'),
    'opb': ('OpenPIVBinary', 'd.npz'),
    'pvc': ('PyVale-csv', 'd.csv'),
    'pvb': ('PyVale-binary', 'd.bin'),
}


def generate(r):
    fmt = r.choice(list(FMT))
    b = r.choice([2, 4, 8, 12, 16, 1, 3, 5])
    shape = [r.randint(3, 8), r.randint(3, 8)]
    if r.random() < 0.2:
        shape[r.randrange(2)] = r.randint(20, 50)
    if r.random() < 0.02:
        shape = r.choice([[3, 300], [270, 3], [66, 66]])
    spec = dict(shape=shape, seed=r.randrange(1 << 30), binning=b)
    sc = dict(fmt=fmt, spec=spec, faults=[], crlf=r.random() < 0.2,
              buffer=r.choice([None, None, 16, 61, 512]), nan=0, drop=0,
              desc=r.random() < 0.5, comp=r.random() < 0.5, order=0,
              corr=r.choice(['none', 'good', 'wrong', 'cut', 'cut']),
              corr_u=r.random(), pattern=r.choice(
                  ['none', 'none', 'good', 'wrong', 'missing']),
              pbin=r.choice([1, 2, 3]), dtype=r.choice(
                  ['', '', '', 'lower', 'upper', 'default', 'bad']), _lists=['faults'])
    if fmt == 'davis':
        spec['x0'] = r.choice([0, b // 2, 6])
        spec['y0'] = r.choice([0, b // 2, 10])
        sc['nan'] = r.choice([0, 0, 1, 3])
        sc['version'] = r.choice(['8.4.0', '10.1.2'])
    elif fmt[:3] in ('opt', 'opb'):
        spec['x0'] = spec['y0'] = b / 2
        if fmt == 'opb':
            spec['x0'] = r.choice([b / 2, 0, 3.0])
    else:
        spec['x0'] = r.choice([0, 5, 40])
        spec['y0'] = r.choice([0, 5, 40])
        sc['drop'] = r.choice([0, 0, 1, 3])
        sc['order'] = r.choice([0, 0, 1])
    if r.random() < 0.25:
        return sc
    kind = r.choice(['truncate'] * 6 + ['read_error', 'short_reads',
                                        'open_error', 'other_process'])
    f = dict(kind=kind, file=FMT[fmt][1])
    if kind == 'truncate':
        f['place'] = r.choice(['end', 'end', 'record', 'any', 'header'])
        f['u'], f['back'] = r.random(), r.randint(0, 40)
    elif kind == 'read_error':
        f['nth'] = r.randint(1, 5)
    elif kind == 'short_reads':
        f['max'] = r.choice([1, 3, 17, 100])
    elif kind == 'open_error':
        f['nth'], f['errno'] = r.choice([1, 1, 2]), r.choice([5, 13, 24])
    else:
        f['nth'], f['rows'] = 2, r.choice([-1, 1, 2])
        f['swap'] = r.random() < .5
    if kind in ('read_error', 'short_reads') and fmt == 'pvb':
        f = dict(kind='open_error', nth=1, errno=5, file='d.bin')
    sc['faults'].append(f)
    return sc


def shrink(sc):
    for k, v in (('crlf', False), ('buffer', None), ('nan', 0), ('drop', 0),
                 ('order', 0), ('corr', 'none'), ('pattern', 'none'),
                 ('desc', False), ('dtype', '')):
        if sc.get(k) != v:
            yield dict(sc, **{k: v})
    if sc['spec']['shape'] != [3, 3]:
        yield dict(sc, spec=dict(sc['spec'], shape=[3, 3]))


def truth(sc, spec=None):
    t = ref.dic_truth(spec or sc['spec'])
    rng = ref.np_rng(sc['spec']['seed'] + 1)
    n = t['u'].size
    if sc['nan']:
        for i in rng.choice(n, min(sc['nan'], n), replace=False):
            t['u'].flat[i] = t['v'].flat[i] = np.nan
    t['drop'] = []
    if sc['drop']:
        nx = t['shape'][1]
        # keep the corners' rows and columns represented
        cand = [i for i in range(n) if 0 < i // nx < t['shape'][0] - 1
                and 0 < i % nx < nx - 1]
        k = min(sc['drop'], max(0, len(cand) - 1))
        if k:
            t['drop'] = sorted(int(i) for i in rng.choice(
                cand, k, replace=False))
    return t


def encode(sc, t):
    fmt = sc['fmt']
    if fmt == 'davis':
        d = ref.enc_davis(t, sc.get('version', '8.4.0'))
    elif fmt[:3] == 'opt':
        d = ref.enc_openpiv_txt(t, sc['desc'], extra=sc['comp'])
    elif fmt == 'opb':
        d = ref.enc_openpiv_npz(t, sc['desc'], sc['comp'])
    else:
        order = None
        if sc['order']:
            ny, nx = t['shape']
            order = np.arange(ny * nx).reshape(ny, nx)[::-1].ravel()
        drop = t['drop']
        if order is not None and drop:
            drop = [int(np.nonzero(order == i)[0][0]) for i in drop]
        d = ref.enc_pyvale(t, fmt == 'pvb', order, drop)
    if sc['crlf'] and fmt not in ('opb', 'pvb'):
        d = d.replace(b'\n', b'\r\n')
    return d


def records(sc, t):
    """(x, y, u, v) of each record, in file order, as the file has them."""
    ny, nx = t['shape']
    idx = np.arange(ny * nx).reshape(ny, nx)
    if sc['fmt'][:2] == 'op' and sc['desc'] or sc['order']:
        idx = idx[::-1]
    out = []
    for i in idx.ravel():
        if i in t['drop']:
            continue
        out.append((float(t['x'].flat[i]), float(t['y'].flat[i]),
                    float(t['u'].flat[i]), float(t['v'].flat[i])))
    return out


def place_cut(f, data, sc):
    n = len(data)
    if f['place'] == 'end':
        return max(0, n - 1 - f['back'])
    if f['place'] == 'header':
        return int(f['u'] * min(n, 120))
    if f['place'] == 'record':
        if sc['fmt'] == 'pvb':
            k = ref.PYVALE.itemsize
            return int(f['u'] * (n // k)) * k
        if sc['fmt'] != 'opb':
            ends = [i + 1 for i in range(n) if data[i:i + 1] == b'\n']
            return ends[int(f['u'] * (len(ends) - 1))]
    return int(f['u'] * n)


def compare(m, sc, recs, shape, binning, relax):
    """recs: the records the loaded map must hold."""
    c, d = np.asarray(m.data.coordinate), np.asarray(m.data.displacement)
    if shape is not None and tuple(m.shape) != tuple(shape):
        return f'shape {tuple(m.shape)} != {tuple(shape)}'
    if (m.ydim, m.xdim) != tuple(m.shape) or c.shape != (2,) + tuple(m.shape)\
            or d.shape != c.shape:
        return f'shapes {m.shape} {m.ydim} {m.xdim} {c.shape} {d.shape}'
    if int(m.binning) != binning:
        return f'binning {m.binning} != {binning}'
    xs = sorted({r[0] for r in recs})
    ys = sorted({r[1] for r in recs})
    if sc['fmt'][:2] != 'pv':
        if len(xs) != m.shape[1] or len(ys) != m.shape[0]:
            return f'{m.shape} for {len(ys)} x {len(xs)} coordinates'
    x0, y0 = xs[0], ys[0]
    seen = np.zeros(m.shape, bool)
    for k, (x, y, u, v) in enumerate(recs):
        i, j = int(round((y - y0) / binning)), int(round((x - x0) / binning))
        if not (0 <= i < m.shape[0] and 0 <= j < m.shape[1]):
            return f'record at ({x}, {y}) is outside the map'
        seen[i, j] = True
        if not (np.isclose(c[0, i, j], x) and np.isclose(c[1, i, j], y)):
            return f'coordinate[{i}, {j}] = {c[:, i, j]} != {(x, y)}'
        for comp, want in ((0, u), (1, v)):
            if relax and k == len(recs) - 1 and comp == 1:
                continue
            got = d[comp, i, j]
            if not (np.isclose(got, want, rtol=1e-6, atol=1e-6)
                    or (got != got and want != want)):
                return (f'displacement[{comp}, {i}, {j}] = {got!r} != '
                        f'{want!r}')
    if (~seen).any():
        if sc['fmt'][:2] != 'pv':
            return f'{int((~seen).sum())} points are not in the file'
        if np.nan_to_num(d[:, ~seen]).any():
            return 'a point that is not in the file has a displacement'
    return None


def execute(sc, run):
    import defdap
    from defdap import hrdic
    util.reset_globals()
    t = truth(sc)
    dtype, fname = FMT[sc['fmt']]
    data = encode(sc, t)
    recs = records(sc, t)
    path = os.path.join(run.scratch, fname)

    def put(b, name=fname):
        with open(os.path.join(run.scratch, name), 'wb') as g:
            g.write(b)

    put(data)
    benign, relax = True, False
    shape = t['shape']
    alt = None
    faults, cut = [], None
    good = recs
    for f in sc['faults']:
        f = dict(f)
        if f['kind'] == 'truncate':
            benign = False
            cut = place_cut(f, data, sc)
            put(data[:cut])
            if cut < len(data):
                run.fault('truncated file')
            text = sc['fmt'] not in ('opb', 'pvb')
            if text:
                body = data[:cut].decode().replace('\r', '')
                lines = body.split('\n')
                full = data.decode().replace('\r', '').split('\n')
                nrec = max(0, len(lines) - 2)
                last = lines[-1] if len(lines) > 1 else ''
                sep = ',' if sc['fmt'] == 'pvc' else '\t'
                if last.strip() and len(last.split(sep)) == len(
                        full[1].split(sep)) and last.split(sep)[-1]:
                    nrec += 1
                    relax = (last != full[len(lines) - 1]
                             and sc['fmt'] != 'pvc' and not
                             (sc['comp'] and sc['fmt'][:3] == 'opt'))
                good = recs[:nrec]
                if sc['fmt'] == 'davis' and nrec < len(recs):
                    good = None            # must fail: header states size
                if sc['fmt'][:3] == 'opt' and nrec < len(recs):
                    nx = t['shape'][1]
                    if nrec % nx or sc['desc'] or nrec == 0:
                        good = None
                    else:
                        shape = (nrec // nx, nx)
                if sc['fmt'] == 'pvc':
                    shape = None
            elif sc['fmt'] == 'pvb':
                k = ref.PYVALE.itemsize
                good = None if cut % k else recs[:cut // k]
                shape = None
            else:
                good = None if cut < len(data) else recs
            continue
        if f['kind'] == 'other_process':
            sh = [max(3, sc['spec']['shape'][0] + f['rows']),
                  sc['spec']['shape'][1]]
            if f['swap']:
                sh = sc['spec']['shape'][::-1]
            t2 = truth(sc, dict(sc['spec'], shape=sh))
            d2 = encode(sc, t2)
            f['data'] = d2.decode('latin-1')
            alt = (records(sc, t2), t2['shape'])
        if f['kind'] != 'short_reads':
            benign = False
        faults.append(f)

    exp = defdap.experiment.Experiment()
    how = sc.get('dtype')
    if how == 'bad':
        # a data type that is none is refused, and nothing is loaded
        bad = {'pv': 'PyVale-txt'}.get(sc['fmt'][:2], dtype + 's')
        fs = SimFS(run, run.scratch)
        with fs:
            st, val = outcome(hrdic.Map, path, data_type=bad, experiment=exp)
        require(st == 'exc' and len(exp.increments) == 0 and
                not fs.open_handles(), 'silent-corruption',
                f'a {dtype} file was loaded as {bad}')
        clear_tb(val)
    dtype = {'lower': dtype.lower(), 'upper': dtype.upper(),
             'default': None if dtype == 'Davis' else dtype}.get(how, dtype)
    fs = SimFS(run, run.scratch, faults, sc['buffer'])
    with fs:
        st, val = outcome(hrdic.Map, path, data_type=dtype, experiment=exp)
    fired = sorted(run.faults)
    if st == 'exc':
        name, text = type(val).__name__, str(val)[:200]
        clear_tb(val)
        val = None
        run.log('load failed', name)
    else:
        run.log('loaded', [int(v) for v in val.shape])
    require(not fs.open_handles(), 'leak',
            f'file still open after load ({st}): {fs.open_handles()}')
    if st == 'ok':
        if good is None:
            raise Violation('silent-corruption', f'{sc["fmt"]}: an incomplete'
                            f' file ({cut} of {len(data)} bytes) was loaded')
        diff = compare(val, sc, good, shape, t['binning'], relax) if good \
            else 'no complete record in the file'
        if diff and alt:
            if compare(val, sc, alt[0], alt[1], t['binning'], False) is None:
                diff = None
        if diff:
            raise Violation('wrong-data' if benign else 'silent-corruption',
                            f'{sc["fmt"]} load differs from the file: {diff};'
                            f' faults {fired}')
        require(len(exp.increments) == 1 and
                exp.increments[0].maps.get('hrdic') is val, 'registry',
                'loaded map is not in its experiment')
    else:
        require(not benign, 'load-failed', f'{sc["fmt"]} load of a good file '
                f'failed: {name} {text}' if st == 'exc' else '')
        require(len(exp.increments) == 0, 'registry',
                'a failed load left an increment in the experiment')
        run.probe('fault reported to the caller')
    run.nontrivial = True
    run.key(sc['fmt'], sc['desc'], sc['comp'], sc['order'], sc['nan'] > 0,
            t['drop'], fired, cut, st, sc['corr'], sc['pattern'],
            sc['crlf'])

    # healthy disk
    put(data)
    fs = SimFS(run, run.scratch)
    with fs:
        st, m = outcome(hrdic.Map, path, data_type=dtype, experiment=exp)
        require(st == 'ok', 'load-failed', f'{sc["fmt"]} load of a good file '
                f'failed: {m!r}')
    diff = compare(m, sc, recs, t['shape'], t['binning'], False)
    require(not diff, 'wrong-data', f'{sc["fmt"]} load: {diff}')
    strain(m, t)
    corr(sc, run, m, t)
    pattern(sc, run, m, t)


def strain(m, t):
    """f, e and max_shear belong to the displacement that was loaded."""
    d = np.asarray(m.data.displacement)
    b = t['binning']
    f = np.array([[np.gradient(d[i], b, axis=1 - j) for j in range(2)]
                  for i in range(2)])
    f[0, 0] += 1
    f[1, 1] += 1
    e = 0.5 * np.einsum('kixy,kjxy->ijxy', f, f)
    e[0, 0] -= 0.5
    e[1, 1] -= 0.5
    ms = np.sqrt(((e[0, 0] - e[1, 1]) / 2) ** 2 + e[0, 1] ** 2)
    for name, want in (('f', f), ('e', e), ('max_shear', ms)):
        got = np.asarray(m.data[name])
        if got.shape != want.shape or not np.allclose(
                got, want, equal_nan=True, rtol=1e-9, atol=1e-12):
            raise Violation('wrong-data', f'{name} does not belong to the '
                            'loaded displacement')


def enc_img(a):
    head = '#DaVis 8.4.0 2D-image\n'
    return (head + ''.join('\t'.join(f'{v:.4f}' for v in row) + '\n'
                           for row in a)).encode()


def corr(sc, run, m, t):
    if sc['corr'] == 'none':
        return
    rng = ref.np_rng(sc['spec']['seed'] + 2)
    first = np.round(rng.random(t['shape']), 4)
    with open(os.path.join(run.scratch, 'c0.txt'), 'wb') as g:
        g.write(enc_img(first))
    p = os.path.join(run.scratch, 'c.txt')
    m.load_corr_val_data(os.path.join(run.scratch, 'c0.txt'))
    require(np.array_equal(m.corr_val, first), 'wrong-data',
            'correlation values differ from the file')
    shape = list(t['shape'])
    if sc['corr'] == 'wrong':
        if shape[0] != shape[1] and sc['corr_u'] < .3:
            shape = shape[::-1]
        else:
            shape[int(sc['corr_u'] * 2)] += \
                1 if sc['corr_u'] * 8 % 2 < 1 else -1
    img = np.round(rng.random(shape), 4)
    b = enc_img(img)
    relax = False
    if sc['corr'] == 'cut':
        cut = len(b) - 1 - int(sc['corr_u'] * 30)
        whole = b[:cut].decode().split('\n')
        full = b.decode().split('\n')
        relax = (len(whole) == len(full) - 1
                 and len(whole[-1].split('\t')) == shape[1]
                 and whole[-1].split('\t')[-1].strip('.') != '')
        b = b[:cut]
        run.fault('truncated file')
    with open(p, 'wb') as g:
        g.write(b)
    fs = SimFS(run, run.scratch)
    with fs:
        st, e = outcome(m.load_corr_val_data, p)
    if st == 'exc':
        clear_tb(e)
        require(sc['corr'] != 'good', 'load-failed',
                f'correlation values of a good file: {e!r}')
        require(np.array_equal(m.corr_val, first), 'failed-load-left-data',
                'a failed load changed the correlation values')
        run.probe('correlation values refused')
    else:
        require(sc['corr'] != 'wrong', 'silent-corruption',
                'correlation values of another size were loaded')
        got = np.asarray(m.corr_val)
        bad = got != img if got.shape == img.shape else np.ones(1, bool)
        if relax and got.shape == img.shape:
            bad[-1, -1] = False
        require(not bad.any(), 'silent-corruption',
                f'correlation values differ from the file '
                f'({sc["corr"]}, {got.shape})')
    require(not fs.open_handles(), 'leak', 'correlation file left open')


def is_image(got, img):
    got = np.asarray(got)
    return got.shape == img.shape and (
        np.array_equal(got, img) or np.allclose(got, img / 255, atol=1e-6))


def pattern(sc, run, m, t):
    if sc['pattern'] == 'none':
        return
    from PIL import Image
    rng = ref.np_rng(sc['spec']['seed'] + 3)
    b = sc['pbin']
    shape = [v * b for v in t['shape']]
    if sc['pattern'] == 'wrong':
        if shape[0] != shape[1] and sc['corr_u'] * 4 % 1 < .4:
            shape = shape[::-1]
        else:
            shape[int(sc['corr_u'] * 2)] += 1
    img = rng.integers(0, 256, shape).astype(np.uint8)
    if sc['pattern'] != 'missing':
        Image.fromarray(img).save(os.path.join(run.scratch, 'p.png'))
    m.set_pattern('p.png', b)
    st, got = outcome(lambda: m.data.pattern)
    if sc['pattern'] == 'good':
        require(st == 'ok' and is_image(got, img), 'wrong-data',
                f'pattern differs from the image: {got!r}')
    else:
        require(st == 'exc', 'silent-corruption',
                f'pattern image ({sc["pattern"]}) was accepted')
        clear_tb(got)
        # supplied afterwards it must load
        img = rng.integers(0, 256, [v * b for v in t['shape']]).astype(
            np.uint8)
        Image.fromarray(img).save(os.path.join(run.scratch, 'p.png'))
        require(is_image(m.data.pattern, img), 'wrong-data',
                'pattern differs from the image after an earlier failure')
        run.probe('pattern refused, then loaded')
