"""Synthetic data and independent encoders of every supported format."""
import io
import random
import struct

import numpy as np


def np_rng(seed):
    return np.random.default_rng(seed)


# ------------------------------------------------------------- EBSD truth
PHASES = [
    dict(name='Ferrite', laue=11, space=229,
         lat=(2.866, 2.866, 2.866, 90., 90., 90.)),
    dict(name='Ni-superalloy', laue=11, space=225,
         lat=(3.57, 3.57, 3.57, 90., 90., 90.)),
    dict(name='Ti-Hex', laue=9, space=194,
         lat=(2.95, 2.95, 4.686, 90., 90., 120.)),
    dict(name='Zr', laue=9, space=194,
         lat=(3.232, 3.232, 5.147, 90., 90., 120.)),
    dict(name='Titanium (Beta)', laue=11, space=229,
         lat=(3.32, 3.32, 3.32, 90., 90., 90.)),
    dict(name='Magnesium', laue=9, space=194,
         lat=(3.209, 3.209, 5.211, 90., 90., 120.)),
    dict(name='Aluminium 7050', laue=11, space=225,
         lat=(4.049, 4.049, 4.049, 90., 90., 90.)),
    dict(name='Iron-Alpha_2', laue=11, space=229,
         lat=(2.87, 2.87, 2.87, 90., 90., 90.)),
    dict(name='Ni3Al', laue=11, space=221,
         lat=(3.572, 3.572, 3.572, 90., 90., 90.)),
    dict(name='Cobalt', laue=9, space=194,
         lat=(2.507, 2.507, 4.07, 90., 90., 120.)),
    dict(name='Copper', laue=11, space=225,
         lat=(3.615, 3.615, 3.615, 90., 90., 90.)),
    dict(name='Zn', laue=9, space=194,
         lat=(2.665, 2.665, 4.947, 90., 90., 120.)),
]


def voronoi(shape, n, rng):
    """Labels 0..n-1 of a Voronoi tessellation on the pixel grid."""
    pts = rng.uniform((0, 0), shape, (max(1, n), 2))
    y, x = np.indices(shape)
    d = (y[..., None] - pts[:, 0]) ** 2 + (x[..., None] - pts[:, 1]) ** 2
    return d.argmin(-1)


def ebsd_truth(spec):
    """spec: dict(shape, seed, grains, phases, noise, nonindexed, step)."""
    rng = np_rng(spec['seed'])
    shape = tuple(spec['shape'])
    ph = [PHASES[i] for i in spec['phases']]
    lab = voronoi(shape, spec['grains'], rng)
    n = lab.max() + 1
    g_phase = rng.integers(1, len(ph) + 1, n)
    g_eul = rng.uniform((0, 0, 0), (360, 180, 360), (n, 3))
    if spec.get('close'):
        # neighbouring grains a few degrees apart: boundaries depend on
        # the misorientation tolerance
        g_eul = g_eul[:1] + rng.uniform(-12, 12, (n, 3))
        g_eul[:, 1] = np.clip(g_eul[:, 1], 1, 179)
    if spec.get('half'):
        # half a turn from the sample: quaternions of either sign
        g_eul[:, 2] = 180 - g_eul[:, 0]
    phase = g_phase[lab].astype(np.uint8)
    eul = g_eul[lab] + rng.normal(0, spec.get('noise', 0.3), shape + (3,))
    eul = np.moveaxis(eul, -1, 0)
    eul[0] %= 360
    eul[2] %= 360
    eul[1] = np.clip(eul[1], 0, 180)
    ni = rng.random(shape) < spec.get('nonindexed', 0.)
    phase[ni] = 0
    eul[:, ni] = 0
    t = dict(
        shape=shape, step=spec.get('step', 0.5), phases=ph, phase=phase,
        euler=np.round(eul, 3),
        bc=rng.integers(0, 256, shape).astype(np.uint8),
        bs=rng.integers(0, 256, shape).astype(np.uint8),
        mad=np.round(rng.uniform(0, 2, shape), 4).astype(np.float32),
        bands=rng.integers(0, 12, shape).astype(np.uint8),
        afi=rng.integers(0, 200, shape).astype(np.uint8),
        ib6=rng.uniform(-1, 1, shape).astype(np.float32),
        iq=np.round(rng.uniform(0, 4000, shape), 1).astype(np.float32),
        ci=np.round(rng.uniform(-1, 1, shape), 3).astype(np.float32),
        ff=np.round(rng.uniform(0, 3, shape), 3).astype(np.float32),
        acq=tuple(float(v) for v in np.round(rng.uniform(0, 90, 3), 2)),
        edx=spec.get('edx', []), edx_data={},
    )
    for e in t['edx']:
        t['edx_data'][e] = rng.integers(0, 500, shape).astype(np.float32)
    return t


def enc_ctf(t, cols=None, junk='', project='sim'):
    cols = cols or ['Phase', 'X', 'Y', 'Bands', 'Error', 'Euler1', 'Euler2',
                    'Euler3', 'MAD', 'BC', 'BS']
    o = io.StringIO()
    ny, nx = t['shape']
    o.write(f'Channel Text File\nPrj\t{project}\nAuthor\tdsim\n'
            'JobMode\tGrid\n')
    o.write(f'XCells\t{nx}\nYCells\t{ny}\nXStep\t{t["step"]:.4f}\n'
            f'YStep\t{t["step"]:.4f}\n')
    for i, a in enumerate(t['acq']):
        o.write(f'AcqE{i + 1}\t{a:.4f}\n')
    o.write(junk)
    o.write('Euler angles refer to Sample Coordinate system (CS0)!\t'
            'Mag\t800\n')
    o.write(f'Phases\t{len(t["phases"])}\n')
    for p in t['phases']:
        a = p['lat']
        o.write(f'{a[0]:.3f};{a[1]:.3f};{a[2]:.3f}\t'
                f'{a[3]:.3f};{a[4]:.3f};{a[5]:.3f}\t{p["name"]}\t{p["laue"]}'
                f'\t{p["space"]}\t\t\tsome reference\n')
    o.write('\t'.join(cols) + '\n')
    for i in range(ny):
        for j in range(nx):
            e = t['euler'][:, i, j]
            v = dict(Phase=f'{t["phase"][i, j]}', X=f'{j * t["step"]:.4f}',
                     Y=f'{i * t["step"]:.4f}', Bands=f'{t["bands"][i, j]}',
                     Error='0', Euler1=f'{e[0]:.3f}', Euler2=f'{e[1]:.3f}',
                     Euler3=f'{e[2]:.3f}', MAD=f'{t["mad"][i, j]:.4f}',
                     BC=f'{t["bc"][i, j]}', BS=f'{t["bs"][i, j]}')
            o.write('\t'.join(v[c] for c in cols) + '\n')
    return o.getvalue().encode()


def enc_ang(t, crlf=False):
    """phase written 0-based, Euler angles in radians."""
    o = io.StringIO()
    ny, nx = t['shape']
    o.write('# TEM_PIXperUM          1.000000\n# x-star 0.5\n# y-star 0.5\n')
    o.write('#\n')
    for i, p in enumerate(t['phases']):
        a = p['lat']
        sym = '43' if p['laue'] == 11 else '6/mmm'
        if p['laue'] == 11 and i % 2:
            sym = 'm3m'
        o.write(f'# Phase {i + 1}\n# MaterialName  \t{p["name"]}\n'
                f'# Formula     \t\n# Info \t\t\n# Symmetry              {sym}'
                f'\n# LatticeConstants      {a[0]:.3f} {a[1]:.3f} {a[2]:.3f}'
                f'  {a[3]:.3f}  {a[4]:.3f} {a[5]:.3f}\n'
                '# NumberFamilies        1\n'
                '# hklFamilies   \t 1  1  1 1 0.000000 1\n#\n')
    o.write(f'# GRID: SqrGrid\n# XSTEP: {t["step"]:.6f}\n'
            f'# YSTEP: {t["step"]:.6f}\n# NCOLS_ODD: {nx}\n'
            f'# NCOLS_EVEN: {nx}\n# NROWS: {ny}\n#\n# OPERATOR: \tsim\n#\n'
            '# SAMPLEID: \t\n#\n# SCANID: \t\n#\n')
    rad = np.deg2rad(t['euler'])
    for i in range(ny):
        for j in range(nx):
            e = rad[:, i, j]
            o.write(f'  {e[0]:.5f}   {e[1]:.5f}   {e[2]:.5f}      '
                    f'{j * t["step"]:.5f}      {i * t["step"]:.5f} '
                    f'{t["iq"][i, j]:.1f}  {t["ci"][i, j]:.3f}  '
                    f'{max(int(t["phase"][i, j]) - 1, 0)}      1  '
                    f'{t["ff"][i, j]:.3f}\n')
    return o.getvalue().encode()


FIELDS = {3: ('e0', '<f4'), 4: ('e1', '<f4'), 5: ('e2', '<f4'),
          6: ('mad', '<f4'), 7: ('bc', 'u1'), 8: ('bs', 'u1'),
          10: ('bands', 'u1'), 11: ('afi', 'u1'), 12: ('ib6', '<f4')}


def enc_cpr(t, fields, sections_first=True):
    """fields: field ids in file order; unknown ids hold float32 data."""
    ny, nx = t['shape']
    o = io.StringIO()
    o.write('[General]\nVersion=5.0\nDescription=sim = map\nNotes=\n'
            f'[Job]\nMagnification=800\nGridDistX={t["step"]:.4f}\n'
            f'GridDistY={t["step"]:.4f}\nxCells={nx}\nyCells={ny}\n'
            '; a comment\n\n[Acquisition Surface]\n')
    for i, a in enumerate(t['acq']):
        o.write(f'Euler{i + 1}={a:.2f}\n')
    if t['edx']:
        o.write(f'[EDX Windows]\nCount={len(t["edx"])}\n')
        for i, e in enumerate(t['edx']):
            o.write(f'Window{i + 1}={e}\n')
    o.write(f'[Phases]\nCount={len(t["phases"])}\n')
    for i, p in enumerate(t['phases']):
        a = p['lat']
        o.write(f'[Phase{i + 1}]\nStructureName={p["name"]}\n'
                f'Reference=\nSpaceGroup={p["space"]}\n'
                f'LaueGroup={p["laue"]}\na={a[0]:.4f}\nb={a[1]:.4f}\n'
                f'c={a[2]:.4f}\nalpha={a[3]:.2f}\nbeta={a[4]:.2f}\n'
                f'gamma={a[5]:.2f}\nID1=\n')
    o.write(f'[Fields]\nCount={len(fields)}\n')
    for i, f in enumerate(fields):
        o.write(f'Field{i + 1}={f}\n')
    o.write('[SEMFields]\nDOEuler1=359.38\n')
    return o.getvalue().encode()


def crc_dtype(t, fields):
    dt = [('phase', 'u1')]
    for i, f in enumerate(fields):
        if f in FIELDS:
            dt.append(FIELDS[f])
        elif 100 < f <= 100 + len(t['edx']):
            dt.append((f'edx{f - 101}', '<f4'))
        else:
            dt.append((f'unk{i}', '<f4'))
    return np.dtype(dt)


def enc_crc(t, fields, seed=0):
    dt = crc_dtype(t, fields)
    a = np.zeros(t['shape'], dt)
    rad = np.deg2rad(t['euler']).astype('<f4')
    src = dict(phase=t['phase'], e0=rad[0], e1=rad[1], e2=rad[2],
               mad=t['mad'], bc=t['bc'], bs=t['bs'], bands=t['bands'],
               afi=t['afi'], ib6=t['ib6'])
    rng = np_rng(seed)
    for name in dt.names:
        if name.startswith('edx'):
            a[name] = t['edx_data'][t['edx'][int(name[3:])]]
        elif name.startswith('unk'):
            a[name] = rng.uniform(-1e3, 1e3, t['shape'])
        else:
            a[name] = src[name]
    return a.tobytes()


STD_FIELDS = [3, 4, 5, 6, 7, 8, 10, 11, 12]


def write_ebsd(path_base, t, fmt='bin', fields=None):
    """Plain writer used by checks that are not about files. Returns the
    arguments for ebsd.Map."""
    if fmt == 'bin':
        f = fields or STD_FIELDS + [101 + i for i in range(len(t['edx']))]
        with open(path_base + '.cpr', 'wb') as g:
            g.write(enc_cpr(t, f))
        with open(path_base + '.crc', 'wb') as g:
            g.write(enc_crc(t, f))
        return path_base, 'OxfordBinary'
    if fmt == 'ctf':
        with open(path_base + '.ctf', 'wb') as g:
            g.write(enc_ctf(t))
        return path_base + '.ctf', 'OxfordText'
    with open(path_base + '.ang', 'wb') as g:
        g.write(enc_ang(t))
    return path_base + '.ang', 'EdaxAng'


# -------------------------------------------------------------- DIC truth
def dic_truth(spec):
    """spec: dict(shape, seed, binning, x0, y0, decimals)."""
    rng = np_rng(spec['seed'])
    ny, nx = spec['shape']
    b = spec['binning']
    x = spec.get('x0', 0) + b * np.arange(nx)
    y = spec.get('y0', 0) + b * np.arange(ny)
    xx, yy = np.meshgrid(x, y)
    k = rng.uniform(-0.05, 0.05, 4)
    u = k[0] * xx + k[1] * yy + rng.normal(0, 0.05 * b, xx.shape)
    v = k[2] * xx + k[3] * yy + rng.normal(0, 0.05 * b, xx.shape)
    d = spec.get('decimals', 4)
    return dict(shape=(ny, nx), binning=b, x=xx, y=yy,
                u=np.round(u, d), v=np.round(v, d))


def enc_davis(t, version='8.4.0'):
    ny, nx = t['shape']
    o = io.StringIO()
    o.write(f'#DaVis {version} 2D-vector {t["binning"]} {ny} {nx} "" "pixel"'
            ' "" "pixel" "displacement" "pixel"\n')
    for i in range(ny):
        for j in range(nx):
            o.write(f'{t["x"][i, j]}\t{t["y"][i, j]}\t{t["u"][i, j]:.4f}\t'
                    f'{t["v"][i, j]:.4f}\n')
    return o.getvalue().encode()


def enc_openpiv_txt(t, descending=False, extra=0):
    """Coordinates are window centres in OpenPIV files."""
    ny, nx = t['shape']
    o = io.StringIO()
    o.write('# x\ty\tu\tv' + '\tflags' * bool(extra) + '\n')
    rows = range(ny - 1, -1, -1) if descending else range(ny)
    for i in rows:
        for j in range(nx):
            o.write(f'{t["x"][i, j]:.4e}\t{t["y"][i, j]:.4e}\t'
                    f'{t["u"][i, j]:.6e}\t{t["v"][i, j]:.6e}'
                    + '\t0.0' * bool(extra) + '\n')
    return o.getvalue().encode()


def enc_openpiv_npz(t, descending=False, compressed=False):
    s = slice(None, None, -1) if descending else slice(None)
    b = io.BytesIO()
    (np.savez_compressed if compressed else np.savez)(
        b, format='OpenPIV', version='0.25.0', binning=t['binning'],
        shape=np.array(t['shape']), x=t['x'][s], y=t['y'][s], u=t['u'][s],
        v=t['v'][s])
    return b.getvalue()


PYVALE = np.dtype([('x', '<i4'), ('y', '<i4'), ('u', '<f8'), ('v', '<f8'),
                   ('mag', '<f8'), ('conv', 'u1'), ('cost', '<f8'),
                   ('ftol', '<f8'), ('xtol', '<f8'), ('iter', '<i4')])


def enc_pyvale(t, binary, order=None, drop=()):
    """Sparse: points listed in `order`, indices in `drop` left out."""
    ny, nx = t['shape']
    a = np.zeros(ny * nx, PYVALE)
    a['x'], a['y'] = t['x'].ravel(), t['y'].ravel()
    a['u'], a['v'] = t['u'].ravel(), t['v'].ravel()
    a['mag'] = np.hypot(a['u'], a['v'])
    a['conv'] = 1
    a['cost'], a['ftol'], a['xtol'], a['iter'] = 0.5, 1e-6, 1e-6, 7
    if order is not None:
        a = a[order]
    if len(drop):
        a = np.delete(a, list(drop))
    if binary:
        return a.tobytes()
    o = io.StringIO()
    o.write('subset_x,subset_y,displacement_u,displacement_v,'
            'displacement_mag,converged,cost,ftol,xtol,num_iterations\n')
    for r in a:
        o.write(f'{r["x"]},{r["y"]},{r["u"]:.6f},{r["v"]:.6f},'
                f'{r["mag"]:.6f},{r["conv"]},{r["cost"]:.6f},'
                f'{r["ftol"]:.6e},{r["xtol"]:.6e},{r["iter"]}\n')
    return o.getvalue().encode()


def write_dic(path, t):
    with open(path, 'wb') as g:
        g.write(enc_davis(t))
    return path, 'Davis'
