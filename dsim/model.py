"""Reference model of what a map's derived data should be, written from
the documentation with plain numpy, independent of the package."""
import itertools

import numpy as np


def rot_groups():
    """Proper rotations of the cubic (24) and hexagonal (12) crystals."""
    cubic = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            m = np.zeros((3, 3))
            for i in range(3):
                m[i, p[i]] = s[i]
            if np.linalg.det(m) > 0:
                cubic.append(m)
    hexa = []
    for k in range(6):
        a = k * np.pi / 3
        c, s = np.cos(a), np.sin(a)
        rz = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])
        hexa += [rz, rz @ np.diag([1., -1., -1.])]
    return np.array(cubic), np.array(hexa)


CUBIC, HEX = rot_groups()


def group(phase):
    return CUBIC if phase['laue'] == 11 else HEX


def matrices(euler_deg):
    """Bunge Euler angles (3, ...) in degrees -> orientation matrices
    (..., 3, 3), sample to crystal."""
    a, b, c = np.deg2rad(np.asarray(euler_deg, float))
    ca, sa, cb, sb, cc, sc = (np.cos(a), np.sin(a), np.cos(b), np.sin(b),
                              np.cos(c), np.sin(c))
    m = np.array([
        [ca * cc - sa * sc * cb, sa * cc + ca * sc * cb, sc * sb],
        [-ca * sc - sa * cc * cb, -sa * sc + ca * cc * cb, cc * sb],
        [sa * sb, -ca * sb, cb]])
    return np.moveaxis(m, (0, 1), (-2, -1))


def angle(g1, g2, syms):
    """Smallest rotation angle (degrees) between orientations."""
    d = g1 @ np.swapaxes(g2, -1, -2)
    t = np.einsum('sij,...ji->s...', syms, d).max(0)
    return np.rad2deg(np.arccos(np.clip((t - 1) / 2, -1, 1)))


class Ebsd:
    """State of an EBSD map: its points and how often it was rotated."""

    def __init__(self, truth, start=None):
        self.t = truth
        self.syms = group(truth['phases'][0])
        self.euler = truth['euler'].copy()
        self.phase = truth['phase'].copy()
        self.bc = truth['bc'].copy()
        self.maps = {'band_contrast': truth['bc'].copy(),
                     'phase': truth['phase'].copy()}
        self.rotated = 0
        self.filtered = None     # orientations after smoothing
        self.version = 0

    @property
    def shape(self):
        return self.phase.shape

    def rotate(self):
        self.euler = self.euler[:, ::-1, ::-1]
        self.phase = self.phase[::-1, ::-1]
        self.bc = self.bc[::-1, ::-1]
        self.rotated ^= 1
        self.version += 1
        if self.filtered is not None:
            self.filtered = self.filtered[::-1, ::-1] @ np.diag([-1., -1, 1])

    def g(self):
        if self.filtered is not None:
            return self.filtered
        e = self.euler.copy()
        e[0] = e[0] + 180 * self.rotated
        return matrices(e)

    def boundaries(self, tol):
        """(x boundary, y boundary, x unsure, y unsure, phase x, phase y):
        point [y, x] is a boundary to [y, x+1] (x) or [y+1, x] (y)."""
        g, ph = self.g(), self.phase
        out = []
        for ax in (1, 0):
            a = [slice(None)] * 2
            b = [slice(None)] * 2
            a[ax], b[ax] = slice(None, -1), slice(1, None)
            a, b = tuple(a), tuple(b)
            ang = angle(g[a], g[b], self.syms)
            pb = np.zeros(self.shape, bool)
            pb[a] = ph[a] != ph[b]
            gb = np.zeros(self.shape, bool)
            gb[a] = (ang > tol)
            un = np.zeros(self.shape, bool)
            un[a] = np.abs(ang - tol) < 5e-3
            out.append((gb | pb, un & ~pb, pb))
        return out

    def kam(self):
        q = quats(self.g())
        h, w = self.shape

        def nb(i, j):
            return abs(q[i] @ q[j])
        k = np.zeros(self.shape)
        for y in range(h):
            for x in range(w):
                rows = [nb((y, x), (v, x)) for v in (y - 1, y + 1)
                        if 0 <= v < h]
                cols = [nb((y, x), (y, u)) for u in (x - 1, x + 1)
                        if 0 <= u < w]
                k[y, x] = (np.mean(rows) + np.mean(cols)) / 2
        return 2 * np.arccos(np.clip(k, -1, 1))


def smoothed(g, tol):
    """What the Kuwahara filter may give at each point: the mean of the
    points within `tol` degrees in that one of the eight 3 by 3 squares
    around the point (holding it) where those are closest to it. A list of
    quaternions per point, None where it is too close to call; points less
    than two from the edge stay."""
    q = quats(g)
    h, w = q.shape[:2]
    c = np.cos(np.deg2rad(tol) / 2)
    out = {}
    for y in range(h):
        for x in range(w):
            if not (2 <= y < h - 2 and 2 <= x < w - 2):
                out[y, x] = [q[y, x]]
                continue
            cand = []
            for v, u in ((-2, -2), (-2, -1), (-2, 0), (-1, 0), (0, 0),
                         (0, -1), (0, -2), (-1, -2)):
                b = q[y + v:y + v + 3, x + u:x + u + 3].reshape(-1, 4)
                d = b @ q[y, x]
                if (np.abs(np.abs(d) - c) < 1e-7).any():
                    cand = None
                    break
                k = np.abs(d) > c
                m = (b[k] * np.sign(d[k])[:, None]).sum(0)
                cand.append((np.abs(d[k]).mean(), m / np.linalg.norm(m)))
            if cand is not None:
                best = max(a for a, _ in cand)
                cand = [m for a, m in cand if a > best - 1e-7]
            out[y, x] = cand
    return out


def curvature(g, syms, step):
    """Nye tensor and dislocation density of orientations `g` a step (in
    microns) apart, their scale (change of orientation to tensor) and where
    it is clear which equivalent neighbour is the nearest."""
    h, w = g.shape[:2]
    scale = 1 / (step * 1e-6 * 1.4e-10)
    clear = np.ones((h, w), bool)
    grad = np.zeros((2, h, w, 3, 3))
    for axis, (v, u) in enumerate(((0, 1), (1, 0))):
        for y in range(h - 1):
            for x in range(w - 1):
                # sample rotation between the point and the equivalents of
                # the next one
                rot = [(s @ g[y + v, x + u]).T @ g[y, x] for s in syms]
                t = np.array([np.trace(r) for r in rot])
                o = np.argsort(-t)
                clear[y, x] &= t[o[0]] - t[o[1]] > 1e-4
                grad[axis, y, x] = rot[o[0]] - np.eye(3)
    dx, dy = grad
    a = np.zeros((3, 3, h, w))
    for i in range(3):
        a[i, 0] = -dy[:, :, i, 2]
        a[i, 1] = dx[:, :, i, 2]
        a[i, 2] = dy[:, :, i, 0] - dx[:, :, i, 1]
    return a * scale, 1.5 * np.abs(a).sum((0, 1)) * scale, scale, clear


def distances(points, shape):
    """Distance of each point to the nearest boundary point (the corner at
    its lower right), 1000 at most."""
    h, w = shape
    y, x = np.mgrid[:h, :w]
    out = np.full(shape, 1000.)
    for px, py in points:
        out = np.minimum(out, np.hypot(x - px - .5, y - py - .5))
    return out


def quats(g):
    """Unit quaternions (sign arbitrary) of rotation matrices."""
    g = np.asarray(g)
    out = np.empty(g.shape[:-2] + (4,))
    for i in np.ndindex(g.shape[:-2]):
        m = g[i]
        k = np.array([
            [m[0, 0] - m[1, 1] - m[2, 2], 0, 0, 0],
            [m[0, 1] + m[1, 0], m[1, 1] - m[0, 0] - m[2, 2], 0, 0],
            [m[0, 2] + m[2, 0], m[1, 2] + m[2, 1],
             m[2, 2] - m[0, 0] - m[1, 1], 0],
            [m[2, 1] - m[1, 2], m[0, 2] - m[2, 0], m[1, 0] - m[0, 1],
             m[0, 0] + m[1, 1] + m[2, 2]]]) / 3
        w, v = np.linalg.eigh(k + np.tril(k, -1).T)
        x, y, z, s = v[:, -1]
        out[i] = s, x, y, z
    return out


def partition(indexed, bx, by, min_size):
    """Label connected points not separated by a boundary, in scan order.
    0 not indexed, -2 smaller than the minimum size."""
    h, w = indexed.shape
    lab = np.zeros((h, w), int)
    seen = ~indexed
    n = 0
    for y0 in range(h):
        for x0 in range(w):
            if seen[y0, x0]:
                continue
            seen[y0, x0] = True
            todo, pts = [(y0, x0)], []
            while todo:
                y, x = todo.pop()
                pts.append((y, x))
                for v, u, wall in (
                        (y, x + 1, bx[y, x]),
                        (y, x - 1, bx[y, x - 1] if x else True),
                        (y + 1, x, by[y, x]),
                        (y - 1, x, by[y - 1, x] if y else True)):
                    if (not wall and 0 <= v < h and 0 <= u < w
                            and not seen[v, u]):
                        seen[v, u] = True
                        todo.append((v, u))
            if len(pts) < min_size:
                val = -2
            else:
                n += 1
                val = n
            for p in pts:
                lab[p] = val
    return lab


def edges(lab, bx, by):
    """Neighbour relations as the network states them: pairs of points
    either side of a boundary away from the outer points of the map."""
    h, w = lab.shape
    out = {}
    for kind, b in enumerate((bx, by)):
        for y, x in np.argwhere(b):
            if x in (0, w - 1) or y in (0, h - 1):
                continue
            p, q = (x, y), (x + 1 - kind, y + kind)
            a, c = lab[y, x] - 1, lab[q[1], q[0]] - 1
            if a == c or a < 0 or c < 0:
                continue
            p, q = tuple(map(int, p)), tuple(map(int, q))
            key = (min(a, c), max(a, c))
            out.setdefault((int(key[0]), int(key[1])), []).append(
                (p, q) if a < c else (q, p))
    return sorted((k, sorted(v)) for k, v in out.items())
