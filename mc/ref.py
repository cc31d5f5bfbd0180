"""Independent reference: what the grids, fields and files are supposed to be.

Written from the documentation (README, docs/, docstrings, MITgcm grid
conventions), with vector algebra where the code uses geodesic routines and
spherical trigonometry, and shares nothing with the code under test.
"""
import os

import numpy as np

R = 6370997.0                       # pyproj ellps='sphere'
NAMES = ('XC', 'YC', 'DXF', 'DYF', 'RAC', 'XG', 'YG', 'DXV', 'DYU', 'RAZ', 'DXC', 'DYC',
         'RAW', 'RAS', 'DXG', 'DYG')
# points in x (i) and y (j) beyond the cell counts: corner ('g') points have one more
STAG = {'XC': (0, 0), 'YC': (0, 0), 'DXF': (0, 0), 'DYF': (0, 0), 'RAC': (0, 0),
        'XG': (1, 1), 'YG': (1, 1), 'DXV': (1, 1), 'DYU': (1, 1), 'RAZ': (1, 1),
        'DXC': (1, 0), 'DYC': (0, 1), 'RAW': (1, 0), 'RAS': (0, 1), 'DXG': (0, 1), 'DYG': (1, 0)}
LENGTHS = ('DXF', 'DYF', 'DXV', 'DYU', 'DXC', 'DYC', 'DXG', 'DYG')
AREAS = ('RAC', 'RAZ', 'RAW', 'RAS')
EPS = 4e-16


# -- sphere -------------------------------------------------------------------

def xyz(lon, lat):
    lon, lat = np.radians(np.asarray(lon, float)), np.radians(np.asarray(lat, float))
    return np.stack([np.cos(lon) * np.cos(lat), np.sin(lon) * np.cos(lat), np.sin(lat)], -1)


def angle(p, q):
    return np.arctan2(np.linalg.norm(np.cross(p, q), axis=-1), (p * q).sum(-1))


def slerp(p, q, t):
    w = angle(p, q)[..., None]
    s = np.sin(w)
    small = np.abs(s) < 1e-15
    sd = np.where(small, 1., s)
    a = np.where(small, 1 - t, np.sin((1 - t) * w) / sd)
    b = np.where(small, t, np.sin(t * w) / sd)
    v = a * p + b * q
    return v / np.linalg.norm(v, axis=-1, keepdims=True)


def lonlat(p):
    return (np.degrees(np.arctan2(p[..., 1], p[..., 0])),
            np.degrees(np.arctan2(p[..., 2], np.hypot(p[..., 0], p[..., 1]))))


def fill(P, si, sj):
    """Corner points (m,n,3) -> points at half the spacing of a grid with each cell
    divided into si x sj: great circles along x first, then along y."""
    m, n, _ = P.shape
    a = np.empty(((m - 1) * 2 * si + 1, n, 3))
    for k in range(2 * si):
        a[k:-1:2 * si] = slerp(P[:-1], P[1:], k / (2 * si))
    a[0::2 * si] = P
    b = np.empty((a.shape[0], (n - 1) * 2 * sj + 1, 3))
    for k in range(2 * sj):
        b[:, k:-1:2 * sj] = slerp(a[:, :-1], a[:, 1:], k / (2 * sj))
    b[:, 0::2 * sj] = a
    return b


def tri_det(a, b, c):
    """Area of spherical triangles (unit sphere)."""
    num = np.abs((a * np.cross(b - a, c - a)).sum(-1))
    den = 1 + (a * b).sum(-1) + (b * c).sum(-1) + (c * a).sum(-1)
    return 2 * np.arctan2(num, den)


def tri_err(a, b, c):
    """Rounding error to be expected of a spherical excess by the law of cosines."""
    # (sides shorter than 1.5e-8 can't be told from each other: their cosine is 1)
    sides = [np.maximum(x, 1.5e-8) for x in (angle(b, c), angle(a, c), angle(a, b))]
    out = 0.
    for k in range(3):
        x, y, z = sides[k], sides[(k + 1) % 3], sides[(k + 2) % 3]
        sy, sz = np.sin(y), np.sin(z)
        cosA = np.clip((np.cos(x) - np.cos(y) * np.cos(z)) / (sy * sz), -1, 1)
        d = EPS * (1 / (sy * sz) + np.abs(cosA) * (1 / sy ** 2 + 1 / sz ** 2))
        out = out + np.minimum(d / np.maximum(np.sqrt(1 - cosA ** 2), 1e-30), np.sqrt(2 * d))
    out = 0.5 * out                 # (observed: at most a tenth of this)
    # with a short side there are formulas that do better
    fine = 1e-6 * tri_det(a, b, c) + 1e-14 * np.maximum(np.maximum(sides[0], sides[1]), sides[2])
    return np.where(np.minimum(np.minimum(sides[0], sides[1]), sides[2]) < 1e-3, np.minimum(out, fine), out)


def cells(F):
    return F[:-1, :-1], F[1:, :-1], F[1:, 1:], F[:-1, 1:]


def quad(F):
    a, b, c, d = cells(F)
    return tri_det(a, b, c) + tri_det(a, c, d)


def quad_err(F):
    a, b, c, d = cells(F)
    e = tri_err(a, b, c) + tri_err(a, c, d)
    # coincident corners: no such triangle
    return np.where(np.isfinite(e), e, 0)


# -- the 16 fields ------------------------------------------------------------

def _pairs(E, axis):
    """Sum of consecutive pairs along an axis."""
    E = np.moveaxis(E, axis, 0)
    return np.moveaxis(E[0::2] + E[1::2], 0, axis)


def _ring(A, axis):
    """A ring of zeros around (half cells beyond the grid aren't known)."""
    pad = [(0, 0)] * A.ndim
    pad[axis] = (1, 1)
    return np.pad(A, pad)


def _pairs_off(E, axis):
    """Pairs straddling corner points: zero where half of it is beyond the grid."""
    P = _ring(E, axis)
    S = _pairs(P, axis)
    S = np.moveaxis(S, axis, 0).copy()
    S[0] = 0
    S[-1] = 0
    return np.moveaxis(S, 0, axis)


def fields(F):
    """The length and area fields of a grid with half-spacing points F; and the
    tolerance for each."""
    ex = R * angle(F[:-1], F[1:])               # (2ni, 2nj+1)
    ey = R * angle(F[:, :-1], F[:, 1:])         # (2ni+1, 2nj)
    sub = R * R * quad(F)                       # (2ni, 2nj)
    planar = mean_nonzero(ex) < 10e3 and mean_nonzero(ey) < 10e3
    serr = R * R * quad_err(F)
    if planar:
        serr = 5e-6 * sub
    else:
        serr = serr + 1e-9 * sub
        if mean_nonzero(ex) < 10.01e3 and mean_nonzero(ey) < 10.01e3:
            serr = serr + 5e-6 * sub
    out, tol = {}, {}
    L = {'DXG': _pairs(ex[:, 0::2], 0), 'DXF': _pairs(ex[:, 1::2], 0),
         'DXV': _pairs_off(ex[:, 0::2], 0), 'DXC': _pairs_off(ex[:, 1::2], 0),
         'DYG': _pairs(ey[0::2, :], 1), 'DYF': _pairs(ey[1::2, :], 1),
         'DYU': _pairs_off(ey[0::2, :], 1), 'DYC': _pairs_off(ey[1::2, :], 1)}
    for k, v in L.items():
        out[k] = v
        tol[k] = 1e-9 * v + 1e-6

    def area(A):
        return {'RAC': _pairs(_pairs(A, 0), 1), 'RAW': _pairs(_pairs_off(A, 0), 1),
                'RAS': _pairs_off(_pairs(A, 0), 1), 'RAZ': _pairs_off(_pairs_off(A, 0), 1)}
    out.update(area(sub))
    tol.update(area(serr))
    for k in AREAS:                             # zero means zero
        tol[k] = np.where(out[k] == 0, 0., tol[k])
    # lengths beyond the grid (and of collapsed sides) are zero as well
    for k in ('DXV', 'DXC'):
        tol[k][0] = tol[k][-1] = 0
    for k in ('DYU', 'DYC'):
        tol[k][:, 0] = tol[k][:, -1] = 0
    return out, tol


def mean_nonzero(e):
    e = e[e > 0]
    return e.mean() if e.size else np.inf


def positions(F):
    """Cell centre and corner points."""
    return F[1::2, 1::2], F[0::2, 0::2]


def full(XG, YG, si=1, sj=1):
    """All 16 fields of the grid with corners XG, YG (each cell divided si x sj)."""
    F = fill(xyz(XG, YG), si, sj)
    out, _ = fields(F)
    c, g = positions(F)
    out['XC'], out['YC'] = lonlat(c)
    if np.all(np.asarray(XG) >= 0):
        out['XC'] = out['XC'] % 360
    if si == sj == 1:
        out['XG'], out['YG'] = np.array(XG, float), np.array(YG, float)
    else:
        out['XG'], out['YG'] = lonlat(g)
        if np.all(np.asarray(XG) >= 0):
            out['XG'] = out['XG'] % 360
    return {k: np.ascontiguousarray(out[k]) for k in NAMES}


def posdiff(lon, lat, P):
    """Angular distance of lon/lat points from expected positions (radians)."""
    lon, lat = np.asarray(lon, float), np.asarray(lat, float)
    if not (np.all(np.isfinite(lon)) and np.all(np.isfinite(lat)) and np.all(np.abs(lat) <= 90 + 1e-9)):
        return np.inf
    return float(np.max(np.linalg.norm(xyz(lon, lat) - P, axis=-1)))


POS_TOL = 1e-12                     # radians: less than 10 micrometres


def compare(grid, F, names=NAMES, exact=None, zero_ok=(), areatol=1.0):
    """List of differences between a grid (dict) and the one with half-spacing points F."""
    want, tol = fields(F)
    c, g = positions(F)
    ni, nj = c.shape[0], c.shape[1]
    bad = []
    for k in NAMES:
        if k not in grid or not isinstance(grid[k], np.ndarray):
            bad.append('{} is missing'.format(k))
            continue
        shape = (ni + STAG[k][0], nj + STAG[k][1])
        if grid[k].shape != shape:
            bad.append('{} has shape {}, not {}'.format(k, grid[k].shape, shape))
    if set(grid) != set(NAMES):
        bad.append('fields {}'.format(sorted(grid)))
    if bad:
        return bad
    for x, y, P in (('XC', 'YC', c), ('XG', 'YG', g)):
        if x in names:
            d = posdiff(grid[x], grid[y], P)
            if not d < POS_TOL:
                bad.append('{},{} off by {:.3g} degrees'.format(x, y, np.degrees(d)))
    for k in LENGTHS + AREAS:
        if k in names:
            t = tol[k] * (areatol if k in AREAS else 1)
            d = np.abs(grid[k] - want[k])
            if not np.all(d <= t):
                i = np.unravel_index(np.argmax(np.where(np.isnan(d), np.inf, d - t)), d.shape)
                bad.append('{}{} = {!r}, expected {!r} +- {:.2g}'.format(
                    k, tuple(int(n) for n in i), float(grid[k][i]), float(want[k][i]), float(t[i])))
    return bad


# -- files --------------------------------------------------------------------

def pack(grid, ni, nj, pad=0.):
    """mitgrid file contents."""
    out = b''
    for k in NAMES:
        a = np.full((ni + 1, nj + 1), pad)
        a[:ni + STAG[k][0], :nj + STAG[k][1]] = grid[k]
        out += np.ascontiguousarray(a.T).astype('>f8').tobytes()
    return out


def unpack(data, ni, nj):
    raw = np.frombuffer(data, '>f8').reshape(16, nj + 1, ni + 1)
    return {k: raw[n].T[:ni + STAG[k][0], :nj + STAG[k][1]].astype(float)
            for n, k in enumerate(NAMES)}


def padding(data, ni, nj):
    raw = np.frombuffer(data, '>f8').reshape(16, nj + 1, ni + 1)
    return np.concatenate([np.concatenate([
        raw[n].T[ni + STAG[k][0]:].ravel(), raw[n].T[:ni + STAG[k][0], nj + STAG[k][1]:].ravel()])
        for n, k in enumerate(NAMES)])


def put(path, data):
    with open(path, 'wb') as f:
        f.write(data)
    return path


def listing(folder):
    """{path: content} of all files below a folder."""
    out = {}
    for d, _, files in os.walk(folder):
        for f in files:
            with open(os.path.join(d, f), 'rb') as h:
                out[os.path.relpath(os.path.join(d, f), folder)] = h.read()
    return out


def labels(ni, nj, base=0.):
    """A grid of distinct, easily recognised numbers (no zeros)."""
    out = {}
    for n, k in enumerate(NAMES):
        si, sj = ni + STAG[k][0], nj + STAG[k][1]
        i, j = np.meshgrid(np.arange(si), np.arange(sj), indexing='ij')
        out[k] = base + 1e6 * (n + 1) + 1000. * i + j + 1
    return out


def same(a, b):
    """Bitwise equality of arrays (NaN equals NaN, but 0. isn't -0.)."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and a.tobytes() == b.tobytes()


# -- test grids ---------------------------------------------------------------

def warped(ni, nj, lon0=-35., lat0=20., d=1.3, seed=1, warp=0.12):
    """Corner points of a skewed, unevenly spaced grid: no two points or cells alike."""
    i, j = np.meshgrid(np.arange(ni + 1.), np.arange(nj + 1.), indexing='ij')
    s = seed * 0.7
    lon = lon0 + d * (1.25 * i + 0.11 * j + warp * np.sin(1.7 * i + 2.3 * j + s))
    lat = lat0 + d * (0.93 * j - 0.13 * i + warp * np.cos(2.1 * i - 1.3 * j + s))
    return lon, lat


def rotate(XG, YG, k):
    return np.rot90(XG, k).copy(), np.rot90(YG, k).copy()
