"""Tiles cut from one grid, and what joining them should give."""
import numpy as np

from . import ref, sg

N, S, E, W = range(4)
SIDES = {'N': N, 'S': S, 'E': E, 'W': W}
OPPOSITE = {'N': 'S', 'S': 'N', 'E': 'W', 'W': 'E'}


def neighbours(side, na, nb, along):
    """(i0,i1,j0,j1) of tiles a and b, b on that side of a, in a common grid, and its size.
    na, nb: cells across the joint; along: cells along it."""
    if side == 'E':
        return (0, na, 0, along), (na, na + nb, 0, along), (na + nb, along)
    if side == 'W':
        return (nb, nb + na, 0, along), (0, nb, 0, along), (na + nb, along)
    if side == 'N':
        return (0, along, 0, na), (0, along, na, na + nb), (along, na + nb)
    return (0, along, nb, nb + na), (0, along, 0, nb), (along, na + nb)


def polar(ni, nj, side, lon0=-35., size=1.3):
    """Corner points of a grid one side of which (N, E, S, W) is a pole: the north pole, or (n, e, s, w)
    the south pole.  Meridians at uneven distances; the pole by each of their longitudes."""
    m, n = (ni, nj) if side in 'NSns' else (nj, ni)
    i, j = np.meshgrid(np.arange(m + 1.), np.arange(n + 1.), indexing='ij')
    lon = lon0 + 15 * size * (i + .2 * np.sin(1.7 * i))
    lat = 90. - size * (n - j + .2 * np.sin(2.3 * (n - j)))
    for _ in range('NWSE'.index(side.upper())):
        lon, lat = np.rot90(lon), np.rot90(lat)
    return np.ascontiguousarray(lon), np.ascontiguousarray(lat if side.isupper() else -lat)


def cut(XG, YG, box):
    i0, i1, j0, j1 = box
    return XG[i0:i1 + 1, j0:j1 + 1].copy(), YG[i0:i1 + 1, j0:j1 + 1].copy()


def part(field, k, box):
    """The terms of field k that belong to a tile."""
    i0, i1, j0, j1 = box
    si, sj = ref.STAG[k]
    return field[i0:i1 + si, j0:j1 + sj]


def edge(X, side):
    return {'N': X[:, -1], 'S': X[:, 0], 'E': X[-1, :], 'W': X[0, :]}[side]


def beyond(X, side):
    """The line of points next to an edge, inside the tile."""
    return {'N': X[:, -2], 'S': X[:, 1], 'E': X[-2, :], 'W': X[1, :]}[side]


# terms whose line or cell lies on both sides of a joint
ACROSS_X = ('DXC', 'RAZ', 'RAW', 'DXV')     # joint at constant i
ACROSS_Y = ('DYC', 'RAZ', 'RAS', 'DYU')     # joint at constant j


def joint_mask(k, shape, ijoints, jjoints):
    m = np.zeros(shape, bool)
    if k in ACROSS_X:
        for b in ijoints:
            m[b, :] = True
    if k in ACROSS_Y:
        for b in jjoints:
            m[:, b] = True
    return m


def check_union(ch, grid, XG, YG, ijoints, jjoints, key, what, tile=None, F=None):
    """grid: the fields of (a tile of) the grid with corners XG, YG, put together from tiles.
    Terms across joints that were left zero are the known finding `key`.
    F: the points at half the spacing, where they are not those between the corners (refined grids; lines
    across a joint are then between points made in one way or the other)."""
    loose = 0. if F is None else 1e-3
    F = ref.fill(ref.xyz(XG, YG), 1, 1) if F is None else F
    want, tol = ref.fields(F)
    c, g = ref.positions(F)
    ni, nj = XG.shape[0] - 1, XG.shape[1] - 1
    box = tile or (0, ni, 0, nj)
    ch.check(set(grid) == set(ref.NAMES), '{}: fields {}', what, sorted(grid))
    for k in ref.NAMES:
        si, sj = ref.STAG[k]
        shape = (box[1] - box[0] + si, box[3] - box[2] + sj)
        ch.check(np.shape(grid[k]) == shape, '{}: {} has shape {}, not {}', what, k, np.shape(grid[k]), shape)
    pc, pg = part(c, 'XC', box), part(g, 'XG', box)
    for x, y, P in (('XC', 'YC', pc), ('XG', 'YG', pg)):
        d = ref.posdiff(grid[x], grid[y], P)
        ch.check(d < ref.POS_TOL, '{}: {},{} off by {:.3g} degrees', what, x, y, np.degrees(d))
    ch.check(np.all(np.abs((grid['XG'] - part(XG, 'XG', box) + 180) % 360 - 180) < 1e-9)
             and np.array_equal(grid['YG'], part(YG, 'YG', box)), '{}: corner points moved', what)
    left = False
    for k in ref.LENGTHS + ref.AREAS:
        m = part(joint_mask(k, want[k].shape, ijoints, jjoints), k, box)
        w, t, v = part(want[k], k, box), part(tol[k], k, box), grid[k]
        off = ~(np.abs(v - w) <= np.where(m, np.maximum(t, loose * w), t))
        zero = off & m & (v == 0)
        if np.any(off & ~zero):
            i = tuple(int(n) for n in np.argwhere(off & ~zero)[0])
            ch.fail('{}: {}{} = {!r}, expected {!r}{}'.format(
                what, k, i, float(v[i]), float(w[i]), ' (across the joint)' if m[i] else ''))
        left = left or bool(np.any(zero))
    if left:
        ch.finding(key, '{}: terms across the joint are left zero'.format(what))


def save(path, grid, ni, nj):
    return ref.put(path, ref.pack(grid, ni, nj))
