"""Areas of quadrilaterals: those of their corners, in whatever order and wherever these are."""
import itertools
import sys

import numpy as np

from mc import engine, ref, sg
from simplegrid import util


def around(centre, r, turn, n):
    """n points on the circle of radius r (radians) around centre, anticlockwise."""
    c = ref.xyz(*centre)
    east = np.array([-np.sin(np.radians(centre[0])), np.cos(np.radians(centre[0])), 0.])
    north = np.cross(c, east)
    t = turn + 2 * np.pi * np.arange(n) / n
    return np.cos(r) * c + np.sin(r) * (np.cos(t)[:, None] * east + np.sin(t)[:, None] * north)


def spherical(p):
    """Area of the convex spherical polygon with corners p."""
    return sum(ref.tri_det(p[0], b, c) for b, c in zip(p[1:-1], p[2:]))


def flat(p):
    return .5 * np.linalg.norm(sum(np.cross(b - p[0], c - p[0]) for b, c in zip(p[1:-1], p[2:])))


def lay(v, how):
    if how == 'F':
        return np.asfortranarray(v)
    if how == 'view':
        b = np.full(tuple(2 * n for n in v.shape), np.nan)
        b[::2, 1::2, ::2] = v
        return b[::2, 1::2, ::2]
    if how == 'turned':
        return np.ascontiguousarray(v[::-1, ::-1])[::-1, ::-1]
    if how == 'read only':
        v = v.copy()
        v.flags.writeable = False
    return v


def single(directions, radii, centres):
    """One quadrilateral, from each of its corners, either way around."""
    def h(ch):
        r = ch.choose('radius', radii)
        centre = ch.choose('centre', centres)
        turn = ch.choose('turn', [0., .3])
        ch.commit()
        P = around(centre, r, turn, directions)
        for pick in itertools.combinations(range(directions), 4):
            for k in [pick] + [pick[:i] + (pick[i - 1],) + pick[i + 1:] for i in (1, 2, 3)]:         # (two corners in one place, too)
                p = P[list(k)]
                want = {'spherical': spherical(p), 'flat': flat(p)}
                for start, way in itertools.product(range(4), (1, -1)):
                    a, b, c, d = np.roll(p, start, axis=0)[::way]
                    cart = np.array([[a, d], [b, c]])
                    for name, f, tol in (('spherical', util.squad_uarea, 1e-3), ('flat', util.pquad_uarea, 1e-8)):
                        got = f(cart)
                        ch.check(np.shape(got) == (1, 1), '{} area: shape {}', name, np.shape(got))
                        ch.check(abs(got[0, 0] - want[name]) <= tol * want[name], '{} area of corners {} from {}, way {}: {!r}, not {!r}',
                                 name, k, start, way, float(got[0, 0]), float(want[name]))
        ch.state(r, centre, turn)
    return h


def arrays(top):
    """Every cell of an array: the area of its own corners, whatever the others are."""
    def h(ch):
        ni, nj = ch.choose('cells', [(a, b) for a in range(top + 1) for b in range(top + 1)])
        lon0, lat0, size = ch.choose('grid', [(-35., 20., 1.3), (170., 60., 4.), (10., -80., .4), (0., 0., 11.)])
        how = ch.choose('array', ['C', 'F', 'view', 'turned', 'read only'])
        bad = ch.choose('a corner that is nowhere', [None] + sorted({(i, j) for i in (0, ni) for j in (0, nj)}))
        ch.commit()
        XG, YG = ref.warped(ni, nj, lon0, lat0, size)
        cart = util.lonlat2cart(XG, YG)
        ch.check(np.allclose(cart, ref.xyz(XG, YG), rtol=0, atol=1e-14), 'Cartesian coordinates')
        if bad:
            cart[bad] = np.nan
        v = lay(cart, how)
        before = v.tobytes()
        for name, f in (('spherical', util.squad_uarea), ('flat', util.pquad_uarea)):
            got = ch.must(name, f, v)
            ch.check(v.tobytes() == before, '{} area: argument changed', name)
            ch.check(got.shape == (ni, nj), '{} area: shape {}', name, got.shape)
            for i, j in itertools.product(range(ni), range(nj)):
                own = cart[i:i + 2, j:j + 2]
                if np.any(np.isnan(own)):
                    continue
                p = own[0, 0], own[1, 0], own[1, 1], own[0, 1]
                want = spherical(p) if name == 'spherical' else flat(p)
                ch.check(abs(got[i, j] - want) <= 1e-4 * want, '{} area of cell {}, {}: {!r}, not {!r}', name, i, j, float(got[i, j]), float(want))
        ch.state(ni, nj, lon0, size, how, bad)
    return h


def scenarios(tier):
    radii = [1e-5, 1e-4, 1e-3, 2e-3, .01, .1, .5, 1.]
    centres = [(0., 0.), (123., 45.), (-77., -90.), (10., 89.9)]
    if tier == 'thorough':
        return [('single', single(9, sorted(radii + [3e-5, 3e-4, 1.2e-3, 5e-3, .03, .25, 1.3]), centres + [(180., 0.), (55., 90.), (-100., -30.)])),
                ('arrays', arrays(4))]
    return [('single', single(7, radii, centres)), ('arrays', arrays(3))]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P31', 'model_checking', scenarios,
        'quadrilaterals with corners in all choices of 7 (9) points of circles of all sizes x first corner x way around; arrays of cells x layouts',
        ['convex quadrilaterals, smaller than a hemisphere'],
        {'quick': '7 points, 8 radii, 4 centres; arrays of up to 3 x 3 cells', 'thorough': '9 points, 15 radii, 7 centres; up to 4 x 4 cells'}))
