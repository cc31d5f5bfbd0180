"""The functions that grids are computed with do what is documented, for compute grids of any size, any part of
them, and whatever surrounds that part."""
import sys

import numpy as np

from mc import engine, ref, sg
from simplegrid import computegrid

AROUND = {'zeros': lambda n: np.zeros(n), 'numbers': lambda n: 3. + 7.5 * np.arange(n), 'negative': lambda n: -1. - np.arange(n),
          'NaN': lambda n: np.full(n, np.nan)}


def surround(inner, ring, kind):
    """An array with inner in it, and `ring` = (before i, after i, before j, after j) lines of something else around it."""
    a, b, c, d = ring
    m, n = inner.shape
    shape = (a + m + b, c + n + d)
    out = AROUND[kind](shape[0] * shape[1]).reshape(shape)
    out[a:a + m, c:c + n] = inner
    return out


def where(inner, ring):
    return ring[0], ring[0] + inner.shape[0] - 1, ring[2], ring[2] + inner.shape[1] - 1


def outside(a, box):
    """a, with the part within box blanked."""
    a = a.copy()
    a[box[0]:box[1] + 1, box[2]:box[3] + 1] = 0
    return a


GRIDS = [(-35., 20., 1.3), (10., -60., 0.02), (179., 5., 2.), (300., 35., 8.)]
EMPTY = 12345.                      # (in points yet to be filled in)


def grid(place, ni, nj):
    lon0, lat0, size = place
    XG, YG = ref.warped(ni, nj, lon0, lat0, size)
    return (XG + 180) % 360 - 180 if lon0 == 179. else XG, YG


def fill(sizes, subs, rings):
    """Intermediate points, in the range given and nowhere else."""
    def h(ch):
        ni, nj = ch.choose('cells', sizes)
        place = ch.choose('where', GRIDS)
        si = ch.choose('lon_subscale', subs)
        sj = ch.choose('lat_subscale', subs)
        ring = ch.choose('lines around', rings)
        kind = ch.choose('around', sorted(AROUND)) if any(ring) else 'zeros'
        unset = ch.choose('points to fill in hold', [0., EMPTY])
        ch.commit()
        XG, YG = grid(place, ni, nj)
        inner = [np.full((2 * si * ni + 1, 2 * sj * nj + 1), unset) for _ in range(2)]
        for v, u in zip(inner, (XG, YG)):
            v[::2 * si, ::2 * sj] = u
        xg, yg = surround(inner[0], ring, kind), surround(inner[1], ring, kind)
        box = where(inner[0], ring)
        before = xg.tobytes(), yg.tobytes()
        got = ch.must('fill', computegrid.fill, xg, yg, *box, si, sj, sg.GEOD)
        ch.check((xg.tobytes(), yg.tobytes()) == before, 'fill changed its arguments')
        ch.check(isinstance(got, tuple) and len(got) == 2, 'fill returned {}', type(got))
        F = ref.fill(ref.xyz(XG, YG), si, sj)
        part = np.s_[box[0]:box[1] + 1, box[2]:box[3] + 1]
        for v, given, name in ((got[0], xg, 'longitudes'), (got[1], yg, 'latitudes')):
            ch.check(not np.shares_memory(v, given), 'fill returned its argument')
            ch.check(v.shape == given.shape, '{} have shape {}', name, v.shape)
            ch.check(ref.same(outside(v, box), outside(given, box)), '{} beyond the range were changed', name)
            ch.check(np.array_equal(v[part][::2 * si, ::2 * sj], given[part][::2 * si, ::2 * sj]), '{} of nodes were changed', name)
        d = ref.posdiff(got[0][part], got[1][part], F)
        ch.check(d < ref.POS_TOL, 'points off by {:.3g} degrees', np.degrees(d))
        new = np.ones(F.shape[:2], bool)
        new[::2 * si, ::2 * sj] = False
        lon = got[0][part][new]
        if np.any(XG < 0):
            ch.check(np.all((lon >= -180) & (lon <= 180)), 'longitudes {} to {}, negative ones were given', lon.min(), lon.max())
        elif not np.any(xg < 0):        # (negative ones only around it: either way)
            ch.check(np.all((lon >= 0) & (lon <= 360)), 'longitudes {} to {}, no negative ones were given', lon.min(), lon.max())
        ch.state(ni, nj, place, si, sj, ring, kind, unset)
    return h


def lengths(sizes, rings):
    """Lengths, within the range given, and zeros elsewhere; areas."""
    def h(ch):
        ni, nj = ch.choose('cells', sizes)
        place = ch.choose('where', GRIDS)
        ring = ch.choose('lines around', rings)
        kind = ch.choose('around', sorted(AROUND)) if any(ring) else 'zeros'
        ch.commit()
        XG, YG = grid(place, ni, nj)
        xg, yg = surround(XG, ring, kind), surround(YG, ring, kind)
        box = where(XG, ring)
        before = xg.tobytes(), yg.tobytes()
        ex, ey = ch.must('edges', computegrid.edges, xg, yg, *box, sg.GEOD)
        ch.check((xg.tobytes(), yg.tobytes()) == before, 'edges changed its arguments')
        P = ref.xyz(XG, YG)
        m, n = xg.shape
        for name, got, shape, want, b in (('x', ex, (m - 1, n), ref.R * ref.angle(P[:-1], P[1:]), (box[0], box[1] - 1, box[2], box[3])),
                                          ('y', ey, (m, n - 1), ref.R * ref.angle(P[:, :-1], P[:, 1:]), (box[0], box[1], box[2], box[3] - 1))):
            ch.check(got.shape == shape, 'lengths along {} have shape {}, not {}', name, got.shape, shape)
            ch.check(not np.any(outside(got, b)), 'lengths along {} beyond the range: {}', name, outside(got, b).tolist())
            v = got[b[0]:b[1] + 1, b[2]:b[3] + 1]
            ch.check(np.all(np.abs(v - want) <= 1e-9 * want + 1e-6), 'lengths along {}: {}, not {}', name, v.tolist(), want.tolist())
        for lens in ((ex, ey), (ex[box[0]:box[1], box[2]:box[3] + 1], ey[box[0]:box[1] + 1, box[2]:box[3]])):
            a = ch.must('areas', computegrid.areas, XG, YG, *lens, sg.GEOD)
            want = ref.R ** 2 * ref.quad(P)
            ch.check(a.shape == (ni, nj), 'areas have shape {}', a.shape)
            ch.check(np.all(np.abs(a - want) <= 1e-4 * want), 'areas {}, not {}', a.tolist(), want.tolist())
        ch.state(ni, nj, place, ring, kind)
    return h


def assembled(sizes, subs):
    """The sixteen fields, from a filled-in compute grid; whatever the line around it holds."""
    def h(ch):
        ni, nj = ch.choose('cells', sizes)
        place = ch.choose('where', GRIDS)
        si = ch.choose('lon_subscale', subs)
        sj = ch.choose('lat_subscale', subs)
        kind = ch.choose('around', sorted(AROUND))
        ch.commit()
        XG, YG = grid(place, ni, nj)
        F = ref.fill(ref.xyz(XG, YG), si, sj)
        lon, lat = ref.lonlat(F)
        if np.all(XG >= 0):
            lon = lon % 360
        xg, yg = surround(lon, (1, 1, 1, 1), kind), surround(lat, (1, 1, 1, 1), kind)
        iub, jub = 2 * si * ni + 1, 2 * sj * nj + 1
        before = xg.tobytes(), yg.tobytes()
        g = ch.must('tomitgrid', computegrid.tomitgrid, xg, yg, 0, 1, iub, iub + 1, 0, 1, jub, jub + 1, sg.GEOD)
        ch.check((xg.tobytes(), yg.tobytes()) == before, 'tomitgrid changed its arguments')
        bad = ref.compare(g, F)
        ch.check(not bad, '{}', '; '.join(bad))
        for k, v in (('XC', lon[1::2, 1::2]), ('YC', lat[1::2, 1::2]), ('XG', lon[::2, ::2]), ('YG', lat[::2, ::2])):
            ch.check(np.array_equal(g[k], v), '{} isn\'t that of the compute grid', k)
        ch.state(ni, nj, place, si, sj, kind)
    return h


def chain(ch):
    """fill and tomitgrid, as documented, make what mkgrid makes."""
    lon1, lat1, lon2, lat2 = ch.choose('corners', [(-10., 5., -4., 1.), (200., -30., 210., -31.5), (355., 60., 364., 50.)])
    si = ch.choose('lon_subscale', range(1, 6))
    sj = ch.choose('lat_subscale', range(1, 6))
    ch.commit()
    want = ch.must('mkgrid', sg.mkgrid.mkgrid, lon1=lon1, lat1=lat1, lon2=lon2, lat2=lat2, lon_subscale=si, lat_subscale=sj)[0]
    xg, yg = np.zeros((2, 2 * si + 3, 2 * sj + 3))
    for v, (a, b, c, d) in ((xg, (lon1, lon1, lon2, lon2)), (yg, (lat2, lat1, lat2, lat1))):
        v[1, 1], v[1, -2], v[-2, 1], v[-2, -2] = a, b, c, d
    x, y = ch.must('fill', computegrid.fill, xg, yg, 1, 2 * si + 1, 1, 2 * sj + 1, si, sj, sg.GEOD)
    got = ch.must('tomitgrid', computegrid.tomitgrid, x, y, 0, 1, 2 * si + 1, 2 * si + 2, 0, 1, 2 * sj + 1, 2 * sj + 2, sg.GEOD)
    bad = ref.compare(got, ref.fill(ref.xyz([[lon1, lon1], [lon2, lon2]], [[lat2, lat1], [lat2, lat1]]), si, sj))
    ch.check(not bad, '{}', '; '.join(bad))
    for k in ref.NAMES:
        ch.check(ref.same(got[k], want[k]), '{} is not that of mkgrid', k)
    ch.state(lon1, si, sj)


def scenarios(tier):
    rings = [(0, 0, 0, 0), (1, 1, 1, 1), (0, 1, 2, 0), (2, 0, 0, 1), (3, 2, 1, 2)]
    if tier == 'thorough':
        small = [(a, b) for a in range(1, 5) for b in range(1, 5)]
        return [('fill', fill(small, [1, 2, 3, 4], rings)), ('lengths', lengths([(a, b) for a in range(1, 7) for b in range(1, 7)], rings)),
                ('assembled', assembled(small, [1, 2, 3])), ('chain', chain)]
    return [('fill', fill([(1, 1), (2, 1), (1, 3), (2, 3)], [1, 2, 3], rings[:4])),
            ('lengths', lengths([(1, 1), (2, 1), (1, 3), (3, 2), (4, 5)], rings)), ('assembled', assembled([(1, 1), (2, 1), (1, 3), (2, 3)], [1, 2])),
            ('chain', chain)]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P30', 'model_checking', scenarios,
        'compute grids of all sizes x places x subscales x lines around the part that is worked on x what these hold',
        ['tomitgrid: one line around the compute grid, as drawn in its documentation'],
        {'quick': 'up to 2 x 3 cells, subscales up to 3', 'thorough': 'up to 4 x 4 cells, subscales up to 4'}))
