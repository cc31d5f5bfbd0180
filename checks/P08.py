"""regrid keeps the parent's corner points, exactly, for the region between the nodes nearest
to the two points given, and refines between them."""
import sys

import numpy as np

from mc import engine, ref, sg


def parent_of(XG, YG):
    return {'XG': XG.copy(), 'YG': YG.copy(), 'XC': np.zeros((XG.shape[0] - 1, XG.shape[1] - 1))}


def verify(ch, got, XG, YG, si, sj, names=ref.NAMES):
    """got: refinement of the grid with corners XG, YG."""
    ch.check(isinstance(got, tuple) and len(got) == 3, 'regrid returned {}', type(got))
    grid, a, b = got
    ni, nj = XG.shape[0] - 1, XG.shape[1] - 1
    ch.check((a, b) == (ni * si, nj * sj), 'counts {} x {}, not {} x {}', a, b, ni * si, nj * sj)
    bad = ref.compare(grid, ref.fill(ref.xyz(XG, YG), si, sj), names=names)
    ch.check(not bad, '{}', '; '.join(bad))
    for k, v in (('XG', XG), ('YG', YG)):
        ch.check(np.array_equal(grid[k][::si, ::sj], v),
                 '{}: corners of the parent moved, e.g. by {:.3g}', k, np.max(np.abs(grid[k][::si, ::sj] - v)))


def scen(top, grids, subs, offsets):
    def run(ch):
        ni, nj = ch.choose('parent size', top)
        lon0, lat0, size = ch.choose('parent', grids)
        i1 = ch.choose('i of first corner', range(ni))
        i2 = ch.choose('i of second corner', range(i1 + 1, ni + 1))
        j2 = ch.choose('j of second corner', range(nj))
        j1 = ch.choose('j of first corner', range(j2 + 1, nj + 1))
        si = ch.choose('lon_subscale', subs)
        sj = ch.choose('lat_subscale', subs)
        off = ch.choose('distance of points given from nodes', offsets)
        ch.commit()
        XG, YG = ref.warped(ni, nj, lon0, lat0, size)
        if np.max(XG) > 360 or np.max(np.abs(YG)) > 88:
            raise engine.Skip()
        dx, dy = off[0] * size, off[1] * size
        for i, j, x in ((i1, j1, dx), (i2, j2, -dx)):       # still nearest, clearly?
            d = ref.angle(ref.xyz(XG, YG), ref.xyz(XG[i, j] + x, YG[i, j] + dy)).ravel()
            n = np.argsort(d)
            if n[0] != i * (nj + 1) + j or d[n[0]] > 0.9 * d[n[1]]:
                raise engine.Skip()
        got = ch.must('regrid', sg.regrid.regrid, mitgrid_matrices=parent_of(XG, YG),
                      lon1=XG[i1, j1] + dx, lat1=YG[i1, j1] + dy,
                      lon2=XG[i2, j2] - dx, lat2=YG[i2, j2] + dy, lon_subscale=si, lat_subscale=sj)
        region = np.s_[i1:i2 + 1, j2:j1 + 1]
        verify(ch, got, XG[region], YG[region], si, sj)
        ch.state(ni, nj, lon0, size, i1, i2, j1, j2, si, sj, off)
    return run


def globe(columns, rows, west, poles, at):
    """Corner points of a grid that goes all the way around: the first and the last column are one place,
    by longitudes 360 degrees apart.  poles: whether its last and its first row are the poles; at: latitudes
    of the rows at its ends if they aren't."""
    i, j = np.meshgrid(np.arange(columns + 1.), np.arange(rows + 1.), indexing='ij')
    lon = west + 360 * i / columns + 9 * np.sin(np.pi * i / columns) ** 2 * (i < columns)
    n, s = [p if on else a for p, on, a in zip((90, -90), poles, at)]
    lat = s + (n - s) * j / rows
    if rows > 1:
        lat[:, 1:-1] += np.sin(2 * i + j)[:, 1:-1] * (i % columns > 0)[:, 1:-1]
    return lon, lat


def around(sizes, wests, subs):
    """Regions, up to the whole, of parents that go all the way around: nodes of the first and of the last
    column are told apart by the longitudes asked for."""
    def run(ch):
        columns, rows = ch.choose('parent size', sizes)
        west = ch.choose('west', wests)
        poles = ch.choose('poles', [(False, False), (True, False), (True, True)])
        lats = ch.choose('latitudes', [(70., -60.), (30., 10.)])
        ii = [(a, b) for a in range(columns) for b in range(a + 1, columns + 1)]
        i1, i2 = ch.choose('columns', ii)
        j2, j1 = ch.choose('rows', [(a, b) for a in range(rows) for b in range(a + 1, rows + 1)])
        k = ch.choose('quarter turns', [0, 1, 2, 3])
        si, sj = ch.choose('subscales', subs)
        ch.commit()
        XG, YG = globe(columns, rows, west, poles, lats)
        if any(poles) and lats[1] > 0 or all(poles) and rows == 1:     # (no great circle joins pole to pole)
            raise engine.Skip()
        px, py = ref.rotate(XG, YG, k)
        got = ch.must('regrid', sg.regrid.regrid, mitgrid_matrices=parent_of(px, py), lon1=XG[i1, j1], lat1=YG[i1, j1],
                      lon2=XG[i2, j2], lat2=YG[i2, j2], lon_subscale=si, lat_subscale=sj)
        region = np.s_[i1:i2 + 1, j2:j1 + 1]
        verify(ch, got, XG[region], YG[region], si, sj)
        ch.state(columns, rows, west, poles, lats, i1, i2, j1, j2, k, si, sj)
    return run


NUMBERS = {'float': float, 'float64': np.float64, 'float32': np.float32, 'array of no dimension': np.array, 'longdouble': np.longdouble}


def diamond(top):
    """Parents that stand on a corner: the points given have a longitude or a latitude in common.  Numbers of any type."""
    def run(ch):
        ni, nj = ch.choose('parent size', top)
        turn = ch.choose('i goes', ['south east', 'north east', 'east'])
        lon0, lat0, d = ch.choose('parent', [(-35., 20., 1.5), (0., 0., .125), (200., -60., .25)])
        i1 = ch.choose('i of first corner', range(ni))
        i2 = ch.choose('i of second corner', range(i1 + 1, ni + 1))
        j2 = ch.choose('j of second corner', range(nj))
        j1 = ch.choose('j of first corner', range(j2 + 1, nj + 1))
        si, sj = ch.choose('subscales', [(1, 1), (2, 3)])
        kind = ch.choose('numbers', sorted(NUMBERS))
        ch.commit()
        i, j = np.meshgrid(np.arange(ni + 1.), np.arange(nj + 1.), indexing='ij')
        x, y = {'south east': (i + j, j - i), 'north east': (i - j, i + j), 'east': (i, j)}[turn]
        XG, YG = lon0 + d * x, lat0 + d * y
        to = NUMBERS[kind]
        whole = np.int64 if kind in ('float64', 'float32') else int
        got = ch.must('regrid', sg.regrid.regrid, mitgrid_matrices=parent_of(XG, YG), lon1=to(XG[i1, j1]), lat1=to(YG[i1, j1]),
                      lon2=to(XG[i2, j2]), lat2=to(YG[i2, j2]), lon_subscale=whole(si), lat_subscale=whole(sj))
        region = np.s_[i1:i2 + 1, j2:j1 + 1]
        verify(ch, got, XG[region], YG[region], si, sj)
        ch.state(ni, nj, turn, lon0, i1, i2, j1, j2, si, sj, kind)
    return run


def idempotent(ch):
    """Regridding the whole of a regridded grid at the same resolution gives it back; refining
    it again is the same as refining it further in the first place where parts are nested."""
    ni = ch.choose('ni', [1, 2, 3])
    nj = ch.choose('nj', [1, 2, 3])
    s1 = ch.choose('first subscales', [(1, 1), (2, 1), (1, 3), (2, 2)])
    s2 = ch.choose('second subscales', [(1, 1), (1, 2), (3, 1)])
    lon0, lat0, size = ch.choose('parent', [(-40., 20., 2.), (200., -50., 0.02)])
    ch.commit()
    XG, YG = ref.warped(ni, nj, lon0, lat0, size)
    g = ch.must('regrid', sg.regrid.regrid, mitgrid_matrices=parent_of(XG, YG), lon1=XG[0, -1], lat1=YG[0, -1],
                lon2=XG[-1, 0], lat2=YG[-1, 0], lon_subscale=s1[0], lat_subscale=s1[1])
    verify(ch, g, XG, YG, *s1)
    x, y = g[0]['XG'].copy(), g[0]['YG'].copy()
    h = ch.must('regrid again', sg.regrid.regrid, mitgrid_matrices=g[0], lon1=x[0, -1], lat1=y[0, -1],
                lon2=x[-1, 0], lat2=y[-1, 0], lon_subscale=s2[0], lat_subscale=s2[1])
    verify(ch, h, x, y, *s2)
    ch.state(ni, nj, s1, s2, lon0)


def ladder(top, more):
    """Large parents, and large subscales."""
    def run(ch):
        n = ch.choose('n', [*range(4, top + 1), *more])
        (ni, nj), (si, sj) = ch.choose('parent, subscales', [
            ((1, 1), (n, 1)), ((1, 1), (1, n)), ((2, 1), (n, 2)), ((1, 2), (3, n)), ((n, 1), (1, 1)), ((1, n), (1, 1)),
            ((n, 2), (2, 1)), ((2, n), (1, 2)), ((n, n), (1, 1))][:8 if n > 9 else 9])
        i1 = ch.choose('i of first corner', [0, ni // 2] if ni > 1 else [0])
        j1 = ch.choose('j of first corner', [nj, (nj + 1) // 2] if nj > 1 else [nj])
        lon0, lat0, size = ch.choose('parent', [(-35., 20., .7), (250., -50., 0.02)])
        ch.commit()
        XG, YG = ref.warped(ni, nj, lon0, lat0, size * min(1, 40 / n))
        got = ch.must('regrid', sg.regrid.regrid, mitgrid_matrices=parent_of(XG, YG), lon1=XG[i1, j1], lat1=YG[i1, j1],
                      lon2=XG[-1, 0], lat2=YG[-1, 0], lon_subscale=si, lat_subscale=sj)
        verify(ch, got, XG[i1:, :j1 + 1], YG[i1:, :j1 + 1], si, sj)
        ch.state(ni, nj, si, sj, i1, j1, lon0)
    return run


def scenarios(tier):
    if tier == 'thorough':
        return [('diamond', diamond([(1, 1), (2, 2), (3, 2), (3, 4)])), ('around', around([(3, 1), (4, 2), (5, 3), (6, 2)], [-180., 0., 20., -35.5], [(1, 1), (2, 1), (1, 3), (2, 2)])),
                ('large', ladder(40, [47, 64, 65, 100, 128, 129, 256, 300, 513])), ('regions', scen([(1, 1), (2, 3), (3, 2), (4, 3), (3, 4), (5, 2)],
                                 [(-35., 20., 1.3), (10., -70., 2.), (150., 0., 0.02), (300., 40., 4.), (10., 35., 4e-6)],
                                 [1, 2, 3], [(0, 0), (.25, .2), (-.2, .25), (.2, -.25)])), ('again', idempotent)]
    return [('diamond', diamond([(1, 1), (2, 2), (3, 2)])), ('around', around([(3, 1), (4, 2)], [-180., 0., -35.5], [(1, 1), (2, 3)])),
            ('large', ladder(16, [33, 64, 100, 129, 257])), ('regions', scen([(1, 1), (2, 3), (3, 2)], [(-35., 20., 1.3), (150., -60., 0.02), (300., 40., 4.), (10., 35., 4e-6)],
                             [1, 2, 3], [(0, 0), (.25, .2), (-.2, -.25)])), ('again', idempotent)]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P08', 'model_checking', scenarios,
        'all parents x all regions (pairs of nodes) x subscales x displacements of the points given',
        ['points given are nearer to the intended node than to any other'],
        {'quick': 'parents up to 3 x 2, subscales up to 3; either up to 16, and 33 to 257', 'thorough': 'parents up to 4 x 3, 5 x 2; parents, subscales up to 40, and 47 to 513'}))
