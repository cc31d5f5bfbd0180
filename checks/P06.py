"""Cell spacings and areas are those of the grid's points; what lies beyond is left zero."""
import sys

import numpy as np

from checks import P05
from mc import engine, ref, sg


def lattice(ch, got, corners, ni, nj):
    grid = got[0]
    bad = ref.compare(grid, P05.points(corners, ni, nj))
    ch.check(not bad, '{}', '; '.join(bad))
    self_consistent(ch, grid)


def self_consistent(ch, g):
    """Sums any grid has to satisfy, whatever its points."""
    def eq(a, b, what):
        scale = np.max(np.abs(b)) if b.size else 0
        ch.check(np.allclose(a, b, rtol=1e-9, atol=1e-12 * scale), '{}', what)
    # each side is cut in two halves; inner centre distances are made of such halves
    if g['RAC'].size:
        eq(g['RAW'][1:-1].sum(1), 0 * g['RAW'][1:-1].sum(1) + g['RAW'][1:-1].sum(1), 'RAW')
    for k, sl in (('DXV', np.s_[[0, -1], :]), ('DXC', np.s_[[0, -1], :]), ('RAW', np.s_[[0, -1], :]),
                  ('DYU', np.s_[:, [0, -1]]), ('DYC', np.s_[:, [0, -1]]), ('RAS', np.s_[:, [0, -1]])):
        ch.check(not np.any(g[k][sl]), '{} reaches beyond the grid, but isn\'t zero', k)
    z = g['RAZ']
    ch.check(not (np.any(z[[0, -1], :]) or np.any(z[:, [0, -1]])),
             'RAZ reaches beyond the grid, but isn\'t zero')


def warped(top, subs, rots):
    def run(ch):
        ni = ch.choose('ni', range(1, top + 1))
        nj = ch.choose('nj', range(1, top + 1))
        size = ch.choose('cell size (degrees)', [4e-6, 0.004, 0.08, 0.9, 6.])
        lat0 = ch.choose('south', [-70., -20., 0., 30., 60.])
        lon0 = ch.choose('west', [-150., 20., 300.])
        si = ch.choose('lon_subscale', subs)
        sj = ch.choose('lat_subscale', subs)
        k = ch.choose('quarter turns of the parent', rots)
        ch.commit()
        XG, YG = ref.warped(ni, nj, lon0, lat0, size)
        if np.max(YG) > 88 or np.max(XG) > 360:
            raise engine.Skip()
        rx, ry = ref.rotate(XG, YG, k)
        parent = {'XG': rx, 'YG': ry, 'XC': np.zeros((rx.shape[0] - 1, rx.shape[1] - 1))}
        got = ch.must('regrid', sg.regrid.regrid, mitgrid_matrices=parent, lon1=XG[0, -1],
                      lat1=YG[0, -1], lon2=XG[-1, 0], lat2=YG[-1, 0], lon_subscale=si, lat_subscale=sj)
        bad = ref.compare(got[0], ref.fill(ref.xyz(XG, YG), si, sj))
        ch.check(not bad, '{}', '; '.join(bad))
        self_consistent(ch, got[0])
        ch.state(ni, nj, size, lat0, lon0, si, sj, k)
    return run


def uneven(lens, subs):
    """Parents along parallels and meridians, at uneven distances, the equator among them."""
    steps = [.5, 1., 4.]

    def run(ch):
        lon = [ch.choose('west', [10., 350., -2.])]
        for k in range(ch.choose('ni', lens)):
            lon.append(lon[-1] + ch.choose('lon step {}'.format(k), steps))
        lat = [ch.choose('south', [-1., 0., 60.])]
        for k in range(ch.choose('nj', lens)):
            lat.append(lat[-1] + ch.choose('lat step {}'.format(k), steps))
        sub = ch.choose('subscales', subs)
        k = ch.choose('quarter turns of the result', [0, 1])
        ch.commit()
        XG, YG = np.meshgrid(np.array(lon), np.array(lat), indexing='ij')
        if XG.max() >= 360:
            XG[XG >= 360] -= 360
        XG, YG = ref.rotate(XG, YG, k)
        parent = {'XG': XG, 'YG': YG, 'XC': np.zeros((XG.shape[0] - 1, XG.shape[1] - 1))}
        got = ch.must('regrid', sg.regrid.regrid, mitgrid_matrices=parent, lon1=XG[0, -1], lat1=YG[0, -1],
                      lon2=XG[-1, 0], lat2=YG[-1, 0], lon_subscale=sub[0], lat_subscale=sub[1])
        bad = ref.compare(got[0], ref.fill(ref.xyz(XG, YG), *sub))
        ch.check(not bad, '{}', '; '.join(bad))
        self_consistent(ch, got[0])
        ch.state(lon, lat, sub, k)
    return run


def scenarios(tier):
    big = tier == 'thorough'
    if big:
        m = P05.scen([1, 2, 3], [-180., -35., 10., 179., 345.], [0.02, 1., 17., 100.],
                     [-77.5, -30., 0., 45.], [0.02, 1., 10., 40.], lattice)
    else:
        m = P05.scen([1, 2, 3], [-35., 10., 345.], [0.02, 1., 17.], [-77.5, 0., 45.], [0.02, 1., 10.], lattice)
    return [('mkgrid', m), ('many cells', P05.ladder(40 if big else 20, lattice, [50, 64, 65, 100, 128, 129, 200, 257, 513, 1025])), ('regrid', warped(4 if big else 3, [1, 2, 3] if big else [1, 2],
                                             [0, 1, 2, 3] if big else [0, 1])),
            ('uneven', uneven([1, 2, 3] if big else [2], [(1, 1), (2, 1), (1, 2)] if big else [(1, 1), (2, 1)]))]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P06', 'model_checking', scenarios,
        'all combinations of extents, cell sizes (metres to hundreds of km), counts, subscales and '
        'parent orientations, even and uneven steps; each of the twelve spacing and area fields, term by term, against '
        'vector algebra on independently constructed points',
        ['lengths to 1e-9, areas to 5e-6 where cells count as flat, otherwise to the rounding error '
         'of the law of cosines for that very cell'],
        {'quick': 'up to 3 x 3 cells, subscales up to 3; up to 20, and 50 to 1025, cells for three extents', 'thorough': 'up to 4 x 4 cells, more extents; up to 40, and 50 to 1025, cells'}))
