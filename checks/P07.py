"""Areas are right at every scale, at the poles, and add up however a region is cut."""
import sys

import numpy as np

from mc import engine, ref, sg

SIZES = [0.001, 0.03, 0.3, 2., 10., 30.]
SOUTHS = [-90., -60., -2.5, 0., 30., 59., 85.]


def close(ch, grid, F):
    """Areas are right to 0.3 %, whatever the precision that can be expected of a formula."""
    want, _ = ref.fields(F)
    for k in ref.AREAS:
        m = want[k] > 0
        if np.any(m):
            rel = np.max(np.abs(grid[k] - want[k])[m] / want[k][m])
            ch.check(rel <= 3e-3, '{} is {:.2g} off (relative)', k, rel)


def accuracy(wests):
    def run(ch):
        w = ch.choose('west', wests)
        dw = ch.choose('cell width', SIZES)
        s = ch.choose('south', SOUTHS)
        dh = ch.choose('cell height', SIZES)
        ni = ch.choose('lon_subscale', [1, 2])
        nj = ch.choose('lat_subscale', [1, 2])
        ch.commit()
        W, H = dw * ni, dh * nj
        if s + H > 90 or w + W > 360:
            raise engine.Skip()
        grid, _, _ = ch.must('mkgrid', sg.mkgrid.mkgrid, lon1=w, lat1=s + H, lon2=w + W, lat2=s,
                             lon_subscale=ni, lat_subscale=nj)
        F = ref.fill(ref.xyz([[w, w], [w + W, w + W]], [[s, s + H], [s, s + H]]), ni, nj)
        bad = ref.compare(grid, F, names=ref.AREAS)
        ch.check(not bad, '{}', '; '.join(bad))
        close(ch, grid, F)
        ch.state(w, dw, s, dh, ni, nj)
    return run


WIDTHS = [0.001, 0.02, 0.07, 0.5, 5.]


def stretched(top):
    """Columns and rows of all widths side by side in one grid."""
    def run(ch):
        cols = [ch.choose('column {}'.format(k), WIDTHS) for k in range(top)]
        rows = [ch.choose('row {}'.format(k), WIDTHS) for k in range(2)]
        lat0 = ch.choose('south', [-89.999, -70., 0., 40.])
        skew = ch.choose('skew', [0., 0.3])
        si, sj = ch.choose('subscale', [(1, 1), (2, 1), (1, 3)])
        ch.commit()
        if lat0 + sum(rows) > 90 or (skew and lat0 < -80):
            raise engine.Skip()
        lon, lat = np.meshgrid(10 + np.cumsum([0.] + cols), lat0 + np.cumsum([0.] + rows), indexing='ij')
        XG, YG = lon + skew * (lat - lat0), lat
        n = XG.shape[0] - 1
        parent = {'XG': XG, 'YG': YG, 'XC': np.zeros((n, 2))}
        grid, a, b = ch.must('regrid', sg.regrid.regrid, mitgrid_matrices=parent, lon1=XG[0, -1],
                             lat1=YG[0, -1], lon2=XG[-1, 0], lat2=YG[-1, 0], lon_subscale=si, lat_subscale=sj)
        ch.check((a, b) == (n * si, 2 * sj), 'counts {}', (a, b))
        F = ref.fill(ref.xyz(XG, YG), si, sj)
        bad = ref.compare(grid, F)
        ch.check(not bad, '{}', '; '.join(bad))
        close(ch, grid, F)
        ch.state(cols, rows, lat0, skew, si, sj)
    return run


def additive(top):
    """The cells of any refinement of a region add up to the region."""
    def run(ch):
        ni = ch.choose('ni', [1, 2])
        nj = ch.choose('nj', [1, 2])
        size = ch.choose('cell size', [0.02, 0.3, 2., 9.])
        lat0 = ch.choose('south', [-60., 0., 40.])
        si = ch.choose('lon_subscale', range(1, top + 1))
        sj = ch.choose('lat_subscale', range(1, top + 1))
        ch.commit()
        XG, YG = ref.warped(ni, nj, 10., lat0, size)
        parent = {'XG': XG, 'YG': YG, 'XC': np.zeros((ni, nj))}
        grid, a, b = ch.must('regrid', sg.regrid.regrid, mitgrid_matrices=parent, lon1=XG[0, -1],
                             lat1=YG[0, -1], lon2=XG[-1, 0], lat2=YG[-1, 0], lon_subscale=si,
                             lat_subscale=sj)
        P = ref.xyz(XG, YG)
        cell = ref.R ** 2 * ref.quad(P)
        F = ref.fill(P, si, sj)
        tol = ref.fields(F)[1]['RAC']
        ch.check(grid['RAC'].shape == (ni * si, nj * sj), 'RAC has shape {}', grid['RAC'].shape)
        for i in range(ni):
            for j in range(nj):
                box = np.s_[i * si:(i + 1) * si, j * sj:(j + 1) * sj]
                got = grid['RAC'][box].sum()
                ch.check(abs(got - cell[i, j]) <= tol[box].sum() + 1e-5 * cell[i, j],
                         'the {}x{} parts of cell {},{} add up to {!r}, the cell has {!r}',
                         si, sj, i, j, float(got), float(cell[i, j]))
        # the other cells are the same surface cut differently
        for k, sl in (('RAW', np.s_[1:-1, :]), ('RAS', np.s_[:, 1:-1]), ('RAZ', np.s_[1:-1, 1:-1])):
            ch.check(np.all(grid[k][sl] > 0), '{} has terms that are not positive', k)
        ch.state(ni, nj, size, lat0, si, sj)
    return run


def caps(ch):
    """Cells that touch a pole, through regrid: all round, no NaNs, half the sphere in the end."""
    n = ch.choose('sectors', [3, 4, 6, 8])
    m = ch.choose('rings', [1, 2, 3])
    pole = ch.choose('pole', [90., -90.])
    span = ch.choose('cap (degrees)', [90., 45., 10.])
    si = ch.choose('lon_subscale', [1, 2])
    sj = ch.choose('lat_subscale', [1, 2])
    ch.commit()
    lon = np.linspace(0, 360, n + 1)
    lats = np.linspace(abs(pole) - span, abs(pole), m + 1) * np.sign(pole)
    if pole < 0:
        lats = lats[::-1]
    total = 0.
    tolsum = 0.
    for k in range(n):              # one sector at a time: its four corners are distinct points
        g, _, _ = ch.must('mkgrid', sg.mkgrid.mkgrid, lon1=lon[k], lat1=lats[-1], lon2=lon[k + 1],
                          lat2=lats[0], lon_subscale=si, lat_subscale=m * sj)
        P = ref.xyz([[lon[k]] * 2, [lon[k + 1]] * 2], [[lats[0], lats[-1]]] * 2)
        F = ref.fill(P, si, m * sj)
        bad = ref.compare(g, F, names=ref.AREAS)
        ch.check(not bad, 'sector {}: {}', k, '; '.join(bad))
        total += g['RAC'].sum()
        tolsum += ref.fields(F)[1]['RAC'].sum()
    P = ref.xyz(*np.meshgrid(lon, [abs(pole) - span], indexing='ij')) * [1, 1, np.sign(pole)]
    top = ref.xyz([0.], [pole])
    want = ref.R ** 2 * ref.tri_det(P[:-1, 0], P[1:, 0], np.broadcast_to(top, P[1:, 0].shape)).sum()
    if span == 90.:
        want = 2 * np.pi * ref.R ** 2
    ch.check(abs(total - want) <= tolsum + 1e-9 * want, 'the cap has {!r}, not {!r}', total, want)
    ch.state(n, m, pole, span, si, sj)


def scenarios(tier):
    big = tier == 'thorough'
    return [('accuracy', accuracy([0., 10.3, 200.] if big else [10.3])), ('stretched', stretched(3 if big else 2)), ('additive', additive(5 if big else 3)),
            ('polar caps', caps)]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P07', 'model_checking', scenarios,
        'all combinations of cell width x height (100 m to 30 degrees) x latitude, all refinements '
        'up to a factor, grids with columns and rows of different widths (100 m to 5 degrees), polar caps cut into sectors; areas against exact spherical geometry',
        ['cells up to 30 degrees wide at latitudes from pole to pole'],
        {'quick': '6 x 6 cell sizes x 7 latitudes; refinement up to 3 x 3',
         'thorough': '3 longitudes; refinement up to 5 x 5'}))
