"""The orientation of a regridded grid is the user's, whatever that of the parent."""
import sys

import numpy as np

from checks.P08 import parent_of, verify
from mc import engine, ref, sg


def turn(X, k):
    return np.rot90(X, k)


def scen(sizes, subs, grids):
    def run(ch):
        ni, nj = ch.choose('parent size', sizes)
        lon0, lat0, size = ch.choose('parent', grids)
        ii, jj = [range(n + 1) if n < 5 else (0, 1, n // 2, n - 1, n) for n in (ni, nj)]
        a = ch.choose('first node', [(i, j) for i in ii for j in jj])
        b = ch.choose('second node', [(i, j) for i in ii for j in jj if i != a[0] and j != a[1]])
        k = ch.choose('quarter turns of parent', [0, 1, 2, 3])
        si = ch.choose('lon_subscale', subs)
        sj = ch.choose('lat_subscale', subs)
        ch.commit()
        XG, YG = ref.warped(ni, nj, lon0, lat0, size)
        lo, hi = np.minimum(a, b), np.maximum(a, b)
        X, Y = [V[lo[0]:hi[0] + 1, lo[1]:hi[1] + 1] for V in (XG, YG)]
        # first node to first column, last row; second opposite, by turning (not mirroring)
        for n in range(4):
            x, y = turn(X, n), turn(Y, n)
            if x[0, -1] == XG[a] and y[0, -1] == YG[a] and x[-1, 0] == XG[b] and y[-1, 0] == YG[b]:
                break
        else:
            ch.fail('no such turn')
        px, py = ref.rotate(XG, YG, k)
        got = ch.must('regrid', sg.regrid.regrid, mitgrid_matrices=parent_of(px, py), lon1=XG[a], lat1=YG[a],
                      lon2=XG[b], lat2=YG[b], lon_subscale=si, lat_subscale=sj)
        verify(ch, got, x, y, si, sj)
        ch.state(ni, nj, lon0, a, b, k, si, sj)
    return run


def scenarios(tier):
    if tier == 'thorough':
        return [('orientations', scen([(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (4, 3)], [1, 2, 3],
                                      [(-35., 20., 1.3), (200., -50., .02)])),
                ('large parents', scen([(12, 2), (2, 12), (9, 10)], [1, 2], [(-35., 20., .4)]))]
    return [('orientations', scen([(1, 1), (1, 2), (2, 1), (2, 2), (2, 3)], [1, 2], [(-35., 20., 1.3)])),
            ('large parents', scen([(12, 2), (2, 12)], [1], [(-35., 20., .4)]))]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P09', 'model_checking', scenarios,
        'all pairs of diagonally opposite nodes in all four directions x all quarter turns of the '
        'parent x subscales', [],
        {'quick': 'parents up to 2 x 3; from five positions each way in parents of 12 x 2, 2 x 12',
         'thorough': 'parents up to 4 x 3; also 9 x 10'}))
