"""It makes no difference by which of its longitudes (modulo 360 degrees) a place is given."""
import sys

import numpy as np

from checks import P05, P13, P21
from checks.P12 import setting, content
from mc import engine, obcs, ref, sg, tiles


def ranges(ch, grid, given):
    """Longitudes worked out: 0 to 360 if nothing negative was given, -180 to 180 otherwise."""
    lo, hi = (0., 360.) if np.min(given) >= 0 else (-180., 180.)
    for k in ('XC', 'XG'):
        for v in np.ravel(grid[k]):
            ch.check(lo <= v <= hi or v in given, '{} {!r} is outside {} to {}', k, float(v), lo, hi)


def mkgrid(subs):
    def h(ch):
        west = ch.choose('west', [-181., -90., -2.5, -1., 0., 90., 178., 179.5])
        width = ch.choose('width', [.02, 1., 2.5, 50.])
        lat = ch.choose('latitudes', [(1., 2.), (-60., -58.), (70., 89.)])
        flip = ch.flag('west first') or -1
        t1, t2 = ch.choose('turns of 1', [-1, 0, 1]), ch.choose('turns of 2', [-1, 0, 1])
        si, sj = ch.choose('subscales', subs)
        ch.commit()
        lon = [west, west + width][::flip]
        c = (lon[0] + 360. * t1, lat[1], lon[1] + 360. * t2, lat[0])
        grid, ni, nj = ch.must('mkgrid', sg.mkgrid.mkgrid, lon1=c[0], lat1=c[1], lon2=c[2], lat2=c[3],
                               lon_subscale=si, lat_subscale=sj)
        bad = ref.compare(grid, P05.points(c, si, sj))
        ch.check(not bad, '{}', '; '.join(bad))
        ch.check(set(grid['XG'][[0, -1, 0, -1], [0, 0, -1, -1]]) <= {c[0], c[2]}, 'corners are not those given')
        ranges(ch, grid, (c[0], c[2]))
        ch.state(c, si, sj)
    return h


PLACES = [('across the prime meridian', -1.9, 12.), ('across the dateline', 178.1, -40.), ('east', 100., 5.)]


def regrid(sizes, subs):
    def h(ch):
        form, lon0, lat0 = ch.choose('place', PLACES + [('straight', -1., 3.), ('turned', 1., 3.)])
        ni, nj = ch.choose('parent', sizes)
        part = ch.choose('part of the codes', 4)
        si, sj = ch.choose('subscales', subs)
        quarter = ch.choose('quarter turns', [0, 1, 2, 3])
        how = ch.choose('points given', ['as in the parent', 'turn less', 'turn more', 'one each'])
        ch.commit()
        XG, YG = ref.warped(ni, nj, lon0, lat0, 1.3)
        if form in ('straight', 'turned'):      # sides along meridians
            i, j = np.meshgrid(np.arange(ni + 1.), np.arange(nj + 1.), indexing='ij')
            XG, YG = (lon0 + 1.25 * i, lat0 + j) if form == 'straight' else (lon0 - 1.25 * j, lat0 + i)
        base = np.mod(XG + 180., 360.) - 180.
        n = XG.size
        for code in range(part, 2 ** n, 4):
            sel = np.array([code >> k & 1 for k in range(n)], bool).reshape(XG.shape)
            X = np.where(sel, base + 360., base)
            P = ref.fill(ref.xyz(X, YG), si, sj)
            RX, RY = ref.rotate(X, YG, quarter)
            a, b = (0, -1), (-1, 0)
            d1, d2 = {'as in the parent': (0, 0), 'turn less': (-360, -360), 'turn more': (360, 360),
                      'one each': (360, -360)}[how]
            got = ch.must('regrid', sg.regrid.regrid,
                          mitgrid_matrices={'XG': RX, 'YG': RY, 'XC': np.zeros((RX.shape[0] - 1, RX.shape[1] - 1))},
                          lon1=X[a] + d1, lat1=YG[a], lon2=X[b] + d2, lat2=YG[b], lon_subscale=si, lat_subscale=sj)
            bad = ref.compare(got[0], P)
            ch.check(not bad, 'longitudes {}: {}', X.tolist(), '; '.join(bad))
            ch.check(np.array_equal(got[0]['XG'][::si, ::sj], X), 'longitudes of the parent were changed')
            ranges(ch, got[0], tuple(X.ravel()))
            ch.state(lon0, ni, nj, si, sj, quarter, how, code)
    return h


NEAR = [0., 1e-13, -1e-13, 1e-9, -1e-9, 3e-7, -3e-7, 4e-4, -4e-4, .02, -.02]


def limits(ch):
    """Points almost on the meridians where one way of giving longitudes ends."""
    at = ch.choose('meridian', [0., 180.])
    off = ch.choose('middle off by', NEAR)
    width = ch.choose('width', [.5, 3., 60.])
    lat = ch.choose('latitudes', [(-1., 1.), (50., 52.), (88., 90.)])
    first = ch.choose('first is', ['west', 'east'])
    t1, t2 = ch.choose('turns', [(0, 0), (1, 0), (0, 1), (1, 1), (-1, 0), (0, -1)])
    sub = ch.choose('subscales', [(1, 1), (2, 1), (3, 2)])
    ch.commit()
    x = [at - width, at + width + 2 * off]
    if first == 'east':
        x.reverse()
    c = (x[0] + 360. * t1, lat[1], x[1] + 360. * t2, lat[0])
    grid, ni, nj = ch.must('mkgrid', sg.mkgrid.mkgrid, lon1=c[0], lat1=c[1], lon2=c[2], lat2=c[3],
                           lon_subscale=sub[0], lat_subscale=sub[1])
    bad = ref.compare(grid, P05.points(c, *sub))
    ch.check(not bad, '{}', '; '.join(bad))
    ranges(ch, grid, (c[0], c[2]))
    ch.state(c, sub)


def signs(ch):
    """Points just east or west of the prime meridian decide what longitudes the others get."""
    off = ch.choose('first point at', NEAR)
    where = ch.choose('of node', [(0, 0), (0, 1), 'both'])
    lat0 = ch.choose('latitude', [-1., 40.])
    sub = ch.choose('subscales', [(1, 1), (2, 1), (1, 3)])
    flip = ch.flag('parent runs westward')
    op = ch.choose('operation', ['regrid', 'fill'])
    ch.commit()
    X, Y = np.meshgrid([1., 100., 170., 200.], [lat0, lat0 + 3.], indexing='ij')
    X[(0, slice(None)) if where == 'both' else where] = off
    if flip:
        X, Y = X[::-1].copy(), Y[::-1].copy()
    P = ref.fill(ref.xyz(X, Y), *sub)
    a, b = (0, -1), (-1, 0)
    if op == 'regrid':
        got = ch.must('regrid', sg.regrid.regrid,
                      mitgrid_matrices={'XG': X, 'YG': Y, 'XC': np.zeros((3, 1))},
                      lon1=X[a], lat1=Y[a], lon2=X[b], lat2=Y[b], lon_subscale=sub[0], lat_subscale=sub[1])[0]
    else:
        cg = [np.zeros((6 * sub[0] + 1, 2 * sub[1] + 1)) for _ in 'xy']
        cg[0][::2 * sub[0], ::2 * sub[1]], cg[1][::2 * sub[0], ::2 * sub[1]] = X, Y
        f = ch.must('fill', sg.computegrid.fill, cg[0], cg[1], 0, 6 * sub[0], 0, 2 * sub[1], sub[0], sub[1], sg.GEOD)
        got = {'XG': f[0][::2, ::2], 'YG': f[1][::2, ::2], 'XC': f[0][1::2, 1::2], 'YC': f[1][1::2, 1::2]}
        ch.check(np.max(ref.angle(ref.xyz(*f), P)) < ref.POS_TOL, 'not these points')
    if op == 'regrid':
        bad = ref.compare(got, P)
        ch.check(not bad, '{}', '; '.join(bad))
    ch.check(np.array_equal(got['XG'][::sub[0], ::sub[1]], X), 'longitudes of the parent were changed')
    ranges(ch, got, tuple(X.ravel()))
    ch.state(off, where, lat0, sub, flip, op)


def joins(alongs):
    """Joining tiles whose longitudes are given in different ways, also within one tile."""
    def h(ch):
        side = ch.choose('tile b is', 'NSEW')
        along = ch.choose('cells along', alongs)
        _, lon0, lat0 = ch.choose('place', PLACES)
        op = ch.choose('operation', ['stitch', 'addfringe'])
        what = ch.choose('tile a', ['computed', 'zero'])
        turns = [ch.choose('longitudes of tile ' + t, ['-180..180', '0..360', 'alternating', 'random'])
                 for t in 'ab']
        ch.commit()
        boxa, boxb, XG, YG = setting(side, 2, 1, along, lon0, lat0)
        A, B = content(XG, YG, boxa, what), content(XG, YG, boxb, 'computed')
        want = join(ch, op, A, B, boxa, boxb, 'base')
        for n, (t, how) in enumerate(zip((A, B), turns)):
            for k in ('XC', 'XG') if what == 'computed' or n else ('XG',):
                x = np.mod(t[k] + 180, 360) - 180
                idx = np.arange(x.size).reshape(x.shape)
                up = {'-180..180': idx < 0, '0..360': x < 0, 'alternating': idx % 2 == 0,
                      'random': (idx * 7 + n * 3) % 11 < 5}[how]
                t[k] = x + 360. * up
        got = join(ch, op, A, B, boxa, boxb, 'turned')
        for k in ref.NAMES:
            if k in ('XC', 'XG'):
                ok = np.all(np.abs((got[k] - want[k] + 180) % 360 - 180) < 1e-9)
            else:
                ok = np.allclose(got[k], want[k], rtol=1e-9, atol=1e-7 if k not in ref.AREAS else 1.)
            ch.check(ok, '{} depends on how longitudes are given: {}, {}', k, got[k].tolist(), want[k].tolist())
        ch.state(side, along, lon0, op, turns)
    return h


def join(ch, op, A, B, boxa, boxb, name):
    if op == 'stitch':
        return P13.stitch(ch, A, B, boxa, boxb, names=(name + 'a', name + 'b'))[0]
    na, nb = [(b[1] - b[0], b[3] - b[2]) for b in (boxa, boxb)]
    fa, fb = tiles.save(ch.tmp(name + 'a'), A, *na), tiles.save(ch.tmp(name + 'b'), B, *nb)
    r = ch.must('addfringe', sg.addfringe.addfringe, tilea=fa, nia=na[0], nja=na[1], tileb=fb, nib=nb[0], njb=nb[1])
    return r[2]


def boundaries(ch):
    shift = ch.choose('place', [0., 38.5, 217.5, 218.])
    parent = ch.choose('parent', ['-180..180', '0..360', 'mixed'])
    region = ch.choose('region', ['-180..180', '0..360', 'mixed'])
    sizes = ch.choose('sizes', [(2, 2, 3, 2), (3, 2, 1, 2)])
    ch.commit()
    case = obcs.Case(*sizes, times=(0, 10), depths=1, shift=shift)
    for g, how in ((case.parent, parent), (case.region, region)):
        for k in ('XC', 'XG'):
            x = np.mod(g[k] + 180, 360) - 180
            up = {'-180..180': x > 999, '0..360': x < 0, 'mixed': np.arange(x.size).reshape(x.shape) % 3 == 0}[how]
            g[k] = x + 360. * up
    case.write_results(ch.tmp('run'), ('T', 'U', 'V'))
    P21.run(ch, case, ch.tmp('res'))
    P21.verify(ch, case, ch.tmp('res'), ('T', 'U', 'V'))
    ch.state(shift, parent, region, sizes)


def scenarios(tier):
    if tier == 'thorough':
        return [('mkgrid', mkgrid([(1, 1), (3, 2), (2, 5)])), ('regrid', regrid([(1, 1), (2, 1), (1, 2), (2, 2)], [(1, 1), (2, 3)])),
                ('limits', limits), ('signs', signs), ('joins', joins([1, 2, 3])), ('boundaries', boundaries)]
    return [('mkgrid', mkgrid([(1, 1), (3, 2)])), ('regrid', regrid([(1, 1), (2, 1)], [(2, 1)])),
            ('limits', limits), ('signs', signs), ('joins', joins([1, 2])), ('boundaries', boundaries)]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P23', 'model_checking', scenarios,
        'mkgrid: places x turns of each corner; regrid: every assignment of a turn to every parent point; tiles and '
        'grids in every combination of conventions', [],
        {'quick': 'regrid: parents of up to 6 points', 'thorough': 'regrid: parents of up to 9 points'}))
