"""mkgrid: corners, cell counts, orientation, and equal great-circle subdivision."""
import sys

import numpy as np

from mc import engine, ref, sg

WEST = [-180., -100.3, -35., 0., 10., 100.25, 179., 270., 345.]
WIDTH = [0.01, 1., 17., 45., 120., 179.]
SOUTH = [-90., -77.5, -30., -0.005, 0., 45., 80.]
HEIGHT = [0.01, 1., 10., 55.]


def points(corners, ni, nj):
    """lon1,lat1 (north-west: first i, last j) and lon2,lat2 (south-east: last i, first j)."""
    lon1, lat1, lon2, lat2 = corners
    return ref.fill(ref.xyz([[lon1, lon1], [lon2, lon2]], [[lat2, lat1], [lat2, lat1]]), ni, nj)


def scen(subs, west, width, south, height, check):
    def run(ch):
        w = ch.choose('west', west)
        dw = ch.choose('width', width)
        s = ch.choose('south', south)
        dh = ch.choose('height', height)
        flip = ch.choose('corners', ['nw-se', 'ne-sw', 'sw-ne', 'se-nw'])
        ni = ch.choose('lon_subscale', subs)
        nj = ch.choose('lat_subscale', subs)
        ch.commit()
        e, n = w + dw, s + dh
        if n > 90 or (w < 0 and e > 180) or e > 360:
            raise engine.Skip()
        lon1, lon2 = (w, e) if flip in ('nw-se', 'sw-ne') else (e, w)
        lat1, lat2 = (n, s) if flip in ('nw-se', 'ne-sw') else (s, n)
        g = ch.must('mkgrid', sg.mkgrid.mkgrid, lon1=lon1, lat1=lat1, lon2=lon2, lat2=lat2,
                    lon_subscale=ni, lat_subscale=nj)
        check(ch, g, (lon1, lat1, lon2, lat2), ni, nj)
        ch.state(lon1, lat1, lon2, lat2, ni, nj)
    return run


def geometry(ch, got, corners, ni, nj):
    ch.check(isinstance(got, tuple) and len(got) == 3, 'mkgrid returned {}', type(got))
    grid, gi, gj = got
    ch.check((gi, gj) == (ni, nj), 'counts {} x {}, not {} x {}', gi, gj, ni, nj)
    lon1, lat1, lon2, lat2 = corners
    bad = ref.compare(grid, points(corners, ni, nj), names=('XC', 'XG'))
    ch.check(not bad, '{}', '; '.join(bad))
    for at, lon, lat in (((0, -1), lon1, lat1), ((-1, 0), lon2, lat2),
                         ((0, 0), lon1, lat2), ((-1, -1), lon2, lat1)):
        ch.check(grid['XG'][at] == lon and grid['YG'][at] == lat,
                 'corner {} is at {!r},{!r}, not exactly {!r},{!r}', at, float(grid['XG'][at]),
                 float(grid['YG'][at]), lon, lat)


NUMBERS = {'single': (np.float32, np.int16), 'no dimension': (np.array, int), 'long': (np.longdouble, np.uint8)}


def verbose(ch):
    """Diagnostics and keyword order make no difference; neither do integer arguments."""
    corners = ch.choose('corners', [(-3, 4, 2, 1), (350, -10, 352, -12), (0, 0, 1, -1), (-3.25, 4.5, 2.75, 1.125), (350.5, -10.75, 352.25, -12.5)])
    ni = ch.choose('lon_subscale', [1, 2, 3])
    nj = ch.choose('lat_subscale', [1, 2, 3])
    how = ch.choose('call', ['verbose', 'floats', 'numpy', 'positional verbose', 'single', 'no dimension', 'long', 'mixed'])
    ch.commit()
    kw = dict(zip(('lon1', 'lat1', 'lon2', 'lat2'), corners), lon_subscale=ni, lat_subscale=nj)
    a = ch.must('mkgrid', sg.mkgrid.mkgrid, **kw)
    if how == 'verbose':
        b = ch.must('mkgrid', sg.mkgrid.mkgrid, verbose=True, **kw)
    elif how == 'positional verbose':
        b = ch.must('mkgrid', sg.mkgrid.mkgrid, True, **dict(reversed(list(kw.items()))))
    elif how == 'floats':
        b = ch.must('mkgrid', sg.mkgrid.mkgrid,
                    **{k: float(v) if k.startswith('l') and 'sub' not in k else v for k, v in kw.items()})
    elif how in NUMBERS:
        f, i = NUMBERS[how]
        b = ch.must('mkgrid', sg.mkgrid.mkgrid, **{k: f(v) if 'sub' not in k else i(v) for k, v in kw.items()})
    elif how == 'mixed':
        f = [np.float32, float, np.float64, np.array, np.int32, int]
        b = ch.must('mkgrid', sg.mkgrid.mkgrid, **{k: t(v) for t, (k, v) in zip(f, kw.items())})
    else:
        b = ch.must('mkgrid', sg.mkgrid.mkgrid,
                    **{k: np.float64(v) if 'sub' not in k else np.int64(v) for k, v in kw.items()})
    for k in ref.NAMES:
        ch.check(ref.same(a[0][k], b[0][k]), '{} depends on how mkgrid is called ({})', k, how)
    ch.check((a[1], a[2]) == (b[1], b[2]), 'counts differ')
    geometry(ch, b, corners, ni, nj)
    ch.state(corners, ni, nj, how)


def ladder(top, ch_check, more=()):
    """Many cells in one direction (or both)."""
    def run(ch):
        n = ch.choose('cells', [*range(4, top + 1), *more])
        shape = ch.choose('shape', [(n, 1), (1, n), (n, 2), (3, n), (n, n + 1)] if n <= 12 else [(n, 1), (2, n)])
        w, s, dw, dh = ch.choose('extent', [(-10., 20., 30., 15.), (200.25, -60., .4, .9), (0., -5., 90., 10.)])
        flip = ch.choose('corners', ['nw-se', 'sw-ne', 'se-nw'])
        ch.commit()
        lon1, lon2 = (w, w + dw) if flip != 'se-nw' else (w + dw, w)
        lat1, lat2 = (s + dh, s) if flip == 'nw-se' else (s, s + dh)
        g = ch.must('mkgrid', sg.mkgrid.mkgrid, lon1=lon1, lat1=lat1, lon2=lon2, lat2=lat2,
                    lon_subscale=shape[0], lat_subscale=shape[1])
        ch_check(ch, g, (lon1, lat1, lon2, lat2), *shape)
        ch.state(shape, w, flip)
    return run


def scenarios(tier):
    big = tier == 'thorough'
    if big:
        return [('many cells', ladder(70, geometry, [*range(71, 400, 3), 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1025])),
                ('placement', scen([1, 2, 3, 5], WEST, WIDTH, SOUTH, HEIGHT, geometry)),
                ('tiny', scen([1, 2, 3, 5], WEST, [4e-6, 2e-5, 3e-4], SOUTH, [4e-6, 2e-5, 3e-4], geometry)),
                ('call variants', verbose)]
    return [('many cells', ladder(32, geometry, [47, 64, 65, 100, 127, 128, 129, 256, 300, 513, 1025])),
            ('placement', scen([1, 2, 3], [-180., -35., 10., 179., 345.], [0.01, 1., 45., 120., 179.],
                               [-90., -30., 0., 80.], HEIGHT, geometry)),
            ('tiny', scen([1, 3], [-35., 200.], [4e-6, 3e-4], [-60., 20.], [4e-6, 3e-4], geometry)),
            ('call variants', verbose)]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P05', 'model_checking', scenarios,
        'all combinations of west edge, width, south edge, height, which corners are given, '
        'subscales; positions against an independent great-circle construction',
        ['spans of less than 180 degrees', 'positions to within 1e-12 rad (10 micrometres)'],
        {'quick': '5 x 4 x 4 x 4 extents, 4 corner orders, subscales 1..3; up to 32, and up to 1025, cells for three extents',
         'thorough': '9 x 5 x 7 x 4 extents, subscales 1,2,3,5; up to 70, and up to 1025, cells'}))
