"""The nearest point is found: for every arrangement of points, and wherever one looks from."""
import itertools
import sys

import numpy as np

from mc import engine, ref, sg

PLACES = [(0., 0.), (179.5, 10.), (-179.5, 10.5), (359.7, 0.1), (10., 89.), (-170., 89.5), (77., 90.), (30., -90.),
          (30.001, 60.), (30., 60.001), (0.4, -0.3), (100., -45.)]
QUERIES = [(0.1, 0.05), (-180., 10.2), (180., 10.2), (359.9, -0.1), (100., 89.9), (30., 60.), (-60., -89.), (540.3, 9.)]


def check(ch, q, lons, lats, what):
    o = ch.call(sg.util.nearest, q[0], q[1], lons, lats, sg.GEOD)
    ch.check(o.ok and len(o.value) == 3, '{}: nearest {}', what, o)
    i, j, d = o.value
    ch.check(int(i) == i and int(j) == j and 0 <= i < lons.shape[0] and 0 <= j < lons.shape[1],
             '{}: indices {},{}', what, i, j)
    D = ref.R * ref.angle(ref.xyz(*q), ref.xyz(lons, lats))
    tol = 1e-8 * D.min() + 1e-6
    ch.check(D[i, j] <= D.min() + tol, '{}: ({},{}) is {} m away, the nearest point {} m', what, i, j,
             float(D[i, j]), float(D.min()))
    ch.check(abs(d - D[i, j]) <= 1e-8 * D[i, j] + 1e-5, '{}: distance {}, not {}', what, float(d), float(D[i, j]))


def arrangements(places, shapes, queries):
    """Every way of putting places (more than once, too) into a matrix."""
    def h(ch):
        shape = ch.choose('shape', shapes)
        n = shape[0] * shape[1]
        head = [ch.choose('point {}'.format(k), places) for k in range(min(n, 2))]
        ch.commit()
        for rest in itertools.product(places, repeat=n - len(head)):
            a = np.array(list(head) + list(rest)).reshape(shape + (2,))
            for q in queries:
                check(ch, q, a[..., 0].copy(), a[..., 1].copy(), (q, a.tolist()))
        ch.state(shape, head)
    return h


def layouts(ch):
    """The same matrix, in every memory layout and data type."""
    ni, nj = ch.choose('size', [(1, 1), (1, 3), (4, 1), (2, 3), (3, 3)])
    lon0, lat0, size = ch.choose('grid', [(-35., 20., 1.3), (179., -60., .01), (355., 80., 1.), (-60., -87., .8)])
    how = ch.choose('layout', ['C', 'F', 'transposed', 'every other', 'backwards', 'turned', 'read only', 'mixed',
                               'big endian', 'integers', 'single'])
    other = ch.choose('lats', ['same layout', 'C'])
    ch.commit()
    X, Y = ref.warped(ni, nj, lon0, lat0, size)
    if how == 'integers':
        X, Y = np.meshgrid(np.arange(ni + 1.) * 3, np.arange(nj + 1.) * 2, indexing='ij')

    def lay(v):
        if how == 'F' or how == 'mixed':
            return np.asfortranarray(v)
        if how == 'transposed':
            return v.T.copy().T
        if how == 'every other':
            b = np.full((2 * v.shape[0], 3 * v.shape[1]), -1.)
            b[::2, ::3] = v
            return b[::2, ::3]
        if how == 'backwards':
            return v[::-1, ::-1].copy()[::-1, ::-1]
        if how == 'turned':
            return np.rot90(np.rot90(v, 1).copy(), 3)
        if how == 'read only':
            v = v.copy()
            v.setflags(write=False)
            return v
        if how == 'big endian':
            return v.astype('>f8')
        if how == 'integers':
            return v.astype(int)
        if how == 'single':
            return v.astype('f4')
        return v
    lons, lats = lay(X), lay(Y) if other == 'same layout' else Y
    for i in range(ni + 1):
        for j in range(nj + 1):
            for dx, dy in ((0, 0), (.2, .1), (-.3, .25)):
                q = (float(lons[i, j]) + dx * size, float(np.clip(float(lats[i, j]) + dy * size, -90, 90)))
                check(ch, q, lons, lats, (how, q))
    ch.state(ni, nj, lon0, how, other)


def large(shapes):
    """Each of many points is found, looking from it and from next to it."""
    def h(ch):
        shape = ch.choose('shape', shapes)
        part = ch.choose('part', 8)
        ch.commit()
        X, Y = ref.warped(shape[0] - 1, shape[1] - 1, -35., -30., 60. / sum(shape))
        for i in range(shape[0]):
            for j in range(shape[1]):
                if (i + j) % 8 == part:
                    q = float(X[i, j]), float(Y[i, j])
                    check(ch, q, X, Y, (shape, i, j))
                    check(ch, (q[0] + .001, q[1] - .002), X, Y, (shape, i, j, 'beside'))
        ch.state(shape, part)
    return h


def scrambled(shapes):
    """Large matrices whose neighbours aren't anywhere near each other."""
    def h(ch):
        shape = ch.choose('shape', shapes)
        how = ch.choose('order of rows, columns', [('all', 'all'), ('all', 'none'), ('none', 'all'), ('sheets', 'none'), ('none', 'sheets'), ('sheets', 'sheets')])
        part = ch.choose('part', 4)
        ch.commit()
        X, Y = ref.warped(shape[0] - 1, shape[1] - 1, -35., -30., 60. / sum(shape))
        order = [np.arange(n) if o == 'none' else np.array(sorted(range(n), key=lambda k: k * 37 % 101)) if o == 'all'
                 else np.r_[0:n:2, (n - 1 - n % 2):0:-2] for n, o in zip(shape, how)]
        for o, n in zip(order, shape):
            assert sorted(o) == list(range(n))
        X, Y = X[np.ix_(*order)], Y[np.ix_(*order)]
        for k in range(part * 7, X.size, 97 if X.size < 4000 else X.size // 5 - 1):
            i, j = divmod(k, shape[1])
            q = float(X[i, j]), float(Y[i, j])
            check(ch, q, X, Y, (shape, i, j))
            check(ch, (q[0] + .001, q[1] - .002), X, Y, (shape, i, j, 'beside'))
        ch.state(shape, how, part)
    return h


def opposite(ch):
    """All points are on the other side of the globe, or almost."""
    n = ch.choose('points', [1, 2, 3])
    q = ch.choose('from', [(0., 0.), (-180., 10.), (37., 89.), (12., 90.), (200., -45.)])
    off = ch.choose('off by', [0., 1e-9, 1e-5, 1e-3, .1])
    ch.commit()
    lons = np.array([[q[0] + 180. + k * off for k in range(n)]])
    lats = np.array([[-q[1] + (n - k) * off * (1 if q[1] > 0 else -1) for k in range(n)]])
    for a, b in ((lons, lats), (lons.T, lats.T), (lons[:, ::-1], lats[:, ::-1])):
        check(ch, q, a.copy(), b.copy(), (q, off))
    ch.state(n, q, off)


def dense(ch):
    """Points of a matrix no more than some millimetres, metres or kilometres apart, anywhere."""
    shape = ch.choose('shape', [(1, 5), (5, 1), (3, 4), (6, 6)])
    lon0, lat0 = ch.choose('where', [(0., 0.), (10., 50.), (-180., -20.), (360., 1e-7), (77., 89.9999), (-120., -80.)])
    size = ch.choose('metres apart', [.01, .3, 5., 90., 2000.])
    warped = ch.choose('form', ['warped', 'straight'])
    ch.commit()
    deg = size / 111000.
    if warped == 'warped':
        X, Y = ref.warped(shape[0] - 1, shape[1] - 1, 0., 0., 1.)
    else:
        X, Y = np.meshgrid(np.arange(shape[0]) * 1., np.arange(shape[1]) * 1., indexing='ij')
    X = lon0 + X * deg / max(np.cos(np.radians(lat0)), 1e-3)
    Y = np.clip(lat0 + Y * deg, -90., 90.)
    for i in range(shape[0]):
        for j in range(shape[1]):
            for dx, dy in ((0, 0), (.3, .1), (-.2, .4)):
                q = float(X[i, j] + dx * deg), float(np.clip(Y[i, j] + dy * deg, -90, 90))
                check(ch, q, X, Y, (size, i, j, q))
    ch.state(shape, lon0, size, warped)


def refused(ch):
    """Anything but two matrices of equal size."""
    shapes = [(), (1,), (4,), (2, 2), (1, 4), (2, 1, 2), (4, 1), (2, 3), (1, 3), (1, 1), (2, 1)]
    a = ch.choose('shape of lons', shapes)
    b = ch.choose('shape of lats', shapes)
    f = ch.choose('function', ['nearest', 'lonlat2cart'])
    ch.commit()
    if a == b and len(a) == 2:
        raise engine.Skip()
    ch.state(a, b, f)
    lons, lats = np.full(a, 3.), np.full(b, 4.)
    if f == 'nearest':
        ch.must_raise('nearest', (ValueError,), sg.util.nearest, 1., 2., lons, lats, sg.GEOD)
    else:
        ch.must_raise('lonlat2cart', (ValueError,), sg.util.lonlat2cart, lons, lats)


def cartesian(ch):
    """lonlat2cart: unit vectors (times the radius)."""
    shape = ch.choose('shape', [(1, 1), (1, 4), (3, 2), (4, 4)])
    rad = ch.choose('radius', [None, 1., 6370997., 0.5])
    first = ch.choose('first place', range(len(PLACES)))
    ch.commit()
    n = shape[0] * shape[1]
    P = np.array([PLACES[(first + k) % len(PLACES)] for k in range(n)]).reshape(shape + (2,))
    got = ch.must('lonlat2cart', sg.util.lonlat2cart, P[..., 0], P[..., 1], **({} if rad is None else {'rad': rad}))
    want = ref.xyz(P[..., 0], P[..., 1])
    ch.check(np.shape(got) == shape + (3,), 'shape {}', np.shape(got))
    scale = rad or 1.
    ch.check(np.max(np.abs(got - scale * want)) <= 1e-12 * scale, 'not these points: {}, radius {}', P.tolist(), rad)
    ch.state(shape, rad, first)


def scenarios(tier):
    if tier == 'thorough':
        return [('arrangements', arrangements(PLACES, [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2)], QUERIES)),
                ('large', large([(1, 3000), (3000, 1), (70, 70), (13, 200), (200, 13)])), ('scrambled', scrambled([(61, 49), (40, 31), (1, 2500), (2500, 1), (101, 100), (121, 100), (1, 9001), (270, 260)])), ('layouts', layouts), ('dense', dense), ('opposite', opposite), ('refused', refused), ('cartesian', cartesian)]
    return [('arrangements', arrangements(PLACES, [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1)], QUERIES)),
            ('arrangements 2x2', arrangements(PLACES[:8:2] + PLACES[8:10], [(2, 2)], QUERIES[1:7:2])),
            ('large', large([(1, 600), (600, 1), (12, 10), (40, 31)])), ('scrambled', scrambled([(61, 49), (1, 600), (35, 35), (121, 100), (1, 9001)])), ('layouts', layouts), ('dense', dense), ('opposite', opposite), ('refused', refused), ('cartesian', cartesian)]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P17', 'model_checking', scenarios,
        'all arrangements of 12 places (poles, dateline, prime meridian, near ties) in small matrices x '
        'places to look from; every point of large matrices; layouts and data types; all pairs of shapes',
        ['which of several points at the same distance (1e-8) is not specified'],
        {'quick': 'matrices up to 3 x 1, 2 x 2 of 6 places; large ones of up to 12100 points', 'thorough': 'matrices up to 2 x 2; large ones of up to 70200 points'}))
