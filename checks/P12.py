"""addfringe keeps what tile A says and fills in only what it doesn't."""
import sys

import numpy as np

from mc import engine, ref, sg, tiles

OTHERS = [k for k in ref.NAMES if k not in ('XG', 'YG')]

# (west, side that is a pole, cell size)
POLES = [(lon0, s, size) for size in (1.3, .01) for lon0 in (-35., 178.) for s in 'NWSEnwse']


def setting(side, na, nb, along, lon0=-35., lat0=20., size=1.3):
    boxa, boxb, (ni, nj) = tiles.neighbours(side, na, nb, along)
    XG, YG = tiles.polar(ni, nj, lat0, lon0, size) if isinstance(lat0, str) else ref.warped(ni, nj, lon0, lat0, size)
    return boxa, boxb, XG, YG


def verify(ch, got, A, XG, YG, boxa, side):
    """got: tile A (fields A, part boxa of the grid XG, YG) with fringe added."""
    ch.check(isinstance(got, tuple) and len(got) == 3, 'addfringe returned {}', type(got))
    ch.check((got[0], got[1]) == (tiles.SIDES[side], tiles.SIDES[tiles.OPPOSITE[side]]),
             'edges {} and {} reported for tile b on side {}', got[0], got[1], side)
    grid = got[2]
    ch.check(set(grid) == set(ref.NAMES), 'fields {}', sorted(grid))
    F = ref.fill(ref.xyz(XG, YG), 1, 1)
    want, tol = ref.fields(F)
    c, g = ref.positions(F)
    want['XC'], want['YC'] = ref.lonlat(c)
    if np.all(XG >= 0):
        want['XC'] = want['XC'] % 360
    joint = {'E': boxa[1], 'W': boxa[0], 'N': boxa[3], 'S': boxa[2]}[side]
    left = False
    for k in ref.NAMES:
        v, a = grid[k], A[k]
        ch.check(np.shape(v) == a.shape, '{} has shape {}, not {}', k, np.shape(v), a.shape)
        kept = a != 0
        ch.check(v[kept].tobytes() == a[kept].tobytes(), '{}: terms of tile A changed', k)
        if k in ('XG', 'YG'):
            ch.check(np.all(v[~kept] == 0), '{}: corner points moved', k)
            continue
        w = tiles.part(want[k], k, boxa)
        t = 1e-6 if k in ('XC', 'YC') else tiles.part(tol[k], k, boxa)
        m = tiles.part(tiles.joint_mask(k, want[k].shape, [joint] if side in 'EW' else [],
                                        [joint] if side in 'NS' else []), k, boxa)
        # what lies beyond the other sides isn't known to addfringe
        si, sj = ref.STAG[k]
        lim = np.zeros(w.shape, bool)
        if k in tiles.ACROSS_X:
            lim[0, :] = lim[-1, :] = True
        if k in tiles.ACROSS_Y:
            lim[:, 0] = lim[:, -1] = True
        w = np.where(lim & ~m, 0., w)
        # ends of the joint: half of the cell, in the other direction, is unknown
        off = ~kept & ~(np.abs(v - w) <= np.where(lim & ~m, 0., t))
        zero = off & m & (v == 0)
        if np.any(off & ~zero):
            i = tuple(int(n) for n in np.argwhere(off & ~zero)[0])
            ch.fail('{}{} was zero, is {!r} now, expected {!r}'.format(k, i, float(v[i]), float(w[i])))
        left = left or bool(np.any(zero))
    if left:
        ch.finding('fringe:' + side, 'terms across the {} edge are left zero'.format(side))


def run(ch, side, na, nb, along, A, B, XG, YG, boxa, boxb, strict=False, verbose=False):
    fa = tiles.save(ch.tmp('a.mitgrid'), A, boxa[1] - boxa[0], boxa[3] - boxa[2])
    fb = tiles.save(ch.tmp('b.mitgrid'), B, boxb[1] - boxb[0], boxb[3] - boxb[2])
    before = open(fa, 'rb').read(), open(fb, 'rb').read()
    got = ch.must('addfringe', sg.addfringe.addfringe, strict, verbose, tilea=fa, nia=boxa[1] - boxa[0],
                  nja=boxa[3] - boxa[2], tileb=fb, nib=boxb[1] - boxb[0], njb=boxb[3] - boxb[2])
    verify(ch, got, A, XG, YG, boxa, side)
    ch.check((open(fa, 'rb').read(), open(fb, 'rb').read()) == before, 'input files changed')
    return got


def content(XG, YG, box, how):
    """Fields of a tile of the grid."""
    x, y = tiles.cut(XG, YG, box)
    ni, nj = x.shape[0] - 1, x.shape[1] - 1
    if how == 'computed':
        return ref.full(x, y)
    if how == 'labels':
        g = ref.labels(ni, nj, 3e7)
    elif how == 'negative':
        g = {k: -v for k, v in ref.labels(ni, nj).items()}
    elif how == 'nan':
        g = {k: np.full(v.shape, np.nan) for k, v in ref.labels(ni, nj).items()}
    elif how == 'zero':
        g = {k: np.zeros(v.shape) for k, v in ref.labels(ni, nj).items()}
    elif how == 'tiny':
        g = {k: v * 1e-300 for k, v in ref.labels(ni, nj).items()}
    g['XG'], g['YG'] = x, y
    return g


def settings(sizes, alongs, grids, contents=('computed', 'labels', 'negative', 'nan', 'zero', 'tiny')):
    """Sides, sizes and contents."""
    def h(ch):
        side = ch.choose('tile b is', ['E', 'W', 'N', 'S'])
        na = ch.choose('cells of a across', sizes)
        nb = ch.choose('cells of b across', sizes)
        along = ch.choose('cells along', alongs)
        lon0, lat0, size = ch.choose('grid', grids)
        a = ch.choose('tile a', contents)
        b = ch.choose('tile b', ['computed', 'labels', 'nan'])
        ch.commit()
        boxa, boxb, XG, YG = setting(side, na, nb, along, lon0, lat0, size)
        A, B = content(XG, YG, boxa, a), content(XG, YG, boxb, b)
        run(ch, side, na, nb, along, A, B, XG, YG, boxa, boxb, b == 'labels', False)
        ch.state(side, na, nb, along, lon0, lat0, size, a, b)
    return h


def masks(na, along, depth):
    """Which terms of tile A are zero: each one of each field by itself, (pairs), lines and all."""
    def h(ch):
        side = ch.choose('tile b is', ['E', 'W', 'N', 'S'])
        boxa, boxb, XG, YG = setting(side, na, 2, along)
        A = content(XG, YG, boxa, 'labels')
        B = content(XG, YG, boxb, 'computed')
        k = ch.choose('field', OTHERS + ['all'])
        shape = (boxa[1] - boxa[0] + 1, boxa[3] - boxa[2] + 1)
        what = ch.choose('zero', ['term', 'row', 'column', 'all but a term'] + (['two terms'] if depth > 1 else []))
        names = OTHERS if k == 'all' else [k]
        if k != 'all':
            shape = A[k].shape
        i, j = ch.choose('i', shape[0]), ch.choose('j', shape[1])
        if what == 'row' and j or what == 'column' and i:
            raise engine.Skip()
        if what == 'two terms':
            i2, j2 = ch.choose('i2', shape[0]), ch.choose('j2', shape[1])
            if (i2, j2) <= (i, j):
                raise engine.Skip()
        neg = ch.flag('negative zero') if what == 'term' or depth > 1 else False
        ch.commit()
        for n in names:
            m = np.zeros(A[n].shape, bool)
            if i >= m.shape[0] or j >= m.shape[1]:
                continue
            if what == 'term' or what == 'all but a term':
                m[i, j] = True
            elif what == 'row':
                m[i, :] = True
            elif what == 'column':
                m[:, j] = True
            else:
                m[i, j] = True
                if i2 < m.shape[0] and j2 < m.shape[1]:
                    m[i2, j2] = True
            if what == 'all but a term':
                m = ~m
            A[n][m] = -0. if neg else 0.
        run(ch, side, na, 2, along, A, B, XG, YG, boxa, boxb)
        ch.state(side, k, what, i, j, neg)
    return h


def refined(ch):
    """Tile A was made by refining: what it has is kept although it differs from
    what its corner points alone give."""
    side = ch.choose('tile b is', ['E', 'W', 'N', 'S'])
    na, nb, along = ch.choose('cells', [(1, 1, 1), (2, 1, 1), (1, 2, 2)])
    s = ch.choose('refinement', [(2, 2), (3, 1), (1, 2)])
    verbose = ch.flag('verbose')
    ch.commit()
    boxa, boxb, XG, YG = setting(side, na, nb, along)
    F = ref.fill(ref.xyz(XG, YG), *s)
    X, Y = ref.lonlat(F[::2, ::2])
    boxa, boxb = [(b[0] * s[0], b[1] * s[0], b[2] * s[1], b[3] * s[1]) for b in (boxa, boxb)]
    A, B = content(X, Y, boxa, 'computed'), content(X, Y, boxb, 'computed')
    f = tiles.cut(XG, YG, setting(side, na, nb, along)[0])
    A.update({k: v for k, v in ref.full(*f, *s).items() if k not in ('XG', 'YG')})
    run(ch, side, na, nb, along, A, B, X, Y, boxa, boxb, True, verbose)
    ch.state(side, na, nb, along, s)


def apart(ch):
    """No common edge: refused, and nothing written."""
    di = ch.choose('cells apart', [1, 2])
    side = ch.choose('tile b is', ['E', 'W', 'N', 'S'])
    shift = ch.choose('shifted along', [0, 1])
    ch.commit()
    XG, YG = ref.warped(6, 6)
    boxa = (2, 4, 2, 4)
    boxb = {'E': (4 + di, 6, 2, 4), 'W': (0, 2 - di, 2, 4), 'N': (2, 4, 4 + di, 6), 'S': (2, 4, 0, 2 - di)}[side]
    if boxb[0] >= boxb[1] or boxb[2] >= boxb[3]:
        raise engine.Skip()
    if shift:
        boxb = (boxb[0], boxb[1], boxb[2] + 1, boxb[3] + 1) if side in 'EW' else \
            (boxb[0] + 1, boxb[1] + 1, boxb[2], boxb[3])
    A, B = content(XG, YG, boxa, 'computed'), content(XG, YG, boxb, 'computed')
    fa = tiles.save(ch.tmp('a'), A, 2, 2)
    fb = tiles.save(ch.tmp('b'), B, boxb[1] - boxb[0], boxb[3] - boxb[2])
    kw = dict(tilea=fa, nia=2, nja=2, tileb=fb, nib=boxb[1] - boxb[0], njb=boxb[3] - boxb[2])
    ch.must_raise('addfringe', (ValueError,), sg.addfringe.addfringe, **kw)
    ch.must_raise('stitch', (ValueError,), sg.stitch.stitch, **kw)
    ch.state(di, side, shift)


def scenarios(tier):
    if tier == 'thorough':
        return [('settings', settings([1, 2, 3], [1, 2, 3], [(-35., 20., 1.3), (300., -60., 0.01), (60., 0., 4.)])),
                ('poles', settings([1, 2, 3], [1, 2, 3], POLES)),
                ('large tiles', settings([5, 12], [4, 7, 14], [(-35., 20., .3)], ['labels', 'zero'])),
                ('long tiles', settings([1, 140], [1], [(-35., 20., .05)], ['labels', 'zero'])),
                ('long tiles', settings([1], [140], [(-35., 20., .05)], ['labels', 'zero'])),
                ('masks', masks(2, 2, 2)), ('refined', refined), ('apart', apart)]
    return [('settings', settings([1, 2], [1, 3], [(-35., 20., 1.3)])),
            ('other grid', settings([2], [2], [(300., -60., 0.01), (20., 35., 4e-6)])),
            ('poles', settings([1, 2], [1, 2], POLES[::3], ['computed', 'zero'])),
            ('large tiles', settings([2, 9], [10], [(-35., 20., .3)], ['labels', 'zero'])),
            ('large tiles', settings([5], [4, 7], [(-35., 20., .3)], ['zero'])),
            ('long tiles', settings([1, 140], [1], [(-35., 20., .05)], ['labels', 'zero'])),
            ('long tiles', settings([1], [140], [(-35., 20., .05)], ['labels', 'zero'])),
            ('masks', masks(2, 2, 1)), ('refined', refined), ('apart', apart)]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P12', 'model_checking', scenarios,
        'all sides, tile sizes and contents of both tiles; every single term, row, column and complement '
        'of a term of every field of tile A zero', [],
        {'quick': 'tiles up to 2 x 3; larger ones up to 9 x 10', 'thorough': 'tiles up to 3 x 3, pairs of zero terms; larger tiles up to 12 x 14'}))
