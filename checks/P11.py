"""Common edges: found if and only if there is one, for every placement of two tiles."""
import sys

import numpy as np

from mc import engine, ref, sg, tiles

GEOD = sg.GEOD


def match(ch, a, b):
    return ch.call(sg.matchedges.matchedges, a[0].copy(), a[1].copy(), b[0].copy(), b[1].copy(), GEOD)


def verify(ch, o, a, b, side):
    """The result of a match with b on that side of a."""
    ch.check(o.ok and len(o.value) == 7, 'tile b is {} of tile a, but matching {}', side, o)
    ae, asl, be, bsl, ex, ey, join = o.value
    opp = tiles.OPPOSITE[side]
    ch.check((ae, be) == (tiles.SIDES[side], tiles.SIDES[opp]), 'edges {} and {} reported, not {} and {}',
             ae, be, tiles.SIDES[side], tiles.SIDES[opp])
    for n in (0, 1):
        ch.check(np.array_equal(a[n][asl], tiles.edge(a[n], side)), 'slice of tile a is not its {} edge', side)
        ch.check(np.array_equal(b[n][bsl], tiles.edge(b[n], opp)), 'slice of tile b is not its {} edge', opp)
    # half way into b's first row of cells
    A, B = [np.stack([tiles.edge(a[0], side), tiles.edge(a[1], side)]),
            np.stack([tiles.beyond(b[0], opp), tiles.beyond(b[1], opp)])]
    P = np.stack([ref.xyz(*A), ref.xyz(*B)])
    if side in 'EW':
        if side == 'W':
            P = P[::-1]
        mid = ref.fill(P, 1, 1)[1]
    else:
        P = P.swapaxes(0, 1)
        if side == 'S':
            P = P[:, ::-1]
        mid = ref.fill(P, 1, 1)[:, 1]
    ch.check(np.shape(ex) == np.shape(ey) == mid.shape[:1], 'boundary vector has {} points', np.shape(ex))
    d = ref.posdiff(ex, ey, mid)
    ch.check(d < ref.POS_TOL, 'boundary vector is off by {:.3g} degrees', np.degrees(d))
    # and goes just outside of tile a's half cells
    cg = np.zeros((2 * a[0].shape[0] + 1, 2 * a[0].shape[1] + 1))
    cg[join] = ex
    want = np.zeros_like(cg)
    tiles.edge(want, side)[1:-1] = ex
    ch.check(np.array_equal(cg, want), 'boundary vector goes to the wrong place')


def common(boxa, boxb):
    """On which side of a is b, sharing a whole edge?  None if nowhere."""
    ai0, ai1, aj0, aj1 = boxa
    bi0, bi1, bj0, bj1 = boxb
    if (aj0, aj1) == (bj0, bj1):
        if ai1 == bi0:
            return 'E'
        if ai0 == bi1:
            return 'W'
    if (ai0, ai1) == (bi0, bi1):
        if aj1 == bj0:
            return 'N'
        if aj0 == bj1:
            return 'S'
    return None


def lattice(n, sizes, grids):
    """Any two tiles of one grid: adjacent, overlapping, nested, apart, touching at corners."""
    def run(ch):
        boxes = [(i, i + a, j, j + b) for i in range(n) for j in range(n) for a, b in sizes
                 if i + a <= n and j + b <= n]
        boxa = ch.choose('tile a (i0,i1,j0,j1)', [b for b in boxes if max(abs(b[0] - n // 2), abs(b[2] - n // 2)) <= 1])
        boxb = ch.choose('tile b', boxes)
        lon0, lat0, size = ch.choose('grid', grids)
        conv = ch.choose('longitudes of tile b', ['same', '+360'])
        ch.commit()
        XG, YG = ref.warped(n, n, lon0, lat0, size)
        a, b = tiles.cut(XG, YG, boxa), tiles.cut(XG, YG, boxb)
        if conv == '+360':
            b = (b[0] + 360., b[1])
        side = common(boxa, boxb)
        o = match(ch, a, b)
        ch.state(boxa, boxb, lon0, size, conv, side)
        if side is None:
            ch.check(o.raised(ValueError), 'no common edge, but matching {}', o)
        else:
            verify(ch, o, a, b, side)
    return run


def ladder(ns):
    """Long edges: found if all of their points agree, and not if any one of them doesn't."""
    def run(ch):
        side = ch.choose('tile b is', ['E', 'W', 'N', 'S'])
        along = ch.choose('cells along', ns)
        na = ch.choose('cells of a across', [1, 5])
        nb = ch.choose('cells of b across', [2, 7])
        point = ch.choose('point displaced', [None] + sorted(
            set(range(0, along + 1, max(1, along // 8))) | {1, along // 2, along - 1, along}))
        ch.commit()
        boxa, boxb, (ni, nj) = tiles.neighbours(side, na, nb, along)
        XG, YG = ref.warped(ni, nj, -35., -20., .2)
        a, b = tiles.cut(XG, YG, boxa), tiles.cut(XG, YG, boxb)
        if point is not None:
            tiles.edge(b[1], tiles.OPPOSITE[side])[point] += .002
        o = match(ch, a, b)
        ch.state(side, na, nb, along, point)
        if point is None:
            verify(ch, o, a, b, side)
        else:
            ch.check(o.raised(ValueError), 'point {} of {} is off, but matching {}', point, along, o)
    return run


def turned(ch):
    """Tiles that share an edge, but aren't oriented alike, don't match."""
    side = ch.choose('tile b is', ['E', 'W', 'N', 'S'])
    n = ch.choose('cells', [1, 2, 3])
    m = ch.choose('cells of b across', [1, 2, 3])
    ka = ch.choose('quarter turns of a', [0, 1, 2, 3])
    kb = ch.choose('quarter turns of b', [0, 1, 2, 3])
    flip = ch.choose('mirrored', ['none', 'b upside down', 'b left to right'])
    ch.commit()
    boxa, boxb, (ni, nj) = tiles.neighbours(side, n, m, n)
    XG, YG = ref.warped(ni, nj)
    a = ref.rotate(*tiles.cut(XG, YG, boxa), ka)
    b = ref.rotate(*tiles.cut(XG, YG, boxb), kb)
    if flip == 'b upside down':
        b = tuple(v[:, ::-1].copy() for v in b)
    elif flip == 'b left to right':
        b = tuple(v[::-1].copy() for v in b)
    # do they share an edge of opposite kind, point by point?
    want = [s for s in 'NSEW' if np.shape(tiles.edge(a[0], s)) == np.shape(tiles.edge(b[0], tiles.OPPOSITE[s]))
            and np.array_equal(tiles.edge(a[0], s), tiles.edge(b[0], tiles.OPPOSITE[s]))
            and np.array_equal(tiles.edge(a[1], s), tiles.edge(b[1], tiles.OPPOSITE[s]))]
    o = match(ch, a, b)
    ch.state(side, n, m, ka, kb, flip, bool(want))
    if want:
        verify(ch, o, a, b, want[0])
    else:
        ch.check(o.raised(ValueError), 'not oriented alike, but matching {}', o)


def poles(top, sizes):
    """Both tiles touch a pole along one side, or one of them does, or (rings) they have two edges in common."""
    def run(ch):
        side = ch.choose('tile b is', ['E', 'W', 'N', 'S'])
        na = ch.choose('cells of a across', range(1, top + 1))
        nb = ch.choose('cells of b across', range(1, top + 1))
        along = ch.choose('cells along', range(1, top + 1))
        pole = ch.choose('pole on side', ['N', 'W', 'S', 'E', 'n', 'w', 's', 'e'])
        at = ch.choose('the pole', ['is an edge', 'is half a step off', 'is many steps off'])
        size = ch.choose('cell size', sizes)
        lon0 = ch.choose('west', [-35., 178.])
        how = ch.choose('tiles', ['adjacent', 'ring', 'a point of the edge off', 'b turned by 180 degrees', 'b mirrored'])
        ch.commit()
        boxa, boxb, (ni, nj) = tiles.neighbours(side, na, nb, along)
        XG, YG = tiles.polar(ni, nj, pole, lon0, size)
        if at != 'is an edge':
            YG = YG - (np.sign(YG) * size * (.5 if 'half' in at else 20))
        round_ = pole.upper() in ('NS' if side in 'EW' else 'EW')       # the joint is along a meridian
        if how == 'ring':
            ax = 0 if side in 'EW' else 1
            if not round_ or na + nb < 3:
                raise engine.Skip()
            X = np.moveaxis(XG, ax, 0)
            X[...] = lon0 + (X - X[0]) / (X[-1] - X[0]) * 360
        a, b = tiles.cut(XG, YG, boxa), tiles.cut(XG, YG, boxb)
        allowed = [side] + ([tiles.OPPOSITE[side]] if how == 'ring' else [])
        if how == 'a point of the edge off':
            v = tiles.edge(b[1], tiles.OPPOSITE[side])
            v[along // 2] -= np.sign(v[along // 2]) * size * .1
            if at == 'is an edge' and not round_ and tiles.edge(np.abs(a[1]), side)[0] == 90:
                raise engine.Skip()
            allowed = []
        elif how == 'b turned by 180 degrees':
            b = ref.rotate(*b, 2)
        elif how == 'b mirrored':
            b = tuple(np.ascontiguousarray(v[::-1] if side in 'EW' else v[:, ::-1]) for v in b)
        if how.startswith('b '):
            if at == 'is an edge':          # (points can be edges as well)
                raise engine.Skip()
            allowed = []
        o = match(ch, a, b)
        ch.state(side, na, nb, along, pole, at, size, lon0, how)
        if allowed:
            s = side
            if len(allowed) > 1 and o.ok and o.value[0] == tiles.SIDES[allowed[1]]:
                s = allowed[1]
            verify(ch, o, a, b, s)
        else:
            ch.check(o.raised(ValueError), '{}, but matching {}', how, o)
    return run


def tolerance(ns):
    """Points of the edge displaced by less or more than the tolerance, one by one."""
    def run(ch):
        side = ch.choose('tile b is', ['E', 'W', 'N', 'S'])
        na = ch.choose('cells of a across', [1, 2])
        nb = ch.choose('cells of b across', [1, 3])
        along = ch.choose('cells along', ns)
        point = ch.choose('point', range(along + 1))
        whose = ch.choose('of tile', ['a', 'b'])
        size = ch.choose('cell size', [0.01, 1.5])
        lon0 = ch.choose('west', [-35., 178.])
        rel = ch.choose('displaced by (of diagonal)', [0., 3e-7, 9.5e-7, 1.05e-6, 3e-6, 3e-4, .1])
        direction = ch.choose('towards', ['x', '-x', 'y', '-y'])
        ch.commit()
        boxa, boxb, (ni, nj) = tiles.neighbours(side, na, nb, along)
        XG, YG = ref.warped(ni, nj, lon0, 20., size)
        a, b = tiles.cut(XG, YG, boxa), tiles.cut(XG, YG, boxb)
        diag = 0.
        for X, Y in (a, b):
            P = ref.xyz(X, Y)
            diag += (ref.angle(P[0, 0], P[-1, -1]) + ref.angle(P[-1, 0], P[0, -1])) / 4
        d = np.degrees(rel * diag)
        t, s = (a, side) if whose == 'a' else (b, tiles.OPPOSITE[side])
        if direction.endswith('x'):
            v = tiles.edge(t[0], s)
            v[point] += (-d if direction == '-x' else d) / np.cos(np.radians(tiles.edge(t[1], s)[point]))
        else:
            tiles.edge(t[1], s)[point] += -d if direction == '-y' else d
        o = match(ch, a, b)
        ch.state(side, na, nb, along, point, whose, size, lon0, rel, direction)
        if rel < 1e-6:
            verify(ch, o, a, b, side)
        else:
            ch.check(o.raised(ValueError), 'point {} is {:.1e} of the diagonal away, but matching {}', point, rel, o)
    return run


def counts(ch):
    """Tiles that meet along a line, with different numbers of points on it."""
    side = ch.choose('tile b is', ['E', 'W', 'N', 'S'])
    along = ch.choose('cells along', [1, 2, 3, 4])
    stepa = ch.choose('tile a takes every', [1, 2, 3, 4])
    stepb = ch.choose('tile b takes every', [1, 2, 3, 4])
    na = ch.choose('cells of a across', [1, 2])
    nb = ch.choose('cells of b across', [1, 2])
    ch.commit()
    if along % stepa or along % stepb:
        raise engine.Skip()
    boxa, boxb, (ni, nj) = tiles.neighbours(side, na, nb, along)
    XG, YG = ref.warped(ni, nj)
    a, b = tiles.cut(XG, YG, boxa), tiles.cut(XG, YG, boxb)

    def thin(t, k):
        return tuple((v[:, ::k] if side in 'EW' else v[::k]).copy() for v in t)
    a, b = thin(a, stepa), thin(b, stepb)
    o = match(ch, a, b)
    ch.state(side, along, stepa, stepb, na, nb)
    if stepa == stepb:
        verify(ch, o, a, b, side)
    else:
        ch.check(o.raised(ValueError), 'edges have different numbers of points, but matching {}', o)


def scenarios(tier):
    if tier == 'thorough':
        return [('placements', lattice(5, [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 3), (1, 3)],
                                       [(-35., 20., 1.3), (175., -60., 1.3), (10., 0., 0.01), (-3., 60., 3.)])),
                ('orientations', turned), ('tolerance', tolerance([1, 2, 3])), ('long edges', ladder(list(range(4, 100, 5)) + [130, 290])), ('counts', counts),
                ('poles', poles(3, [1.3, .01, 4.]))]
    return [('placements', lattice(4, [(1, 1), (2, 1), (1, 2), (2, 2)],
                                   [(-35., 20., 1.3), (175., -60., 1.3), (10., 0., 0.01), (10., 35., 4e-6)])),
            ('orientations', turned), ('tolerance', tolerance([1, 3])), ('long edges', ladder([4, 5, 7, 11, 18, 29, 47, 130])), ('counts', counts),
            ('poles', poles(2, [1.3]))]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P11', 'model_checking', scenarios,
        'all placements of two tiles on a lattice; all turns and mirrorings of adjacent tiles; every '
        'edge point displaced below and above the documented tolerance; long edges with any of up to 12 points displaced; all thinnings of the edge; tiles '
        'that touch a pole along any side, and rings', ['of two edges in common (in a ring), either may be reported'],
        {'quick': '4 x 4 lattice, tiles up to 2 x 2; edges up to 130 cells', 'thorough': '5 x 5 lattice, tiles up to 3 x 3; edges up to 290 cells'}))
