"""Stitching gives the union of the tiles, in whatever order a mosaic is put together."""
import sys

import numpy as np

from checks.P12 import POLES, content, setting
from mc import engine, ref, sg, tiles


def stitch(ch, A, B, boxa, boxb, strict=False, verbose=False, names=('a', 'b')):
    na, nb = [(b[1] - b[0], b[3] - b[2]) for b in (boxa, boxb)]
    fa, fb = tiles.save(ch.tmp(names[0]), A, *na), tiles.save(ch.tmp(names[1]), B, *nb)
    before = open(fa, 'rb').read(), open(fb, 'rb').read()
    got = ch.must('stitch', sg.stitch.stitch, strict, verbose, tilea=fa, nia=na[0], nja=na[1],
                  tileb=fb, nib=nb[0], njb=nb[1])
    ch.check((open(fa, 'rb').read(), open(fb, 'rb').read()) == before, 'input files changed')
    ch.check(isinstance(got, tuple) and len(got) == 3, 'stitch returned {}', type(got))
    box = (min(boxa[0], boxb[0]), max(boxa[1], boxb[1]), min(boxa[2], boxb[2]), max(boxa[3], boxb[3]))
    ch.check(tuple(got[1:]) == (box[1] - box[0], box[3] - box[2]), 'counts {} for {}', got[1:], box)
    return got[0], box


def data(sizes, alongs, contents=('labels', 'negative', 'tiny')):
    """Every term comes from the tile it belongs to; those on the joint from tile a."""
    def h(ch):
        side = ch.choose('tile b is', ['E', 'W', 'N', 'S'])
        na = ch.choose('cells of a across', sizes)
        nb = ch.choose('cells of b across', sizes)
        along = ch.choose('cells along', alongs)
        a = ch.choose('tile a', contents)
        b = ch.choose('tile b', ['labels', 'zero', 'nan', 'tiny'][:1 if len(contents) == 1 else 4])
        lon0 = ch.choose('west', [-35., 178.])
        gap = ch.choose('edges apart by (of diagonal)', [0., 3e-7])
        strict, verbose = ch.choose('strict, verbose', [(False, False), (True, True)])
        ch.commit()
        boxa, boxb, XG, YG = setting(side, na, nb, along, lon0, size=1.3 if along < 4 else .3)
        A, B = content(XG, YG, boxa, a), content(XG, YG, boxb, b)
        if gap:
            tiles.edge(B['YG'], tiles.OPPOSITE[side])[:] += gap * (1.3 if along < 4 else .3)
        if b != 'nan':
            for k in ref.NAMES:
                if k not in ('XG', 'YG'):
                    B[k] = B[k] * 2
        c, box = stitch(ch, A, B, boxa, boxb, strict, verbose)
        ch.check(set(c) == set(ref.NAMES), 'fields {}', sorted(c))
        for k in ref.NAMES:
            want = np.full((box[1] - box[0] + ref.STAG[k][0], box[3] - box[2] + ref.STAG[k][1]), -1.)
            for X, bx in ((B, boxb), (A, boxa)):
                tiles.part(want, k, bx)[...] = X[k]
            ch.check(np.shape(c[k]) == want.shape, '{} has shape {}, not {}', k, np.shape(c[k]), want.shape)
            if not ref.same(c[k], want):
                i = tuple(int(n) for n in np.argwhere(~((c[k] == want) | (np.isnan(c[k]) & np.isnan(want))))[0])
                ch.fail('{}{} = {!r}, expected {!r}'.format(k, i, float(c[k][i]), float(want[i])))
        ch.state(side, na, nb, along, a, b, lon0, strict)
    return h


def geometry(sizes, alongs, grids):
    """Tiles cut from one grid: everything within them agrees with that grid."""
    def h(ch):
        side = ch.choose('tile b is', ['E', 'W', 'N', 'S'])
        na = ch.choose('cells of a across', sizes)
        nb = ch.choose('cells of b across', sizes)
        along = ch.choose('cells along', alongs)
        lon0, lat0, size = ch.choose('grid', grids)
        ch.commit()
        boxa, boxb, XG, YG = setting(side, na, nb, along, lon0, lat0, size)
        A, B = content(XG, YG, boxa, 'computed'), content(XG, YG, boxb, 'computed')
        c, box = stitch(ch, A, B, boxa, boxb)
        j = {'E': boxa[1], 'W': boxa[0], 'N': boxa[3], 'S': boxa[2]}[side]
        tiles.check_union(ch, c, XG, YG, [j] if side in 'EW' else [], [j] if side in 'NS' else [],
                          'joint:' + side, 'b on side ' + side)
        ch.state(side, na, nb, along, lon0, lat0, size)
    return h


def side_of(a, b):
    from checks.P11 import common
    return common(a, b)


def mosaic(layouts):
    """All ways of joining the tiles of a mosaic, two at a time, either as tile a."""
    def h(ch):
        xs, ys = ch.choose('tile sizes', layouts)
        xb, yb = np.concatenate([[0], np.cumsum(xs)]), np.concatenate([[0], np.cumsum(ys)])
        XG, YG = ref.warped(int(xb[-1]), int(yb[-1]))
        parts = []
        for i in range(len(xs)):
            for j in range(len(ys)):
                box = (int(xb[i]), int(xb[i + 1]), int(yb[j]), int(yb[j + 1]))
                parts.append((box, content(XG, YG, box, 'computed')))
        # the order first, from the boxes alone ...
        todo = [p[0] for p in parts]
        order = []
        while len(todo) > 1:
            pairs = [(a, b) for a in todo for b in todo if a is not b and side_of(a, b)]
            a, b = ch.choose('join (a, b)', pairs)
            order.append((a, b))
            todo = [t for t in todo if t not in (a, b)] + [
                (min(a[0], b[0]), max(a[1], b[1]), min(a[2], b[2]), max(a[3], b[3]))]
        ch.commit()
        # ... then the real thing
        have = dict(parts)
        for n, (a, b) in enumerate(order):
            c, box = stitch(ch, have.pop(a), have.pop(b), a, b, names=('a{}'.format(n), 'b{}'.format(n)))
            x, y = tiles.cut(XG, YG, box)
            tiles.check_union(ch, c, x, y, [int(v) - box[0] for v in xb if box[0] < v < box[1]],
                              [int(v) - box[2] for v in yb if box[2] < v < box[3]], 'joint:mosaic',
                              'after joining {}'.format(order[:n + 1]))
            have[box] = c
            ch.state(xs, ys, sorted(have))
    return h


def scenarios(tier):
    if tier == 'thorough':
        return [('data', data([1, 2, 3], [1, 2, 3])),
                ('geometry', geometry([1, 2, 3, 4], [1, 2, 3], [(-35., 20., 1.3), (178., -60., 0.01), (60., 0., 4.), (178., 30., 4e-6)])),
                ('poles', geometry([1, 2, 3], [1, 2, 3], POLES)),
                ('large tiles', data([1, 6, 13], [4, 9, 16], ['labels'])),
                ('large tiles', geometry([5, 12], [4, 8, 13], [(-35., 20., .3)])),
                ('long tiles', geometry([1, 140], [1], [(-35., 20., .05)])), ('long tiles', geometry([1, 2], [140], [(-35., 20., .05)])),
                ('mosaics', mosaic([((1, 1), (1, 1)), ((2, 1), (1, 2)), ((1, 1, 1), (1,)), ((1,), (1, 2, 1)),
                                    ((1, 1, 1), (1, 1)), ((1, 2, 1, 1), (1,)), ((1,), (1, 1, 2, 1))]))]
    return [('data', data([1, 2], [1, 3])),
            ('geometry', geometry([1, 2, 3], [1, 2], [(-35., 20., 1.3), (178., -60., 0.01), (178., 30., 4e-6)])),
            ('poles', geometry([1, 2], [1, 2], POLES[:16])),
            ('large tiles', data([1, 11], [4, 12], ['labels'])),
            ('large tiles', geometry([5, 9], [4, 10], [(-35., 20., .3)])),
            ('long tiles', geometry([1, 140], [1], [(-35., 20., .05)])), ('long tiles', geometry([1, 2], [140], [(-35., 20., .05)])),
            ('mosaics', mosaic([((1, 1), (1, 1)), ((2, 1), (1, 2)), ((1, 2, 1), (1,)), ((1,), (1, 2, 1))]))]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P13', 'model_checking', scenarios,
        'all sides, tile sizes and contents of two tiles; all orders of joining the tiles of a mosaic, '
        'with either tile as a', ['terms whose line or cell crosses a joint may be left zero (known finding)'],
        {'quick': 'tiles up to 2 x 3, larger ones up to 11 x 12; mosaics of up to 4 tiles',
         'thorough': 'tiles up to 4 x 3, larger ones up to 13 x 16; mosaics of up to 6 tiles'}))
