"""It makes no difference how the arrays given are laid out in memory, and by which type their numbers are stored."""
import os
import shutil
import sys

import numpy as np

from mc import engine, obcs, ref, sg
from simplegrid import computegrid, util


class Sub(np.ndarray):
    pass


def view(v):
    b = np.full(tuple(2 * n + 1 for n in v.shape), -7., dtype=v.dtype)
    s = tuple(slice(1, None, 2) for _ in v.shape)
    b[s] = v
    return b[s]


def backwards(v):
    s = tuple(slice(None, None, -1) for _ in v.shape)
    return v[s].copy()[s]


def readonly(v):
    v = v.copy()
    v.flags.writeable = False
    return v


def unaligned(v):
    b = np.zeros(v.nbytes + 1, np.uint8)
    out = b[1:].view(v.dtype).reshape(v.shape) if v.size else v.copy()
    out[...] = v
    return out


def mapped(v, path):
    if not v.size:
        return v.copy()
    v.tofile(path)
    return np.memmap(path, v.dtype, 'r', shape=v.shape)


def middle(v):
    """(axes in another order)"""
    return np.moveaxis(np.ascontiguousarray(np.moveaxis(v, 0, -1)), -1, 0)


FORMS = {'C': np.ascontiguousarray, 'F': lambda v: v.copy(order='F'), 'every other': view, 'backwards': backwards, 'read only': readonly,
         'big endian': lambda v: v.astype('>f8'), 'unaligned': unaligned, 'subclass': lambda v: v.copy().view(Sub),
         'axes moved': middle, 'big endian F': lambda v: v.astype('>f8', order='F'), 'read only view': lambda v: readonly(view(v)),
         'extended': lambda v: v.astype(np.longdouble), 'mapped': mapped}
NUMBERS = {'single': lambda v: v.astype('f4'), 'single, big endian': lambda v: v.astype('>f4'), 'integers': lambda v: v.astype('i8'),
           'short integers': lambda v: v.astype('i4')}


def give(ch, v, how, k):
    f = dict(FORMS, **NUMBERS)[how]
    out = f(v, ch.tmp('m{}'.format(k))) if how == 'mapped' else f(v)
    assert out.shape == v.shape and np.array_equal(out, v), how
    return out


# -- operations: arrays they are given, and how.  All numbers are whole.

def corners(ni, nj):
    i, j = np.meshgrid(np.arange(ni + 1.), np.arange(nj + 1.), indexing='ij')
    return 10 + 3 * i + j, 20 + 2 * j - i * (ni > 1)


def centred(ni, nj):
    XG, YG = corners(ni, nj)
    x, y = np.zeros((2, 2 * ni + 3, 2 * nj + 3))
    x[1:-1:2, 1:-1:2], y[1:-1:2, 1:-1:2] = XG, YG
    return x, y, (1, 2 * ni + 1, 1, 2 * nj + 1)


def filled(ni, nj):
    x, y, box = centred(ni, nj)
    return tuple(computegrid.fill(x, y, *box, 1, 1, sg.GEOD)) + (box,)


def whole(ni, nj):
    """All fields, of whole numbers."""
    XG, YG = corners(ni, nj)
    g = {k: np.round(1e-6 * v) if k[0] in 'DR' else np.round(v) for k, v in ref.full(XG, YG).items()}
    g['XG'], g['YG'] = XG, YG
    return g


def op_regrid(ch, ni, nj):
    XG, YG = corners(ni, nj)
    return [XG, YG, np.zeros((ni, nj)), np.zeros((ni, nj))], lambda a, b, c, d: sg.regrid.regrid(
        mitgrid_matrices={'XG': a, 'YG': b, 'XC': c, 'YC': d}, lon1=XG[0, -1], lat1=YG[0, -1], lon2=XG[-1, 0], lat2=YG[-1, 0],
        lon_subscale=2, lat_subscale=1)


def op_turned(ch, ni, nj):
    XG, YG = ref.rotate(*corners(ni, nj), 1)
    P = corners(ni, nj)
    return [XG, YG, np.zeros((nj, ni))], lambda a, b, c: sg.regrid.regrid(
        mitgrid_matrices={'XG': a, 'YG': b, 'XC': c}, lon1=P[0][0, -1], lat1=P[1][0, -1], lon2=P[0][-1, 0], lat2=P[1][-1, 0],
        lon_subscale=1, lat_subscale=2)


def op_matchedges(ch, ni, nj):
    XG, YG = corners(2 * ni, nj)
    a, b = np.s_[:ni + 1], np.s_[ni:]
    return [XG[a], YG[a], XG[b], YG[b]], lambda *v: sg.matchedges.matchedges(*v, sg.GEOD)


def op_nearest(ch, ni, nj):
    return list(corners(ni, nj)), lambda a, b: util.nearest(13.2, 21.7, a, b, sg.GEOD)


def op_cart(ch, ni, nj):
    return list(corners(ni, nj)), lambda a, b: util.lonlat2cart(a, b, 10.)


def op_squad(ch, ni, nj):
    return [ref.xyz(*corners(ni, nj))], util.squad_uarea


def op_pquad(ch, ni, nj):
    return [ref.xyz(*corners(ni, nj))], util.pquad_uarea


def op_fill(ch, ni, nj):
    x, y, box = centred(ni, nj)
    return [x, y], lambda a, b: computegrid.fill(a, b, *box, 1, 1, sg.GEOD)


def op_edges(ch, ni, nj):
    x, y, box = filled(ni, nj)
    return [x, y], lambda a, b: computegrid.edges(a, b, *box, sg.GEOD)


def op_areas(ch, ni, nj):
    x, y, box = filled(ni, nj)
    e = computegrid.edges(x, y, *box, sg.GEOD)
    return [x[1:-1, 1:-1], y[1:-1, 1:-1], *e], lambda a, b, c, d: computegrid.areas(a, b, c, d, sg.GEOD)


def op_tomitgrid(ch, ni, nj):
    x, y, (a, b, c, d) = filled(ni, nj)
    return [x, y], lambda u, v: computegrid.tomitgrid(u, v, a - 1, a, b, b + 1, c - 1, c, d, d + 1, sg.GEOD)


def written(path):
    return {f: open(os.path.join(path, f), 'rb').read() for f in sorted(os.listdir(path))}


def op_write(ch, ni, nj):
    g = whole(ni, nj)
    names = list(g)
    d = ch.tmp('w')
    os.makedirs(d)
    return list(g.values()), lambda *v: (sg.gridio.write_mitgridfile(os.path.join(d, 'g'), dict(zip(names, v)), ni, nj), written(d))


def op_wrmds(ch, ni, nj):
    a = np.arange(1., 1 + 6 * ni * nj).reshape(3, 2 * ni, nj)
    d = ch.tmp('w')
    os.makedirs(d)
    return [a], lambda v: (sg.mds.wrmds(os.path.join(d, 'F'), v, 3, dataprec='float64', ndims=2, fields=['A', 'B', 'C']), written(d))


def op_getobcs(ch, ni, nj):
    case = obcs.Case(3, 3, ni, nj, times=(0, 10), depths=1)
    case.write_results(ch.tmp('run'), ('T', 'U'))
    res = ch.tmp('res')

    def f(*v):
        if os.path.exists(res):
            shutil.rmtree(res)
        n = len(case.parent)
        out = sg.getobcs.getobcs(parent_mitgrid_matrices=dict(zip(case.parent, v[:n])), regional_mitgrid_matrices=dict(zip(case.region, v[n:])),
                                 parent_resultsdir=ch.tmp('run'), resultsdir=res)
        return out, {k: b for k, b in written(res).items() if not k.endswith('.nc')}
    return list(case.parent.values()) + list(case.region.values()), f


OPS = {'regrid': op_regrid, 'regrid, turned': op_turned, 'matchedges': op_matchedges, 'nearest': op_nearest, 'lonlat2cart': op_cart,
       'squad_uarea': op_squad, 'pquad_uarea': op_pquad, 'fill': op_fill, 'edges': op_edges, 'areas': op_areas, 'tomitgrid': op_tomitgrid,
       'write_mitgridfile': op_write, 'wrmds': op_wrmds}
INTEGERS = ['integers', 'short integers']
WHOLE = ['regrid', 'regrid, turned', 'matchedges', 'nearest', 'write_mitgridfile', 'wrmds']


def alike(a, b, name=''):
    """'' or what differs."""
    if isinstance(a, (tuple, list)):
        if type(a) is not type(b) or len(a) != len(b):
            return '{}: {} and {}'.format(name, type(a), type(b))
        return next(filter(None, (alike(x, y, '{}[{}]'.format(name, k)) for k, (x, y) in enumerate(zip(a, b)))), '')
    if isinstance(a, dict):
        if list(a) != list(b):
            return '{}: {} and {}'.format(name, list(a), list(b))
        return next(filter(None, (alike(a[k], b[k], '{}[{}]'.format(name, k)) for k in a)), '')
    if isinstance(a, np.ndarray):
        if np.shape(a) != np.shape(b):
            return '{}: shapes {} and {}'.format(name, np.shape(a), np.shape(b))
        if not np.allclose(a, b, rtol=1e-6 if name.endswith(('[RAC]', '[RAW]', '[RAS]', '[RAZ]')) else 1e-8, atol=1e-14, equal_nan=True):
            return '{}: {} and {}'.format(name, a.tolist(), b.tolist())
        return ''
    if isinstance(a, (float, np.floating)):
        return '' if abs(a - b) <= 1e-8 * abs(a) else '{}: {!r} and {!r}'.format(name, a, b)
    return '' if a == b else '{}: {!r} and {!r}'.format(name, a, b)


def scen(ops, sizes, forms, pairs=False):
    def h(ch):
        op = ch.choose('operation', ops)
        ni, nj = ch.choose('size', sizes)
        arrays, f = dict(OPS, getobcs=op_getobcs)[op](ch, ni, nj)
        n = len(arrays)
        which = ch.choose('array', ['all'] + (list(range(n)) if n > 1 else []))
        how = ch.choose('form', forms)
        other = ch.choose('the others', forms) if pairs and which != 'all' else 'C'
        ch.commit()
        want = ch.must(op, f, *[give(ch, v, 'C', 'c{}'.format(k)) for k, v in enumerate(arrays)])
        args = [give(ch, v, how if which in ('all', k) else other, k) for k, v in enumerate(arrays)]
        before = [a.tobytes() for a in args]
        got = ch.must(op, f, *args)
        ch.check([a.tobytes() for a in args] == before, '{} changed what it was given', op)
        ch.check(not alike(want, got), '{}: {}', op, alike(want, got)[:400])
        ch.state(op, ni, nj, which, how, other)
    return h


def scenarios(tier):
    forms = [k for k in FORMS if k != 'C']
    if tier == 'thorough':
        sizes = [(a, b) for a in range(1, 4) for b in range(1, 4)]
        return [('forms', scen(list(OPS), sizes, list(FORMS), True)), ('numbers', scen(WHOLE, sizes, list(NUMBERS) + ['C', 'F'], True)),
                ('integers', scen(['lonlat2cart'], sizes, INTEGERS + ['C', 'F'], True)), ('getobcs', scen(['getobcs'], [(1, 1), (2, 3)], forms))]
    return [('forms', scen(list(OPS), [(1, 1), (3, 2)], forms)), ('numbers', scen(WHOLE, [(1, 1), (3, 2)], list(NUMBERS))), ('integers', scen(['lonlat2cart'], [(1, 1), (3, 2)], INTEGERS)),
            ('getobcs', scen(['getobcs'], [(2, 1)], ['F', 'every other', 'read only', 'big endian']))]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P32', 'model_checking', scenarios,
        'operations x sizes x arrays they are given, one or all of them x layout in memory, byte order, type of numbers',
        ['single precision and integers (lonlat2cart: integers): where coordinates and fields are only copied or passed on'],
        {'quick': '14 operations, 12 forms, 4 types', 'thorough': '9 sizes; one array of one form, the others of another'}))
